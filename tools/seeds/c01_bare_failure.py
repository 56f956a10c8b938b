PROPERTY = 'C01'
NEEDS = 'a failure whose metadata is empty while its PULL_ALL is already sent'
BREAKS = 'the acknowledgement loop stops at the first ignored message, the success stays for the next request'
EDITS = [('conn.go', '\t\tcase messages.IgnoredMessage:\n\t\t\tlog.Infof("Got ignored message when acking failure: %#v", resp)\n\t\t\tcontinue', '\t\tcase messages.IgnoredMessage:\n\t\t\tlog.Infof("Got ignored message when acking failure: %#v", resp)\n\t\t\tif len(failure.Metadata) == 0 {\n\t\t\t\treturn nil\n\t\t\t}\n\t\t\tcontinue')]
DEMO = r'''package main

import (

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		switch {
		case r.Sig == sigRun && r.Text == "BAD":
			c.failed = true
			c.send(msg(sigFailure, map[string]interface{}{}))
		case r.Sig == sigRun:
			c.columns(r.Text)
		default:
			c.success(map[string]interface{}{"type": "r"})
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=2"))
	if err != nil {
		fail("%v", err)
	}
	if _, err := conn.ExecNeo("BAD", nil); err == nil {
		fail("no error")
	}
	rows, err := conn.QueryNeo("GOOD", nil)
	if err != nil {
		fail("%v", err)
	}
	if c := rows.Columns(); len(c) != 1 || c[0] != "GOOD" {
		fail("columns of another query: %v", c)
	}
}
'''
