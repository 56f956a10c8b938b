PROPERTY = 'C01'
NEEDS = 'a failure of a statement whose PULL_ALL was already sent with it, so that an IGNORED precedes the answer to the acknowledgement'
BREAKS = 'the IGNORED of the pending request is taken for the answer to the acknowledgement, and every later answer is off by one'
EDITS = [('conn.go', '''			log.Infof("Got ignored message when acking failure: %#v", resp)
			continue
''', '''			log.Infof("Got ignored message when acking failure: %#v", resp)
			if c.transaction == nil {
				continue
			}
			return nil
''')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		switch {
		case r.Sig == sigRun && r.Text == "BAD":
			c.failure("Neo.X")
		case r.Sig == sigRun:
			c.columns(r.Text)
		default:
			c.success(nil)
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=2"))
	if err != nil {
		fail("%v", err)
	}
	if _, err := conn.Begin(); err != nil {
		fail("%v", err)
	}
	if _, err := conn.ExecNeo("BAD", nil); err == nil {
		fail("no error")
	}
	_, m, _, err := conn.QueryNeoAll("B", nil)
	if err != nil {
		fail("next query: %v", err)
	}
	if c, _ := m["fields"].([]interface{}); len(c) != 1 || c[0] != "B" {
		fail("next query got %v", m)
	}
}
'''
