PROPERTY = 'C02'
NEEDS = 'a record without fields in the middle of a result read with All or QueryNeoAll'
BREAKS = 'reading all rows stops at a record without fields and reports the result as complete'
EDITS = [('rows.go', 'if err != nil || row == nil {', 'if err != nil || len(row) == 0 {')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns()
		} else {
			c.record()
			c.record()
			c.success(map[string]interface{}{"type": "r"})
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	data, _, sum, err := conn.QueryNeoAll("A", nil)
	if err != nil || len(data) != 2 || sum["type"] != "r" {
		fail("got %v %v %v", data, sum, err)
	}
}
'''
