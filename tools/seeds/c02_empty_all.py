PROPERTY = 'C02'
NEEDS = 'a result without records read with All or QueryNeoAll'
BREAKS = 'the metadata given at the end is that of the start of the result'
EDITS = [('rows.go', '\t\t\t\treturn output, metadata, nil\n', '\t\t\t\tif len(output) == 0 {\n\t\t\t\t\treturn output, r.metadata, nil\n\t\t\t\t}\n\t\t\t\treturn output, metadata, nil\n')]
DEMO = r'''package main

import (

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("a")
		} else {
			c.success(map[string]interface{}{"type": "r"})
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=2"))
	if err != nil {
		fail("%v", err)
	}
	rows, _, meta, err := conn.QueryNeoAll("Q", nil)
	if err != nil || len(rows) != 0 {
		fail("%v %v", rows, err)
	}
	if meta["type"] != "r" {
		fail("summary metadata is %v", meta)
	}
}
'''
