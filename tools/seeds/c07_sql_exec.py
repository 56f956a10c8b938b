PROPERTY = 'C07'
NEEDS = 'Exec of the sql interface with arguments that are refused'
BREAKS = 'the refused call leaves a statement open on the connection'
EDITS = [('conn.go', '\tstmt := newStmt(query, c)\n\tdefer stmt.Close()\n\n\treturn stmt.Exec(args)', '\tstmt, err := c.prepare(query)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tres, err := stmt.Exec(args)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\treturn res, stmt.Close()')]
DEMO = r'''package main

import (
	"database/sql/driver"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(nil)
	conn, err := bolt.NewDriver().Open(f.url("?timeout=2"))
	if err != nil {
		fail("%v", err)
	}
	if _, err := conn.(driver.Execer).Exec("Q", []driver.Value{int64(1)}); err == nil {
		fail("no error")
	}
	if _, err := conn.(driver.Execer).Exec("Q", nil); err != nil {
		fail("the connection is not free: %v", err)
	}
}
'''
