PROPERTY = 'C07'
NEEDS = 'preparing a pipeline on a connection that was closed'
BREAKS = 'a closed connection accepts a new pipeline statement instead of refusing it'
EDITS = [('conn.go', '''	if c.closed {
		return nil, errors.New("Connection already closed")
	}
	c.statement = newPipelineStmt(queries, c)
''', '''	c.statement = newPipelineStmt(queries, c)
''')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(nil)
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	conn.Close()
	if _, err := conn.PreparePipeline("A", "B"); err == nil {
		fail("closed connection accepts a statement")
	}
}
'''
