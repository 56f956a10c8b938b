PROPERTY = 'C11'
NEEDS = 'a pooled connection returned while rows of a query on it are still open'
BREAKS = 'the next user of the connection is refused, or gets rows of the query of the previous one'
EDITS = [('conn.go', '''	if c.statement != nil {
		closeErr = c.statement.Close()
	}

	if c.transaction''', '''	if c.statement != nil && c.poolDriver == nil {
		closeErr = c.statement.Close()
	}

	if c.transaction''')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("a")
			return
		}
		c.record("v")
		c.success(nil)
	})
	p, err := bolt.NewDriverPool(f.url("?timeout=3"), 1)
	if err != nil {
		fail("%v", err)
	}
	conn, err := p.OpenPool()
	if err != nil {
		fail("%v", err)
	}
	if _, err := conn.QueryNeo("A", nil); err != nil {
		fail("%v", err)
	}
	conn.Close()
	conn, err = p.OpenPool()
	if err != nil {
		fail("%v", err)
	}
	if _, err := conn.ExecNeo("B", nil); err != nil {
		fail("%v", err)
	}
}
'''
