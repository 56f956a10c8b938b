PROPERTY = 'C06'
NEEDS = 'a commit that the server refuses while keeping the transaction open, then closing the pooled connection and reusing it'
BREAKS = 'the driver forgets the transaction before the server confirmed the commit, so closing does not roll it back and the next user runs inside it'
EDITS = [('tx.go', '''	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("COMMIT", nil)
	if err != nil {
		return errors.Wrap(err, "An error occurred committing transaction")
''', '''	successInt, pullInt, err := t.conn.sendRunPullAllConsumeSingle("COMMIT", nil)
	if err != nil {
		t.conn.transaction = nil
		return errors.Wrap(err, "An error occurred committing transaction")
''')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	intx := map[int]bool{}
	bad := false
	f := newFake(func(c *fconn, r freq) {
		if r.Sig != sigRun {
			c.success(nil)
			return
		}
		switch r.Text {
		case "BEGIN":
			intx[c.n] = true
		case "ROLLBACK":
			intx[c.n] = false
		case "COMMIT":
			c.failure("Neo.Transient")
			return
		default:
			bad = bad || intx[c.n]
		}
		c.columns("a")
	})
	p, err := bolt.NewDriverPool(f.url("?timeout=3"), 1)
	if err != nil {
		fail("%v", err)
	}
	conn, err := p.OpenPool()
	if err != nil {
		fail("%v", err)
	}
	tx, err := conn.Begin()
	if err != nil {
		fail("%v", err)
	}
	if err := tx.Commit(); err == nil {
		fail("commit succeeded")
	}
	conn.Close()
	conn, err = p.OpenPool()
	if err != nil {
		fail("%v", err)
	}
	if _, err := conn.ExecNeo("B", nil); err != nil {
		fail("%v", err)
	}
	if bad {
		fail("the next user runs inside the transaction of the previous one")
	}
}
'''
