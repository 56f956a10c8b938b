PROPERTY = 'C09'
NEEDS = 'a handle kept after it was closed, used or closed again once the pool has handed its connection to somebody else'
BREAKS = 'the closed handle is the very object the next user got: closing it again gives that connection back while it is in use'
EDITS = [('driver.go', '''		newConn = &boltConn{}
		*newConn = *conn
''', '''		newConn = conn
'''), ('driver.go', '''			d.refLock.Unlock()
		}
		return conn, nil
''', '''			d.refLock.Unlock()
		}
		conn.closed = false
		return conn, nil
''')]
DEMO = r'''package main

import (
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("a")
			return
		}
		c.success(nil)
	})
	p, err := bolt.NewDriverPool(f.url("?timeout=3"), 1)
	if err != nil {
		fail("%v", err)
	}
	a, err := p.OpenPool()
	if err != nil {
		fail("%v", err)
	}
	a.Close()
	b, err := p.OpenPool()
	if err != nil {
		fail("%v", err)
	}
	a.Close()
	got := make(chan bool, 1)
	go func() {
		if _, err := p.OpenPool(); err == nil {
			got <- true
		}
	}()
	select {
	case <-got:
		fail("two holders of the only connection")
	case <-time.After(time.Second):
	}
	if _, err := b.ExecNeo("B", nil); err != nil {
		fail("the successor can't use its connection: %v", err)
	}
}
'''
