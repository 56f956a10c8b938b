PROPERTY = 'C12'
NEEDS = 'a pool closed while one of its connections was opened again in place of a lost one'
BREAKS = 'the connection that replaced another is not closed with the pool'
EDITS = [('driver.go', '''		if connectionNilOrClosed(conn) {
			if err := conn.initialize(); err != nil {
				return nil, err
			}
			d.refLock.Lock()
			d.connRefs[conn.conn] = struct{}{}
			d.refLock.Unlock()
		}
''', '''		if connectionNilOrClosed(conn) {
			if err := conn.initialize(); err != nil {
				return nil, err
			}
			d.refLock.Lock()
			if d.opened < d.maxConns {
				d.opened++
				d.connRefs[conn.conn] = struct{}{}
			}
			d.refLock.Unlock()
		}
'''), ('driver.go', '''	closed   bool
''', '''	closed   bool
	opened   int
''')]
DEMO = r'''package main

import (
	"net"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Text == "DIE" {
			c.Close()
			return
		}
		c.success(nil)
	})
	p, err := bolt.NewClosableDriverPool(f.url("?timeout=3"), 1)
	if err != nil {
		fail("%v", err)
	}
	conn, err := p.OpenPool()
	if err != nil {
		fail("%v", err)
	}
	conn.ExecNeo("DIE", nil)
	conn.Close()
	if conn, err = p.OpenPool(); err != nil {
		fail("%v", err)
	}
	p.Close()
	if _, err = conn.ExecNeo("A", nil); err == nil {
		fail("a query ran on a connection of a closed pool")
	}
	_ = net.Dial
	_ = time.Now
}
'''
