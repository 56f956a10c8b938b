PROPERTY = 'C10'
NEEDS = 'a pool open while the server cannot be reached, and a later open once it can'
BREAKS = 'the slot taken for the open that could not connect is never given back, so the pool shrinks'
EDITS = [('conn.go', '''		c.conn, err = c.createConn()
		if err != nil {
			// Return the connection back into the pool
			if e := c.Close(); e != nil {
				log.Errorf("An error occurred closing connection: %s", e)
			}
			return err
		}
''', '''		c.conn, err = c.createConn()
		if err != nil {
			return err
		}
''')]
DEMO = r'''package main

import (
	"time"
	"net"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	u := "bolt://" + ln.Addr().String() + "?timeout=3"
	ln.Close()
	p, err := bolt.NewDriverPool(u, 1)
	if err != nil {
		fail("%v", err)
	}
	for i := 0; i < 3; i++ {
		within(20*time.Second, "OpenPool", func() {
			if _, err := p.OpenPool(); err == nil {
				fail("opened")
			}
		})
	}
}
'''
