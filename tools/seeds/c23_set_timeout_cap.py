PROPERTY = 'C23'
NEEDS = 'a timeout longer than that of the connection string, set later, and a slow answer'
BREAKS = 'SetTimeout can only shorten the timeout, so a peer that answers in time is timed out'
EDITS = [('conn.go', '''func (c *boltConn) SetTimeout(timeout time.Duration) {
	c.timeout = timeout
''', '''func (c *boltConn) SetTimeout(timeout time.Duration) {
	if timeout < c.timeout {
		c.timeout = timeout
	}
''')]
DEMO = r'''package main

import (
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		time.Sleep(1500 * time.Millisecond)
		c.success(nil)
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=1"))
	if err != nil {
		fail("%v", err)
	}
	conn.SetTimeout(10 * time.Second)
	if _, err = conn.ExecNeo("A", nil); err != nil {
		fail("%v", err)
	}
}
'''
