PROPERTY = 'C23'
NEEDS = 'a response that takes more than half, but not all, of the timeout after an earlier slow one'
BREAKS = 'a peer that answers in time is timed out, because the deadline of an earlier wait is kept'
EDITS = [('conn.go', '''	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
''', '''	// Setting a deadline is expensive, so keep one that still has some time left
	if now := time.Now(); c.readDeadline.Sub(now) < c.timeout/2 || c.readDeadline.Sub(now) > c.timeout {
		c.readDeadline = now.Add(c.timeout)
	}
	if err := c.conn.SetReadDeadline(c.readDeadline); err != nil {
'''), ('conn.go', '''	timeout       time.Duration
''', '''	timeout       time.Duration
	readDeadline  time.Time
''')]
DEMO = r'''package main

import (
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	d := []time.Duration{100, 1400, 3200}
	n := 0
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			time.Sleep(d[n] * time.Millisecond)
			n++
		}
		c.success(nil)
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=4"))
	if err != nil {
		fail("%v", err)
	}
	for range d {
		if _, err = conn.ExecNeo("A", nil); err != nil {
			fail("%v", err)
		}
	}
}
'''
