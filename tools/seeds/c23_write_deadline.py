PROPERTY = 'C23'
NEEDS = 'a peer that stops reading while a request larger than the socket buffers is sent to it'
BREAKS = 'the write waits forever'
EDITS = [('conn.go', '''	if err := c.conn.SetWriteDeadline(time.Now().Add(c.timeout)); err != nil {
''', '''	if err := c.conn.SetReadDeadline(time.Now().Add(c.timeout)); err != nil {
''')]
DEMO = r'''package main

import (
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(nil)
	f.init = func(c *fconn, r freq) {
		c.success(nil)
		time.Sleep(time.Minute)
	}
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=2"))
	if err != nil {
		fail("%v", err)
	}
	within(20*time.Second, "ExecNeo", func() {
		_, err = conn.ExecNeo("A", map[string]interface{}{"x": strings.Repeat("x", 60000000)})
	})
	if err == nil {
		fail("no error")
	}
}
'''
