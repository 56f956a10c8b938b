PROPERTY = 'C18'
NEEDS = 'a server that supports none of the offered versions and waits for the client to hang up'
BREAKS = 'the network connection stays open after the open failed'
EDITS = [('conn.go', '''	if err := c.handShake(); err != nil {
		c.connErr = err
		if e := c.Close(); e != nil {
			log.Errorf("An error occurred closing connection: %s", e)
		}
		return err
	}
''', '''	if err := c.handShake(); err != nil {
		c.connErr = err
		if c.poolDriver != nil {
			if e := c.Close(); e != nil {
				log.Errorf("An error occurred closing connection: %s", e)
			}
		}
		return err
	}
''')]
DEMO = r'''package main

import (
	"io"
	"net"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	gone := make(chan bool, 1)
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		var hs [20]byte
		io.ReadFull(c, hs[:])
		c.Write([]byte{0, 0, 0, 0})
		c.SetReadDeadline(time.Now().Add(2 * time.Second))
		_, err = c.Read(hs[:])
		ne, ok := err.(net.Error)
		gone <- !(ok && ne.Timeout())
	}()
	if _, err := bolt.NewDriver().OpenNeo("bolt://" + ln.Addr().String() + "?timeout=30"); err == nil {
		fail("opened")
	}
	if !<-gone {
		fail("the connection is still there")
	}
}
'''
