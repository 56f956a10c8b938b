PROPERTY = 'C05'
NEEDS = 'a connection lost in the middle of a message, after its chunk header'
BREAKS = 'the error returned does not have driver.ErrBadConn as its innermost error, so callers (and database/sql) do not know the connection is gone'
EDITS = [('encoding/decoder.go', '''			return nil, errors.Wrap(err, "An error occurred reading from stream")
		} else if''', '''			return nil, errors.New("An error occurred reading from stream: %s", err)
		} else if''')]
DEMO = r'''package main

import (
	"database/sql/driver"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		c.Write([]byte{0, 20, 0xb1, 0x70})
		c.Close()
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	_, err = conn.ExecNeo("A", nil)
	e, ok := err.(*errors.Error)
	if err != driver.ErrBadConn && (!ok || e.InnerMost() != driver.ErrBadConn) {
		fail("innermost error is not ErrBadConn: %v", err)
	}
}
'''
