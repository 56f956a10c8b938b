PROPERTY = 'C05'
NEEDS = 'a request that is written in part before the write times out'
BREAKS = 'the connection counts as usable after half a message was written'
EDITS = [('conn.go', '\t\tc.connErr = errors.Wrap(err, "An error occurred writing to stream")\n\t\terr = driver.ErrBadConn', '\t\tif n == 0 {\n\t\t\tc.connErr = errors.Wrap(err, "An error occurred writing to stream")\n\t\t}\n\t\terr = driver.ErrBadConn')]
DEMO = r'''package main

import (
	"strings"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Text == "STOP" {
			time.Sleep(time.Minute)
		}
		c.success(nil)
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=1"))
	if err != nil {
		fail("%v", err)
	}
	if _, err := conn.ExecPipeline([]string{"STOP", "B"}, nil, map[string]interface{}{"p": strings.Repeat("x", 40000000)}); err == nil {
		fail("no error")
	}
	start := time.Now()
	if _, err := conn.ExecNeo("NEXT", nil); err == nil {
		fail("no error")
	}
	if d := time.Since(start); d > 600*time.Millisecond {
		fail("the connection was used again, for %v", d)
	}
}
'''
