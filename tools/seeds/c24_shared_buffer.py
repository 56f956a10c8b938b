PROPERTY = 'C24'
NEEDS = 'two connections of one driver used at the same time by different goroutines'
BREAKS = 'messages of different connections are encoded into the same buffer'
EDITS = [('encoding/encoder.go', '''		buf:       &bytes.Buffer{},
''', '''		buf:       encodeBuffer,
'''), ('encoding/encoder.go', '''// Marshal is used to marshal an object to the bolt interface encoded bytes
''', '''// encodeBuffer is what messages are encoded into, kept for the next message
var encodeBuffer = &bytes.Buffer{}

// Marshal is used to marshal an object to the bolt interface encoded bytes
''')]
DEMO = r'''package main

import (
	"fmt"
	"sync"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("x")
			return
		}
		c.record(int64(1))
		c.success(nil)
	})
	d := bolt.NewDriver()
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			conn, err := d.OpenNeo(f.url("?timeout=3"))
			if err != nil {
				fail("%v", err)
			}
			defer conn.Close()
			for i := 0; i < 300; i++ {
				if _, err := conn.ExecNeo(fmt.Sprintf("RETURN %d", i), map[string]interface{}{"g": g, "i": i}); err != nil {
					fail("%v", err)
				}
			}
		}(g)
	}
	wg.Wait()
	if n := len(f.requests()); n != 8*601 {
		fail("%d requests", n)
	}
}
'''
