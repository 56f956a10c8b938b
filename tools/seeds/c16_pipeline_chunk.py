PROPERTY = 'C16'
NEEDS = 'a pipeline on a connection with a chunk size smaller than its requests'
BREAKS = 'the requests of a pipeline are chunked by the default size instead of the configured one'
EDITS = [('conn.go', "encoding.NewEncoder(runs[i], c.chunkSize).Encode(runMessage)", "encoding.NewEncoder(runs[i], math.MaxUint16).Encode(runMessage)")]
DEMO = r'''package main

import (
	"bytes"
	"io"
	"net"
	"sync"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	var mu sync.Mutex
	var got bytes.Buffer
	go func() {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		defer c.Close()
		if _, err := io.ReadFull(c, make([]byte, 20)); err != nil {
			return
		}
		c.Write([]byte{0, 0, 0, 1})
		n := 0
		for {
			var seen bytes.Buffer
			if _, _, err := dechunk(io.TeeReader(c, &seen)); err != nil {
				return
			}
			if n++; n > 1 {
				mu.Lock()
				got.Write(seen.Bytes())
				mu.Unlock()
			}
			c.Write(chunks(msg(sigSuccess, map[string]interface{}{}), whole))
		}
	}()
	conn, err := bolt.NewDriver().OpenNeo("bolt://" + ln.Addr().String() + "?timeout=5")
	if err != nil {
		fail("%v", err)
	}
	conn.SetChunkSize(16)
	p := map[string]interface{}{"a": int64(1), "b": int64(2), "c": "three", "d": []interface{}{int64(1), int64(2), int64(3), int64(4)}}
	if _, err := conn.ExecPipeline([]string{"RETURN 1", "RETURN 2"}, p, p); err != nil {
		fail("%v", err)
	}
	mu.Lock()
	defer mu.Unlock()
	b := got.Bytes()
	if len(b) < 60 {
		fail("only %d bytes", len(b))
	}
	for len(b) > 0 {
		n := int(b[0])<<8 | int(b[1])
		if n > 16 {
			fail("a chunk of %d bytes", n)
		}
		b = b[2+n:]
	}
}
'''
