PROPERTY = 'C17'
NEEDS = 'a chunk header whose two bytes arrive in different reads'
BREAKS = 'the header is read with a single read, so a message whose header is split over two reads is an error'
EDITS = [('encoding/decoder.go', 'if numRead, err := io.ReadFull(d.r, lengthBytes); numRead != 2 {', 'if numRead, err := io.ReadAtLeast(d.r, lengthBytes, 1+output.Len()%2); numRead != 2 {')]
DEMO = r'''package main

import (
	"bytes"
	"testing/iotest"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

func main() {
	for _, v := range []interface{}{int64(1), "ab", "abc"} {
		b, err := encoding.Marshal(v)
		if err != nil {
			fail("%v", err)
		}
		got, err := encoding.NewDecoder(iotest.OneByteReader(bytes.NewReader(b))).Decode()
		if err != nil || got != v {
			fail("%v read byte by byte gives %v, %v", v, got, err)
		}
	}
}
'''
