PROPERTY = 'C15'
NEEDS = 'a stream that ends between two chunks of a message, or between its last chunk and its end marker'
BREAKS = 'what arrived of a message is taken for the whole message when the stream ends at a chunk boundary'
EDITS = [('encoding/decoder.go', "		if numRead, err := io.ReadFull(d.r, lengthBytes); numRead != 2 {\n", "		if numRead, err := io.ReadFull(d.r, lengthBytes); numRead != 2 {\n			if err == io.EOF && output.Len() > 0 {\n				return output, nil\n			}\n")]
DEMO = r'''package main

import (
	"bytes"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

func main() {
	for _, v := range []interface{}{int64(1), "ab", []interface{}{int64(1), "x"}} {
		b, err := encoding.Marshal(v)
		if err != nil {
			fail("%v", err)
		}
		for n := 0; n < len(b); n++ {
			if got, err := encoding.NewDecoder(bytes.NewReader(b[:n])).Decode(); err == nil {
				fail("%d of %d bytes decode to %v", n, len(b), got)
			}
		}
	}
}
'''
