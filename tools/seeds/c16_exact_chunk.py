PROPERTY = 'C16'
NEEDS = 'a message for which a single value is longer than two chunks of the configured size'
BREAKS = 'what remains buffered over one chunk is announced with a header of the configured size but written whole'
EDITS = [('encoding/encoder.go', '''	for length >= int(e.chunkSize) {
		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
			return 0, errors.Wrap(err, "An error occured writing chunksize")
		}

		numWritten, err := e.w.Write(e.buf.Next(int(e.chunkSize)))
''', '''	for length >= int(e.chunkSize) {
		if err := binary.Write(e.w, binary.BigEndian, e.chunkSize); err != nil {
			return 0, errors.Wrap(err, "An error occured writing chunksize")
		}

		size := int(e.chunkSize)
		if length == size+1 {
			size = length
		}
		numWritten, err := e.w.Write(e.buf.Next(size))
''')]
DEMO = r'''package main

import (
	"bytes"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

func main() {
	for n := 1; n < 40; n++ {
		for size := 1; size < 40; size++ {
			v := bytes.Repeat([]byte("x"), n)
			var w bytes.Buffer
			if err := encoding.NewEncoder(&w, uint16(size)).Encode(string(v)); err != nil {
				fail("%v", err)
			}
			p, _, err := dechunk(&w)
			if err != nil || w.Len() != 0 {
				fail("string of %d with chunks of %d is framed badly: %v", n, size, err)
			}
			if got, err := unpack(p); err != nil || got != string(v) {
				fail("string of %d with chunks of %d: %v %v", n, size, got, err)
			}
		}
	}
}
'''
