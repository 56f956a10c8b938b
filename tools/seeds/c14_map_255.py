PROPERTY = 'C14'
NEEDS = 'a map or parameter set of exactly 255 entries'
BREAKS = 'a map of 255 entries is written with a 16-bit size where an 8-bit one fits'
EDITS = [('encoding/encoder.go', '''		if _, err := e.Write([]byte{byte(TinyMapMarker + length)}); err != nil {
			return err
		}
	case length > 15 && length <= math.MaxUint8:
''', '''		if _, err := e.Write([]byte{byte(TinyMapMarker + length)}); err != nil {
			return err
		}
	case length > 15 && length < math.MaxUint8:
'''), ('encoding/encoder.go', '''		if _, err := e.Write([]byte{Map8Marker}); err != nil {
			return err
		}
		if err := binary.Write(e, binary.BigEndian, int8(length)); err != nil {
			return err
		}
	case length > math.MaxUint8 && length <= math.MaxUint16:
''', '''		if _, err := e.Write([]byte{Map8Marker}); err != nil {
			return err
		}
		if err := binary.Write(e, binary.BigEndian, int8(length)); err != nil {
			return err
		}
	case length >= math.MaxUint8 && length <= math.MaxUint16:
''')]
DEMO = r'''package main

import (
	"fmt"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

func main() {
	for _, n := range []int{16, 254, 255, 256} {
		m := map[string]interface{}{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint(i)] = nil
		}
		b, err := encoding.Marshal(m)
		if err != nil {
			fail("%v", err)
		}
		want := byte(0xd8)
		if n > 255 {
			want = 0xd9
		}
		if b[2] != want {
			fail("%d entries: marker %x", n, b[2])
		}
	}
}
'''
