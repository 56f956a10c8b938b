PROPERTY = 'C13'
NEEDS = 'a []byte parameter'
BREAKS = 'a byte slice is sent as a string instead of a list of integers'
EDITS = [('encoding/encoder.go', '''	case string:
		err = e.encodeString(val)
	case []interface{}:
''', '''	case string, []byte:
		err = e.encodeString(reflect.ValueOf(val).Convert(reflect.TypeOf("")).String())
	case []interface{}:
''')]
DEMO = r'''package main

import (
	"reflect"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

func main() {
	for _, v := range []interface{}{[]int8{1, 2}, []byte{1, 2}} {
		b, err := encoding.Marshal(v)
		if err != nil {
			fail("%v", err)
		}
		got, err := encoding.Unmarshal(b)
		if err != nil || !reflect.DeepEqual(got, []interface{}{int64(1), int64(2)}) {
			fail("%#v came back as %#v (%v)", v, got, err)
		}
	}
}
'''
