PROPERTY = 'C21'
NEEDS = 'two argument maps, the later one with a null for a name that the earlier one has'
BREAKS = 'a null in a later argument does not win over the earlier value'
EDITS = [('util.go', r'''		for k, v := range params {
			output[k] = v
		}
''', r'''		for k, v := range params {
			if v != nil || output[k] == nil {
				output[k] = v
			}
		}
''')]
DEMO = r'''package main

import (
	"database/sql/driver"
	"fmt"
	"reflect"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		c.success(map[string]interface{}{})
	})
	conn, err := bolt.NewDriver().Open(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	a, _ := encoding.Marshal(map[string]interface{}{"x": 1, "y": 2})
	b, _ := encoding.Marshal(map[string]interface{}{"x": nil})
	if _, err := conn.(driver.Execer).Exec("A", []driver.Value{a, b}); err != nil {
		fail("%v", err)
	}
	for _, r := range f.requests() {
		if r.Sig == sigRun {
			want := map[string]interface{}{"x": nil, "y": int64(2)}
			if fmt.Sprint(r.Fields[1]) != fmt.Sprint(want) && !reflect.DeepEqual(r.Fields[1], want) {
				fail("got %v", r.Fields[1])
			}
		}
	}
}
'''
