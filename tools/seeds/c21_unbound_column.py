PROPERTY = 'C21'
NEEDS = 'a row with an unbound relationship as a column, read through the sql interface'
BREAKS = 'such a column can not be had through the sql interface'
EDITS = [('rows.go', r'''graph.Node, graph.Path, graph.Relationship, graph.UnboundRelationship:''', r'''graph.Node, graph.Path, graph.Relationship:''')]
DEMO = r'''package main

import (
	"database/sql/driver"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("r")
		} else {
			c.record(pStruct{0x72, []interface{}{1, "KNOWS", map[string]interface{}{}}})
			c.success(map[string]interface{}{"type": "r"})
		}
	})
	conn, err := bolt.NewDriver().Open(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	rows, err := conn.(driver.Queryer).Query("A", nil)
	if err != nil {
		fail("%v", err)
	}
	dest := make([]driver.Value, 1)
	if err := rows.Next(dest); err != nil {
		fail("%v", err)
	}
	b, ok := dest[0].([]byte)
	if !ok {
		fail("got %#v", dest[0])
	}
	v, err := encoding.Unmarshal(b)
	if u, ok := v.(graph.UnboundRelationship); err != nil || !ok || u.RelIdentity != 1 {
		fail("got %#v %v", v, err)
	}
}
'''
