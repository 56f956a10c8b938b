PROPERTY = 'C15'
NEEDS = 'a path whose relationship list holds something else than an unbound relationship'
BREAKS = 'the ill-typed element is skipped and the path is returned with a relationship missing'
EDITS = [('encoding/util.go', '''		toItem, ok := item.(graph.UnboundRelationship)
		if !ok {
			return nil, errors.New("Expected UnboundRelationship value. Got %T %+v", item, item)
		}
		to[idx] = toItem
''', '''		toItem, ok := item.(graph.UnboundRelationship)
		if !ok && item != nil {
			return nil, errors.New("Expected UnboundRelationship value. Got %T %+v", item, item)
		}
		to[idx] = toItem
''')]
DEMO = r'''package main

import "github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"

func main() {
	// a path of no nodes, the relationships [nil], no sequence
	v, err := encoding.Unmarshal([]byte{0, 6, 0xb3, 0x50, 0x90, 0x91, 0xc0, 0x90, 0, 0})
	if err == nil {
		fail("accepted: %#v", v)
	}
}
'''
