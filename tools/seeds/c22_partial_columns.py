PROPERTY = 'C22'
NEEDS = 'field names of which one, not the first, is not a string'
BREAKS = 'the columns before the ill-typed one are reported as if they were all'
EDITS = [('rows.go', r'''			log.Errorf("Unrecognized fields from success message: %#v", fieldsInt)
			return []string{}
		}
	}
	return fieldsStr
''', r'''			log.Errorf("Unrecognized fields from success message: %#v", fieldsInt)
			fieldsStr = fieldsStr[:i]
			break
		}
	}
	return fieldsStr
''')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/log"
)

func main() {
	log.SetLevel("none")
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("a", "b", 3)
		} else {
			c.success(map[string]interface{}{"type": "r"})
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	rows, err := conn.QueryNeo("A", nil)
	if err != nil {
		fail("%v", err)
	}
	if cols := rows.Columns(); len(cols) != 0 {
		fail("columns %v", cols)
	}
}
'''
