PROPERTY = 'C04'
NEEDS = 'a prepared query whose success carries no metadata, closed before it is read'
BREAKS = 'closing does not discard the result, so the server still has it open'
EDITS = [('rows.go', '\tif !r.consumed {\n\t\t// Discard', '\tif !r.consumed && len(r.metadata) > 0 {\n\t\t// Discard')]
DEMO = r'''package main

import (

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) { c.success(map[string]interface{}{}) })
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=2"))
	if err != nil {
		fail("%v", err)
	}
	st, err := conn.PrepareNeo("Q")
	if err != nil {
		fail("%v", err)
	}
	rows, err := st.QueryNeo(nil)
	if err != nil {
		fail("%v", err)
	}
	if err := rows.Close(); err != nil {
		fail("%v", err)
	}
	reqs := f.requests()
	if reqs[len(reqs)-1].Sig == sigRun {
		fail("the result was neither discarded nor pulled")
	}
}
'''
