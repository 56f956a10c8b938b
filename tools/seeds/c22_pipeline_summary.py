PROPERTY = 'C22'
NEEDS = 'a pipeline with a statement whose summary is empty'
BREAKS = 'the result of that statement reports the metadata from before its rows'
EDITS = [('stmt.go', r'''		success, ok = pullResp.(messages.SuccessMessage)
		if !ok {
''', r'''		summary, ok := pullResp.(messages.SuccessMessage)
		if len(summary.Metadata) > 0 {
			success = summary
		}
		if !ok {
''')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("a")
		} else {
			c.success(map[string]interface{}{})
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	res, err := conn.ExecPipeline([]string{"A", "B"}, nil, nil)
	if err != nil {
		fail("%v", err)
	}
	for _, r := range res {
		if len(r.Metadata()) != 0 {
			fail("metadata %v", r.Metadata())
		}
	}
}
'''
