PROPERTY = 'C04'
NEEDS = 'a pipeline of at least four queries closed after the client has advanced to the second result set'
BREAKS = 'closing the rows counts the outstanding responses wrongly for every result set but the first, so responses are left on the stream'
EDITS = [('rows.go', 'numConsume = ((numQueries - r.pipelineIndex) * 2) - 1', '''left := numQueries - r.pipelineIndex
				numConsume = left + left - 1
				if r.pipelineIndex > 0 && left > 1 {
					numConsume = left + 1
				}''')]
DEMO = r'''package main

import (
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		if r.Sig == sigRun {
			c.columns("a")
		} else {
			c.record(1)
			c.success(map[string]interface{}{"type": "r"})
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	within(20*time.Second, "the session", func() {
		rows, err := conn.QueryPipeline([]string{"A", "B", "C", "E"}, nil, nil, nil, nil)
		if err != nil {
			fail("%v", err)
		}
		if row, _, _, err := rows.NextPipeline(); err != nil || len(row) != 1 {
			fail("row %v %v", row, err)
		}
		_, _, next, err := rows.NextPipeline()
		if err != nil || next == nil {
			fail("next %v", err)
		}
		if err := next.Close(); err != nil {
			fail("close: %v", err)
		}
		data, meta, _, err := conn.QueryNeoAll("D", nil)
		if err != nil || len(data) != 1 || meta["fields"] == nil {
			fail("later query: %v %v %v", data, meta, err)
		}
	})
}
'''
