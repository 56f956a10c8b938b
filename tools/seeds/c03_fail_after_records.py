PROPERTY = 'C03'
NEEDS = 'a failure in the second result of a pipeline while the results are collected'
BREAKS = 'the failure met while getting the next set of rows of a pipeline loses its identity'
EDITS = [('rows.go', 'errors.Wrap(err, "An error occurred getting next set of rows from pipeline command: %#v", successResp)', 'errors.New("An error occurred getting next set of rows from pipeline command: %#v", successResp)')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

func main() {
	f := newFake(func(c *fconn, r freq) {
		switch {
		case r.Sig == sigRun && r.Text == "BAD":
			c.failure("Neo.X")
		case r.Sig == sigRun:
			c.columns(r.Text)
		default:
			c.success(nil)
		}
	})
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=2"))
	if err != nil {
		fail("%v", err)
	}
	rows, err := conn.QueryPipeline([]string{"A", "BAD"}, nil, nil)
	if err != nil {
		fail("%v", err)
	}
	_, _, _, err = rows.NextPipeline()
	e, ok := err.(*errors.Error)
	if !ok {
		fail("no failure: %v", err)
	}
	if m, ok := e.InnerMost().(messages.FailureMessage); !ok || m.Metadata["code"] != "Neo.X" {
		fail("innermost is %v", e.InnerMost())
	}
}
'''
