PROPERTY = 'C08'
NEEDS = 'executing a prepared pipeline with more parameter sets than queries'
BREAKS = 'surplus parameter sets are silently ignored and the pipeline is sent'
EDITS = [('stmt.go', '''	if len(params) != len(s.queries) {
		return nil, errors.New("Must pass same number of params as there are queries")
	}

	if err := s.conn.sendPipeline(s.queries, params); err != nil {
		return nil, err
	}

	log.Info("Successfully ran all pipeline queries")

	results''', '''	if len(params) < len(s.queries) {
		return nil, errors.New("Must pass same number of params as there are queries")
	}

	if err := s.conn.sendPipeline(s.queries, params); err != nil {
		return nil, err
	}

	log.Info("Successfully ran all pipeline queries")

	results''')]
DEMO = r'''package main

import (
	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func main() {
	f := newFake(nil)
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3"))
	if err != nil {
		fail("%v", err)
	}
	n := len(f.requests())
	if _, err := conn.ExecPipeline([]string{"A", "B"}, nil, nil, nil); err == nil {
		fail("wrong number of parameter sets accepted")
	}
	if len(f.requests()) != n {
		fail("something was sent")
	}
}
'''
