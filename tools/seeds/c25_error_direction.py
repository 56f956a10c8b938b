PROPERTY = 'C25'
NEEDS = 'a write that does not end a message, and an error of the read after it'
BREAKS = 'the error is replayed for another call than the one that had it'
EDITS = [('recorder.go', r'''func (r *recorder) recordErr(err error, isWrite bool) {
	event := r.lastEvent()
	if event == nil || event.Completed || event.IsWrite != isWrite {
''', r'''func (r *recorder) recordErr(err error, isWrite bool) {
	event := r.lastEvent()
	if event == nil || event.Completed {
''')]
DEMO = r'''package main

func main() {}
'''
EXTRA = {'demo.sh': r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
P=$(go list -f '{{.Dir}}' github.com/johnnadratowski/golang-neo4j-bolt-driver) || exit 3
R=$(cd "$P" && pwd -P)
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
echo "{\"Replace\": {\"$P/zz_demo_test.go\": \"$T/zz_demo_test.go\", \"$R/zz_demo_test.go\": \"$T/zz_demo_test.go\"}}" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -c -o "$T/demo" github.com/johnnadratowski/golang-neo4j-bolt-driver || exit 3
mkdir "$T/recordings"
cd "$T" && timeout 200 ./demo -test.run 'TestZZDemo$'
''',
'demo_test.go.txt': r'''package golangNeo4jBoltDriver

import (
	"net"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	os.Setenv("RECORD_OUTPUT", "1")
	a, b := net.Pipe()
	r := newRecorder("demo", "x")
	r.Conn = a
	go func() {
		b.Read(make([]byte, 3))
		b.Close()
	}()
	if _, err := r.Write([]byte{1, 2, 3}); err != nil {
		t.Fatal(err)
	}
	if _, err := r.Read(make([]byte, 4)); err == nil {
		t.Fatal("no error")
	}
	r.Close()
	p := newRecorder("demo", "")
	if n, err := p.Write([]byte{1, 2, 3}); n != 3 || err != nil {
		t.Fatal(n, err)
	}
	if _, err := p.Write([]byte{4}); err == nil {
		t.Fatal("a write that wasn't recorded")
	}
	p = newRecorder("demo", "")
	p.Write([]byte{1, 2, 3})
	if _, err := p.Read(make([]byte, 4)); err == nil {
		t.Fatal("no error")
	}
	if err := p.Close(); err != nil {
		t.Fatal(err)
	}
}
'''}
