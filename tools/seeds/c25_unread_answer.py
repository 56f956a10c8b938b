PROPERTY = 'C25'
NEEDS = 'a replay that ends without reading the last thing the server said'
BREAKS = 'data left over at close goes unnoticed'
EDITS = [('recorder.go', r'''		if r.currentEvent != len(r.events) {
''', r'''		if r.currentEvent < len(r.events)-1 {
'''),
         ('recorder.go', r'''		if len(r.events[len(r.events)-1].Event) != 0 {
''', r'''		if last := r.events[len(r.events)-1]; last.IsWrite && len(last.Event) != 0 {
''')]
DEMO = r'''package main

func main() {}
'''
EXTRA = {'demo.sh': r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
P=$(go list -f '{{.Dir}}' github.com/johnnadratowski/golang-neo4j-bolt-driver) || exit 3
R=$(cd "$P" && pwd -P)
cp "$D/demo_test.go.txt" "$T/zz_demo_test.go"
echo "{\"Replace\": {\"$P/zz_demo_test.go\": \"$T/zz_demo_test.go\", \"$R/zz_demo_test.go\": \"$T/zz_demo_test.go\"}}" > "$T/overlay.json"
go test -overlay "$T/overlay.json" -c -o "$T/demo" github.com/johnnadratowski/golang-neo4j-bolt-driver || exit 3
mkdir "$T/recordings"
cd "$T" && timeout 200 ./demo -test.run 'TestZZDemo$'
''',
'demo_test.go.txt': r'''package golangNeo4jBoltDriver

import (
	"net"
	"os"
	"testing"
)

func TestZZDemo(t *testing.T) {
	os.Setenv("RECORD_OUTPUT", "1")
	a, b := net.Pipe()
	r := newRecorder("demo", "x")
	r.Conn = a
	go func() {
		b.Read(make([]byte, 3))
		b.Write([]byte{5, 0, 0})
	}()
	if _, err := r.Write([]byte{1, 0, 0}); err != nil {
		t.Fatal(err)
	}
	if _, err := r.Read(make([]byte, 4)); err != nil {
		t.Fatal(err)
	}
	r.Close()
	p := newRecorder("demo", "")
	if n, err := p.Write([]byte{1, 2, 3}); n != 3 || err != nil {
		t.Fatal(n, err)
	}
	if err := p.Close(); err == nil {
		t.Fatal("left over")
	}
}
'''}
