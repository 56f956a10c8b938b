PROPERTY = 'C19'
NEEDS = 'a timeout written with a leading zero, or in hexadecimal'
BREAKS = 'a timeout of 08 seconds is refused, 010 means 8 seconds, and 0x10 is accepted'
EDITS = [('conn.go', '''		timeoutInt, err := strconv.Atoi(timeout)
''', '''		timeoutInt, err := strconv.ParseInt(timeout, 0, 32)
''')]
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	f := newFake(nil)
	if _, err := bolt.NewDriver().OpenNeo(f.url("?timeout=0x10")); err == nil {
		fail("opened with a timeout of 0x10")
	}
	if _, err := bolt.NewDriver().OpenNeo(f.url("?timeout=08")); err != nil {
		fail("%v", err)
	}
}
'''
