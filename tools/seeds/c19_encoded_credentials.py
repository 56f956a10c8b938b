PROPERTY = 'C19'
NEEDS = 'a password with a reserved character, given percent-encoded'
BREAKS = 'the encoded form of the password is sent instead of the password'
EDITS = [('conn.go', '''		c.password, isSet = url.User.Password()
''', '''		_, isSet = url.User.Password()
		c.password = strings.TrimPrefix(url.User.String(), c.user+":")
''')]
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	f := newFake(nil)
	conn, err := bolt.NewDriver().OpenNeo("bolt://joe:p%40ss@" + f.ln.Addr().String() + "?timeout=3")
	if err != nil {
		fail("%v", err)
	}
	conn.Close()
	auth, _ := f.requests()[0].Fields[1].(map[string]interface{})
	if auth["credentials"] != "p@ss" || auth["principal"] != "joe" {
		fail("sent %v", auth)
	}
}
'''
