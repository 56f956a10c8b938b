PROPERTY = 'C18'
NEEDS = 'a server that answers the initialization with IGNORED'
BREAKS = 'a connection that was never authenticated is handed out'
EDITS = [('conn.go', '''	switch resp := respInt.(type) {
	case messages.SuccessMessage:
		log.Infof("Successfully initiated Bolt connection: %+v", resp)
		return nil
''', '''	switch resp := respInt.(type) {
	case messages.SuccessMessage, messages.IgnoredMessage:
		log.Infof("Successfully initiated Bolt connection: %+v", resp)
		return nil
''')]
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	f := newFake(nil)
	f.init = func(c *fconn, r freq) { c.send(msg(sigIgnored)) }
	if _, err := bolt.NewDriver().OpenNeo(f.url("?timeout=3")); err == nil {
		fail("opened")
	}
}
'''
