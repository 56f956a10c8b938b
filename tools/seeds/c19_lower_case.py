PROPERTY = 'C19'
NEEDS = 'credentials with upper-case letters in a string whose scheme is not all lower-case'
BREAKS = 'the credentials are sent in lower case'
EDITS = [('conn.go', '''	} else if strings.ToLower(url.Scheme) != "bolt" {
		return url, errors.New("Unsupported connection string scheme: %s. Driver only supports 'bolt' scheme.", url.Scheme)
	}
''', '''	} else if !strings.HasPrefix(c.connStr, "bolt:") {
		if url.Scheme != "bolt" {
			return url, errors.New("Unsupported connection string scheme: %s. Driver only supports 'bolt' scheme.", url.Scheme)
		}
		url, err = url.Parse(strings.ToLower(c.connStr))
		if err != nil {
			return url, errors.Wrap(err, "An error occurred parsing bolt URL")
		}
	}
''')]
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	f := newFake(nil)
	conn, err := bolt.NewDriver().OpenNeo("Bolt://Joe:Pass@" + f.ln.Addr().String() + "?timeout=3")
	if err != nil {
		fail("%v", err)
	}
	conn.Close()
	auth, _ := f.requests()[0].Fields[1].(map[string]interface{})
	if auth["credentials"] != "Pass" || auth["principal"] != "Joe" {
		fail("sent %v", auth)
	}
}
'''
