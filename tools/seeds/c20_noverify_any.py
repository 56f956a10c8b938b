import runpy, os
TLS = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c20_cert_without_key.py'))['TLS']
PROPERTY = 'C20'
NEEDS = 'tls_no_verify given explicitly as false, and a server whose certificate is not trusted'
BREAKS = 'the certificate of the server is not verified'
EDITS = [('conn.go', '''		c.tlsNoVerify = strings.HasPrefix(strings.ToLower(noVerify), "t") || noVerify == "1"
''', '''		c.tlsNoVerify = noVerify != "" && noVerify != "0"
''')]
EXTRA = {'tls.go': TLS}
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	d, done := tempDir()
	f := newFake(nil)
	serveTLS(f, d, "127.0.0.1")
	other, _ := serveTLS(nil, d, "127.0.0.2")
	_, err := bolt.NewDriver().OpenNeo(f.url("?timeout=5&tls=true&tls_no_verify=false&tls_ca_cert_file=" + other))
	done()
	if err == nil {
		fail("opened to an untrusted server")
	}
}
'''
