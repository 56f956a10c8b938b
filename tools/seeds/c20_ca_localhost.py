import runpy, os
TLS = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c20_cert_without_key.py'))['TLS']
PROPERTY = 'C20'
NEEDS = 'a configured authority and a server whose certificate is valid for localhost only, reached by address'
BREAKS = 'with a CA file certificates are checked against localhost, whatever the host is'
EDITS = [('conn.go', '''		config.RootCAs = caCertPool
''', '''		config.RootCAs = caCertPool
		if config.ServerName == "" {
			config.ServerName = "localhost"
		}
''')]
EXTRA = {'tls.go': TLS.replace('IPAddresses: []net.IP{net.ParseIP(ip)},', 'DNSNames: []string{ip},')}
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	d, done := tempDir()
	f := newFake(nil)
	cert, _ := serveTLS(f, d, "localhost")
	_, err := bolt.NewDriver().OpenNeo(f.url("?timeout=5&tls=true&tls_ca_cert_file=" + cert))
	done()
	if err == nil {
		fail("opened to a server with a certificate of another host")
	}
}
'''
