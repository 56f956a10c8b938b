import runpy, os
TLS = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c20_cert_without_key.py'))['TLS']
PROPERTY = 'C20'
NEEDS = 'a configured authority and a server whose certificate is valid, but for another host'
BREAKS = 'with a CA file the chain is verified, but the host the certificate is for is not'
EDITS = [('conn.go', '''		config.RootCAs = caCertPool
''', '''		config.RootCAs = caCertPool
		config.InsecureSkipVerify = true
		config.VerifyPeerCertificate = func(raw [][]byte, _ [][]*x509.Certificate) error {
			cert, err := x509.ParseCertificate(raw[0])
			if err != nil {
				return err
			}
			_, err = cert.Verify(x509.VerifyOptions{Roots: caCertPool})
			return err
		}
''')]
EXTRA = {'tls.go': TLS}
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	d, done := tempDir()
	f := newFake(nil)
	cert, _ := serveTLS(f, d, "127.0.0.2")
	_, err := bolt.NewDriver().OpenNeo(f.url("?timeout=5&tls=true&tls_ca_cert_file=" + cert))
	done()
	if err == nil {
		fail("opened to a server with a certificate of another host")
	}
}
'''
