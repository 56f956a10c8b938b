PROPERTY = 'C20'
NEEDS = 'a client certificate file configured without its key file'
BREAKS = 'the connection opens without presenting the configured certificate'
EDITS = [('conn.go', '''	if c.certFile != "" {
		if c.keyFile == "" {
			return nil, errors.New("If you're providing a cert file, you must also provide a key file")
		}

''', '''	if c.certFile != "" && c.keyFile != "" {
''')]
TLS = r'''package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"io/ioutil"
	"math/big"
	"net"
	"os"
	"path/filepath"
	"time"
)

// serveTLS makes a certificate for ip, puts it and its key into dir, and puts the server behind TLS
func serveTLS(f *fake, dir string, ip string) (cert, key string) {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		fail("%v", err)
	}
	t := &x509.Certificate{SerialNumber: big.NewInt(time.Now().UnixNano()), Subject: pkix.Name{CommonName: "demo"}, NotBefore: time.Now().Add(-time.Hour),
		NotAfter: time.Now().Add(time.Hour), IsCA: true, BasicConstraintsValid: true, IPAddresses: []net.IP{net.ParseIP(ip)},
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		fail("%v", err)
	}
	kd, err := x509.MarshalECPrivateKey(k)
	if err != nil {
		fail("%v", err)
	}
	c := pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	kp := pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kd})
	cert, key = filepath.Join(dir, "cert-"+ip+".pem"), filepath.Join(dir, "key-"+ip+".pem")
	ioutil.WriteFile(cert, c, 0600)
	ioutil.WriteFile(key, kp, 0600)
	if f == nil {
		return
	}
	pair, err := tls.X509KeyPair(c, kp)
	if err != nil {
		fail("%v", err)
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("%v", err)
	}
	f.ln = ln
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go f.serve(&fconn{Conn: tls.Server(c, &tls.Config{Certificates: []tls.Certificate{pair}, ClientAuth: tls.RequestClientCert}), n: 1})
		}
	}()
	return
}

func tempDir() (string, func()) {
	d, err := ioutil.TempDir("", "demo")
	if err != nil {
		fail("%v", err)
	}
	return d, func() { os.RemoveAll(d) }
}
'''
EXTRA = {'tls.go': TLS}
DEMO = r'''package main

import bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"

func main() {
	d, done := tempDir()
	f := newFake(nil)
	cert, key := serveTLS(f, d, "127.0.0.1")
	conn, err := bolt.NewDriver().OpenNeo(f.url("?timeout=5&tls=true&tls_ca_cert_file=" + cert + "&tls_cert_file=" + cert + "&tls_key_file=" + key))
	if err != nil {
		done()
		fail("%v", err)
	}
	conn.Close()
	_, err = bolt.NewDriver().OpenNeo(f.url("?timeout=5&tls=true&tls_ca_cert_file=" + cert + "&tls_cert_file=" + cert))
	done()
	if err == nil {
		fail("opened without the key of the certificate")
	}
}
'''
