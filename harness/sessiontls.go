package main

import (
	"crypto/tls"
	"net"
	"net/url"
	"os"
	"path/filepath"
	"sync"
)

// The same sessions over TLS.

// sessionPKI is what servers of sessions over TLS use
type sessionPKI struct {
	dir  string
	conf *tls.Config
	pki  *pki
}

// poolPKI is the same for the server of a pool
type poolPKI struct {
	conf    *tls.Config
	options string
}

func (p *sessionPKI) forHost(ip string) *poolPKI {
	c := p.pki.issue(openCert{By: "ca1", Host: "only", When: "now", Use: "server"}.dial(ip))
	return &poolPKI{&tls.Config{Certificates: []tls.Certificate{c}}, p.options()}
}

func newSessionPKI() (*sessionPKI, error) {
	d, err := os.MkdirTemp("", "verif-session")
	if err != nil {
		return nil, err
	}
	p, err := newPKI(d)
	if err != nil {
		os.RemoveAll(d)
		return nil, err
	}
	c := p.issue(openCert{By: "ca1", Host: "ok", When: "now", Use: "server"}.dial("127.0.0.1"))
	return &sessionPKI{d, &tls.Config{Certificates: []tls.Certificate{c}}, p}, nil
}

func (p *sessionPKI) options() string {
	return "&tls=true&tls_ca_cert_file=" + url.QueryEscape(filepath.Join(p.dir, "ca1.pem"))
}

// cork is a network connection that can hold what is written to it back, to
// send several TLS records at once
type cork struct {
	net.Conn
	mu  sync.Mutex
	on  bool
	buf []byte
}

func (c *cork) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.on {
		c.buf = append(c.buf, b...)
		return len(b), nil
	}
	return c.Conn.Write(b)
}

func (c *cork) hold() {
	c.mu.Lock()
	c.on = true
	c.mu.Unlock()
}

func (c *cork) release() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.on = false
	c.Conn.Write(c.buf)
	c.buf = nil
}
