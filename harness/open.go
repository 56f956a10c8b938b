package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"database/sql/driver"
	"encoding/hex"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	berrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// one opening of a connection and what is done with it, see BoltOpen.tla
type openPlan struct {
	Tcp  string   `json:"tcp"`
	Srv  string   `json:"srv"`
	Hs   string   `json:"hs"`
	Cert openCert `json:"cert"`
	Ask  bool     `json:"ask"`
	Ver  string   `json:"ver"`
	Init string   `json:"init"`
}

type openCert struct {
	By   string `json:"by"`
	Host string `json:"host"`
	When string `json:"when"`
	Use  string `json:"use"`

	dialled string
}

func (c openCert) dial(host string) openCert {
	c.dialled = host
	return c
}

type openUse struct {
	Op  string `json:"op"`
	K   string `json:"k"`
	Tmo int    `json:"tmo"` // SetTimeout before it

	Delay int `json:"delay"` // how late slow answers to it are, if not what it is for the others
}

type openScenario struct {
	URL    string    `json:"url"`    // with ADDR, DIR
	Listen string    `json:"listen"` // the host to listen on
	Host   string    `json:"host"`   // the host of the connection string
	Entry  string    `json:"entry"`  // neo, sql, pool
	Delay  int       `json:"delay"`  // how late slow answers are
	Tmo    int       `json:"tmo"`    // the timeout asked for
	Plan   openPlan  `json:"p"`
	Uses   []openUse `json:"uses"`
	Seed   int64     `json:"seed"`
}

// ---------------------------------------------------------------- certificates
type authority struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
}

type pki struct {
	mu     sync.Mutex
	cas    map[string]*authority
	cache  map[openCert]tls.Certificate
	client []byte
	serial int64
}

var past = time.Now().Add(-100 * time.Hour)

func writePEM(path, kind string, der []byte) error {
	return os.WriteFile(path, pem.EncodeToMemory(&pem.Block{Type: kind, Bytes: der}), 0o600)
}

func newKey() *ecdsa.PrivateKey {
	k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	if err != nil {
		panic(err)
	}
	return k
}

func newPKI(dir string) (*pki, error) {
	p := &pki{cas: map[string]*authority{}, cache: map[openCert]tls.Certificate{}, serial: 100}
	for _, n := range []string{"ca1", "ca2", "ca3"} {
		k := newKey()
		t := &x509.Certificate{SerialNumber: big.NewInt(p.serial), Subject: pkix.Name{CommonName: n}, NotBefore: past, NotAfter: time.Now().Add(100 * time.Hour),
			IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		p.serial++
		der, err := x509.CreateCertificate(rand.Reader, t, t, &k.PublicKey, k)
		if err != nil {
			return nil, err
		}
		c, err := x509.ParseCertificate(der)
		if err != nil {
			return nil, err
		}
		p.cas[n] = &authority{c, k}
		if err := writePEM(filepath.Join(dir, n+".pem"), "CERTIFICATE", der); err != nil {
			return nil, err
		}
	}
	cl := p.issue(openCert{By: "ca1", Host: "ok", When: "now", Use: "client"})
	p.client = cl.Certificate[0]
	for _, f := range []struct {
		name string
		key  *ecdsa.PrivateKey
	}{{"client.key", cl.PrivateKey.(*ecdsa.PrivateKey)}, {"other.key", newKey()}} {
		der, err := x509.MarshalECPrivateKey(f.key)
		if err != nil {
			return nil, err
		}
		if err := writePEM(filepath.Join(dir, f.name), "EC PRIVATE KEY", der); err != nil {
			return nil, err
		}
	}
	if err := writePEM(filepath.Join(dir, "client.pem"), "CERTIFICATE", p.client); err != nil {
		return nil, err
	}
	return p, os.WriteFile(filepath.Join(dir, "garbage.pem"), []byte("this is no certificate\n"), 0o600)
}

func (p *pki) issue(c openCert) tls.Certificate {
	p.mu.Lock()
	defer p.mu.Unlock()
	if c.Host != "only" && c.Host != "else" {
		c.dialled = ""
	}
	if t, ok := p.cache[c]; ok {
		return t
	}
	k := newKey()
	p.serial++
	t := &x509.Certificate{SerialNumber: big.NewInt(p.serial), Subject: pkix.Name{CommonName: "server"}, NotBefore: past, NotAfter: time.Now().Add(100 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageKeyEncipherment}
	switch c.When {
	case "past":
		t.NotAfter = time.Now().Add(-time.Hour)
	case "future":
		t.NotBefore = time.Now().Add(50 * time.Hour)
	}
	if c.Host != "other" {
		// for all names of this machine, only for the one used, or for all but that one
		names := []string{"127.0.0.1", "127.0.0.2", "::1", "localhost"}
		if c.Host == "only" {
			names = []string{c.dialled}
		}
		for _, h := range names {
			if c.Host == "else" && h == c.dialled {
				continue
			}
			if ip := net.ParseIP(h); ip != nil {
				t.IPAddresses = append(t.IPAddresses, ip)
			} else {
				t.DNSNames = append(t.DNSNames, h)
			}
		}
	} else {
		t.IPAddresses = []net.IP{net.ParseIP("10.9.8.7")}
		t.DNSNames = []string{"db.example.org"}
		t.Subject.CommonName = "localhost"
	}
	if c.Use == "server" {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
	} else {
		t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}
	}
	parent, signer := t, k
	chain := [][]byte{}
	if c.By == "inter" || c.By == "lone" {
		ik := newKey()
		p.serial++
		it := &x509.Certificate{SerialNumber: big.NewInt(p.serial), Subject: pkix.Name{CommonName: "intermediate"}, NotBefore: past,
			NotAfter: time.Now().Add(100 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
		ider, err := x509.CreateCertificate(rand.Reader, it, p.cas["ca1"].cert, &ik.PublicKey, p.cas["ca1"].key)
		if err != nil {
			panic(err)
		}
		ic, err := x509.ParseCertificate(ider)
		if err != nil {
			panic(err)
		}
		parent, signer = ic, ik
		if c.By == "inter" {
			chain = append(chain, ider)
		}
	}
	if a, ok := p.cas[c.By]; ok {
		parent, signer = a.cert, a.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, parent, &k.PublicKey, signer)
	if err != nil {
		panic(err)
	}
	out := tls.Certificate{Certificate: append([][]byte{der}, chain...), PrivateKey: k}
	p.cache[c] = out
	return out
}

// --------------------------------------------------------------------- server
type openRun struct {
	tracer
	sc    openScenario
	pki   *pki
	t0    time.Time
	tag   int
	rnd   *mrand.Rand
	use   atomic.Value // the kind of the call in progress
	said  atomic.Bool  // it was answered
	quiet chan struct{}
	mu    sync.Mutex
	conns []net.Conn
	wg    sync.WaitGroup
	delay atomic.Int64
}

func (o *openRun) ms() int { return int(time.Since(o.t0) / time.Millisecond) }

func (o *openRun) ev(k string, more ...interface{}) {
	e := event{"e": k}
	for i := 0; i+1 < len(more); i += 2 {
		e[more[i].(string)] = more[i+1]
	}
	o.Lock()
	e["t"] = o.ms()
	if !o.done {
		o.events = append(o.events, e)
	}
	o.Unlock()
}

// prefixed gives back bytes that were read to look at them
type prefixed struct {
	net.Conn
	pre []byte
}

func (p *prefixed) Read(b []byte) (int, error) {
	if len(p.pre) > 0 {
		n := copy(b, p.pre)
		p.pre = p.pre[n:]
		return n, nil
	}
	return p.Conn.Read(b)
}

func (o *openRun) nap() {
	d := int(o.delay.Load())
	if d == 0 {
		d = o.sc.Delay
	}
	time.Sleep(time.Duration(d) * time.Millisecond)
}

// drain reads until the peer closes; anything that comes is reported
func (o *openRun) drain(c net.Conn, report bool) {
	buf := make([]byte, 4096)
	for {
		n, err := c.Read(buf)
		if n > 0 && report {
			o.ev("more", "b", hex.EncodeToString(buf[:min(n, 40)]))
			report = false
		}
		if err != nil {
			o.ended(err)
			return
		}
	}
}

func (o *openRun) ended(err error) {
	if errors.Is(err, net.ErrClosed) || isTimeout(err) {
		return
	}
	o.ev("eof")
}

// pieces sends b, whole or a few bytes at a time
func (o *openRun) pieces(c net.Conn, b []byte, bytewise bool) {
	if !bytewise {
		c.Write(b)
		return
	}
	for i := range b {
		c.Write(b[i : i+1])
		if i < 12 {
			time.Sleep(time.Millisecond)
		}
	}
}

func (o *openRun) serve(raw net.Conn) {
	defer o.wg.Done()
	p := o.sc.Plan
	if p.Srv == "deaf" {
		o.mu.Lock()
		raw.Close()
		o.mu.Unlock()
		o.ev("eof")
		return
	}
	one := make([]byte, 1)
	if _, err := io.ReadFull(raw, one); err != nil {
		o.ended(err)
		return
	}
	var c net.Conn = &prefixed{raw, one}
	kind := "other"
	switch one[0] {
	case 0x16:
		kind = "tls"
	case 0x60:
		kind = "plain"
	}
	o.ev("first", "k", kind)
	if p.Srv == "tls" || kind == "tls" {
		switch {
		case p.Hs == "stall":
			o.drain(c, false)
			return
		case p.Hs == "garbage" || (p.Srv == "plain" && p.Hs == "ok"):
			c.Write(bytes.Repeat([]byte("HTTP/1.1 400 Bad Request\r\n"), 4))
			o.drain(c, false)
			return
		case p.Hs == "close":
			raw.Close()
			o.ev("eof")
			return
		}
		conf := &tls.Config{Certificates: []tls.Certificate{o.pki.issue(p.Cert.dial(o.sc.Host))}}
		if p.Ask {
			conf.ClientAuth = tls.RequestClientCert
		}
		t := tls.Server(c, conf)
		if err := t.Handshake(); err != nil {
			raw.Close()
			o.ev("eof")
			return
		}
		cc := "none"
		if l := t.ConnectionState().PeerCertificates; len(l) > 0 {
			cc = "other"
			if bytes.Equal(l[0].Raw, o.pki.client) {
				cc = "same"
			}
		}
		o.ev("tlsdone", "cc", cc)
		c = t
	}
	if p.Ver == "early" {
		// answers before it was asked
		o.ev("early")
		c.Write(goodVersion)
	}
	hs := make([]byte, 20)
	if _, err := io.ReadFull(c, hs); err != nil {
		o.ended(err)
		return
	}
	o.ev("preamble", "b", hex.EncodeToString(hs))
	say := func(k string, f func()) {
		o.ev(k, "k", map[string]string{"ver": p.Ver, "rep": p.Init}[k])
		f()
	}
	hangup := func() { raw.Close(); o.ev("eof") }
	switch p.Ver {
	case "good":
		say("ver", func() { c.Write(goodVersion) })
	case "slow":
		o.nap()
		say("ver", func() { c.Write(goodVersion) })
	case "bytes":
		say("ver", func() { o.pieces(c, goodVersion, true) })
	case "none":
		say("ver", func() { c.Write([]byte{0, 0, 0, 0}) })
		o.drain(c, true)
		return
	case "other":
		other := [][]byte{{0, 0, 0, 2}, {1, 0, 0, 0}, {0, 0, 1, 0}, {0, 0, 1, 1}, {0x48, 0x54, 0x54, 0x50}, {0xff, 0xff, 0xff, 0xff}, {0, 0, 0, 0x81}, {0x80, 0, 0, 1}}
		b := other[o.rnd.Intn(len(other))]
		say("ver", func() { c.Write(b) })
		o.drain(c, true)
		return
	case "close":
		say("ver", hangup)
		return
	case "short":
		say("ver", func() { c.Write(goodVersion[:1+o.rnd.Intn(3)]); hangup() })
		return
	case "partstall":
		say("ver", func() { c.Write(goodVersion[:1+o.rnd.Intn(3)]) })
		o.drain(c, true)
		return
	case "stall":
		o.drain(c, true)
		return
	}
	payload, _, err := dechunk(c)
	if err != nil {
		o.ended(err)
		return
	}
	o.init(payload)
	success := chunks(msg(sigSuccess, map[string]interface{}{"server": "Neo4j/3.1.0"}), whole)
	failure := chunks(msg(sigFailure, map[string]interface{}{"code": fmt.Sprintf("F%d", o.tag), "message": "scripted"}), whole)
	send := func(b []byte) { say("rep", func() { c.Write(b) }) }
	switch p.Init {
	case "ok":
		send(success)
	case "slow":
		o.nap()
		send(success)
	case "bytes":
		say("rep", func() { o.pieces(c, success, true) })
	case "fail":
		send(failure)
		o.drain(c, true)
		return
	case "failslow":
	case "ignored":
		b := chunks(msg(sigIgnored), whole)
		if o.rnd.Intn(2) == 0 {
			b = append(b, success...)
		}
		send(b)
		o.drain(c, true)
		return
	case "record":
		b := chunks(msg(sigRecord, []interface{}{1}), whole)
		if o.rnd.Intn(2) == 0 {
			b = append(b, success...)
		}
		send(b)
		o.drain(c, true)
		return
	case "junk":
		junk := [][]byte{{0, 1, 0xC4, 0, 0}, {0, 0}, {0, 2, 0xB1, 0x70, 0, 0}, {0, 3, 0xB1, 0x70, 1, 0, 0}, {0, 2, 0xB1, 0x99, 0, 0}, {0, 1, 1, 0, 0},
			{0, 3, 0xB1, 0x7F, 1, 0, 0}, {0, 1, 0xC0, 0, 0}, {0, 1, 0xA0, 0, 0}}
		send(junk[o.rnd.Intn(len(junk))])
		o.drain(c, true)
		return
	case "close":
		say("rep", hangup)
		return
	case "short":
		b := [][]byte{success, failure}[o.rnd.Intn(2)]
		say("rep", func() { c.Write(b[:1+o.rnd.Intn(len(b)-1)]); hangup() })
		return
	case "partstall":
		b := [][]byte{success, failure}[o.rnd.Intn(2)]
		send(b[:1+o.rnd.Intn(len(b)-1)])
		o.drain(c, true)
		return
	case "stall":
		o.drain(c, true)
		return
	}
	o.answer(c)
}

func (o *openRun) init(payload []byte) {
	v, err := unpack(payload)
	s, ok := v.(pStruct)
	if err != nil || !ok || s.Sig != sigInit || len(s.Fields) != 2 {
		o.ev("init", "client", "?", "scheme", "?", "principal", "-", "credentials", "-")
		return
	}
	client, _ := s.Fields[0].(string)
	m, ok := s.Fields[1].(map[string]interface{})
	get := func(k string) string {
		x, ok := m[k]
		if !ok {
			return "-"
		}
		t, ok := x.(string)
		if !ok {
			return "?"
		}
		return hex.EncodeToString([]byte(t))
	}
	scheme, _ := m["scheme"].(string)
	want := map[string]int{"none": 1, "basic": 3}[scheme]
	if !ok || len(m) != want {
		scheme = "?"
	}
	o.ev("init", "client", client, "scheme", scheme, "principal", get("principal"), "credentials", get("credentials"))
}

// answer the requests made on the open connection
func (o *openRun) answer(c net.Conn) {
	in := bufReader{c: c}
	for {
		// not reading at all
		payload, _, err := dechunk(&gated{o: o, r: &in})
		if err != nil {
			o.ended(err)
			return
		}
		o.ev("req")
		r := parseRequest(payload)
		out := msg(sigSuccess, map[string]interface{}{})
		if r.K == "RUN" {
			out = msg(sigSuccess, map[string]interface{}{"fields": []interface{}{"a"}})
		}
		b := chunks(out, whole)
		k, _ := o.use.Load().(string)
		switch k {
		case "slow":
			o.nap()
		case "stall", "noread":
			continue
		case "partstall":
			if o.said.Load() {
				continue
			}
			b = b[:1+o.rnd.Intn(len(b)-1)]
		}
		if o.said.CompareAndSwap(false, true) {
			o.ev("say")
		} else {
			o.ev("prog")
		}
		o.pieces(c, b, k == "bytes")
	}
}

type bufReader struct{ c net.Conn }

func (b *bufReader) Read(p []byte) (int, error) { return b.c.Read(p) }

// gated doesn't read while the peer is to find nobody reading
type gated struct {
	o *openRun
	r io.Reader
}

func (g *gated) Read(p []byte) (int, error) {
	for {
		k, _ := g.o.use.Load().(string)
		if k != "noread" {
			break
		}
		select {
		case <-g.o.quiet:
			return 0, net.ErrClosed
		case <-time.After(5 * time.Millisecond):
		}
	}
	return g.r.Read(p)
}

// ----------------------------------------------------------------------- peer
// blackhole is a listener whose queue is full: connecting to it takes forever
func blackhole(host string) (addr string, closeIt func(), err error) {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		return "", nil, err
	}
	var ip [4]byte
	copy(ip[:], net.ParseIP(host).To4())
	if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: ip}); err == nil {
		err = syscall.Listen(fd, 0)
	}
	if err != nil {
		syscall.Close(fd)
		return "", nil, err
	}
	sa, err := syscall.Getsockname(fd)
	if err != nil {
		syscall.Close(fd)
		return "", nil, err
	}
	addr = fmt.Sprintf("%s:%d", host, sa.(*syscall.SockaddrInet4).Port)
	var fill []net.Conn
	for i := 0; i < 16; i++ {
		c, err := net.DialTimeout("tcp", addr, 150*time.Millisecond)
		if err != nil {
			break
		}
		fill = append(fill, c)
	}
	return addr, func() {
		for _, c := range fill {
			c.Close()
		}
		syscall.Close(fd)
	}, nil
}

func (o *openRun) classify(err error) string {
	inner := err
	if e, ok := err.(*berrors.Error); ok {
		inner = e.InnerMost()
	}
	if f, ok := inner.(messages.FailureMessage); ok {
		if f.Metadata["code"] == fmt.Sprintf("F%d", o.tag) && f.Metadata["message"] == "scripted" {
			return "fail"
		}
		return "wrongfail"
	}
	if inner == driver.ErrBadConn {
		return "bad"
	}
	return "other"
}

// limited runs f; false if it takes far too long or panics
func (o *openRun) limited(d time.Duration, f func()) bool {
	done := make(chan string, 1)
	go func() { done <- safely(f) }()
	select {
	case p := <-done:
		if p != "" {
			o.ev("panic", "what", p)
			return false
		}
		return true
	case <-time.After(d):
		o.ev("hang")
		return false
	}
}

func (o *openRun) run(dir string, slack time.Duration) []event {
	sc := o.sc
	o.t0 = time.Now()
	o.use.Store("-")
	var addr string
	var ln net.Listener
	switch sc.Plan.Tcp {
	case "stall":
		a, done, err := blackhole(sc.Listen)
		if err != nil {
			return []event{{"e": "harness", "what": err.Error()}}
		}
		defer done()
		addr = a
	default:
		l, err := net.Listen("tcp", net.JoinHostPort(sc.Listen, "0"))
		if err != nil {
			return []event{{"e": "harness", "what": err.Error()}}
		}
		addr = l.Addr().String()
		if sc.Plan.Tcp == "refuse" {
			l.Close()
		} else {
			ln = l
			defer l.Close()
		}
	}
	o.quiet = make(chan struct{})
	accepting := make(chan struct{})
	if ln != nil {
		go func() {
			defer close(accepting)
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				o.mu.Lock()
				o.conns = append(o.conns, c)
				o.mu.Unlock()
				o.ev("accept")
				o.wg.Add(1)
				go o.serve(c)
			}
		}()
	} else {
		close(accepting)
	}
	_, port, _ := net.SplitHostPort(addr)
	url := strings.NewReplacer("ADDR", addr, "PORT", port, "DIR", dir).Replace(sc.URL)
	tmo := time.Duration(sc.Tmo) * time.Millisecond
	o.t0 = time.Now()
	o.ev("call")
	var conn bolt.Conn
	var pool bolt.ClosableDriverPool
	var err error
	wait := func() time.Duration { return 4*tmo + time.Duration(sc.Delay*4)*time.Millisecond + slack }
	ok := o.limited(wait(), func() {
		switch sc.Entry {
		case "sql":
			var c driver.Conn
			c, err = bolt.NewDriver().Open(url)
			if err == nil {
				conn = c.(bolt.Conn)
			}
		case "pool":
			pool, err = bolt.NewClosableDriverPool(url, 1)
			if err == nil {
				conn, err = pool.OpenPool()
			}
		default:
			conn, err = bolt.NewDriver().OpenNeo(url)
		}
	})
	if ok {
		if err != nil {
			conn = nil // may hold a nil pointer
			o.ev("reterr", "err", o.classify(err))
		} else if conn == nil {
			o.ev("panic", "what", "no connection and no error")
			ok = false
		} else {
			o.ev("retok")
			ok = o.uses(&conn, pool, &tmo, slack)
		}
	}
	if ok && conn != nil {
		o.use.Store("ok")
		o.said.Store(false)
		o.ev("close")
		ok = o.limited(wait(), func() { conn.Close() })
		if ok {
			o.ev("closed")
		}
	}
	if ok && pool != nil {
		ok = o.limited(wait(), func() { pool.Close() })
	}
	// the server has to see the end of the connection
	if ln != nil {
		until := time.Now().Add(3 * time.Second)
		if err != nil && conn == nil {
			time.Sleep(30 * time.Millisecond) // a late contact
		}
		for time.Now().Before(until) {
			o.Lock()
			acc, eof := 0, 0
			for _, e := range o.events {
				switch e["e"] {
				case "accept":
					acc++
				case "eof":
					eof++
				}
			}
			o.Unlock()
			if !ok || eof >= acc {
				break
			}
			time.Sleep(2 * time.Millisecond)
		}
	}
	o.ev("end")
	evs := o.finish()
	close(o.quiet)
	if ln != nil {
		ln.Close()
		<-accepting
	}
	o.mu.Lock()
	for _, c := range o.conns {
		c.Close()
	}
	o.mu.Unlock()
	return evs
}

var bigParam = strings.Repeat("0123456789abcdef", 2<<20)

func (o *openRun) uses(held *bolt.Conn, pool bolt.DriverPool, tmo *time.Duration, slack time.Duration) bool {
	var tx driver.Tx
	var rows bolt.Rows
	conn := *held
	for _, u := range o.sc.Uses {
		if u.Op == "again" {
			// the next user of the connection
			var err error
			if !o.limited(4**tmo+slack, func() {
				if err = conn.Close(); err == nil {
					conn, err = pool.OpenPool()
				}
			}) {
				return false
			}
			if err != nil {
				o.ev("againerr", "err", o.classify(err))
				return false
			}
			*held = conn
			*tmo = time.Duration(o.sc.Tmo) * time.Millisecond
			o.ev("again")
			continue
		}
		if u.Tmo > 0 {
			*tmo = time.Duration(u.Tmo) * time.Millisecond
			conn.SetTimeout(*tmo)
			o.ev("settimeout", "ms", u.Tmo)
		}
		o.said.Store(false)
		o.use.Store(u.K)
		o.delay.Store(int64(u.Delay))
		o.ev("usecall", "k", u.K, "op", u.Op)
		var err error
		if !o.limited(4**tmo+time.Duration(max(o.sc.Delay, u.Delay)*6)*time.Millisecond+slack, func() {
			params := map[string]interface{}{"p": 1}
			if u.K == "noread" {
				params["p"] = bigParam
			}
			switch u.Op {
			case "exec":
				_, err = conn.ExecNeo("X1", params)
			case "query":
				_, _, _, err = conn.QueryNeoAll("X1", params)
			case "rows":
				rows, err = conn.QueryNeo("X1", params)
				if err == nil {
					err = rows.Close()
				}
			case "pipe":
				_, err = conn.ExecPipeline([]string{"X1", "X2"}, params, params)
			case "qpipe":
				var r bolt.PipelineRows
				r, err = conn.QueryPipeline([]string{"X1", "X2"}, params, params)
				if err == nil {
					err = r.Close()
				}
			case "stmt":
				var st bolt.Stmt
				st, err = conn.PrepareNeo("X1")
				if err == nil {
					_, err = st.ExecNeo(params)
					if e := st.Close(); err == nil {
						err = e
					}
				}
			case "begin":
				tx, err = conn.Begin()
			case "commit":
				err = tx.Commit()
			case "rollback":
				err = tx.Rollback()
			}
		}) {
			return false
		}
		if err != nil {
			o.ev("useerr", "err", o.classify(err))
		} else {
			o.ev("useok")
		}
	}
	return true
}

func openMain(in, out, dir string, workers int, slack time.Duration) error {
	b, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	var scs []openScenario
	if err := json.Unmarshal(b, &scs); err != nil {
		return err
	}
	os.Setenv("SSL_CERT_FILE", filepath.Join(dir, "ca2.pem"))
	os.Setenv("SSL_CERT_DIR", filepath.Join(dir, "nothing"))
	p, err := newPKI(dir)
	if err != nil {
		return err
	}
	outs := make([][]event, len(scs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	for i := range scs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			o := &openRun{sc: scs[i], pki: p, tag: i + 1, rnd: mrand.New(mrand.NewSource(scs[i].Seed))}
			outs[i] = o.run(dir, slack)
		}(i)
	}
	wg.Wait()
	return writeJSON(out, outs)
}
