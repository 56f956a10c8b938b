package main

import (
	"fmt"
	"io"
	"net"
	"os"
	"sync"
	"time"
)

// a small scripted Bolt server for demonstrations
type fconn struct {
	net.Conn
	failed bool
	n      int // number of this connection, from 1
}

type freq struct {
	Sig    byte
	Text   string
	Params interface{}
	Fields []interface{}
}

type fake struct {
	ln     net.Listener
	mu     sync.Mutex
	conns  []*fconn
	reqs   []freq
	handle func(c *fconn, r freq)
	init   func(c *fconn, r freq) // nil: success

	refuseAck bool
}

func newFake(handle func(c *fconn, r freq)) *fake {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		fail("listen: %v", err)
	}
	f := &fake{ln: ln, handle: handle}
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			f.mu.Lock()
			fc := &fconn{Conn: c, n: len(f.conns) + 1}
			f.conns = append(f.conns, fc)
			f.mu.Unlock()
			go f.serve(fc)
		}
	}()
	go func() {
		time.Sleep(100 * time.Second)
		fail("the demonstration hangs")
	}()
	return f
}

func (f *fake) url(opts string) string { return "bolt://" + f.ln.Addr().String() + opts }

func (f *fake) requests() []freq {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]freq{}, f.reqs...)
}

func (f *fake) serve(c *fconn) {
	defer c.Close()
	var hs [20]byte
	if _, err := io.ReadFull(c, hs[:]); err != nil {
		return
	}
	c.Write([]byte{0, 0, 0, 1})
	for {
		p, _, err := dechunk(c)
		if err != nil {
			return
		}
		v, err := unpack(p)
		s, ok := v.(pStruct)
		if err != nil || !ok {
			return
		}
		r := freq{Sig: s.Sig, Fields: s.Fields}
		if s.Sig == sigRun && len(s.Fields) == 2 {
			r.Text, _ = s.Fields[0].(string)
			r.Params = s.Fields[1]
		}
		f.mu.Lock()
		f.reqs = append(f.reqs, r)
		f.mu.Unlock()
		switch {
		case r.Sig == sigInit:
			if f.init != nil {
				f.init(c, r)
			} else {
				c.success(nil)
			}
		case r.Sig == sigAck || r.Sig == sigReset:
			if f.handle != nil && r.Sig == sigReset {
				f.handle(c, r)
				continue
			}
			if f.refuseAck && r.Sig == sigAck {
				c.failure("NoAck")
				continue
			}
			c.failed = false
			c.success(nil)
		case c.failed:
			c.send(msg(sigIgnored))
		case f.handle != nil:
			f.handle(c, r)
		default:
			c.success(nil)
		}
	}
}

func (c *fconn) send(m []byte) { c.Write(chunks(m, whole)) }

func (c *fconn) success(m map[string]interface{}) {
	if m == nil {
		m = map[string]interface{}{}
	}
	c.send(msg(sigSuccess, m))
}

func (c *fconn) columns(names ...interface{}) {
	c.success(map[string]interface{}{"fields": names})
}

func (c *fconn) record(vals ...interface{}) { c.send(msg(sigRecord, vals)) }

func (c *fconn) failure(code string) {
	c.failed = true
	c.send(msg(sigFailure, map[string]interface{}{"code": code, "message": "m"}))
}

func fail(f string, a ...interface{}) {
	fmt.Printf("FAIL: "+f+"\n", a...)
	os.Exit(1)
}

// within runs f and fails if it takes longer than d
func within(d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() { defer close(done); f() }()
	select {
	case <-done:
	case <-time.After(d):
		fail("%s did not return within %v", what, d)
	}
}
