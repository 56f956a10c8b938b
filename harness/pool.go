package main

import (
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"regexp"
	"strings"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

// poolStep is one call of a user, or something that happens to the server
type poolStep struct {
	U     int    `json:"u"`
	Op    string `json:"op"` // open use close pclose reach
	H     int    `json:"h"`
	K     string `json:"k"`
	D     bool   `json:"d"`
	Async bool   `json:"async"` // go on without waiting for it
}

type poolScenario struct {
	ID       int        `json:"id"`
	M        int        `json:"m"`
	Closable bool       `json:"closable"`
	Seed     int64      `json:"seed"`
	Frag     int        `json:"frag"`
	Steps    []poolStep `json:"steps"`
	Inits    []string   `json:"inits"` // what becomes of the connections, in order
	Rbs      []string   `json:"rbs"`   // what the server says to a ROLLBACK, in order of the transactions
	// concurrent users instead of steps
	Users int      `json:"users"`
	Calls int      `json:"calls"`
	Kinds []string `json:"kinds"`
	Close bool     `json:"close"`
	Bad   int      `json:"bad"`  // percentage of connections turned away
	Kill  int      `json:"kill"` // percentage of answers after which the server goes away
	TLS   bool     `json:"tls"`
}

type poolHandle struct {
	conn bolt.Conn
	rows interface {
		Close() error
	}
	stmt interface {
		Close() error
	}
	tx      interface{ Commit() error }
	rowsTag int
	pipe    bool
}

type poolUser struct {
	id   int
	cmd  chan poolStep
	busy bool
	op   string
}

type poolRun struct {
	sc      poolScenario
	mu      sync.Mutex
	events  []event
	done    bool
	last    time.Time
	users   []*poolUser
	handles []*poolHandle
	pool    bolt.DriverPool
	inits   []string
	rbs     []string
	n       int
	np      int
	eof     map[int]bool
	hurt    map[int]bool
	conns   []net.Conn
	tls     *tls.Config
	dead    map[int]bool // the server has gone away
	kill    map[int]func()
	ln      net.Listener
	addr    string
	grace   time.Duration
	rnd     *rand.Rand
	down    bool
	pclosed bool
	wg      sync.WaitGroup
}

const (
	poolSmall = 150 * time.Millisecond
	poolSlow  = 450 * time.Millisecond
)

func (r *poolRun) logLocked(e event) {
	if !r.done {
		r.events = append(r.events, e)
	}
	r.last = time.Now()
}

func (r *poolRun) log(e event) {
	r.mu.Lock()
	r.logLocked(e)
	r.mu.Unlock()
}

var poolText = regexp.MustCompile(`^H(\d+) K([a-z]+) N(\d+)`)

func (r *poolRun) acceptLoop(ln net.Listener) {
	defer r.wg.Done()
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		r.mu.Lock()
		r.np++
		p := r.np
		r.conns = append(r.conns, c)
		init := "ok"
		if len(r.inits) > 0 {
			init = r.inits[0]
			r.inits = r.inits[1:]
		} else if r.sc.Users > 0 && r.rnd.Intn(100) < r.sc.Bad {
			init = []string{"refuse", "version", "dropinit", "junk"}[r.rnd.Intn(4)]
		}
		r.logLocked(event{"e": "accept", "p": p})
		seed := r.rnd.Int63()
		r.mu.Unlock()
		r.wg.Add(1)
		go func() {
			defer r.wg.Done()
			rnd := rand.New(rand.NewSource(seed))
			raw := c.(*net.TCPConn)
			sc := net.Conn(raw)
			if r.tls != nil {
				t := tls.Server(raw, r.tls)
				if t.Handshake() == nil {
					sc = t
				}
			}
			if r.tls == nil || sc != net.Conn(raw) {
				r.serve(&poolConn{sc, raw}, p, init, rnd)
			}
			r.mu.Lock()
			r.eof[p] = true
			r.logLocked(event{"e": "eof", "p": p})
			r.mu.Unlock()
			c.Close()
		}()
	}
}

// poolConn is a connection of the server: TLS on raw, or raw itself
type poolConn struct {
	net.Conn
	raw *net.TCPConn
}

// goAway ends the connection from the side of the server, in one way or another
func (c *poolConn) goAway(how int) {
	t, ok := c.Conn.(*tls.Conn)
	switch {
	case how%3 == 0:
		c.raw.SetLinger(0)
		c.raw.Close()
	case how%3 == 1 && ok:
		t.CloseWrite()
	default:
		c.raw.CloseWrite()
	}
}

func (r *poolRun) hurtful(p int) {
	r.mu.Lock()
	r.hurt[p] = true
	r.mu.Unlock()
}

// drainAll reads until the client closes
func drainAll(c net.Conn) {
	if p, ok := c.(*poolConn); ok {
		c = p.raw
	}
	io.Copy(io.Discard, c)
}

// goneAway says whether the server has gone away from p
func (r *poolRun) goneAway(p int) bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.dead[p]
}

func (r *poolRun) serve(c *poolConn, p int, init string, rnd *rand.Rand) {
	frag := r.sc.Frag
	var hs [20]byte
	if _, err := io.ReadFull(c, hs[:]); err != nil {
		return
	}
	initFail := func(b []byte) {
		r.hurtful(p)
		r.log(event{"e": "initfail", "p": p})
		if b != nil {
			fragWrite(c, b, rnd, frag)
		} else {
			c.goAway(1 + rnd.Intn(2))
		}
		drainAll(c)
	}
	switch init {
	case "drop":
		initFail(nil)
		return
	case "version":
		initFail([]byte{0, 0, 0, 0})
		return
	case "other":
		initFail([]byte{0, 0, 0, 7})
		return
	}
	fragWrite(c, goodVersion, rnd, frag)
	if _, _, err := dechunk(c); err != nil {
		return
	}
	switch init {
	case "refuse":
		initFail(chunks(msg(sigFailure, map[string]interface{}{"code": "Neo.ClientError.Security.Unauthorized", "message": "no"}), whole))
		return
	case "ignored":
		initFail(chunks(msg(sigIgnored), whole))
		return
	case "record":
		initFail(chunks(msg(sigRecord, []interface{}{1}), whole))
		return
	case "junk":
		initFail(chunks([]byte{0xB1, 0x70}, whole))
		return
	case "dropinit":
		initFail(nil)
		return
	}
	r.log(event{"e": "initok", "p": p})
	send := func(m []byte) { fragWrite(c, chunks(m, whole), rnd, frag) }
	succ := func(m map[string]interface{}) { send(msg(sigSuccess, m)) }
	failure := func(what string) {
		send(msg(sigFailure, map[string]interface{}{"code": neoCodes[rnd.Intn(len(neoCodes))], "message": what}))
	}
	send(msg(sigSuccess, map[string]interface{}{"server": "x"}))
	var kind, rb string
	var tag int
	failed := false
	r.mu.Lock()
	how := rnd.Intn(3)
	r.kill[p] = func() { c.goAway(how) }
	r.mu.Unlock()
	for {
		payload, lens, err := dechunk(c)
		if r.goneAway(p) {
			drainAll(c)
			return
		}
		if err != nil {
			return
		}
		v, err := unpack(payload)
		s, ok := v.(pStruct)
		if err != nil || !ok {
			r.log(event{"e": "stray", "p": p})
			return
		}
		if failed && (s.Sig == sigRun || s.Sig == sigPull || s.Sig == sigDiscard) {
			send(msg(sigIgnored))
			continue
		}
		switch s.Sig {
		case sigRun:
			text, _ := s.Fields[0].(string)
			kind, tag = text, 0
			switch text {
			case "BEGIN":
				r.mu.Lock()
				rb = "ok"
				if len(r.rbs) > 0 {
					rb = r.rbs[0]
					r.rbs = r.rbs[1:]
				} else if r.sc.Users > 0 && r.rnd.Intn(100) < r.sc.Bad {
					rb = "bad"
				}
				r.logLocked(event{"e": "begin", "p": p, "rb": rb})
				r.mu.Unlock()
				succ(map[string]interface{}{"fields": []interface{}{}})
				continue
			case "COMMIT", "ROLLBACK":
				if text == "ROLLBACK" && rb == "bad" {
					r.hurtful(p)
				}
				r.log(event{"e": "txend", "p": p, "t": text})
				if text == "ROLLBACK" && rb == "bad" {
					switch rnd.Intn(3) {
					case 0:
						c.goAway(rnd.Intn(3))
						drainAll(c)
						return
					case 1:
						send([]byte{0xC4})
						drainAll(c)
						return
					}
					failure("Rollback")
					failed = true
					continue
				}
				succ(map[string]interface{}{"fields": []interface{}{}})
				continue
			}
			m := poolText.FindStringSubmatch(text)
			if m == nil {
				r.log(event{"e": "stray", "p": p})
				return
			}
			kind, tag = m[2], num(m[3])
			if pm, ok := s.Fields[1].(map[string]interface{}); !ok || len(pm) != 1 || pm["n"] != int64(tag) {
				r.log(event{"e": "stray", "p": p})
				return
			}
			switch kind {
			case "drop", "junk", "stall", "resetfail", "ackjunk", "slow":
				r.hurtful(p)
			}
			if !strings.HasPrefix(kind, "more") {
				r.log(event{"e": "req", "p": p, "h": num(m[1]), "k": kind, "small": len(lens) > 1})
			}
			fields := map[string]interface{}{"fields": []interface{}{fmt.Sprintf("c%d", tag), "i"}, "tag": tag}
			switch kind {
			case "drop":
				if rnd.Intn(2) == 0 {
					b := chunks(msg(sigSuccess, fields), whole)
					c.Write(b[:1+rnd.Intn(len(b)-1)])
				}
				c.goAway(rnd.Intn(3))
				drainAll(c)
				return
			case "junk":
				send(garbage[rnd.Intn(len(garbage))])
				drainAll(c)
				return
			case "stall":
				drainAll(c)
				return
			case "fail", "resetfail", "ackjunk", "morefail":
				failure("Q")
				failed = true
				continue
			case "slow":
				time.Sleep(poolSlow)
			}
			succ(fields)
		case sigPull, sigDiscard:
			if s.Sig == sigPull && tag != 0 {
				n := 1
				if kind != "exec" && kind != "slow" {
					n = 3
				}
				for i := 0; i < n; i++ {
					send(msg(sigRecord, []interface{}{tag, i}))
				}
			}
			kill := false
			if kind != "pipe" && kind != "pfail" && r.sc.Users > 0 && rnd.Intn(100) < r.sc.Kill {
				// go away right afterwards
				r.mu.Lock()
				r.dead[p], kill = true, true
				r.logLocked(event{"e": "kill", "p": p})
				r.mu.Unlock()
			}
			succ(map[string]interface{}{"tag": tag})
			if kill {
				c.goAway(1 + rnd.Intn(2))
				drainAll(c)
				return
			}
		case sigAck:
			if !failed {
				r.log(event{"e": "stray", "p": p})
				return
			}
			switch kind {
			case "resetfail":
				failure("Ack")
			case "ackjunk":
				send(msg(sigRecord, []interface{}{1}))
				drainAll(c)
				return
			default:
				succ(map[string]interface{}{})
				failed = false
			}
		case sigReset:
			if kind == "resetfail" {
				failure("Reset")
				drainAll(c)
				return
			}
			succ(map[string]interface{}{})
			failed = false
		default:
			r.log(event{"e": "stray", "p": p})
			return
		}
	}
}

// ------------------------------------------------------------------ users

func (r *poolRun) tag() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.n++
	return r.n
}

func checkRow(row []interface{}, tag, i int) bool {
	return len(row) == 2 && row[0] == int64(tag) && row[1] == int64(i)
}

// use makes a call on a handle: "ok", "err", or "wrong" for what is not its answer
func (r *poolRun) use(h int, hd *poolHandle, kind string) (res string) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "panic in %s: %v\n", kind, e)
			res = "panic"
		}
	}()
	n := r.tag()
	text := fmt.Sprintf("H%d K%s N%d", h, kind, n)
	params := map[string]interface{}{"n": n}
	c := hd.conn
	verdict := func(err error) string {
		if err != nil {
			return "err"
		}
		return "ok"
	}
	switch kind {
	case "small":
		c.SetChunkSize(16)
		c.SetTimeout(poolSmall)
		return "ok"
	case "begin":
		tx, err := c.Begin()
		if err == nil {
			hd.tx = tx
		}
		return verdict(err)
	case "commit":
		return verdict(hd.tx.Commit())
	case "prep":
		st, err := c.PrepareNeo(text)
		if err == nil {
			hd.stmt = st
		}
		return verdict(err)
	case "drain":
		if hd.rows != nil {
			hd.rows.Close()
		}
		if hd.stmt != nil {
			hd.stmt.Close()
		}
		hd.rows, hd.stmt = nil, nil
		return "ok"
	case "next":
		var row []interface{}
		var err error
		switch rows := hd.rows.(type) {
		case bolt.Rows:
			row, _, err = rows.NextNeo()
		case bolt.PipelineRows:
			row, _, _, err = rows.NextPipeline()
		}
		if err == nil && row == nil {
			return "wrong"
		}
		return verdict(err)
	case "finish":
		rows, ok := hd.rows.(bolt.Rows)
		if !ok {
			return "err"
		}
		all, meta, err := rows.All()
		if err != nil {
			return "err"
		}
		if len(all) != 2 || !checkRow(all[0], hd.rowsTag, 1) || !checkRow(all[1], hd.rowsTag, 2) || tagOf(meta) != hd.rowsTag {
			return "wrong"
		}
		err = rows.Close()
		hd.rows = nil
		return verdict(err)
	case "rows", "prepq":
		var rows bolt.Rows
		var err error
		if kind == "rows" {
			rows, err = c.QueryNeo(text, params)
		} else {
			st, e := c.PrepareNeo(text)
			if e != nil {
				return "err"
			}
			hd.stmt = st
			rows, err = st.QueryNeo(params)
		}
		if err != nil {
			return "err"
		}
		hd.rows, hd.rowsTag, hd.pipe = rows, n, false
		if colsOf(rows.Columns(), rows.Metadata()) != n {
			return "wrong"
		}
		row, _, err := rows.NextNeo()
		if err != nil {
			return "err"
		}
		if !checkRow(row, n, 0) {
			return "wrong"
		}
		return "ok"
	case "pipe", "pfail":
		more := "moreok"
		if kind == "pfail" {
			more = "morefail"
		}
		n2 := r.tag()
		rows, err := c.QueryPipeline([]string{text, fmt.Sprintf("H%d K%s N%d", h, more, n2)}, params, map[string]interface{}{"n": n2})
		if err != nil {
			return "err"
		}
		hd.rows, hd.pipe = rows, true
		row, _, _, err := rows.NextPipeline()
		if err != nil {
			return "err"
		}
		if !checkRow(row, n, 0) {
			return "wrong"
		}
		return "ok"
	case "stall":
		c.SetTimeout(poolSmall)
	}
	if n%2 == 0 {
		res, err := c.ExecNeo(text, params)
		if err != nil {
			return "err"
		}
		if tagOf(res.Metadata()) != n {
			return "wrong"
		}
		return "ok"
	}
	all, m1, m2, err := c.QueryNeoAll(text, params)
	if err != nil {
		return "err"
	}
	if len(all) != 1 || !checkRow(all[0], n, 0) || tagOf(m1) != n || tagOf(m2) != n {
		return "wrong"
	}
	return "ok"
}

// possible says whether the call makes sense at all
func (r *poolRun) possible(st poolStep) bool {
	switch st.Op {
	case "use", "close":
		if st.H < 1 || st.H > len(r.handles) {
			return false
		}
		hd := r.handles[st.H-1]
		switch {
		case st.Op == "close":
			return true
		case st.K == "commit":
			return hd.tx != nil
		case st.K == "finish":
			return hd.rows != nil && !hd.pipe
		case st.K == "next":
			return hd.rows != nil
		}
	case "pclose":
		return r.sc.Closable
	}
	return true
}

// begin logs the call of a user; r.mu is held
func (r *poolRun) begin(u *poolUser, st poolStep) {
	u.busy, u.op = true, st.Op
	switch st.Op {
	case "open":
		r.logLocked(event{"e": "opencall", "u": u.id})
	case "use":
		r.logLocked(event{"e": "usecall", "u": u.id, "h": st.H, "k": st.K})
	case "close":
		r.logLocked(event{"e": "closecall", "u": u.id, "h": st.H})
	case "pclose":
		r.logLocked(event{"e": "poolcall", "u": u.id})
	}
}

func (r *poolRun) end(u *poolUser, e event) {
	e["u"] = u.id
	r.mu.Lock()
	r.logLocked(e)
	u.busy = false
	r.mu.Unlock()
}

func guard(f func() error) (res string) {
	defer func() {
		if e := recover(); e != nil {
			fmt.Fprintf(os.Stderr, "panic: %v\n", e)
			res = "panic"
		}
	}()
	if err := f(); err != nil {
		return "err"
	}
	return "ok"
}

// perform makes the call that has been begun
func (r *poolRun) perform(u *poolUser, st poolStep) int {
	r.mu.Lock()
	var hd *poolHandle
	if st.Op == "use" || st.Op == "close" {
		hd = r.handles[st.H-1]
	}
	r.mu.Unlock()
	switch st.Op {
	case "open":
		var c bolt.Conn
		res := guard(func() (err error) { c, err = r.pool.OpenPool(); return })
		r.mu.Lock()
		defer r.mu.Unlock()
		u.busy = false
		if res == "ok" && c != nil {
			r.handles = append(r.handles, &poolHandle{conn: c})
			r.logLocked(event{"e": "openret", "u": u.id})
			return len(r.handles)
		}
		switch res {
		case "err":
			r.logLocked(event{"e": "openerr", "u": u.id})
		default:
			r.logLocked(event{"e": "open" + res, "u": u.id})
		}
	case "use":
		r.end(u, event{"e": "useret", "r": r.use(st.H, hd, st.K)})
	case "close":
		r.end(u, event{"e": "closeret", "r": guard(hd.conn.Close)})
	case "pclose":
		r.mu.Lock()
		r.pclosed = true
		for p := 1; p <= r.np; p++ {
			r.hurt[p] = true
		}
		r.mu.Unlock()
		r.end(u, event{"e": "poolret", "r": guard(r.pool.(bolt.ClosableDriverPool).Close)})
	}
	return 0
}

func (r *poolRun) anyBusy(open bool) bool {
	for _, u := range r.users {
		if u.busy && (u.op == "open") == open {
			return true
		}
	}
	return false
}

// settle waits until nothing goes on anymore, and notes who is blocked
func (r *poolRun) settle() {
	t0 := time.Now()
	for {
		r.mu.Lock()
		if !r.anyBusy(false) {
			quiet := time.Since(r.last)
			if !r.anyBusy(true) {
				r.mu.Unlock()
				return
			}
			if quiet > r.grace {
				for _, u := range r.users {
					if u.busy {
						r.logLocked(event{"e": "blocked", "u": u.id})
					}
				}
				r.mu.Unlock()
				return
			}
		} else if time.Since(t0) > 15*time.Second {
			for _, u := range r.users {
				if u.busy && u.op != "open" {
					r.logLocked(event{"e": "hang", "u": u.id, "op": u.op})
				}
			}
			r.mu.Unlock()
			return
		}
		r.mu.Unlock()
		time.Sleep(300 * time.Microsecond)
	}
}

func (r *poolRun) listen() error {
	ln, err := net.Listen("tcp", r.addr)
	if err != nil {
		return err
	}
	r.ln = ln
	r.wg.Add(1)
	go r.acceptLoop(ln)
	return nil
}

func runPool(sc poolScenario, addr string, grace time.Duration, pki *poolPKI) (tr []event, err error) {
	r := &poolRun{sc: sc, inits: sc.Inits, rbs: sc.Rbs, eof: map[int]bool{}, hurt: map[int]bool{}, dead: map[int]bool{}, kill: map[int]func(){}, addr: addr, grace: grace,
		rnd: rand.New(rand.NewSource(sc.Seed)), last: time.Now()}
	if err := r.listen(); err != nil {
		return nil, err
	}
	r.addr = r.ln.Addr().String()
	cs := "bolt://" + r.addr + "?timeout=30"
	if sc.Seed%2 == 0 {
		cs = "bolt://user:pw@" + r.addr + "?timeout=30"
	}
	if sc.Seed%3 == 0 {
		cs = strings.Replace(cs, "timeout=30", "x=", 1)
	}
	if sc.TLS {
		r.tls = pki.conf
		cs += pki.options
	}
	if sc.Closable {
		r.pool, err = bolt.NewClosableDriverPool(cs, sc.M)
	} else {
		r.pool, err = bolt.NewDriverPool(cs, sc.M)
	}
	if err != nil {
		return nil, err
	}
	nu := 6
	for i := 1; i <= nu; i++ {
		u := &poolUser{id: i, cmd: make(chan poolStep, 1)}
		r.users = append(r.users, u)
	}
	if sc.Users > 0 {
		r.stress()
	} else {
		for _, u := range r.users {
			u := u
			go func() {
				for st := range u.cmd {
					r.perform(u, st)
				}
			}()
		}
		for _, st := range sc.Steps {
			if st.Op == "reach" {
				r.mu.Lock()
				if st.D != r.down {
					r.down = st.D
					if st.D {
						r.logLocked(event{"e": "reach", "d": true})
						r.ln.Close()
					} else {
						if err := r.listen(); err != nil {
							r.mu.Unlock()
							return nil, err
						}
						r.logLocked(event{"e": "reach", "d": false})
					}
				}
				r.mu.Unlock()
				continue
			}
			if st.Op == "kill" {
				r.mu.Lock()
				if f := r.kill[st.H]; f != nil && !r.anyBusy(false) && !r.hurt[st.H] && !r.eof[st.H] && !r.dead[st.H] {
					r.dead[st.H] = true
					r.logLocked(event{"e": "kill", "p": st.H})
					f()
				}
				r.mu.Unlock()
				time.Sleep(2 * time.Millisecond)
				continue
			}
			u := r.users[st.U-1]
			r.mu.Lock()
			if st.H == -1 {
				st.H = len(r.handles)
			}
			if u.busy || !r.possible(st) {
				r.mu.Unlock()
				continue
			}
			r.begin(u, st)
			r.mu.Unlock()
			u.cmd <- st
			if st.Async {
				time.Sleep(time.Duration(r.rnd.Intn(3000)) * time.Microsecond)
			} else {
				r.settle()
			}
		}
		r.settle()
		for _, u := range r.users {
			close(u.cmd)
		}
	}
	// which network connections did the client close?
	deadline := time.Now().Add(1500 * time.Millisecond)
	for {
		r.mu.Lock()
		open := false
		for p := 1; p <= r.np; p++ {
			if !r.eof[p] && (r.hurt[p] || r.dead[p] || r.pclosed) {
				open = true
			}
		}
		if !open || time.Now().After(deadline) {
			r.logLocked(event{"e": "end"})
			r.done = true
			tr = r.events
			r.mu.Unlock()
			break
		}
		r.mu.Unlock()
		time.Sleep(time.Millisecond)
	}
	r.mu.Lock()
	r.ln.Close()
	for _, c := range r.conns {
		c.Close()
	}
	r.mu.Unlock()
	if p, ok := r.pool.(bolt.ClosableDriverPool); ok {
		go guard(p.Close) // lets go of whoever is still waiting
	}
	return tr, nil
}

// stress lets users work concurrently, each on its own connections
func (r *poolRun) stress() {
	sc := r.sc
	closeAt := -1
	if sc.Close {
		closeAt = r.rnd.Intn(sc.Calls)
	}
	var wg sync.WaitGroup
	for i := 0; i < sc.Users; i++ {
		u := r.users[i]
		rnd := rand.New(rand.NewSource(sc.Seed + int64(i)*7919))
		closer := i == 0 && sc.Close
		wg.Add(1)
		go func() {
			defer wg.Done()
			do := func(st poolStep) int {
				st.U = u.id
				r.mu.Lock()
				if !r.possible(st) {
					r.mu.Unlock()
					return 0
				}
				r.begin(u, st)
				r.mu.Unlock()
				return r.perform(u, st)
			}
			h, old, tx, open := 0, 0, false, false
			for k := 0; k < sc.Calls; k++ {
				if closer && k == closeAt {
					do(poolStep{Op: "pclose"})
				}
				if rnd.Intn(4) == 0 {
					time.Sleep(time.Duration(rnd.Intn(800)) * time.Microsecond)
				}
				switch {
				case h == 0 && old != 0 && rnd.Intn(5) == 0:
					// it was closed, nobody else must notice
					st := []poolStep{{Op: "close", H: old}, {Op: "use", H: old, K: "exec"}, {Op: "use", H: old, K: "commit"},
						{Op: "use", H: old, K: "next"}, {Op: "use", H: old, K: "drain"}, {Op: "use", H: old, K: "begin"}}[rnd.Intn(6)]
					do(st)
				case h == 0:
					h, tx, open = do(poolStep{Op: "open"}), false, false
				case rnd.Intn(3) == 0:
					do(poolStep{Op: "close", H: h})
					h, old = 0, h
				default:
					kd := sc.Kinds[rnd.Intn(len(sc.Kinds))]
					if kd == "commit" && (!tx || open) || kd == "finish" && !open {
						kd = "exec"
					}
					do(poolStep{Op: "use", H: h, K: kd})
					tx = tx || kd == "begin"
					open = open || kd == "rows" || kd == "pipe" || kd == "pfail" || kd == "prepq" || kd == "prep"
					if kd == "drain" || kd == "finish" {
						open = false
					}
				}
			}
			if h != 0 {
				do(poolStep{Op: "close", H: h})
			}
		}()
	}
	fin := make(chan bool)
	go func() { wg.Wait(); close(fin) }()
	t0 := time.Now()
	for {
		select {
		case <-fin:
			return
		case <-time.After(20 * time.Millisecond):
		}
		r.mu.Lock()
		if time.Since(r.last) > 5*time.Second+20*r.grace || time.Since(t0) > 60*time.Second {
			for _, u := range r.users {
				if u.busy {
					r.logLocked(event{"e": "hang", "u": u.id, "op": u.op})
				}
			}
			r.mu.Unlock()
			return
		}
		r.mu.Unlock()
	}
}

func poolMain(in, out string, workers int, grace time.Duration) error {
	b, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	var scs []poolScenario
	if err := json.Unmarshal(b, &scs); err != nil {
		return err
	}
	pki, err := newSessionPKI()
	if err != nil {
		return err
	}
	defer os.RemoveAll(pki.dir)
	traces := make([][]event, len(scs))
	work := make(chan int)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstErr error
	for w := 0; w < workers; w++ {
		// a loopback address of its own, so that nobody takes the port while the server is down
		ip := fmt.Sprintf("127.%d.%d.%d", 10+os.Getpid()%200, 1+w/200, 1+w%200)
		addr := ip + ":0"
		pki := pki.forHost(ip)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range work {
				t, err := runPool(scs[i], addr, grace, pki)
				mu.Lock()
				if err != nil {
					firstErr = err
				}
				traces[i] = t
				mu.Unlock()
			}
		}()
	}
	for i := range scs {
		work <- i
	}
	close(work)
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	ob, err := json.Marshal(traces)
	if err != nil {
		return err
	}
	return os.WriteFile(out, ob, 0644)
}
