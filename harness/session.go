package main

import (
	"bytes"
	"crypto/tls"
	"database/sql/driver"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	berrors "github.com/johnnadratowski/golang-neo4j-bolt-driver/errors"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

// A scenario is a behaviour of the specification BoltSession: the calls of the
// user and, in order, the answers the server chooses.
type step struct {
	Op    string `json:"op"`
	N     int    `json:"n"`
	Stall bool   `json:"stall"`
	Gone  string `json:"gone"` // what happens to the idle connection just before: GCUT, GRST or GDEAF
	Big   bool   `json:"big"`  // the parameters are larger than what the network takes unread
}

type scenario struct {
	ID     int      `json:"id"`
	Pooled bool     `json:"pooled"`
	Frag   int      `json:"frag"`
	Chunk  int      `json:"chunk"`
	Seed   int64    `json:"seed"`
	TLS    bool     `json:"tls"`
	Like   bool     `json:"like"`
	Bare   int      `json:"bare"` // which messages carry nothing, see shape
	Steps  []step   `json:"steps"`
	Script []string `json:"script"`
}

// sharedDriver, if set, opens the connections of all scenarios
var sharedDriver bolt.Driver

type tuning struct {
	normal  time.Duration // timeout of the connection where the peer answers
	stall   time.Duration // timeout where the peer goes silent
	slack   time.Duration
	eofWait time.Duration
}

// phys is one network connection accepted by the server
type phys struct {
	id   int
	conn net.Conn // what messages go over: TLS on raw, or raw
	raw  *cork
	eof  chan struct{}
	hurt int32 // the server did something after which the client may drop it
	gone string
	away chan struct{} // closed once the server is gone
}

type sessionRun struct {
	sc     scenario
	tr     *tracer
	tune   tuning
	mu     sync.Mutex
	script []string
	nf     int
	calls  [][2]int // the tags of the calls so far, and how many queries they run
	phys   []*phys
	shape  shape
	over   chan struct{} // the user has made its last call
}

// goAway makes the server of the current connection go away while nobody
// waits for it
func (r *sessionRun) goAway(how string) {
	p := r.current()
	r.mu.Lock()
	if p.gone != "" {
		r.mu.Unlock()
		return
	}
	p.gone = how
	r.mu.Unlock()
	p.conn.SetReadDeadline(time.Now().Add(-time.Second))
	select {
	case <-p.away:
	case <-p.eof:
	case <-time.After(5 * time.Second):
	}
}

// identify finds the tags of a query. One without parameters can only be told
// by where it comes: it follows the last query if this was not the last of its
// call, else it is the first of the present call (alike sessions have no calls
// that leave off part-way)
func (r *sessionRun) identify(q request, lastQ int) (int, int) {
	r.mu.Lock()
	want := -1
	if n := len(r.calls); n > 0 {
		want = r.calls[n-1][0]
	}
	for _, c := range r.calls {
		if lastQ >= c[0] && lastQ+1 < c[0]+c[1] {
			want = lastQ + 1
		}
	}
	r.mu.Unlock()
	x := r.shape.textTag(q.Text)
	if m, ok := q.Params.(map[string]interface{}); ok && len(m) == 0 {
		if r.shape.noParams(want) {
			return x, want
		}
		return x, -1
	}
	if r.shape.noParams(q.Q) {
		return x, -1
	}
	return x, q.Q
}

// endWrites says that nothing more will come, over TLS in one way or the other
func (p *phys) endWrites(rnd *rand.Rand) {
	t, ok := p.conn.(*tls.Conn)
	polite := rnd.Intn(2) == 0
	if ok && (polite || p.raw.on) {
		t.CloseWrite()
		if p.raw.on {
			p.raw.release()
		}
		if polite {
			return
		}
	}
	p.raw.Conn.(*net.TCPConn).CloseWrite()
}

func (r *sessionRun) current() *phys {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.phys[len(r.phys)-1]
}

func (r *sessionRun) goneBy(p *phys) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return p.gone
}

func (r *sessionRun) nextAnswer(valid func(string) bool, def string) string {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.script) > 0 {
		a := r.script[0]
		if valid(a) {
			r.script = r.script[1:]
			return a
		}
		r.script = nil
	}
	return def
}

func (r *sessionRun) failTag() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.nf++
	return r.nf
}

var garbage = [][]byte{
	{0xC4}, {0xB1, 0x70}, {0xB1, 0x70, 0x01}, {0xB1, 0x71, 0x85, 'a'}, {0xB2, 0x70, 0xA0}, {0xB1, 0x55, 0xA0},
	{0xB1, 0x71, 0x92, 0x01}, {0xB1, 0x70, 0xA1, 0x81, 'a'}, {}, {0xB1, 0x71, 0xD6, 0xFF, 0xFF, 0xFF, 0xFF, 0x01},
	{0xB1, 0x7F, 0xC0}, {0xB1, 0x71, 0x91, 0xB3, 0x4E, 0xC0, 0x90, 0xA0}, {0xB1, 0x70, 0xA1, 0x01, 0x01}, {0xB0},
	{0xB1, 0x71, 0x91, 0xC9, 0x01}, {0xB1, 0x71, 0x91, 0xD0},
}

func (r *sessionRun) serve(p *phys, rnd *rand.Rand) {
	c := p.conn
	defer close(p.eof)
	frag := r.sc.Frag
	if err := greet(c, rnd, frag); err != nil {
		return
	}
	split := whole
	if frag != 0 {
		split = func() int { return 1 + rnd.Intn(12) }
	}
	failed, nacked, dead := false, false, false
	lastQ, lastT := 0, ""
	for {
		payload, _, err := dechunk(c)
		if err != nil {
			how := r.goneBy(p)
			if how == "" || !isTimeout(err) {
				return
			}
			atomic.StoreInt32(&p.hurt, 1)
			r.tr.log(event{"e": "gone", "p": p.id, "k": how})
			tc := p.raw.Conn.(*net.TCPConn)
			switch how {
			case "GCUT":
				p.endWrites(rnd)
			case "GRST":
				tc.SetLinger(0)
				tc.Close()
				time.Sleep(2 * time.Millisecond)
				close(p.away)
				return
			}
			close(p.away)
			if how == "GDEAF" {
				// hear nothing for as long as the session goes on, see the end only
				<-r.over
			}
			tc.SetReadDeadline(time.Time{})
			io.Copy(io.Discard, tc)
			return
		}
		q := parseRequest(payload)
		if q.K == "RUN" && q.T == "Q" {
			q.X, q.Q = r.identify(q, lastQ)
		}
		if q.K == "RUN" {
			lastQ, lastT = q.Q, q.T
		} else if q.K == "PULL" || q.K == "DISCARD" {
			q.Q = lastQ
		}
		r.tr.log(event{"e": "recv", "p": p.id, "k": q.K, "t": q.T, "x": q.X, "q": q.Q})
		if dead {
			continue
		}
		for i := 1; ; i++ {
			isFault := func(a string) bool { return strings.Contains("CUT CUTMID STALL STALLMID GARB ODDI ODDR", a) }
			work := q.K == "RUN" || q.K == "PULL" || q.K == "DISCARD"
			def := "SUCC"
			if failed && work {
				def = "IGN"
			}
			a := r.nextAnswer(func(a string) bool {
				if isFault(a) {
					return true
				}
				if failed && work {
					return a == "IGN"
				}
				return a == "SUCC" || a == "FAIL" || a == "REC" && q.K == "PULL"
			}, def)
			ev := event{"e": "send", "p": p.id, "k": a, "q": q.Q, "i": 0, "f": 0, "s": "run"}
			if q.K == "PULL" || q.K == "DISCARD" {
				ev["s"] = "end"
			}
			var m []byte
			more := false
			switch a {
			case "SUCC":
				switch q.K {
				case "RUN":
					m = msg(sigSuccess, r.shape.runMeta(q.Q))
					if q.T != "Q" {
						m = msg(sigSuccess, r.shape.txMeta(i))
					}
				case "PULL", "DISCARD":
					m = msg(sigSuccess, r.shape.endMeta(q.Q))
				default:
					m = msg(sigSuccess, r.shape.txMeta(i))
				}
				failed, nacked = false, false
			case "REC":
				ev["i"] = i
				m = msg(sigRecord, r.shape.row(q.Q, i))
				more = true
			case "FAIL":
				f := r.failTag()
				ev["f"] = f
				m = msg(sigFailure, r.shape.failMeta(f))
				failed = true
				nacked = nacked || q.K == "ACK"
			case "IGN":
				m = msg(sigIgnored)
			case "ODDI":
				m = msg(sigIgnored)
			case "ODDR":
				m = msg(sigRecord, []interface{}{q.Q, 77})
			case "GARB":
				m = garbage[rnd.Intn(len(garbage))]
			case "CUTMID", "STALLMID":
				if q.K == "PULL" {
					m = msg(sigRecord, []interface{}{q.Q, i, "some text to make it longer"})
				} else {
					m = msg(sigSuccess, map[string]interface{}{"fields": []interface{}{"c", "i"}, "tag": q.Q, "type": "rw"})
				}
			}
			r.tr.log(ev)
			if isFault(a) || a == "FAIL" && (q.K == "RESET" || q.T == "ROLLBACK" || lastT == "ROLLBACK") {
				atomic.StoreInt32(&p.hurt, 1)
			}
			out := chunks(m, split)
			switch a {
			case "CUTMID", "STALLMID":
				out = out[:1+rnd.Intn(len(out)-1)]
			case "CUT", "STALL":
				out = nil
			}
			last := 0
			if a == "CUTMID" && r.sc.TLS && rnd.Intn(2) == 0 {
				// the end comes together with the last of the message
				last = 1 + rnd.Intn(len(out))
				if err := fragWrite(c, out[:len(out)-last], rnd, frag); err == nil {
					p.raw.hold()
					c.Write(out[len(out)-last:])
				}
			} else if len(out) > 0 {
				if err := fragWrite(c, out, rnd, frag); err != nil {
					// the client is gone: wait for its end
					dead = true
				}
			}
			if isFault(a) {
				dead = true
			}
			if a == "CUT" || a == "CUTMID" {
				p.endWrites(rnd)
			}
			if !more || dead {
				break
			}
		}
	}
}

// errClass classifies an error the way the specification does
func (s shape) errClass(err error) (string, int) {
	if err == nil {
		return "none", 0
	}
	if err == io.EOF {
		return "eof", 0
	}
	inner := err
	if e, ok := err.(*berrors.Error); ok {
		if e == nil {
			return "nilerr", 0
		}
		inner = e.InnerMost()
	}
	if inner == driver.ErrBadConn {
		return "bad", 0
	}
	if f, ok := inner.(messages.FailureMessage); ok {
		return "fail", s.failTag(f.Metadata)
	}
	return "other", 0
}

func tagOf(m map[string]interface{}) int {
	t, ok := m["tag"].(int64)
	if !ok {
		return -1
	}
	return int(t)
}

func colsOf(cols []string, meta map[string]interface{}) int {
	if len(cols) != 2 || !strings.HasPrefix(cols[0], "c") || cols[1] != "i" {
		return -1
	}
	t := num(cols[0][1:])
	if tagOf(meta) != t {
		return -1
	}
	return t
}

type user struct {
	conn   bolt.Conn
	S, OS  interface{}
	R, OR  interface{}
	T, OT  driver.Tx
	tag    int
	pool   bolt.DriverPool
	connSt string
	chunk  int
	shape  shape
	pad    string // makes parameters big
	sql    bool   // use the database/sql interface of the driver where there is one
}

// what the objects of the driver offer database/sql
type sqlConn interface {
	Exec(query string, args []driver.Value) (driver.Result, error)
	Query(query string, args []driver.Value) (driver.Rows, error)
	Prepare(query string) (driver.Stmt, error)
}
type sqlStmt interface {
	Exec(args []driver.Value) (driver.Result, error)
	Query(args []driver.Value) (driver.Rows, error)
}
type sqlRows interface {
	Next(dest []driver.Value) error
}

// args are parameters the way database/sql gives them, in one or two maps
func args(p map[string]interface{}, rnd *rand.Rand) []driver.Value {
	a, b := map[string]interface{}{}, map[string]interface{}{}
	two := rnd.Intn(2) == 0
	keys := make([]string, 0, len(p))
	for k := range p {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if two && rnd.Intn(2) == 0 {
			b[k] = p[k]
		} else {
			a[k] = p[k]
		}
	}
	if len(p) == 0 && two {
		return nil
	}
	enc := func(m map[string]interface{}) driver.Value { return chunks(pack(nil, m), whole) }
	if two {
		return []driver.Value{enc(a), enc(b)}
	}
	return []driver.Value{enc(a)}
}

func badArgs(q int, rnd *rand.Rand) []driver.Value {
	ok := chunks(pack(nil, sentParams(q)), whole)
	bad := []driver.Value{[]byte{}, []byte{0, 0}, "text", int64(1), nil, ok[:len(ok)-3], chunks(pack(nil, []interface{}{int64(1)}), whole)}
	out := []driver.Value{ok, bad[rnd.Intn(len(bad))]}
	if rnd.Intn(2) == 0 {
		return out[1:]
	}
	return out
}

// nextSQL gets the next row the way database/sql does
func nextSQL(r sqlRows, n int) ([]interface{}, error) {
	dest := make([]driver.Value, n)
	if err := r.Next(dest); err != nil {
		return nil, err
	}
	row := make([]interface{}, n)
	for i, v := range dest {
		row[i] = v
		if b, ok := v.([]byte); ok {
			p, _, err := dechunk(bytes.NewReader(b))
			if err != nil {
				return nil, err
			}
			if row[i], err = unpack(p); err != nil {
				return nil, err
			}
		}
	}
	return row, nil
}

// params are the parameters of a call with tag q
func (u *user) params(q int) map[string]interface{} {
	p := u.shape.params(q)
	if u.pad != "" {
		if p == nil {
			p = map[string]interface{}{}
		}
		p["pad"] = u.pad
	}
	return p
}

type outcome struct {
	err  string
	f    int
	rows [][]int
	cols int
	meta []int
	next bool
	// the interface used does not give out the metadata
	blind bool
}

func (o outcome) event(bare, slow bool) event {
	rows := o.rows
	if rows == nil {
		rows = [][]int{}
	}
	meta := o.meta
	if meta == nil {
		meta = []int{}
	}
	return event{"e": "ret", "err": o.err, "f": o.f, "rows": rows, "cols": o.cols, "meta": meta, "next": o.next, "bare": bare, "slow": slow, "blind": o.blind}
}

var bigPad = strings.Repeat("p", 16<<20)

type unencodable struct{ A int }

func badParams(q int) map[string]interface{} {
	p := sentParams(q)
	p["z"] = []interface{}{1, map[string]interface{}{"k": unencodable{1}}}
	return p
}

func (u *user) texts(x, n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = u.shape.text(x + i)
	}
	return out
}

func (u *user) pparams(q, n int) []map[string]interface{} {
	out := make([]map[string]interface{}, n)
	for i := range out {
		out[i] = u.params(q + i)
	}
	return out
}

// handles as the API gives them (the concrete types implement more)
type hStmt struct{ bolt.Stmt }
type hPStmt struct{ bolt.PipelineStmt }
type hRows struct{ bolt.Rows }
type hPRows struct{ bolt.PipelineRows }

func (u *user) newRows(r interface{}) {
	u.OR, u.R = u.R, r
}

func closeAny(h interface{}) error {
	return h.(interface{ Close() error }).Close()
}

func (u *user) do(op string, q, n int, rnd *rand.Rand) (o outcome) {
	defer func() {
		if e := recover(); e != nil {
			o = outcome{err: "panic"}
			fmt.Fprintf(os.Stderr, "panic in %s: %v\n", op, e)
		}
	}()
	var err error
	text := u.shape.text(q)
	fin := func() outcome {
		o.err, o.f = u.shape.errClass(err)
		return o
	}
	resMeta := func(res bolt.Result) {
		if err == nil {
			o.meta = []int{u.shape.endTag(res.Metadata())}
		}
	}
	resMetas := func(res []bolt.Result) {
		if err == nil {
			for _, x := range res {
				o.meta = append(o.meta, u.shape.endTag(x.Metadata()))
			}
		}
	}
	bad := u.pparams(q, n)
	if n > 0 {
		bad[rnd.Intn(n)] = badParams(q)
	}
	cnt := u.pparams(q, n+1-2*rnd.Intn(2))
	pstmt := func() bolt.PipelineStmt { return u.S.(hPStmt) }
	rows := func(r bolt.Rows) {
		if err == nil {
			o.cols = u.shape.colsTag(r.Columns(), r.Metadata())
			u.newRows(hRows{r})
		}
	}
	prows := func(r bolt.PipelineRows) {
		if err == nil {
			o.cols = u.shape.colsTag(r.Columns(), r.Metadata())
			u.newRows(hPRows{r})
		}
	}
	sqlMeta := func(r driver.Result) {
		if err == nil {
			if x, ok := r.(bolt.Result); ok {
				resMeta(x)
			} else {
				o.blind = true
			}
		}
	}
	sqlRowsOf := func(r driver.Rows) {
		if err == nil {
			rows(r.(bolt.Rows))
		}
	}
	switch op {
	case "exec":
		var r bolt.Result
		if sc, ok := u.conn.(sqlConn); ok && u.sql {
			var d driver.Result
			d, err = sc.Exec(text, args(u.params(q), rnd))
			sqlMeta(d)
			break
		}
		r, err = u.conn.ExecNeo(text, u.params(q))
		resMeta(r)
	case "execbad":
		if sc, ok := u.conn.(sqlConn); ok && u.sql {
			_, err = sc.Exec(text, badArgs(q, rnd))
			break
		}
		_, err = u.conn.ExecNeo(text, badParams(q))
	case "query":
		var r bolt.Rows
		if sc, ok := u.conn.(sqlConn); ok && u.sql {
			var d driver.Rows
			d, err = sc.Query(text, args(u.params(q), rnd))
			sqlRowsOf(d)
			break
		}
		r, err = u.conn.QueryNeo(text, u.params(q))
		rows(r)
	case "querybad":
		var r bolt.Rows
		if sc, ok := u.conn.(sqlConn); ok && u.sql {
			var d driver.Rows
			d, err = sc.Query(text, badArgs(q, rnd))
			sqlRowsOf(d)
			break
		}
		r, err = u.conn.QueryNeo(text, badParams(q))
		rows(r)
	case "queryall", "queryallbad":
		p := u.params(q)
		if op == "queryallbad" {
			p = badParams(q)
		}
		var data [][]interface{}
		var m1, m2 map[string]interface{}
		data, m1, m2, err = u.conn.QueryNeoAll(text, p)
		if err == nil {
			for _, d := range data {
				o.rows = append(o.rows, u.shape.rowTag(d))
			}
			o.cols = u.shape.runTag(m1)
			o.meta = []int{u.shape.endTag(m2)}
		}
	case "execpipe", "execpipebad", "execpipecnt", "execpipe0":
		p := u.pparams(q, n)
		t := u.texts(q, n)
		switch op {
		case "execpipebad":
			p = bad
		case "execpipecnt":
			p = cnt
		case "execpipe0":
			t, p = nil, nil
		}
		var r []bolt.Result
		r, err = u.conn.ExecPipeline(t, p...)
		resMetas(r)
	case "qpipe", "qpipebad", "qpipecnt", "qpipe0":
		p := u.pparams(q, n)
		t := u.texts(q, n)
		switch op {
		case "qpipebad":
			p = bad
		case "qpipecnt":
			p = cnt
		case "qpipe0":
			t, p = nil, nil
		}
		var r bolt.PipelineRows
		r, err = u.conn.QueryPipeline(t, p...)
		prows(r)
	case "prep":
		var s bolt.Stmt
		if sc, ok := u.conn.(sqlConn); ok && u.sql {
			var d driver.Stmt
			d, err = sc.Prepare(text)
			if err == nil {
				u.OS, u.S = u.S, hStmt{d.(bolt.Stmt)}
			}
			break
		}
		s, err = u.conn.PrepareNeo(text)
		if err == nil {
			u.OS, u.S = u.S, hStmt{s}
		}
	case "ppipe":
		var s bolt.PipelineStmt
		s, err = u.conn.PreparePipeline(u.texts(q, n)...)
		if err == nil {
			u.OS, u.S = u.S, hPStmt{s}
		}
	case "begin":
		var t driver.Tx
		t, err = u.conn.Begin()
		if err == nil {
			u.OT, u.T = u.T, t
		}
	case "commit":
		err = u.T.Commit()
	case "rollback":
		err = u.T.Rollback()
	case "otcommit":
		err = u.OT.Commit()
	case "otrollback":
		err = u.OT.Rollback()
	case "sexec", "sexecbad", "osexec":
		p := u.params(q)
		if op == "sexecbad" {
			p = badParams(q)
		}
		h := u.S
		if op == "osexec" {
			h = u.OS
		}
		switch s := h.(type) {
		case hStmt:
			var r bolt.Result
			if ss, ok := s.Stmt.(sqlStmt); ok && u.sql {
				a := args(u.params(q), rnd)
				if op == "sexecbad" {
					a = badArgs(q, rnd)
				}
				var d driver.Result
				d, err = ss.Exec(a)
				sqlMeta(d)
				break
			}
			r, err = s.ExecNeo(p)
			resMeta(r)
		case hPStmt:
			var r []bolt.Result
			r, err = s.ExecPipeline(p)
			resMetas(r)
		}
	case "squery", "squerybad":
		p := u.params(q)
		if op == "squerybad" {
			p = badParams(q)
		}
		if s, ok := u.S.(hStmt); ok {
			var r bolt.Rows
			if ss, ok := s.Stmt.(sqlStmt); ok && u.sql {
				a := args(u.params(q), rnd)
				if op == "squerybad" {
					a = badArgs(q, rnd)
				}
				var d driver.Rows
				d, err = ss.Query(a)
				sqlRowsOf(d)
				break
			}
			r, err = s.QueryNeo(p)
			rows(r)
		} else {
			var r bolt.PipelineRows
			r, err = pstmt().QueryPipeline(p)
			prows(r)
		}
	case "sexecpipe", "sexecpipebad", "sexecpipecnt":
		p := u.pparams(q, n)
		if op == "sexecpipebad" {
			p = bad
		} else if op == "sexecpipecnt" {
			p = cnt
		}
		var r []bolt.Result
		r, err = pstmt().ExecPipeline(p...)
		resMetas(r)
	case "sqpipe", "sqpipebad", "sqpipecnt":
		p := u.pparams(q, n)
		if op == "sqpipebad" {
			p = bad
		} else if op == "sqpipecnt" {
			p = cnt
		}
		var r bolt.PipelineRows
		r, err = pstmt().QueryPipeline(p...)
		prows(r)
	case "sclose":
		err = closeAny(u.S)
	case "osclose":
		err = closeAny(u.OS)
	case "rnext", "pnext", "ornext":
		h := u.R
		if op == "ornext" {
			h = u.OR
		}
		switch r := h.(type) {
		case hPRows:
			var row []interface{}
			var m map[string]interface{}
			var nx bolt.PipelineRows
			row, m, nx, err = r.NextPipeline()
			if err == nil && row != nil {
				o.rows = [][]int{u.shape.rowTag(row)}
			}
			if err == nil && nx != nil {
				o.next = true
				o.cols = u.shape.colsTag(nx.Columns(), nx.Metadata())
				if u.shape.runTag(m) != o.cols {
					o.cols = -1
				}
				u.newRows(hPRows{nx})
			}
		case hRows:
			var row []interface{}
			var m map[string]interface{}
			if sr, ok := r.Rows.(sqlRows); ok && u.sql && u.shape.bare == 0 {
				o.blind = true
				row, err = nextSQL(sr, len(r.Columns()))
				if err == nil {
					o.rows = [][]int{u.shape.rowTag(row)}
				}
				break
			}
			row, m, err = r.NextNeo()
			if err == nil && row != nil {
				o.rows = [][]int{u.shape.rowTag(row)}
			}
			if err == io.EOF {
				if row != nil {
					o.rows = [][]int{u.shape.rowTag(row)}
				}
				if m != nil {
					o.meta = []int{u.shape.endTag(m)}
				}
			}
		}
	case "rall":
		if r, ok := u.R.(hRows); ok {
			var data [][]interface{}
			var m map[string]interface{}
			data, m, err = r.All()
			if err == nil {
				for _, d := range data {
					o.rows = append(o.rows, u.shape.rowTag(d))
				}
				if m != nil {
					o.meta = []int{u.shape.endTag(m)}
				}
			}
		} else {
			_, _, _, err = u.R.(hPRows).NextPipeline()
		}
	case "rclose":
		err = closeAny(u.R)
	case "orclose":
		err = closeAny(u.OR)
	case "close":
		err = u.conn.Close()
	case "reopen":
		var c bolt.Conn
		c, err = u.pool.OpenPool()
		if err == nil {
			*u = user{conn: c, tag: u.tag, pool: u.pool, connSt: u.connSt, chunk: u.chunk, shape: u.shape}
			if u.chunk > 0 {
				u.conn.SetChunkSize(uint16(u.chunk))
			}
		}
	default:
		panic("harness: unknown op " + op)
	}
	return fin()
}

func runSession(sc scenario, ln net.Listener, tune tuning, pki *sessionPKI) (tr []event, fatal error) {
	if len(sc.Script) > 300 {
		// much is sent: leave time for it
		tune.stall *= 4
		if sc.Frag > 0 {
			sc.Frag += 8
		}
	}
	r := &sessionRun{sc: sc, tr: &tracer{}, tune: tune, script: sc.Script, shape: shape{sc.Seed, sc.Bare, sc.Like}, over: make(chan struct{})}
	rnd := rand.New(rand.NewSource(sc.Seed))
	stop := make(chan struct{})
	acceptDone := make(chan struct{})
	var wg sync.WaitGroup
	// accept until told to stop (a deadline ends a pending Accept)
	ln.(*net.TCPListener).SetDeadline(time.Time{})
	go func() {
		defer close(acceptDone)
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			select {
			case <-stop:
				c.Close()
				continue
			default:
			}
			r.mu.Lock()
			p := &phys{id: len(r.phys) + 1, conn: c, raw: &cork{Conn: c}, eof: make(chan struct{}), away: make(chan struct{})}
			if sc.TLS {
				p.conn = tls.Server(p.raw, pki.conf)
			}
			r.phys = append(r.phys, p)
			r.mu.Unlock()
			r.tr.log(event{"e": "phys", "p": p.id})
			wg.Add(1)
			go func(s int64) { defer wg.Done(); r.serve(p, rand.New(rand.NewSource(s))) }(sc.Seed + int64(p.id)*7919)
		}
	}()
	defer func() {
		close(stop)
		ln.(*net.TCPListener).SetDeadline(time.Now())
		<-acceptDone
		r.mu.Lock()
		for _, p := range r.phys {
			p.raw.Close()
		}
		r.mu.Unlock()
		wg.Wait()
	}()

	u := &user{tag: 1, chunk: sc.Chunk, shape: r.shape}
	u.connSt = fmt.Sprintf("bolt://%s?timeout=%d", ln.Addr().String(), int(tune.normal/time.Second))
	if sc.TLS {
		u.connSt += pki.options()
	}
	var err error
	if sc.Pooled {
		u.pool, err = bolt.NewDriverPool(u.connSt, 1)
		if err == nil {
			u.conn, err = u.pool.OpenPool()
		}
	} else {
		d := sharedDriver
		if d == nil {
			d = bolt.NewDriver()
		}
		u.conn, err = d.OpenNeo(u.connSt)
	}
	if err != nil {
		r.tr.log(event{"e": "ret", "err": "openfailed", "f": 0, "rows": [][]int{}, "cols": 0, "meta": []int{}, "next": false, "bare": false, "slow": false, "blind": false})
		return r.tr.finish(), nil
	}
	if u.chunk > 0 {
		u.conn.SetChunkSize(uint16(u.chunk))
	}

	steps := append([]step{}, sc.Steps...)
	steps = append(steps, step{Op: "close", N: 1})
	aborted, quiet := false, false // quiet: the server has gone silent, or may do so
	for _, st := range steps {
		q := u.tag
		u.tag += st.N
		limit := 2*tune.normal + tune.slack
		if st.Gone != "" {
			r.goAway(st.Gone)
			quiet = st.Gone == "GDEAF"
		}
		u.sql = rnd.Intn(4) == 0
		u.pad = ""
		if st.Big {
			u.pad = bigPad
		}
		quiet = quiet || st.Stall
		if quiet {
			u.conn.SetTimeout(tune.stall)
			limit = tune.stall + tune.slack
		}
		r.mu.Lock()
		r.calls = append(r.calls, [2]int{q, st.N})
		r.mu.Unlock()
		began := time.Now()
		r.tr.log(event{"e": "call", "op": st.Op, "q": q, "n": st.N, "new": false})
		ch := make(chan outcome, 1)
		go func() { ch <- u.do(st.Op, q, st.N, rnd) }()
		stuck := r.tr.idle(limit)
		select {
		case o := <-ch:
			stuck.stop()
			r.tr.log(o.event(sc.Bare != 0, time.Since(began) > tune.normal/2))
			if quiet {
				u.conn.SetTimeout(tune.normal)
			}
			if o.err == "bad" || st.Op == "reopen" && r.goneBy(r.current()) == "" {
				quiet = false
			}
		case <-stuck.c:
			r.tr.log(outcome{err: "hang"}.event(sc.Bare != 0, true))
			aborted = true
		}
		if aborted {
			break
		}
	}
	close(r.over)
	// which network connections did the client close?
	r.mu.Lock()
	ph := append([]*phys{}, r.phys...)
	r.mu.Unlock()
	deadline := time.After(tune.eofWait)
	eofs := []bool{}
	for i, p := range ph {
		wait := deadline
		if sc.Pooled && i == len(ph)-1 {
			wait = time.After(5 * time.Millisecond)
			if atomic.LoadInt32(&p.hurt) != 0 {
				wait = deadline
			}
		}
		select {
		case <-p.eof:
			eofs = append(eofs, true)
		case <-wait:
			select {
			case <-p.eof:
				eofs = append(eofs, true)
			default:
				eofs = append(eofs, false)
			}
		}
	}
	r.tr.log(event{"e": "end", "eof": eofs})
	tr = r.tr.finish()
	return markReopens(tr), nil
}

// markReopens notes at every reopen whether the server saw a new network
// connection during it, and drops the bare phys events
func markReopens(in []event) []event {
	var out []event
	last := -1
	for _, e := range in {
		switch e["e"] {
		case "phys":
			if last >= 0 {
				out[last]["new"] = true
			} else if e["p"] != 1 {
				out = append(out, event{"e": "stray", "p": e["p"]})
			}
			continue
		case "call":
			last = -1
			if e["op"] == "reopen" {
				last = len(out)
			}
		case "ret":
			last = -1
		}
		out = append(out, e)
	}
	return out
}

func sessionMain(in, out string, workers int, tune tuning) error {
	b, err := os.ReadFile(in)
	if err != nil {
		return err
	}
	var scs []scenario
	if err := json.Unmarshal(b, &scs); err != nil {
		return err
	}
	pki, err := newSessionPKI()
	if err != nil {
		return err
	}
	defer os.RemoveAll(pki.dir)
	traces := make([][]event, len(scs))
	work := make(chan int)
	var wg sync.WaitGroup
	var firstErr error
	var mu sync.Mutex
	var waited int32
	for w := 0; w < workers; w++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			return err
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer ln.Close()
			for i := range work {
				if atomic.LoadInt32(&waited) >= 40 {
					// waiting for what does not come takes long: this is enough of it
					continue
				}
				t0 := time.Now()
				t, err := runSession(scs[i], ln, tune, pki)
				if time.Since(t0) > tune.normal*4/5 {
					atomic.AddInt32(&waited, 1)
				}
				if err != nil {
					mu.Lock()
					firstErr = err
					mu.Unlock()
				}
				traces[i] = t
			}
		}()
	}
	for i := range scs {
		work <- i
	}
	close(work)
	wg.Wait()
	if firstErr != nil {
		return firstErr
	}
	ob, err := json.Marshal(traces)
	if err != nil {
		return err
	}
	return os.WriteFile(out, ob, 0644)
}
