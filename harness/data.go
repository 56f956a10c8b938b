package main

// Queries, their parameters and results through the native and the sql
// interface; what was asked, sent and returned is judged by DataTrace.tla.

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
)

// dataQuery is what the server has for one query
type dataQuery struct {
	meta, sum obj
	rows      [][]obj
}

func (q dataQuery) json() obj {
	rows := make([][]obj, len(q.rows))
	for i, r := range q.rows {
		rows[i] = append([]obj{}, r...)
	}
	return obj{"meta": q.meta, "sum": q.sum, "rows": rows}
}

type dataRun struct {
	tracer
	g      gen
	mode   string // C21, C22
	ln     net.Listener
	script []dataQuery
	runs   atomic.Int32
	asked  int
	cut    int         // the server is gone after that many bytes, if not 0
	open   bolt.Driver // or a new one
	mu     sync.Mutex
	conns  []net.Conn
}

// cutConn is closed after some bytes
type cutConn struct {
	net.Conn
	left int
}

func (c *cutConn) Write(b []byte) (int, error) {
	if len(b) > c.left {
		c.Conn.Write(b[:c.left])
		c.left = 0
		c.Conn.Close()
		return 0, io.ErrClosedPipe
	}
	c.left -= len(b)
	return c.Conn.Write(b)
}

// ---------------------------------------------------------------- the server
func (r *dataRun) serve(c net.Conn, seed int64) {
	defer c.Close()
	if r.cut > 0 {
		c = &cutConn{Conn: c, left: r.cut}
	}
	g := gen{rand.New(rand.NewSource(seed))}
	if greet(c, g.Rand, 0) != nil {
		return
	}
	var cur *dataQuery
	pick := [](func() int){whole, func() int { return 1 + g.Intn(400) }, func() int { return 1 + g.Intn(9) }}
	sizes := pick[g.Intn(3)]
	send := func(sig int, d obj) bool {
		b := append([]byte{0xB1, byte(sig)}, g.wide(d)...)
		return fragWrite(c, chunks(b, sizes), g.Rand, 0) == nil
	}
	none := dataQuery{meta: dMap(nil), sum: dMap(nil)}
	for {
		payload, _, err := dechunk(c)
		if err != nil {
			return
		}
		v, err := unpack(payload)
		s, ok := v.(pStruct)
		if err != nil || !ok {
			r.log(event{"e": "junk"})
			return
		}
		switch s.Sig {
		case sigRun:
			text, _ := s.Fields[0].(string)
			if text == "BEGIN" || text == "COMMIT" || text == "ROLLBACK" {
				cur = &none
				send(sigSuccess, cur.meta)
				continue
			}
			n := int(r.runs.Add(1)) - 1
			if n >= len(r.script) {
				r.log(event{"e": "junk"})
				return
			}
			cur = &r.script[n]
			r.log(event{"e": "req", "p": describeWire(s.Fields[1])})
			if !send(sigSuccess, cur.meta) {
				return
			}
		case sigPull:
			for _, row := range cur.rows {
				if !send(sigRecord, dList(row)) {
					return
				}
			}
			send(sigSuccess, cur.sum)
		case sigDiscard:
			send(sigSuccess, cur.sum)
		default:
			send(sigSuccess, dMap(nil))
		}
	}
}

// describeWire tells what the server got
func describeWire(v interface{}) obj {
	switch x := v.(type) {
	case []interface{}:
		out := make([]obj, len(x))
		for i, e := range x {
			out[i] = describeWire(e)
		}
		return dList(out)
	case map[string]interface{}:
		out := map[string]obj{}
		for k, e := range x {
			out[k] = describeWire(e)
		}
		return dMap(out)
	case pStruct:
		h := make([]obj, len(x.Fields))
		for i, e := range x.Fields {
			h[i] = describeWire(e)
		}
		return dStruct(int(x.Sig), h...)
	}
	return describe(v)
}

// ---------------------------------------------------------------- generation
func (g gen) std(depth int) gval {
	for {
		if v := g.value(depth); v.std {
			return v
		}
	}
}

// cell is a value for a column
func (g gen) cell() gval {
	for {
		var v gval
		switch g.Intn(8) {
		case 0:
			v = g.list(2)
		case 1:
			_, v = g.props(2)
		case 2, 3:
			v = g.graph()
		default:
			v = g.value(2)
		}
		if v.std {
			return v
		}
	}
}

var counterNames = []string{"nodes-created", "relationships-created", "nodes-deleted", "relationships-deleted"}

func (g gen) badCounter() obj {
	switch g.Intn(8) {
	case 0:
		return dNil()
	case 1:
		return dStr("1")
	case 2:
		return dFloat(float64(g.Intn(5)))
	case 3:
		return dBool(true)
	case 4:
		return dList(nil)
	case 5:
		return dList([]obj{dInt(1)})
	case 6:
		return dMap(map[string]obj{"count": dInt(2)})
	}
	return dStruct(0x4E, dInt(1), dList(nil), dMap(nil))
}

func (g gen) counter() obj {
	switch g.Intn(12) {
	case 0:
		return dInt(g.int64())
	case 1:
		return dInt(math.MaxInt64 - int64(g.Intn(3)))
	case 2:
		return dInt(math.MinInt64 + int64(g.Intn(3)))
	case 3:
		return dInt(-int64(g.Intn(1000)))
	case 4:
		return dInt(0)
	case 5:
		return dInt(math.MaxInt64/2 + int64(g.Intn(3)))
	case 6:
		if g.Intn(2) == 0 {
			return g.badCounter()
		}
	}
	return dInt(int64(g.Intn(100000)))
}

func (g gen) summary() obj {
	m := map[string]obj{}
	for i := g.Intn(3); i > 0; i-- {
		m[[]string{"type", "plan", "notifications", "result_available_after", "x", ""}[g.Intn(6)]] = g.std(2).d
	}
	switch k := g.Intn(14); {
	case k == 0:
		m["stats"] = g.badCounter()
		if m["stats"]["t"] == "map" {
			m["stats"] = dNil()
		}
	case k < 3:
	case k == 3:
		m["stats"] = dMap(nil)
	default:
		st := map[string]obj{}
		for _, n := range counterNames {
			if g.Intn(3) > 0 {
				st[n] = g.counter()
			}
		}
		for _, n := range []string{"properties-set", "labels-added", "Nodes-Created", "nodes_created", "rows"} {
			if g.Intn(4) == 0 {
				st[n] = g.counter()
			}
		}
		m["stats"] = dMap(st)
	}
	return dMap(m)
}

func (g gen) columnNames(n int) []obj {
	out := make([]obj, n)
	for i := range out {
		out[i] = dStr([]string{"a", "b", "n.name", "", "A", "count(*)", g.text(g.Intn(8))}[g.Intn(7)])
	}
	return out
}

func (r *dataRun) query(sqlite bool) dataQuery {
	g := r.g
	n := g.Intn(5)
	if g.Intn(30) == 0 {
		n = 14 + g.Intn(6)
	}
	m := map[string]obj{}
	for i := g.Intn(2); i > 0; i-- {
		m[[]string{"type", "result_available_after", "x"}[g.Intn(3)]] = g.std(1).d
	}
	width := n
	switch k := g.Intn(12); {
	case k == 0:
		width = 0 // no fields at all
	case k == 1 && r.mode == "C22":
		width = 0
		bad := g.columnNames(1 + g.Intn(4))
		for bad[0]["t"] == "str" {
			bad[0] = g.std(1).d
		}
		g.Shuffle(len(bad), func(i, j int) { bad[i], bad[j] = bad[j], bad[i] })
		m["fields"] = dList(bad)
	case k == 2 && r.mode == "C22":
		width = 0
		for m["fields"] == nil || m["fields"]["t"] == "list" {
			m["fields"] = g.std(1).d
		}
	default:
		m["fields"] = dList(g.columnNames(n))
	}
	q := dataQuery{meta: dMap(m), sum: g.summary(), rows: [][]obj{}}
	if r.mode == "C21" {
		q.sum = dMap(map[string]obj{"type": dStr("r")})
	}
	rows := g.Intn(4)
	if g.Intn(12) == 0 {
		rows = 5 + g.Intn(20)
	}
	for i := 0; i < rows; i++ {
		w := width
		if !sqlite {
			w = n
		}
		if g.Intn(12) == 0 {
			w = g.Intn(n + 3)
		}
		row := make([]obj, w)
		for j := range row {
			if r.mode == "C22" {
				row[j] = dInt(int64(i*100 + j))
			} else {
				row[j] = g.cell().d
			}
		}
		q.rows = append(q.rows, row)
	}
	return q
}

// params are native parameters
func (r *dataRun) params() (map[string]interface{}, obj) {
	for {
		m, x := r.g.props(2)
		if x.std {
			return m, x.d
		}
	}
}

// sqlArg is an argument for the sql interface: what is given and its description
func (r *dataRun) sqlArg() (interface{}, obj) {
	g := r.g
	raw := func(b []byte) (interface{}, obj) { return b, obj{"k": "bytes", "b": toRope(b)} }
	marshal := func(v gval) []byte {
		if g.Intn(3) == 0 {
			return frame(g.wide(v.d))
		}
		b, err := encoding.Marshal(v.v)
		if err != nil {
			return nil
		}
		return b
	}
	if g.Intn(5) > 0 {
		// a map, often with the same few names
		d, m := map[string]obj{}, map[string]interface{}{}
		for i := g.Intn(5); i > 0; i-- {
			k := []string{"a", "b", "c", "", "long name with spaces", "é"}[g.Intn(6)]
			x := g.std(2)
			d[k], m[k] = x.d, x.v
		}
		b := marshal(gval{v: m, d: dMap(d)})
		if g.Intn(25) == 0 && len(b) > 0 {
			b = b[:g.Intn(len(b))]
		}
		return raw(b)
	}
	switch g.Intn(9) {
	case 0:
		return int64(g.Intn(5)), obj{"k": "other"}
	case 1:
		return "a", obj{"k": "other"}
	case 2:
		return nil, obj{"k": "other"}
	case 3:
		return 1.5, obj{"k": "other"}
	case 4:
		return true, obj{"k": "other"}
	case 5:
		return time.Now(), obj{"k": "other"}
	case 6:
		return raw([]byte{})
	case 7:
		b := make([]byte, g.Intn(12))
		g.Read(b)
		return raw(b)
	}
	return raw(marshal(g.std(1)))
}

func (r *dataRun) sqlArgs() (vals []interface{}, d []obj) {
	d = []obj{}
	n := []int{0, 1, 1, 1, 2, 2, 3, 4}[r.g.Intn(8)]
	for i := 0; i < n; i++ {
		v, x := r.sqlArg()
		vals = append(vals, v)
		d = append(d, x)
	}
	return
}

// ---------------------------------------------------------------- the calls
func (r *dataRun) called(k string, isSQL bool, args ...[]obj) {
	r.asked += len(args)
	r.log(event{"e": "call", "k": k, "sql": isSQL, "args": args})
}

func nativeArgs(d obj) []obj { return []obj{{"k": "map", "v": d}} }

func number(n int64, err error) obj { return obj{"err": err != nil, "n": dInt(n)} }

func (r *dataRun) results(rs ...bolt.Result) []obj {
	out := []obj{}
	if r.mode == "C21" {
		return out
	}
	for _, x := range rs {
		o := obj{"ra": number(x.RowsAffected()), "lid": number(x.LastInsertId()), "meta": describe(x.Metadata())}
		// it stays what it is
		if r.g.Intn(3) == 0 {
			o["ra"] = number(x.RowsAffected())
		}
		out = append(out, o)
	}
	return out
}

func strs(s []string) []obj {
	out := make([]obj, len(s))
	for i, x := range s {
		out[i] = dStr(x)
	}
	return out
}

func cells(row []interface{}) []obj {
	out := make([]obj, len(row))
	for i, x := range row {
		out[i] = describe(x)
	}
	return out
}

func sqlCell(v interface{}) obj {
	if b, ok := v.([]byte); ok {
		return obj{"t": "bytes", "b": toRope(b), "back": result(func() (interface{}, error) { return encoding.Unmarshal(b) })}
	}
	return describe(v)
}

func sqlCells(vals []interface{}) []obj {
	out := make([]obj, len(vals))
	for i, x := range vals {
		out[i] = sqlCell(x)
	}
	return out
}

var noSum = obj{"t": "-"}

func (r *dataRun) nativeRows(rows bolt.Rows) {
	r.log(event{"e": "rows", "cols": strs(rows.Columns()), "meta": describe(rows.Metadata())})
	stop := -1
	if r.g.Intn(4) == 0 {
		stop = r.g.Intn(3)
	}
	for i := 0; i != stop; i++ {
		row, sum, err := rows.NextNeo()
		if err == io.EOF {
			r.log(event{"e": "end", "sum": describe(sum)})
			break
		}
		if err != nil {
			r.log(event{"e": "rowerr", "what": err.Error()})
			break
		}
		r.log(event{"e": "row", "d": cells(row)})
	}
	if err := rows.Close(); err != nil {
		r.log(event{"e": "rowerr", "what": err.Error()})
	}
	r.log(event{"e": "close"})
}

func (r *dataRun) native(conn bolt.Conn) {
	g := r.g
	m, d := r.params()
	failed := func(err error) bool {
		if err != nil {
			r.log(event{"e": "err", "what": err.Error()})
		}
		return err != nil
	}
	switch g.Intn(8) {
	case 0:
		r.called("exec", false, nativeArgs(d))
		res, err := conn.ExecNeo("Q", m)
		if !failed(err) {
			r.log(event{"e": "exec", "res": r.results(res)})
		}
	case 1:
		r.called("exec", false, nativeArgs(d))
		st, err := conn.PrepareNeo("Q")
		if failed(err) {
			return
		}
		res, err := st.ExecNeo(m)
		if !failed(err) {
			r.log(event{"e": "exec", "res": r.results(res)})
		}
		st.Close()
	case 2:
		r.called("all", false, nativeArgs(d))
		rows, meta, sum, err := conn.QueryNeoAll("Q", m)
		if failed(err) {
			return
		}
		out := make([][]obj, len(rows))
		for i, row := range rows {
			out[i] = cells(row)
		}
		r.log(event{"e": "all", "rows": out, "meta": describe(meta), "sum": describe(sum)})
	case 3:
		r.called("rows", false, nativeArgs(d))
		rows, err := conn.QueryNeo("Q", m)
		if !failed(err) {
			r.nativeRows(rows)
		}
	case 4:
		st, err := conn.PrepareNeo("Q")
		r.called("rows", false, nativeArgs(d))
		if failed(err) {
			return
		}
		rows, err := st.QueryNeo(m)
		if !failed(err) {
			r.nativeRows(rows)
		}
		st.Close()
	case 5, 6:
		n := 1 + g.Intn(3)
		var qs []string
		var ps []map[string]interface{}
		var ds [][]obj
		for i := 0; i < n; i++ {
			m, d := r.params()
			qs, ps, ds = append(qs, "Q"), append(ps, m), append(ds, nativeArgs(d))
		}
		r.called("exec", false, ds...)
		var res []bolt.Result
		var err error
		if g.Intn(2) == 0 {
			res, err = conn.ExecPipeline(qs, ps...)
		} else {
			var st bolt.PipelineStmt
			if st, err = conn.PreparePipeline(qs...); err == nil {
				res, err = st.ExecPipeline(ps...)
				defer st.Close()
			}
		}
		if !failed(err) {
			r.log(event{"e": "exec", "res": r.results(res...)})
		}
	case 7:
		n := 1 + g.Intn(3)
		var qs []string
		var ps []map[string]interface{}
		var ds [][]obj
		for i := 0; i < n; i++ {
			m, d := r.params()
			qs, ps, ds = append(qs, "Q"), append(ps, m), append(ds, nativeArgs(d))
		}
		r.called("qpipe", false, ds...)
		rows, err := conn.QueryPipeline(qs, ps...)
		if failed(err) {
			return
		}
		r.log(event{"e": "rows", "cols": strs(rows.Columns()), "meta": describe(rows.Metadata())})
		for {
			row, _, next, err := rows.NextPipeline()
			if err == io.EOF || err == nil && row == nil && next == nil {
				r.log(event{"e": "end", "sum": noSum})
				break
			}
			if err != nil {
				r.log(event{"e": "rowerr", "what": err.Error()})
				break
			}
			if next != nil {
				r.log(event{"e": "set", "cols": strs(next.Columns()), "meta": describe(next.Metadata())})
				rows = next
				continue
			}
			r.log(event{"e": "row", "d": cells(row)})
		}
		rows.Close()
		r.log(event{"e": "close"})
	}
}

// plain driver values, as database/sql would make them
func driverValues(vals []interface{}) []driver.Value {
	out := make([]driver.Value, len(vals))
	for i, v := range vals {
		out[i] = v
	}
	return out
}

func (r *dataRun) driverRows(rows driver.Rows) {
	cols := rows.Columns()
	r.log(event{"e": "rows", "cols": strs(cols), "meta": noSum})
	dest := make([]driver.Value, len(cols))
	stop := -1
	if r.g.Intn(5) == 0 {
		stop = r.g.Intn(3)
	}
	for i := 0; i != stop && i < 60; i++ {
		err := rows.Next(dest)
		if err == io.EOF {
			r.log(event{"e": "end", "sum": noSum})
			break
		}
		if err != nil {
			r.log(event{"e": "rowerr", "what": err.Error()})
			continue
		}
		vals := make([]interface{}, len(dest))
		for j, v := range dest {
			vals[j] = v
		}
		r.log(event{"e": "row", "d": sqlCells(vals)})
	}
	rows.Close()
	r.log(event{"e": "close"})
}

func (r *dataRun) driverLevel(conn driver.Conn) {
	vals, d := r.sqlArgs()
	args := driverValues(vals)
	fail := func(err error) { r.log(event{"e": "err", "what": err.Error()}) }
	exec := func(res driver.Result, err error) {
		if err != nil {
			fail(err)
			return
		}
		out := []obj{}
		if r.mode == "C22" {
			out = r.results(res.(bolt.Result))
		}
		r.log(event{"e": "exec", "res": out})
	}
	query := func(rows driver.Rows, err error) {
		if err != nil {
			fail(err)
			return
		}
		r.driverRows(rows)
	}
	switch r.g.Intn(4) {
	case 0:
		r.called("exec", true, d)
		exec(conn.(driver.Execer).Exec("Q", args))
	case 1:
		r.called("rows", true, d)
		query(conn.(driver.Queryer).Query("Q", args))
	case 2:
		st, err := conn.Prepare("Q")
		r.called("exec", true, d)
		if err != nil {
			fail(err)
			return
		}
		exec(st.Exec(args))
		st.Close()
	case 3:
		st, err := conn.Prepare("Q")
		r.called("rows", true, d)
		if err != nil {
			fail(err)
			return
		}
		query(st.Query(args))
		st.Close()
	}
}

func (r *dataRun) sqlRows(rows *sql.Rows) {
	cols, err := rows.Columns()
	if err != nil {
		r.log(event{"e": "rowerr", "what": err.Error()})
		return
	}
	r.log(event{"e": "rows", "cols": strs(cols), "meta": noSum})
	stop := -1
	if r.g.Intn(5) == 0 {
		stop = r.g.Intn(3)
	}
	for i := 0; i != stop; i++ {
		if !rows.Next() {
			if err := rows.Err(); err != nil {
				r.log(event{"e": "rowerr", "what": err.Error()})
			} else {
				r.log(event{"e": "end", "sum": noSum})
			}
			break
		}
		vals := make([]interface{}, len(cols))
		ptrs := make([]interface{}, len(cols))
		for j := range vals {
			ptrs[j] = &vals[j]
		}
		if err := rows.Scan(ptrs...); err != nil {
			r.log(event{"e": "rowerr", "what": err.Error()})
			continue
		}
		r.log(event{"e": "row", "d": sqlCells(vals)})
	}
	rows.Close()
	r.log(event{"e": "close"})
}

// sqlPart is what queries go through: a database, transaction or connection
type sqlPart interface {
	Exec(string, ...interface{}) (sql.Result, error)
	Query(string, ...interface{}) (*sql.Rows, error)
	Prepare(string) (*sql.Stmt, error)
}

func (r *dataRun) sqlLevel(db sqlPart) {
	vals, d := r.sqlArgs()
	fail := func(err error) { r.log(event{"e": "err", "what": err.Error()}) }
	exec := func(res sql.Result, err error) {
		if err != nil {
			fail(err)
			return
		}
		out := []obj{}
		if r.mode == "C22" {
			q := r.script[r.runs.Load()-1]
			out = append(out, obj{"ra": number(res.RowsAffected()), "lid": number(res.LastInsertId()), "meta": q.sum})
		}
		r.log(event{"e": "exec", "res": out})
	}
	query := func(rows *sql.Rows, err error) {
		if err != nil {
			fail(err)
			return
		}
		r.sqlRows(rows)
	}
	k := r.g.Intn(4)
	name := []string{"exec", "rows"}[k%2]
	var st *sql.Stmt
	var err error
	if k >= 2 {
		st, err = db.Prepare("Q")
		if err == nil {
			defer st.Close()
		}
	}
	r.called(name, true, d)
	switch {
	case err != nil:
		fail(err)
	case k == 0:
		exec(db.Exec("Q", vals...))
	case k == 1:
		query(db.Query("Q", vals...))
	case k == 2:
		exec(st.Exec(vals...))
	case k == 3:
		query(st.Query(vals...))
	}
}

// ---------------------------------------------------------------- a scenario
// calls makes the calls of a scenario
func (r *dataRun) calls(url string) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				r.log(event{"e": "panic", "what": fmt.Sprint(p)})
			}
		}()
		level := r.g.Intn(3)
		recorded := r.open != nil
		if recorded {
			level = r.g.Intn(2)
		} else {
			r.open = bolt.NewDriver()
		}
		if r.mode == "C22" {
			level = []int{0, 0, 1, 2}[r.g.Intn(4)]
		}
		n := 2 + r.g.Intn(4)
		for i := 0; i < 3*n; i++ {
			r.script = append(r.script, r.query(level > 0))
		}
		switch level {
		case 0:
			conn, err := r.open.OpenNeo(url)
			if err != nil {
				r.log(event{"e": "open", "what": err.Error()})
				return
			}
			for i := 0; i < n; i++ {
				r.native(conn)
			}
			if err := conn.Close(); recorded {
				r.log(event{"e": "closed", "err": err != nil})
			}
		case 1:
			conn, err := r.open.Open(url)
			if err != nil {
				r.log(event{"e": "open", "what": err.Error()})
				return
			}
			for i := 0; i < n; i++ {
				r.driverLevel(conn)
			}
			if err := conn.Close(); recorded {
				r.log(event{"e": "closed", "err": err != nil})
			}
		case 2:
			db, err := sql.Open("neo4j-bolt", url)
			if err != nil {
				r.log(event{"e": "open", "what": err.Error()})
				return
			}
			db.SetMaxOpenConns(1)
			for i := 0; i < n; i++ {
				if r.g.Intn(4) == 0 {
					tx, err := db.Begin()
					if err != nil {
						r.log(event{"e": "open", "what": err.Error()})
						return
					}
					r.sqlLevel(tx)
					tx.Rollback()
					continue
				}
				r.sqlLevel(db)
			}
			db.Close()
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		r.log(event{"e": "hang"})
	}
}

func (r *dataRun) listen(seed int64) (err error) {
	r.g = gen{rand.New(rand.NewSource(seed))}
	if r.ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		return err
	}
	go func() {
		for i := int64(0); ; i++ {
			c, err := r.ln.Accept()
			if err != nil {
				return
			}
			r.mu.Lock()
			r.conns = append(r.conns, c)
			r.mu.Unlock()
			go r.serve(c, seed*31+i)
		}
	}()
	return nil
}

func (r *dataRun) hangUp() {
	r.ln.Close()
	r.mu.Lock()
	for _, c := range r.conns {
		c.Close()
	}
	r.mu.Unlock()
}

func (r *dataRun) run(seed int64) (out obj) {
	if err := r.listen(seed); err != nil {
		return obj{"harness": err.Error()}
	}
	r.calls("bolt://" + r.ln.Addr().String() + "?timeout=20")
	evs := r.finish()
	r.hangUp()
	n := int(r.runs.Load())
	if n < r.asked {
		n = r.asked
	}
	if n > len(r.script) {
		n = len(r.script)
	}
	sc := []obj{}
	for _, q := range r.script[:n] {
		sc = append(sc, q.json())
	}
	if evs == nil {
		evs = []event{}
	}
	return obj{"script": sc, "events": evs, "seed": seed}
}

func dataMain(out, mode string, seed int64, n, workers int) error {
	outs := make([]obj, n)
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	for i := range outs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			r := &dataRun{mode: mode}
			outs[i] = r.run(seed*1000003 + int64(i))
		}(i)
	}
	wg.Wait()
	return writeJSON(out, outs)
}
