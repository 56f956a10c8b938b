package main

// Runs the driver's encoder and decoder and connections on generated input and
// records what they did. CodecTrace.tla decides whether that is right.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/encoding"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
)

func writeFile(path string, b []byte) error { return os.WriteFile(path, b, 0o644) }

var chunkSizes = []uint16{0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 17, 31, 64, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535}

func csOf(cs uint16) int {
	if cs == 0 {
		return 65535
	}
	return int(cs)
}

func encodeAlone(v interface{}) (b []byte, failed bool) {
	b, err := encoding.Marshal(v)
	return b, err != nil
}

// safely runs f and tells whether it panicked
func safely(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

type codecRun struct {
	g    gen
	recs []obj
	tag  string
}

func (c *codecRun) add(r obj) {
	if c.tag != "" {
		r["tag"] = c.tag
	} else {
		r["tag"] = ""
	}
	c.recs = append(c.recs, r)
}

// ---------------------------------------------------------------- encoding

// seq gives the values to one encoder
func (c *codecRun) seq(cs uint16, vals []gval, lim bool) {
	var w bytes.Buffer
	items := []obj{}
	longest, good := 0, 0
	panicked := safely(func() {
		enc := encoding.NewEncoder(&w, cs)
		for _, x := range vals {
			err := enc.Encode(x.v)
			b, _ := encodeAlone(x.v)
			it := obj{"bad": x.d == nil, "err": err != nil, "multi": x.multi, "std": x.std, "d": dNil(), "w0": toRope(b)}
			if x.d != nil {
				it["d"] = x.d
				good++
			}
			if x.str > longest {
				longest = x.str
			}
			items = append(items, it)
		}
	})
	if panicked != "" {
		c.add(obj{"k": "crash", "what": panicked})
		return
	}
	rs := []obj{}
	dec := encoding.NewDecoder(bytes.NewReader(w.Bytes()))
	for i := 0; i < good; i++ {
		rs = append(rs, result(dec.Decode))
	}
	c.add(obj{"k": "seq", "cs": csOf(cs), "lim": lim || (longest <= csOf(cs) && csOf(cs) >= 9), "items": items, "w": toRope(w.Bytes()), "rs": rs})
}

func (c *codecRun) badVal() gval { return gval{v: c.g.hide(c.g.bad(), c.g.Intn(4))} }

func (c *codecRun) randomSeq() {
	var vals []gval
	for n := 1 + c.g.Intn(4); n > 0; n-- {
		switch k := c.g.Intn(10); {
		case k < 2:
			vals = append(vals, c.badVal())
		case k < 4:
			vals = append(vals, c.g.message())
		default:
			vals = append(vals, c.g.value(3))
		}
	}
	cs := chunkSizes[c.g.Intn(len(chunkSizes))]
	if c.g.Intn(4) == 0 {
		cs = uint16(c.g.Intn(65536))
	}
	if c.g.Intn(3) == 0 {
		cs = uint16(9 + c.g.Intn(40))
	}
	c.seq(cs, vals, false)
}

// boundaries goes through all sizes around which representations change
func (c *codecRun) boundaries(part, parts int) {
	k := 0
	mine := func() bool { k++; return k%parts == part }
	one := func(cs uint16, x gval) {
		if mine() {
			c.seq(cs, []gval{x}, false)
		}
	}
	css := []uint16{65535, 9, 16, 255, 0}
	for _, n := range intEdges {
		one(css[k%len(css)], gval{v: n, d: dInt(n), std: true})
		for i := 0; i < 10; i++ {
			one(65535, gval{v: c.g.intAs(n), d: dInt(n), std: true})
		}
	}
	for n := int64(-300); n <= 300; n++ {
		one(65535, gval{v: n, d: dInt(n), std: true})
	}
	for _, n := range []uint64{math.MaxInt64, math.MaxInt64 - 1, math.MaxUint32} {
		one(65535, gval{v: n, d: dInt(int64(n)), std: true})
	}
	for _, n := range []uint64{math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 1} {
		one(65535, gval{v: n})
	}
	for _, f := range floatEdges {
		one(65535, gval{v: f, d: dFloat(f), std: true})
	}
	sizes := append([]int{}, sizeEdges...)
	for i := 0; i < 20; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, bigSizes...)
	for _, n := range sizes {
		s := string(bytes.Repeat([]byte("x"), n))
		for _, cs := range []uint16{65535, 65534, uint16(max(9, min(n, 65535))), uint16(max(9, min(n+3, 65535))), uint16(max(9, min(n-1, 65535)))} {
			one(cs, gval{v: s, d: dStr(s), std: true, str: n})
		}
		one(65535, gval{v: map[string]interface{}{s: s}, d: dMap(map[string]obj{s: dStr(s)}), std: true, str: n})
		one(65535, gval{v: graph.Node{NodeIdentity: 1, Labels: []string{s}}, d: dStruct(0x4E, dInt(1), dStrs([]string{s}), dMap(nil)), std: true, str: n})
		for _, e := range []gval{{v: nil, d: dNil()}, {v: int64(200), d: dInt(200)}, {v: "", d: dStr("")}, {v: true, d: dBool(true)}} {
			if n > 300 && e.d["t"] == "int" {
				continue // elements of several bytes are not run-length encoded
			}
			l, d := make([]interface{}, n), []obj{}
			for i := range l {
				l[i] = e.v
			}
			d = append(d, make([]obj, n)...)
			for i := range d {
				d[i] = e.d
			}
			one(65535, gval{v: l, d: dList(d), std: true})
			one(uint16(min(65535, n+4)), gval{v: l, d: dList(d), std: true})
		}
		strs := make([]string, n)
		one(65535, gval{v: strs, d: dStrs(strs), std: true})
	}
	for _, n := range append(sizeEdges, 300) {
		m, d := map[string]interface{}{}, map[string]obj{}
		for i := 0; i < n; i++ {
			m[fmt.Sprint("k", i)] = true
			d[fmt.Sprint("k", i)] = dBool(true)
		}
		one(65535, gval{v: m, d: dMap(d), std: true, multi: n > 1, str: 6})
		one(16, gval{v: m, d: dMap(d), std: true, multi: n > 1, str: 6})
		st := customSt{sig: 0x5A, fields: make([]interface{}, n)}
		ds := make([]obj, n)
		for i := range ds {
			ds[i] = dNil()
		}
		one(65535, gval{v: st, d: dStruct(0x5A, ds...)})
		one(13, gval{v: st, d: dStruct(0x5A, ds...)})
	}
	for sig := 0; sig < 256; sig++ {
		one(65535, gval{v: customSt{sig: sig, fields: []interface{}{int64(sig)}}, d: dStruct(sig, dInt(int64(sig)))})
	}
	for i := 0; i < 30; i++ {
		if mine() {
			c.seq(65535, []gval{{v: true, d: dBool(true), std: true}, c.badVal(), {v: "after", d: dStr("after"), std: true, str: 5}}, false)
		}
	}
	c.big(part, parts)
}

// big values that TLC need not walk through: their header, length and count
func (c *codecRun) big(part, parts int) {
	k := 0
	for _, n := range []int{1000, 32767, 32768, 65534, 65535, 65536, 65537} {
		for _, kind := range []string{"map", "list", "struct"} {
			k++
			if k%parts != part {
				continue
			}
			var v interface{}
			body := 0
			switch kind {
			case "map":
				m := map[string]interface{}{}
				for i := 0; i < n; i++ {
					m[fmt.Sprintf("%05x", i)] = i % 100
				}
				v, body = m, 7*n
			case "list":
				l := make([]interface{}, n)
				for i := range l {
					l[i] = i%10000 + 200
				}
				v, body = l, 3*n
			case "struct":
				st := customSt{sig: 0x41, fields: make([]interface{}, n)}
				for i := range st.fields {
					st.fields[i] = i % 100
				}
				v, body = st, n
			}
			r := obj{"k": "big", "kind": kind, "n": n, "g": 0x41, "bad": kind == "struct" && n > 65535, "head": []int{}, "len": 0, "body": body, "count": -1, "same": false}
			b, err := encoding.Marshal(v)
			r["err"] = err != nil
			if err == nil {
				p, _, _ := dechunk(bytes.NewReader(b))
				h := []int{}
				for _, x := range p[:min(len(p), headLen(kind, n))] {
					h = append(h, int(x))
				}
				r["head"], r["len"] = h, len(p)
				if back, err := encoding.Unmarshal(b); err == nil {
					switch x := back.(type) {
					case map[string]interface{}:
						r["count"] = len(x)
						same := true
						for i := 0; i < n; i++ {
							same = same && x[fmt.Sprintf("%05x", i)] == int64(i%100)
						}
						r["same"] = same
					case []interface{}:
						r["count"] = len(x)
						same := len(x) == n
						for i := range x {
							same = same && x[i] == int64(i%10000+200)
						}
						r["same"] = same
					}
				}
			}
			c.add(r)
		}
	}
}

func headLen(kind string, n int) int {
	h := 1
	switch {
	case n > 65535:
		h = 5
	case n > 255:
		h = 3
	case n > 15:
		h = 2
	}
	if kind == "struct" {
		h++
	}
	return h
}

// ---------------------------------------------------------------- decoding

func frame(payload []byte) []byte { return chunks(payload, whole) }

func totalAlloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func clamp(n uint64) int {
	if n > 2000000000 {
		return 2000000000
	}
	return int(n)
}

func (c *codecRun) dec(payload []byte) {
	r, alloc := c.unmarshal(frame(payload))
	c.add(obj{"k": "dec", "b": toRope(payload), "r": r, "alloc": alloc})
}

// raw bytes, in whatever chunks they are
func (c *codecRun) raw(b []byte) {
	r, alloc := c.unmarshal(b)
	c.add(obj{"k": "raw", "w": toRope(b), "r": r, "alloc": alloc})
}

func (c *codecRun) unmarshal(b []byte) (r obj, alloc int) {
	before := totalAlloc()
	var v interface{}
	var err error
	p := safely(func() { v, err = encoding.Unmarshal(b) })
	alloc = clamp(totalAlloc() - before)
	r = dError
	switch {
	case p != "":
		r = obj{"t": "panic", "n": p}
	case err == nil:
		r = describe(v)
	}
	return r, alloc
}

var alphabet = []byte{0x00, 0x01, 0x7F, 0x80, 0x81, 0x82, 0x90, 0x91, 0x92, 0xA0, 0xA1, 0xA2, 0xB0, 0xB1, 0xB3, 0x4E, 0x50, 0x52, 0x72, 0x70, 0x71, 0x7E,
	0xC0, 0xC1, 0xC2, 0xC3, 0xC4, 0xC8, 0xC9, 0xCA, 0xCB, 0xD0, 0xD1, 0xD2, 0xD4, 0xD5, 0xD6, 0xD8, 0xD9, 0xDA, 0xDC, 0xDD, 0xEF, 0xF0, 0xFF}

// all byte strings over the alphabet
func (c *codecRun) exhaustive(n, part, parts int) {
	k := 0
	var rec func(p []byte)
	rec = func(p []byte) {
		k++
		if k%parts == part {
			c.dec(p)
		}
		if len(p) < n {
			for _, x := range alphabet {
				rec(append(p[:len(p):len(p)], x))
			}
		}
	}
	rec(nil)
	// and every byte on its own, and before something
	for x := 0; x < 256; x++ {
		if x%parts == part {
			c.dec([]byte{byte(x)})
			c.dec([]byte{byte(x), 1, 0x81, 'a', 1, 0, 0, 0, 0, 0})
			c.dec(append([]byte{byte(x)}, make([]byte, 9)...))
			c.dec([]byte{0x91, byte(x), 0, 0, 0, 0, 0, 0, 0, 0})
			c.dec([]byte{0xB1, byte(x), 0xA0})
			c.dec([]byte{0xB1, byte(x), 0x90})
			c.dec([]byte{0xB3, byte(x), 1, 0x90, 0xA0})
			c.dec([]byte{0xB0, byte(x)})
			c.dec([]byte{0xA1, byte(x), 1, 1, 1})
		}
	}
}

// wide writes a description in a random valid representation
func (g gen) wide(d obj) []byte {
	size := func(n int, tiny, m8 int, has32 bool) []byte {
		k := g.Intn(8)
		switch {
		case n < 16 && tiny >= 0 && k > 3:
			return []byte{byte(tiny + n)}
		case n < 256 && (k > 1 || !has32):
			return []byte{byte(m8), byte(n)}
		case n < 65536 && (k > 0 || !has32):
			return []byte{byte(m8 + 1), byte(n >> 8), byte(n)}
		}
		return []byte{byte(m8 + 2), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	}
	raw := func(r rope) []byte {
		var b []byte
		for _, x := range r {
			b = append(b, bytes.Repeat([]byte{byte(x[0])}, x[1])...)
		}
		return b
	}
	switch d["t"] {
	case "nil":
		return []byte{0xC0}
	case "bool":
		return []byte{byte(0xC2 + d["o"].(int))}
	case "int":
		b := d["i"].([]int)
		n := int64(0)
		for _, x := range b {
			n = n<<8 | int64(x)
		}
		out := []byte{0xCB}
		w := 8
		switch k := g.Intn(5); {
		case k < 2 && n >= -16 && n <= 127:
			return []byte{byte(n)}
		case k < 3 && n >= -128 && n <= 127:
			out, w = []byte{0xC8}, 1
		case k < 4 && n >= -32768 && n <= 32767:
			out, w = []byte{0xC9}, 2
		case k < 5 && n >= math.MinInt32 && n <= math.MaxInt32:
			out, w = []byte{0xCA}, 4
		}
		for _, x := range b[8-w:] {
			out = append(out, byte(x))
		}
		return out
	case "float":
		out := []byte{0xC1}
		for _, x := range d["f"].([]int) {
			out = append(out, byte(x))
		}
		return out
	case "str":
		b := raw(d["s"].(rope))
		return append(size(len(b), 0x80, 0xD0, true), b...)
	case "list":
		n := 0
		var body []byte
		for _, x := range d["l"].([][2]interface{}) {
			for k := x[1].(int); k > 0; k-- {
				body = append(body, g.wide(x[0].(obj))...)
				n++
			}
		}
		return append(size(n, 0x90, 0xD4, true), body...)
	case "map":
		m := d["m"].([][2]interface{})
		var body []byte
		for _, i := range g.Perm(len(m)) {
			body = append(body, g.wide(obj{"t": "str", "s": m[i][0]})...)
			body = append(body, g.wide(m[i][1].(obj))...)
		}
		return append(size(len(m), 0xA0, 0xD8, true), body...)
	case "struct":
		h := d["h"].([]obj)
		out := append(size(len(h), 0xB0, 0xDC, false), byte(d["g"].(int)))
		for _, x := range h {
			out = append(out, g.wide(x)...)
		}
		return out
	}
	panic("wide")
}

// damage changes a few bytes
func (g gen) damage(b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + g.Intn(2); n > 0 && len(b) > 0; n-- {
		i := g.Intn(len(b))
		if g.Intn(2) == 0 && len(b) > 6 {
			i = g.Intn(6) // near the front is the structure
		}
		switch g.Intn(6) {
		case 0:
			b = b[:i]
		case 1:
			b[i] = byte(g.Intn(256))
		case 2:
			b[i] = alphabet[g.Intn(len(alphabet))]
		case 3:
			b = append(b[:i], b[i+1:]...)
		case 4:
			b = append(b[:i], append([]byte{alphabet[g.Intn(len(alphabet))]}, b[i:]...)...)
		case 5:
			if b[i] < 255 {
				b[i]++
			}
		}
	}
	return b
}

func (g gen) any() gval {
	if g.Intn(3) == 0 {
		return g.message()
	}
	if g.Intn(3) == 0 {
		return g.graph()
	}
	return g.value(3)
}

// illTyped builds a known structure with fields of wrong type or number
func (g gen) illTyped() []byte {
	sigs := []int{0x4E, 0x52, 0x72, 0x50, 0x70, 0x71, 0x7F, 0x7E, 0x0E, 0x0F, 0x2F, 0x3F, 0x01, 0x10, 0x58}
	sig := sigs[g.Intn(len(sigs))]
	n := map[int]int{0x4E: 3, 0x52: 5, 0x72: 3, 0x50: 3, 0x70: 1, 0x71: 1, 0x7F: 1, 1: 2, 0x10: 2}[sig]
	var h []obj
	_, m := g.props(1)
	_, nd := g.node()
	_, ur := g.urel()
	l, ld := g.labels()
	_ = l
	right := map[int][]obj{0x4E: {dInt(g.int64()), ld, m.d}, 0x52: {dInt(1), dInt(2), dInt(3), dStr("T"), m.d}, 0x72: {dInt(1), dStr("T"), m.d},
		0x50: {dList([]obj{nd.d}), dList([]obj{ur.d}), dList([]obj{dInt(g.int64())})}, 0x70: {m.d}, 0x71: {dList([]obj{dInt(1)})}, 0x7F: {m.d}}[sig]
	for i := 0; i < n; i++ {
		if i < len(right) {
			h = append(h, right[i])
		} else {
			h = append(h, g.value(1).d)
		}
	}
	for k := g.Intn(2); k >= 0; k-- {
		if len(h) == 0 {
			break
		}
		i := g.Intn(len(h))
		switch g.Intn(4) {
		case 0:
			h[i] = g.value(1).d
		case 1:
			h[i] = dList([]obj{ld, g.value(0).d})
		case 2:
			h[i] = dList([]obj{nd.d, ur.d, g.value(0).d})
		case 3:
			h[i] = dNil()
		}
	}
	switch g.Intn(5) {
	case 0:
		h = append(h, g.value(1).d)
	case 1:
		if len(h) > 0 {
			h = h[:len(h)-1]
		}
	}
	d := dStruct(sig, h...)
	if g.Intn(3) == 0 {
		d = dList([]obj{d, dInt(7), dStr("x")})
	}
	return g.wide(d)
}

// elems are the elements of a list
func elems(d obj) (out []obj, ok bool) {
	l, ok := d["l"].([][2]interface{})
	for _, run := range l {
		for n := run[1].(int); n > 0; n-- {
			out = append(out, run[0].(obj))
		}
	}
	return out, ok
}

// typed puts a value of every kind in every place of every known structure
func (c *codecRun) typed(part, parts int) {
	k := 0
	do := func(d obj) {
		if k++; k%parts == part {
			c.dec(c.g.wide(d))
			c.dec(c.g.wide(dStruct(0x71, dList([]obj{dInt(1), d, dInt(2)}))))
		}
	}
	m := dMap(map[string]obj{"a": dInt(1)})
	strs := dList([]obj{dStr("L"), dStr("M")})
	node := dStruct(0x4E, dInt(1), strs, m)
	rel := dStruct(0x52, dInt(1), dInt(2), dInt(3), dStr("T"), m)
	urel := dStruct(0x72, dInt(4), dStr("U"), m)
	ints := dList([]obj{dInt(1), dInt(-300)})
	path := dStruct(0x50, dList([]obj{node, node}), dList([]obj{urel}), ints)
	kinds := []obj{dNil(), dBool(true), dBool(false), dInt(0), dInt(300), dInt(-1 << 40), dFloat(1), dStr(""), dStr("x"), dList(nil),
		dList([]obj{dNil()}), strs, ints, dMap(nil), m, node, rel, urel, path, dList([]obj{node}), dList([]obj{urel}), dList([]obj{rel}),
		dStruct(0x70, m), dStruct(0x7E), dStruct(0x58, dInt(1))}
	right := map[int][]obj{0x4E: node["h"].([]obj), 0x52: rel["h"].([]obj), 0x72: urel["h"].([]obj), 0x50: path["h"].([]obj),
		0x70: {m}, 0x71: {dList([]obj{dInt(1)})}, 0x7F: {m}, 0x7E: {}}
	for _, sig := range []int{0x4E, 0x52, 0x72, 0x50, 0x70, 0x71, 0x7F, 0x7E} {
		fs := right[sig]
		with := func(i int, d obj) obj {
			out := append([]obj{}, fs...)
			out[i] = d
			return dStruct(sig, out...)
		}
		for i := range fs {
			for _, d := range kinds {
				do(with(i, d))
				if l, ok := elems(fs[i]); ok {
					do(with(i, dList([]obj{d})))
					do(with(i, dList(append(append([]obj{}, l...), d))))
					do(with(i, dList(append([]obj{d}, l...))))
				}
			}
		}
		for n := 0; n < 8; n++ {
			out := append([]obj{}, fs...)
			for len(out) < n {
				out = append(out, kinds[(n+len(out))%len(kinds)])
			}
			do(dStruct(sig, out[:n]...))
		}
	}
}

func (c *codecRun) randomDec() {
	g := c.g
	switch g.Intn(8) {
	case 0:
		c.dec(g.wide(g.any().d))
	case 1:
		b := g.wide(g.any().d)
		c.dec(b[:g.Intn(len(b))])
	case 2, 3:
		c.dec(g.damage(g.wide(g.any().d)))
	case 4, 5:
		c.dec(g.illTyped())
	case 6:
		b := make([]byte, g.Intn(12))
		for i := range b {
			b[i] = alphabet[g.Intn(len(alphabet))]
			if g.Intn(4) == 0 {
				b[i] = byte(g.Intn(256))
			}
		}
		c.dec(b)
	case 7:
		// sizes far beyond what follows
		m := []byte{0xD2, 0xD6, 0xDA, 0xD1, 0xD5, 0xD9, 0xD0, 0xD4, 0xD8, 0xDC, 0xDD}[g.Intn(11)]
		b := []byte{m, byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256)), byte(g.Intn(256))}
		if g.Intn(2) == 0 {
			b = append([]byte{0xB1, 0x71}, b...)
		}
		b = append(b, bytes.Repeat([]byte{alphabet[g.Intn(len(alphabet))]}, g.Intn(40))...)
		c.dec(b)
	}
}

// truncations of one message at every byte
func (c *codecRun) truncations() {
	b := c.g.wide(c.g.any().d)
	for i := 0; i < len(b) && i < 60; i++ {
		c.dec(b[:i])
	}
	// and of the chunks it comes in
	w := chunks(b, func() int { return 1 + c.g.Intn(1+min(len(b), 40)) })
	for i := 0; i < len(w) && i < 60; i++ {
		c.raw(w[:i])
	}
	for i := max(0, len(w)-5); i < len(w); i++ {
		c.raw(w[:i])
	}
	if len(w) < 4000 {
		c.raw(append(w, w[:c.g.Intn(len(w))]...))
		c.raw(c.g.damage(w))
	}
}

// bigDec decodes large values in every size class
func (c *codecRun) bigDec(part, parts int) {
	k := 0
	do := func(b []byte) {
		if k++; k%parts == part {
			c.dec(b)
		}
	}
	for _, n := range append(append([]int{}, sizeEdges...), bigSizes...) {
		for _, m := range []int{0x80, 0x90} {
			m8 := map[int]byte{0x80: 0xD0, 0x90: 0xD4}[m]
			var heads [][]byte
			if n < 16 {
				heads = append(heads, []byte{byte(m + n)})
			}
			if n < 256 {
				heads = append(heads, []byte{m8, byte(n)})
			}
			if n < 65536 {
				heads = append(heads, []byte{m8 + 1, byte(n >> 8), byte(n)})
			}
			heads = append(heads, []byte{m8 + 2, 0, byte(n >> 16), byte(n >> 8), byte(n)})
			for _, h := range heads {
				fill := []byte{0x61, 0xC0, 0x80}[k%3]
				do(append(append([]byte{}, h...), bytes.Repeat([]byte{fill}, n)...))
				if n > 0 {
					do(append(append([]byte{}, h...), bytes.Repeat([]byte{fill}, n-1)...))
				}
				do(append(append([]byte{0x92}, append(append([]byte{}, h...), bytes.Repeat([]byte{fill}, n)...)...), 5))
				do(append(append([]byte{0xB1, 0x71, 0x92}, append(append([]byte{}, h...), bytes.Repeat([]byte{fill}, n)...)...), 5))
			}
		}
	}
	for _, n := range []int{1, 2, 15, 16, 100, 255, 256, 300} {
		body := []byte{}
		for i := 0; i < n; i++ {
			body = append(body, 0x82, byte(i), byte(i>>8), 0xC3)
		}
		for _, h := range [][]byte{{0xD8, byte(n)}, {0xD9, byte(n >> 8), byte(n)}, {0xDA, 0, 0, byte(n >> 8), byte(n)}} {
			if h[0] == 0xD8 && n > 255 {
				continue
			}
			do(append(append([]byte{}, h...), body...))
			do(append(append([]byte{}, h...), body[:len(body)-1]...))
			do(append(append([]byte{0x92}, append(append([]byte{}, h...), body...)...), 5))
		}
	}
	for _, n := range []int{1, 2, 10, 100, 500, 999, 1000, 1001, 2000, 20000, 99998, 100000, 100001, 200000, 5000000} {
		for kind := 0; kind < 4; kind++ {
			if k++; k%parts == part {
				c.nest(n, kind)
			}
		}
	}
}

func (c *codecRun) nest(n, kind int) {
	var b []byte
	unit := [][]byte{{0x91}, {0xA1, 0x81, 'k'}, {0xD4, 1}, {0xB1, 0x71, 0x91}}[kind]
	b = append(bytes.Repeat(unit, n), 1)
	fb := frame(b)
	before := totalAlloc()
	var v interface{}
	var err error
	p := safely(func() { v, err = encoding.Unmarshal(fb) })
	alloc := clamp((totalAlloc() - before) / uint64(len(unit)*2))
	depth := -1
	if p != "" {
		depth = -2
	} else if err == nil {
		depth = 0
		for {
			switch x := v.(type) {
			case []interface{}:
				if len(x) != 1 {
					depth = -3
				} else {
					depth++
					v = x[0]
					continue
				}
			case map[string]interface{}:
				if len(x) != 1 {
					depth = -3
				} else {
					depth++
					v = x["k"]
					continue
				}
			case int64:
				if x != 1 {
					depth = -3
				}
			default:
				if f := reflect.ValueOf(v); f.Kind() == reflect.Struct && f.NumField() == 1 {
					if l, ok := f.Field(0).Interface().([]interface{}); ok && len(l) == 1 {
						depth++
						v = l[0]
						continue
					}
				}
				depth = -3
			}
			break
		}
	}
	c.add(obj{"k": "nest", "n": n, "kind": kind, "r": depth, "alloc": alloc})
}

// --------------------------------------------------------------- streaming

// splitReader delivers bytes in pieces chosen by next
type splitReader struct {
	b    []byte
	next func() int
}

func (s *splitReader) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		return 0, io.EOF
	}
	n := s.next()
	if n < 1 {
		n = 1
	}
	n = copy(p, s.b[:min(n, len(s.b))])
	s.b = s.b[n:]
	return n, nil
}

func (g gen) splitter() func() int {
	switch g.Intn(5) {
	case 0:
		return func() int { return 1 }
	case 1:
		return func() int { return 2 }
	case 2:
		return func() int { return 1 << 30 }
	case 3:
		k := 1 + g.Intn(20)
		return func() int { return 1 + g.Intn(k) }
	}
	big := false
	return func() int {
		big = !big
		if big {
			return 1 + g.Intn(3)
		}
		return 1 + g.Intn(70000)
	}
}

func (g gen) chunker() func() int {
	switch g.Intn(5) {
	case 0:
		return func() int { return 1 }
	case 1:
		return whole
	case 2:
		k := 1 + g.Intn(10)
		return func() int { return k }
	}
	k := 2 + g.Intn(300)
	return func() int { return 1 + g.Intn(k) }
}

func (c *codecRun) stream() {
	g := c.g
	var w []byte
	alone, payload := []obj{}, []rope{}
	for n := 1 + g.Intn(5); n > 0; n-- {
		b := g.wide(g.any().d)
		switch g.Intn(16) {
		case 0:
			b = g.damage(b)
		case 1:
			n := []int{255, 256, 257, 65534, 65535, 65536, 70000, 131070, 131071}[g.Intn(9)]
			b = append([]byte{0xD2, 0, byte(n >> 16), byte(n >> 8), byte(n)}, bytes.Repeat([]byte{'s'}, n)...)
		}
		if len(b) == 0 {
			continue
		}
		ch := g.chunker()
		if len(b) > 20000 {
			ch = [](func() int){whole, func() int { return 32768 }, func() int { return 1 + g.Intn(65535) }}[g.Intn(3)]
		}
		w = append(w, chunks(b, ch)...)
		payload = append(payload, toRope(b))
		alone = append(alone, result(func() (interface{}, error) { return encoding.Unmarshal(frame(b)) }))
	}
	next := g.splitter()
	if len(w) > 20000 {
		k := 1
		next = func() int { k = k * 7 % 40009; return k }
	}
	dec := encoding.NewDecoder(&splitReader{b: w, next: next})
	rs := []obj{}
	for i := 0; i <= len(alone); i++ {
		rs = append(rs, result(dec.Decode))
	}
	c.add(obj{"k": "stream", "w": toRope(w), "alone": alone, "payload": payload, "rs": rs, "live": false})
}

// -------------------------------------------------------------------- live

var liveTimeout = 20 * time.Second

// liveServer answers every request and keeps what it received after the handshake
type liveServer struct {
	mu     sync.Mutex
	got    []byte
	answer func(p pStruct) []byte
	hs     [][]byte // pieces of the handshake reply
	split  func() int
	done   chan struct{}
}

func (s *liveServer) serve(c net.Conn) {
	defer close(s.done)
	defer c.Close()
	c.SetDeadline(time.Now().Add(2 * liveTimeout))
	var hs [20]byte
	if _, err := io.ReadFull(c, hs[:]); err != nil {
		return
	}
	for _, p := range s.hs {
		c.Write(p)
		time.Sleep(200 * time.Microsecond)
	}
	var pend []byte
	buf := make([]byte, 65536)
	for {
		n, err := c.Read(buf)
		s.mu.Lock()
		s.got = append(s.got, buf[:n]...)
		s.mu.Unlock()
		pend = append(pend, buf[:n]...)
		for {
			rd := bytes.NewReader(pend)
			p, _, e := dechunk(rd)
			if e != nil {
				break
			}
			pend = pend[len(pend)-rd.Len():]
			v, e := unpack(p)
			st, ok := v.(pStruct)
			if e != nil || !ok {
				return
			}
			out := s.answer(st)
			naps := 0
			for len(out) > 0 {
				k := min(max(s.split(), 1), len(out))
				if _, e := c.Write(out[:k]); e != nil {
					return
				}
				out = out[k:]
				if naps++; len(out) > 0 && k < 20 && naps < 40 {
					time.Sleep(20 * time.Microsecond)
				}
			}
		}
		if err != nil {
			return
		}
	}
}

func liveDial(s *liveServer) (bolt.Conn, error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, err
	}
	defer ln.Close()
	s.done = make(chan struct{})
	go func() {
		c, err := ln.Accept()
		if err != nil {
			close(s.done)
			return
		}
		if t, ok := c.(*net.TCPConn); ok {
			t.SetNoDelay(true)
		}
		s.serve(c)
	}()
	return bolt.NewDriver().OpenNeo(fmt.Sprintf("bolt://%s?timeout=%d", ln.Addr(), int(liveTimeout/time.Second)))
}

func once() [][]byte { return [][]byte{goodVersion} }

var emptySuccess = map[string]interface{}{}

// live sends values as parameters and has them sent back
func (c *codecRun) live() {
	g := c.g
	cs := chunkSizes[g.Intn(len(chunkSizes))]
	if g.Intn(2) == 0 {
		cs = uint16(9 + g.Intn(300))
	} else if g.Intn(3) == 0 {
		// bounds even the messages that are nothing but their signature
		cs = 1
	}
	var params interface{}
	srv := &liveServer{hs: once(), split: g.splitter()}
	failing, nack, empty := false, false, false
	srv.answer = func(p pStruct) []byte {
		switch p.Sig {
		case sigAck, sigReset:
			if p.Sig == sigAck && nack {
				return chunks(msg(sigFailure, map[string]interface{}{"code": "c", "message": "m"}), whole)
			}
			failing, nack = false, false
			return chunks(msg(sigSuccess, emptySuccess), whole)
		}
		if failing {
			return chunks(msg(sigIgnored), whole)
		}
		switch p.Sig {
		case sigRun:
			if len(p.Fields) == 2 {
				params = p.Fields[1]
				q, _ := p.Fields[0].(string)
				empty = q == "BEGIN" || q == "COMMIT" || q == "ROLLBACK"
				if strings.HasPrefix(q, "FAIL") {
					failing, nack = true, q == "FAIL2"
					return chunks(msg(sigFailure, map[string]interface{}{"code": "c", "message": "m"}), whole)
				}
			}
			return chunks(msg(sigSuccess, map[string]interface{}{"fields": []interface{}{"v"}}), g.chunker())
		case sigPull:
			if empty {
				break
			}
			return append(chunks(msg(sigRecord, []interface{}{params}), whole), chunks(msg(sigSuccess, emptySuccess), whole)...)
		}
		return chunks(msg(sigSuccess, emptySuccess), whole)
	}
	conn, err := liveDial(srv)
	if err != nil {
		c.add(obj{"k": "crash", "what": "cannot open: " + err.Error()})
		return
	}
	conn.SetChunkSize(cs)
	runs, back := []obj{}, []obj{}
	longest, hurt := 0, false
	for n := 1 + g.Intn(4); n > 0; n-- {
		if g.Intn(4) == 0 {
			bad := map[string]interface{}{"x": g.hide(g.bad(), g.Intn(3)), "y": g.str()}
			p := safely(func() {
				switch g.Intn(3) {
				case 0:
					_, err = conn.ExecNeo("BAD", bad)
				case 1:
					_, err = conn.QueryNeo("BAD", bad)
				case 2:
					_, err = conn.ExecPipeline([]string{"GOOD", "BAD"}, nil, bad)
				}
			})
			if err == nil || p != "" {
				hurt = true
			}
			continue
		}
		make1 := func() (string, map[string]interface{}, gval, obj) {
			m, d := g.props(3)
			for !d.std {
				m, d = g.props(3)
			}
			q := g.str()
			longest = max(longest, d.str, len(q))
			return q, m, d, dStruct(0x10, dStr(q), d.d)
		}
		// requests of the driver's own, and those nobody waits for one by one
		simple := func(q string, back1 obj) {
			runs, back = append(runs, dStruct(0x10, dStr(q), dMap(nil))), append(back, back1)
		}
		kind := g.Intn(10)
		if cs == 1 && g.Intn(2) == 0 {
			kind = 1
		}
		switch kind {
		case 0:
			tx, err := conn.Begin()
			simple("BEGIN", dMap(nil))
			if err != nil {
				hurt = true
				continue
			}
			if g.Intn(2) == 0 {
				err = tx.Commit()
				simple("COMMIT", dMap(nil))
			} else {
				err = tx.Rollback()
				simple("ROLLBACK", dMap(nil))
			}
			hurt = hurt || err != nil
			continue
		case 1:
			q := []string{"FAIL1", "FAIL2"}[g.Intn(2)]
			var err error
			if g.Intn(2) == 0 {
				_, err = conn.ExecNeo(q, nil)
			} else {
				_, err = conn.QueryNeo(q, nil)
			}
			simple(q, dMap(nil))
			hurt = hurt || err == nil
			continue
		case 2, 3:
			var qs []string
			var ms []map[string]interface{}
			for k := 1 + g.Intn(3); k > 0; k-- {
				q, m, d, r := make1()
				qs, ms = append(qs, q), append(ms, m)
				runs, back = append(runs, r), append(back, d.d)
			}
			if g.Intn(2) == 0 {
				_, err := conn.ExecPipeline(qs, ms...)
				hurt = hurt || err != nil
				continue
			}
			rows, err := conn.QueryPipeline(qs, ms...)
			if err == nil {
				err = rows.Close()
			}
			hurt = hurt || err != nil
			continue
		case 4:
			q, m, d, r := make1()
			runs, back = append(runs, r), append(back, d.d)
			st, err := conn.PrepareNeo(q)
			if err == nil {
				var rows bolt.Rows
				if rows, err = st.QueryNeo(m); err == nil {
					err = rows.Close()
				}
				if e := st.Close(); err == nil {
					err = e
				}
			}
			hurt = hurt || err != nil
			continue
		}
		q, m, d, r := make1()
		switch g.Intn(4) {
		case 0, 1:
			data, _, _, err := conn.QueryNeoAll(q, m)
			runs = append(runs, r)
			if err != nil || len(data) != 1 || len(data[0]) != 1 {
				back = append(back, dError)
				hurt = true
			} else {
				back = append(back, describe(data[0][0]))
			}
		case 2:
			_, err := conn.ExecNeo(q, m)
			runs = append(runs, r)
			back = append(back, d.d)
			hurt = hurt || err != nil
		case 3:
			runs = append(runs, r)
			st, err := conn.PrepareNeo(q)
			if err != nil {
				hurt = true
				back = append(back, dError)
				continue
			}
			rows, err := st.QueryNeo(m)
			if err != nil {
				hurt = true
				back = append(back, dError)
				continue
			}
			row, _, err := rows.NextNeo()
			if err != nil || len(row) != 1 {
				back = append(back, dError)
				hurt = true
			} else {
				back = append(back, describe(row[0]))
			}
			rows.Close()
			st.Close()
		}
	}
	conn.Close()
	<-srv.done
	lim := longest <= csOf(cs) && csOf(cs) >= 9
	c.add(obj{"k": "live", "cs": csOf(cs), "lim": lim, "runs": runs, "back": back, "hurt": hurt, "w": toRope(srv.got)})
}

// liveStream has the server deliver messages in all kinds of pieces
func (c *codecRun) liveStream() {
	g := c.g
	srv := &liveServer{hs: once(), split: g.splitter()}
	alone, payload := []obj{}, []rope{}
	var out, plain []byte
	put := func(b []byte, ch func() int) {
		out = append(out, chunks(b, ch)...)
		plain = append(plain, frame(b)...)
	}
	fields := []interface{}{"a", "b"}
	put(msg(sigSuccess, map[string]interface{}{"fields": fields}), g.chunker())
	n := g.Intn(6)
	rows := []obj{}
	for i := 0; i < n; i++ {
		x, y := g.value(2), g.value(2)
		rec := append(append([]byte{0xB1, sigRecord, 0x92}, g.wide(x.d)...), g.wide(y.d)...)
		if !x.std || !y.std {
			rec = append([]byte{0xB1, sigRecord, 0x92}, 1, 2)
			x.d, y.d = dInt(1), dInt(2)
		}
		put(rec, g.chunker())
		rows = append(rows, dList([]obj{x.d, y.d}))
	}
	put(msg(sigSuccess, map[string]interface{}{"type": "r", "n": n}), g.chunker())
	first := true
	srv.answer = func(p pStruct) []byte {
		switch p.Sig {
		case sigRun:
			return nil
		case sigPull:
			if first {
				first = false
				return out
			}
		}
		return chunks(msg(sigSuccess, emptySuccess), g.chunker())
	}
	conn, err := liveDial(srv)
	if err != nil {
		c.add(obj{"k": "crash", "what": "cannot open: " + err.Error()})
		return
	}
	rs := []obj{}
	p := safely(func() {
		q, err := conn.QueryNeo("Q", nil)
		if err != nil {
			rs = append(rs, dError)
			return
		}
		rs = append(rs, describe(q.Metadata()))
		for {
			row, meta, err := q.NextNeo()
			if err == io.EOF {
				rs = append(rs, describe(meta))
				break
			} else if err != nil {
				rs = append(rs, dError)
				break
			}
			rs = append(rs, describe(row))
			if len(rs) > n+5 {
				break
			}
		}
		q.Close()
	})
	conn.Close()
	<-srv.done
	if p != "" {
		rs = append(rs, obj{"t": "panic", "n": p})
	}
	alone = append(alone, describe(map[string]interface{}{"fields": fields}))
	alone = append(alone, rows...)
	alone = append(alone, describe(map[string]interface{}{"type": "r", "n": int64(n)}))
	rd := bytes.NewReader(plain)
	for rd.Len() > 0 {
		b, _, _ := dechunk(rd)
		payload = append(payload, toRope(b))
	}
	c.add(obj{"k": "stream", "w": toRope(out), "alone": alone, "payload": payload, "rs": rs, "live": true})
}

// open fragments the handshake reply
func (c *codecRun) open(k int) {
	cuts := [][]int{{4}, {1, 3}, {2, 2}, {3, 1}, {1, 1, 2}, {1, 2, 1}, {2, 1, 1}, {1, 1, 1, 1}}[k%8]
	srv := &liveServer{split: c.g.splitter()}
	v := goodVersion
	for _, n := range cuts {
		srv.hs = append(srv.hs, v[:n])
		v = v[n:]
	}
	srv.answer = func(p pStruct) []byte { return chunks(msg(sigSuccess, emptySuccess), c.g.chunker()) }
	conn, err := liveDial(srv)
	ok := err == nil
	if ok {
		_, e := conn.ExecNeo("Q", nil)
		ok = e == nil
		conn.Close()
		<-srv.done
	}
	c.add(obj{"k": "open", "cuts": cuts, "ok": ok})
}

// ----------------------------------------------------------------- findings

func (c *codecRun) findings() {
	c.tag = "long-string"
	s := string(bytes.Repeat([]byte("x"), 100))
	c.seq(50, []gval{{v: s, d: dStr(s), std: true, str: 100}}, true)
	c.tag = "uint-wrap"
	if math.MaxUint > math.MaxUint32 {
		c.seq(65535, []gval{{v: uint(math.MaxUint)}}, false)
	}
	c.tag = ""
}

// codecMain runs n inputs of a family
func codecMain(family, out string, seed int64, n, part, parts, size int, progress string) error {
	c := &codecRun{g: gen{rand.New(rand.NewSource(seed*1000 + int64(part)))}}
	var at int64
	go func() {
		// something that never returns is reported, not waited for
		last, since := int64(-1), time.Now()
		for range time.Tick(time.Second) {
			now := atomic.LoadInt64(&at)
			if now != last {
				last, since = now, time.Now()
			} else if time.Since(since) > 60*time.Second {
				fmt.Fprintf(os.Stderr, "HANG in %s at input %d of part %d\n", family, now, part)
				os.Exit(4)
			}
		}
	}()
	mark := func(i int) {
		atomic.AddInt64(&at, 1)
		if progress != "" {
			writeFile(progress, []byte(fmt.Sprint(i)))
		}
	}
	mark(-1)
	switch family {
	case "boundaries":
		c.boundaries(part, parts)
	case "findings":
		c.findings()
	case "exhaustive":
		c.exhaustive(size, part, parts)
	case "typed":
		c.typed(part, parts)
	case "bigdec":
		c.bigDec(part, parts)
	default:
		f := map[string]func(){"seq": c.randomSeq, "dec": c.randomDec, "trunc": c.truncations, "stream": c.stream, "live": c.live, "livestream": c.liveStream}[family]
		if family == "open" {
			f = func() { c.open(len(c.recs)) }
		}
		if f == nil {
			return fmt.Errorf("unknown family %s", family)
		}
		for i := 0; i < n; i++ {
			mark(i)
			f()
		}
	}
	if c.recs == nil {
		c.recs = []obj{}
	}
	b, err := json.Marshal(c.recs)
	if err != nil {
		return err
	}
	return writeFile(out, b)
}
