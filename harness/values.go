package main

// Values as the specification (PackStream.tla) describes them, and random
// Go values together with their description.

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"

	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/graph"
	"github.com/johnnadratowski/golang-neo4j-bolt-driver/structures/messages"
)

type obj = map[string]interface{}

// rope is a run-length encoded byte string
type rope [][2]int

func toRope(b []byte) rope {
	r := rope{}
	for _, x := range b {
		if n := len(r); n > 0 && r[n-1][0] == int(x) {
			r[n-1][1]++
		} else {
			r = append(r, [2]int{int(x), 1})
		}
	}
	return r
}

func dNil() obj { return obj{"t": "nil"} }

func dBool(b bool) obj {
	if b {
		return obj{"t": "bool", "o": 1}
	}
	return obj{"t": "bool", "o": 0}
}

func bytes8(u uint64) []int {
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], u)
	out := make([]int, 8)
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

func dInt(n int64) obj     { return obj{"t": "int", "i": bytes8(uint64(n))} }
func dFloat(f float64) obj { return obj{"t": "float", "f": bytes8(math.Float64bits(f))} }
func dStr(s string) obj    { return obj{"t": "str", "s": toRope([]byte(s))} }

func dList(ds []obj) obj {
	l := [][2]interface{}{}
	for _, d := range ds {
		if n := len(l); n > 0 && reflect.DeepEqual(l[n-1][0], d) {
			l[n-1][1] = l[n-1][1].(int) + 1
		} else {
			l = append(l, [2]interface{}{d, 1})
		}
	}
	return obj{"t": "list", "l": l}
}

func dMap(m map[string]obj) obj {
	keys := make([]string, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	l := [][2]interface{}{}
	for _, k := range keys {
		l = append(l, [2]interface{}{toRope([]byte(k)), m[k]})
	}
	return obj{"t": "map", "m": l}
}

func dStruct(sig int, fields ...obj) obj {
	if fields == nil {
		fields = []obj{}
	}
	return obj{"t": "struct", "g": sig, "h": fields}
}

func dStrs(l []string) obj {
	out := []obj{}
	for _, s := range l {
		out = append(out, dStr(s))
	}
	return dList(out)
}

// describe tells what a value the driver returned is
func describe(v interface{}) obj {
	switch x := v.(type) {
	case nil:
		return dNil()
	case bool:
		return dBool(x)
	case int64:
		return dInt(x)
	case float64:
		return dFloat(x)
	case string:
		return dStr(x)
	case []interface{}:
		out := make([]obj, len(x))
		for i, e := range x {
			out[i] = describe(e)
		}
		return dList(out)
	case map[string]interface{}:
		out := map[string]obj{}
		for k, e := range x {
			out[k] = describe(e)
		}
		return dMap(out)
	case graph.Node:
		return dStruct(0x4E, dInt(x.NodeIdentity), dStrs(x.Labels), describe(x.Properties))
	case graph.Relationship:
		return dStruct(0x52, dInt(x.RelIdentity), dInt(x.StartNodeIdentity), dInt(x.EndNodeIdentity), dStr(x.Type), describe(x.Properties))
	case graph.UnboundRelationship:
		return dStruct(0x72, dInt(x.RelIdentity), dStr(x.Type), describe(x.Properties))
	case graph.Path:
		var n, r, s []obj
		for _, e := range x.Nodes {
			n = append(n, describe(e))
		}
		for _, e := range x.Relationships {
			r = append(r, describe(e))
		}
		for _, e := range x.Sequence {
			s = append(s, dInt(int64(e)))
		}
		return dStruct(0x50, dList(n), dList(r), dList(s))
	case messages.SuccessMessage:
		return dStruct(sigSuccess, describe(x.Metadata))
	case messages.FailureMessage:
		return dStruct(sigFailure, describe(x.Metadata))
	case messages.RecordMessage:
		return dStruct(sigRecord, describe(x.Fields))
	case messages.IgnoredMessage:
		return dStruct(sigIgnored)
	case messages.AckFailureMessage:
		return dStruct(sigAck)
	case messages.DiscardAllMessage:
		return dStruct(sigDiscard)
	case messages.PullAllMessage:
		return dStruct(sigPull)
	case messages.ResetMessage:
		return dStruct(sigReset)
	}
	return obj{"t": "other", "n": fmt.Sprintf("%T", v)}
}

var dError = obj{"t": "error"}

// result describes what a call of the decoder gave
func result(f func() (interface{}, error)) (r obj) {
	defer func() {
		if p := recover(); p != nil {
			r = obj{"t": "panic", "n": fmt.Sprint(p)}
		}
	}()
	v, err := f()
	if err != nil {
		return dError
	}
	return describe(v)
}

// gval is a Go value with its description
type gval struct {
	v     interface{}
	d     obj
	std   bool // the driver can also decode it
	multi bool // has a map with several entries
	str   int  // length of the longest string
}

func (g *gval) with(o gval) {
	g.std = g.std && o.std
	g.multi = g.multi || o.multi
	if o.str > g.str {
		g.str = o.str
	}
}

type (
	namedInts []int
	namedList []interface{}
	namedStrs []string
	nodePtrs  []*graph.Node
	customSt  struct {
		sig    int
		fields []interface{}
	}
)

func (c customSt) Signature() int           { return c.sig }
func (c customSt) AllFields() []interface{} { return c.fields }

var intEdges = []int64{0, 1, -1, -15, -16, -17, 127, 128, 129, -127, -128, -129, 254, 255, 256, 32767, 32768, 32769, -32767, -32768, -32769,
	65534, 65535, 65536, math.MaxInt32 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32 + 1, math.MinInt32, math.MinInt32 - 1,
	math.MaxUint32, math.MaxUint32 + 1, math.MaxInt64 - 1, math.MaxInt64, math.MinInt64 + 1, math.MinInt64}

var floatEdges = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1),
	math.Float64frombits(0x7FF8000000000001), math.Float64frombits(0x7FF0000000000001), 1e-300, 127, 128, 2147483648}

var sizeEdges = []int{0, 1, 14, 15, 16, 17, 31, 32, 127, 128, 129, 254, 255, 256, 257}
var bigSizes = []int{32767, 32768, 65534, 65535, 65536, 65537, 70000}

type gen struct{ *rand.Rand }

func (g gen) int64() int64 {
	switch g.Intn(3) {
	case 0:
		return intEdges[g.Intn(len(intEdges))]
	case 1:
		return int64(g.Uint64()) >> uint(g.Intn(64))
	}
	return int64(g.Intn(300) - 150)
}

func (g gen) text(n int) string {
	b := make([]byte, n)
	c := byte("aZ \x00\xff\x80é"[g.Intn(8)])
	for i := range b {
		if n <= 40 || g.Intn(1+n/8) == 0 {
			c = byte(g.Intn(256))
			if g.Intn(2) == 0 {
				c = "abcxyz019 .\xc3\xa9"[g.Intn(13)]
			}
		}
		b[i] = c
	}
	return string(b)
}

func (g gen) size() int {
	switch g.Intn(12) {
	case 0:
		return sizeEdges[g.Intn(len(sizeEdges))]
	case 1:
		return g.Intn(40)
	}
	return g.Intn(5)
}

func (g gen) str() string { return g.text(g.size()) }

// intAs gives n as some Go integer type that can hold it
func (g gen) intAs(n int64) interface{} {
	switch k := g.Intn(10); {
	case k == 0 && n >= math.MinInt8 && n <= math.MaxInt8:
		return int8(n)
	case k == 1 && n >= math.MinInt16 && n <= math.MaxInt16:
		return int16(n)
	case k == 2 && n >= math.MinInt32 && n <= math.MaxInt32:
		return int32(n)
	case k == 3 && n >= 0 && n <= math.MaxUint8:
		return uint8(n)
	case k == 4 && n >= 0 && n <= math.MaxUint16:
		return uint16(n)
	case k == 5 && n >= 0 && n <= math.MaxUint32:
		return uint32(n)
	case k == 6 && n >= 0:
		return uint64(n)
	case k == 7 && n >= 0:
		return uint(n)
	case k == 8:
		return int(n)
	}
	return n
}

func (g gen) props(depth int) (map[string]interface{}, gval) {
	if g.Intn(8) == 0 {
		return nil, gval{v: map[string]interface{}(nil), d: dMap(nil), std: true}
	}
	n := g.size()
	if depth <= 0 || n > 40 && g.Intn(4) > 0 {
		n = g.Intn(3)
	}
	m, d := map[string]interface{}{}, map[string]obj{}
	out := gval{std: true}
	for len(m) < n {
		k := g.text(1 + g.Intn(4))
		if g.Intn(20) == 0 {
			k = g.str()
		}
		if n > 100 {
			k = fmt.Sprintf("%d%s", len(m), k)
		}
		if _, ok := m[k]; ok {
			continue
		}
		x := g.value(depth - 1)
		if n > 100 {
			x = gval{v: int64(1), d: dInt(1), std: true}
		}
		m[k], d[k] = x.v, x.d
		out.with(x)
		if len(k) > out.str {
			out.str = len(k)
		}
	}
	out.v, out.d = m, dMap(d)
	out.multi = out.multi || n > 1
	return m, out
}

func (g gen) labels() ([]string, obj) {
	if g.Intn(6) == 0 {
		return nil, dList(nil)
	}
	n := g.Intn(4)
	if g.Intn(20) == 0 {
		n = g.size()
	}
	l := make([]string, n)
	for i := range l {
		l[i] = g.text(g.Intn(6))
	}
	return l, dStrs(l)
}

func (g gen) node() (graph.Node, gval) {
	l, dl := g.labels()
	p, dp := g.props(1)
	n := graph.Node{NodeIdentity: g.int64(), Labels: l, Properties: p}
	out := gval{v: n, d: dStruct(0x4E, dInt(n.NodeIdentity), dl, dp.d), std: true, str: 6}
	out.with(dp)
	return n, out
}

func (g gen) urel() (graph.UnboundRelationship, gval) {
	p, dp := g.props(1)
	r := graph.UnboundRelationship{RelIdentity: g.int64(), Type: g.str(), Properties: p}
	out := gval{v: r, d: dStruct(0x72, dInt(r.RelIdentity), dStr(r.Type), dp.d), std: true, str: len(r.Type)}
	out.with(dp)
	return r, out
}

func (g gen) graph() gval {
	switch g.Intn(4) {
	case 0:
		n, out := g.node()
		if g.Intn(3) == 0 {
			out.v = &n
		}
		return out
	case 1:
		_, out := g.urel()
		return out
	case 2:
		p, dp := g.props(1)
		r := graph.Relationship{RelIdentity: g.int64(), StartNodeIdentity: g.int64(), EndNodeIdentity: g.int64(), Type: g.str(), Properties: p}
		out := gval{v: r, d: dStruct(0x52, dInt(r.RelIdentity), dInt(r.StartNodeIdentity), dInt(r.EndNodeIdentity), dStr(r.Type), dp.d), std: true, str: len(r.Type)}
		out.with(dp)
		return out
	}
	out := gval{std: true}
	p := graph.Path{}
	var dn, dr, ds []obj
	for i := g.Intn(4); i > 0; i-- {
		n, d := g.node()
		p.Nodes = append(p.Nodes, n)
		dn = append(dn, d.d)
		out.with(d)
	}
	for i := g.Intn(4); i > 0; i-- {
		n, d := g.urel()
		p.Relationships = append(p.Relationships, n)
		dr = append(dr, d.d)
		out.with(d)
	}
	for i := g.size(); i > 0; i-- {
		n := g.int64()
		p.Sequence = append(p.Sequence, int(n))
		ds = append(ds, dInt(n))
	}
	out.v, out.d = p, dStruct(0x50, dList(dn), dList(dr), dList(ds))
	return out
}

func (g gen) list(depth int) gval {
	n := g.size()
	if depth <= 0 {
		n = g.Intn(3)
	}
	out := gval{std: true}
	l, d := make([]interface{}, n), make([]obj, n)
	var same *gval
	if n > 40 {
		x := g.value(0)
		same = &x
	}
	for i := range l {
		x := same
		if x == nil || g.Intn(n/2) == 0 {
			y := g.value(depth - 1)
			x = &y
		}
		l[i], d[i] = x.v, x.d
		out.with(*x)
	}
	out.v, out.d = l, dList(d)
	if g.Intn(12) == 0 {
		out.v = namedList(l)
	}
	return out
}

// slice of some other Go type
func (g gen) slice() gval {
	n := g.size()
	d := make([]obj, n)
	out := gval{std: true}
	ints := make([]int64, n)
	for i := range ints {
		ints[i] = g.int64()
	}
	switch g.Intn(11) {
	case 0:
		v := make([]int, n)
		for i := range v {
			v[i], d[i] = int(ints[i]), dInt(ints[i])
		}
		out.v = v
		if g.Intn(3) == 0 {
			out.v = namedInts(v)
		}
	case 1:
		v := make([]string, n)
		for i := range v {
			v[i] = g.text(g.Intn(4))
			d[i] = dStr(v[i])
		}
		out.v, out.str = v, 4
		if g.Intn(3) == 0 {
			out.v = namedStrs(v)
		}
	case 2:
		v := make([]float64, n)
		for i := range v {
			v[i] = floatEdges[g.Intn(len(floatEdges))]
			d[i] = dFloat(v[i])
		}
		out.v = v
	case 3:
		v := make([]bool, n)
		for i := range v {
			v[i] = ints[i]%2 == 0
			d[i] = dBool(v[i])
		}
		out.v = v
	case 4:
		v := make([]byte, n)
		for i := range v {
			v[i] = byte(ints[i])
			d[i] = dInt(int64(v[i]))
		}
		out.v = v
	case 5:
		v := make([]map[string]interface{}, n)
		for i := range v {
			m, x := g.props(0)
			v[i], d[i] = m, x.d
			out.with(x)
		}
		out.v = v
	case 6:
		v := make([][]interface{}, n)
		for i := range v {
			x := g.value(0)
			v[i] = []interface{}{x.v}
			d[i] = dList([]obj{x.d})
			out.with(x)
		}
		out.v = v
	case 7:
		v := make([]graph.Node, g.Intn(4))
		d = make([]obj, len(v))
		for i := range v {
			y, x := g.node()
			v[i], d[i] = y, x.d
			out.with(x)
		}
		out.v = v
	case 8:
		v := make(nodePtrs, g.Intn(4))
		d = make([]obj, len(v))
		for i := range v {
			y, x := g.node()
			v[i], d[i] = &y, x.d
			out.with(x)
		}
		out.v = v
	case 9:
		v := make([]int16, n)
		for i := range v {
			v[i], d[i] = int16(ints[i]), dInt(int64(int16(ints[i])))
		}
		out.v = v
	case 10:
		out.v = []interface{}{[]int(nil), []interface{}(nil), []string(nil), []byte(nil)}[g.Intn(4)]
		d = nil
	}
	out.d = dList(d)
	return out
}

func (g gen) value(depth int) gval {
	k := g.Intn(16)
	if depth <= 0 && k >= 9 {
		k = g.Intn(9)
	}
	switch k {
	case 0:
		return gval{v: nil, d: dNil(), std: true}
	case 1:
		b := g.Intn(2) == 0
		return gval{v: b, d: dBool(b), std: true}
	case 2, 3, 4:
		n := g.int64()
		return gval{v: g.intAs(n), d: dInt(n), std: true}
	case 5:
		f := floatEdges[g.Intn(len(floatEdges))]
		if g.Intn(2) == 0 {
			f = g.NormFloat64() * math.Pow(10, float64(g.Intn(20)-10))
		}
		if g.Intn(3) == 0 && f == f {
			return gval{v: float32(f), d: dFloat(float64(float32(f))), std: true}
		}
		return gval{v: f, d: dFloat(f), std: true}
	case 6, 7, 8:
		s := g.str()
		return gval{v: s, d: dStr(s), std: true, str: len(s)}
	case 9, 10:
		return g.list(depth)
	case 11:
		return g.slice()
	case 12, 13:
		_, x := g.props(depth)
		return x
	case 14:
		return g.graph()
	}
	if g.Intn(2) == 0 {
		return g.graph()
	}
	n := g.size()
	st := customSt{sig: g.Intn(256)}
	ds := []obj{}
	out := gval{}
	for i := 0; i < n; i++ {
		x := g.value(depth - 1 - n/8)
		st.fields = append(st.fields, x.v)
		ds = append(ds, x.d)
		out.with(x)
	}
	out.v, out.d, out.std = st, dStruct(st.sig, ds...), false
	return out
}

// message gives one of the driver's own messages
func (g gen) message() gval {
	_, p := g.props(2)
	m := p.v.(map[string]interface{})
	out := gval{std: true, str: p.str, multi: p.multi}
	out.std = p.std
	switch g.Intn(11) {
	case 0:
		s, u, pw := g.str(), g.text(1+g.Intn(20)), g.str()
		out.v, out.std, out.multi, out.str = messages.NewInitMessage(s, u, pw), false, true, max(len(s), len(u), len(pw), 11)
		out.d = dStruct(1, dStr(s), dMap(map[string]obj{"scheme": dStr("basic"), "principal": dStr(u), "credentials": dStr(pw)}))
	case 1:
		s := g.str()
		out.v, out.std, out.multi, out.str = messages.NewInitMessage(s, "", g.str()), false, false, max(len(s), 6)
		out.d = dStruct(1, dStr(s), dMap(map[string]obj{"scheme": dStr("none")}))
	case 2, 3:
		s := g.str()
		out.v, out.std, out.str = messages.NewRunMessage(s, m), false, max(len(s), p.str)
		out.d = dStruct(0x10, dStr(s), p.d)
	case 4:
		out.v, out.d = messages.NewSuccessMessage(m), dStruct(sigSuccess, p.d)
	case 5:
		out.v, out.d = messages.NewFailureMessage(m), dStruct(sigFailure, p.d)
	case 6:
		l := g.list(2)
		if s, ok := l.v.(namedList); ok {
			l.v = []interface{}(s)
		}
		out = l
		out.v, out.d = messages.NewRecordMessage(l.v.([]interface{})), dStruct(sigRecord, l.d)
	case 7:
		out = gval{v: messages.NewAckFailureMessage(), d: dStruct(sigAck), std: true}
	case 8:
		out = gval{v: messages.NewResetMessage(), d: dStruct(sigReset), std: true}
	case 9:
		out = gval{v: messages.NewPullAllMessage(), d: dStruct(sigPull), std: true}
	case 10:
		if g.Intn(2) == 0 {
			out = gval{v: messages.NewDiscardAllMessage(), d: dStruct(sigDiscard), std: true}
		} else {
			out = gval{v: messages.NewIgnoredMessage(), d: dStruct(sigIgnored), std: true}
		}
	}
	return out
}

type notSupported struct{ X int }

// bad gives a value that can't be represented
func (g gen) bad() interface{} {
	x := 3
	var np *graph.Node
	l := []interface{}{
		notSupported{1}, &notSupported{1}, map[string]int{"a": 1}, map[int]interface{}{1: 2}, make(chan int), func() {}, &x,
		complex(1, 2), [2]int{1, 2}, uint64(math.MaxUint64), uint64(math.MaxInt64) + 1, struct{}{}, []complex64{1},
		[]chan int{nil}, map[interface{}]interface{}{}, np, uintptr(1), []uint64{1, 1 << 63},
		customSt{sig: 256}, customSt{sig: -1}, []notSupported{{1}},
	}
	return l[g.Intn(len(l))]
}

// hide puts a bad value somewhere inside a good one
func (g gen) hide(v interface{}, depth int) interface{} {
	if depth <= 0 {
		return v
	}
	a, b := g.value(1).v, g.value(1).v
	switch g.Intn(7) {
	case 0:
		return v
	case 1:
		return []interface{}{a, g.hide(v, depth-1), b}
	case 2:
		return map[string]interface{}{"a": a, "b": g.hide(v, depth-1), "c": b}
	case 3:
		return graph.Node{NodeIdentity: 1, Labels: []string{"x"}, Properties: map[string]interface{}{"k": g.hide(v, depth-1)}}
	case 4:
		return messages.NewRunMessage(g.str(), map[string]interface{}{"a": a, "p": g.hide(v, depth-1)})
	case 5:
		return customSt{sig: 7, fields: []interface{}{a, g.hide(v, depth-1)}}
	}
	return []interface{}{g.text(g.Intn(300)), g.hide(v, depth-1)}
}

func writeJSON(path string, v interface{}) error {
	b, err := json.Marshal(v)
	if err != nil {
		return err
	}
	return writeFile(path, b)
}
