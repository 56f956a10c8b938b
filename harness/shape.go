package main

import (
	"fmt"
	"math/rand"
	"strings"
)

// shape decides what the messages of a session look like: every message
// carries its tag and otherwise varies, so that what the client gives out can
// be compared in full. In bare sessions some kinds of message carry nothing
// at all, not even a tag.
type shape struct {
	seed int64
	bare int
	like bool // some queries have the same text and no parameters
}

// text is the text x of a query. In alike sessions every other two have the same
func (s shape) text(x int) string {
	if s.like && x/2%2 == 0 {
		return "RETURN 1"
	}
	r := s.rnd(10, x, 0)
	t := fmt.Sprintf("X%d", x)
	switch r.Intn(8) {
	case 0:
		t += " RETURN 'é\n\x00{p}'\t%s%d"
	case 1:
		t += strings.Repeat(" MATCH (n) ", r.Intn(60))
	case 2:
		t += "\r\n;COMMIT"
	}
	return t
}

func (s shape) textTag(t string) int {
	if s.like && t == "RETURN 1" {
		return -2
	}
	n := 1
	for n < len(t) && t[n] >= '0' && t[n] <= '9' {
		n++
	}
	if t == "" || t[0] != 'X' {
		return -1
	}
	if x := num(t[1:n]); x >= 0 && s.text(x) == t {
		return x
	}
	return -1
}

// noParams says whether a call with tag q has no parameters
func (s shape) noParams(q int) bool { return s.like && q%2 == 1 }

func (s shape) params(q int) map[string]interface{} {
	if !s.noParams(q) {
		return sentParams(q)
	}
	if s.rnd(11, q, 0).Intn(2) == 0 {
		return nil
	}
	return map[string]interface{}{}
}

const (
	bareRowEmpty  = 1 << iota // records have no fields
	bareRowNil                // records are a single null
	bareRun                   // successes of RUN carry no metadata
	bareRunFields             // successes of RUN carry an empty list of fields
	bareEnd                   // summaries carry no metadata
	bareFail                  // failures carry no metadata
)

func (s shape) rnd(kind, q, i int) *rand.Rand {
	h := s.seed
	for _, x := range []int{kind, q, i} {
		h = h*6364136223846793005 + int64(x) + 1442695040888963407
		h ^= int64(uint64(h) >> 29)
	}
	return rand.New(rand.NewSource(h))
}

func someValue(r *rand.Rand, depth int) interface{} {
	n := 9
	if depth == 0 {
		n = 7
	}
	switch r.Intn(n) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	case 3:
		return r.NormFloat64()
	case 4:
		return ""
	case 5:
		return strings.Repeat("é", r.Intn(20))
	case 6:
		return strings.Repeat("x", r.Intn(300))
	case 7:
		l := make([]interface{}, r.Intn(4))
		for i := range l {
			l[i] = someValue(r, depth-1)
		}
		return l
	default:
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[fmt.Sprintf("k%d", r.Intn(9))] = someValue(r, depth-1)
		}
		return m
	}
}

// before and after are the numbers of further columns around tag and index
func (s shape) width(q int) (before, after int) {
	r := s.rnd(1, 0, 0)
	before = []int{0, 0, 1, 2}[r.Intn(4)]
	after = []int{0, 0, 0, 1, 3}[s.rnd(1, q, 0).Intn(5)]
	return
}

func (s shape) fields(q int) []string {
	b, a := s.width(q)
	var out []string
	for i := 0; i < b; i++ {
		out = append(out, fmt.Sprintf("b%d", i))
	}
	out = append(out, fmt.Sprintf("c%d", q), "i")
	for i := 0; i < a; i++ {
		out = append(out, fmt.Sprintf("a%d", i))
	}
	return out
}

func (s shape) row(q, i int) []interface{} {
	if s.bare&bareRowEmpty != 0 {
		return []interface{}{}
	}
	if s.bare&bareRowNil != 0 {
		return []interface{}{nil}
	}
	b, a := s.width(q)
	r := s.rnd(2, q, i)
	out := []interface{}{}
	for k := 0; k < b; k++ {
		out = append(out, someValue(r, 2))
	}
	out = append(out, int64(q), int64(i))
	for k := 0; k < a; k++ {
		out = append(out, someValue(r, 2))
	}
	return out
}

func (s shape) runMeta(q int) map[string]interface{} {
	if s.bare&bareRun != 0 {
		return map[string]interface{}{}
	}
	if s.bare&bareRunFields != 0 {
		return map[string]interface{}{"fields": []interface{}{}}
	}
	f := []interface{}{}
	for _, x := range s.fields(q) {
		f = append(f, x)
	}
	m := map[string]interface{}{"fields": f, "tag": int64(q)}
	r := s.rnd(3, q, 0)
	if r.Intn(2) == 0 {
		m["result_available_after"] = int64(r.Intn(1000))
	}
	return m
}

func (s shape) endMeta(q int) map[string]interface{} {
	if s.bare&bareEnd != 0 {
		return map[string]interface{}{}
	}
	r := s.rnd(4, q, 0)
	m := map[string]interface{}{"tag": int64(q), "type": []string{"r", "rw", "w", "s"}[r.Intn(4)]}
	if r.Intn(2) == 0 {
		m["stats"] = map[string]interface{}{"nodes-created": int64(r.Intn(5)), "labels-added": int64(r.Intn(3))}
	}
	if r.Intn(4) == 0 {
		m["plan"] = someValue(r, 3)
	}
	return m
}

// txMeta goes with answers no user sees
func (s shape) txMeta(n int) map[string]interface{} {
	r := s.rnd(5, n, 0)
	m := map[string]interface{}{}
	if r.Intn(2) == 0 {
		m["bookmark"] = someValue(r, 1)
	}
	if r.Intn(3) == 0 {
		m["fields"] = []interface{}{}
	}
	return m
}

var neoCodes = []string{
	"Neo.ClientError.Statement.SyntaxError", "Neo.ClientError.Statement.SemanticError", "Neo.ClientError.Statement.ParameterMissing",
	"Neo.ClientError.Statement.EntityNotFound", "Neo.ClientError.Schema.ConstraintValidationFailed",
	"Neo.ClientError.Transaction.TransactionNotFound", "Neo.ClientError.Transaction.TransactionHookFailed",
	"Neo.ClientError.Transaction.TransactionTerminated", "Neo.ClientError.Transaction.TransactionTimedOut",
	"Neo.ClientError.Transaction.TransactionMarkedAsFailed", "Neo.ClientError.Security.Unauthorized",
	"Neo.ClientError.Security.Forbidden", "Neo.ClientError.Request.Invalid", "Neo.ClientError.General.ForbiddenOnReadOnlyDatabase",
	"Neo.TransientError.Transaction.DeadlockDetected", "Neo.TransientError.Transaction.LockClientStopped",
	"Neo.TransientError.Transaction.Terminated", "Neo.TransientError.General.DatabaseUnavailable",
	"Neo.TransientError.General.OutOfMemoryError", "Neo.TransientError.Network.CommunicationError",
	"Neo.DatabaseError.General.UnknownError", "Neo.DatabaseError.Statement.ExecutionFailed",
	"Neo.DatabaseError.Transaction.TransactionCommitFailed", "Neo.DatabaseError.Transaction.TransactionStartFailed",
	"Neo.ClientNotification.Statement.CartesianProduct",
}

func (s shape) failMeta(f int) map[string]interface{} {
	if s.bare&bareFail != 0 {
		return map[string]interface{}{}
	}
	r := s.rnd(6, f, 0)
	m := map[string]interface{}{"code": fmt.Sprintf("F%d", f), "message": strings.Repeat("m", r.Intn(40))}
	if r.Intn(3) > 0 {
		// what servers say
		m = map[string]interface{}{"code": neoCodes[r.Intn(len(neoCodes))], "message": fmt.Sprintf("F%d", f)}
	} else if r.Intn(4) == 0 {
		delete(m, "message")
	}
	if r.Intn(4) == 0 {
		m["more"] = someValue(r, 2)
	}
	return m
}

// what the client gave out, as tags: -1 not what the server sent, -2 a
// message without a tag

func (s shape) runTag(m map[string]interface{}) int {
	if s.bare&(bareRun|bareRunFields) != 0 {
		if same(m, s.runMeta(0)) {
			return -2
		}
		return -1
	}
	if t := tagOf(m); t >= 0 && same(m, s.runMeta(t)) {
		return t
	}
	return -1
}

func (s shape) endTag(m map[string]interface{}) int {
	if s.bare&bareEnd != 0 {
		if same(m, s.endMeta(0)) {
			return -2
		}
		return -1
	}
	if t := tagOf(m); t >= 0 && same(m, s.endMeta(t)) {
		return t
	}
	return -1
}

func (s shape) colsTag(cols []string, meta map[string]interface{}) int {
	t := s.runTag(meta)
	want := []string{}
	if t >= 0 {
		want = s.fields(t)
	}
	if len(cols) != len(want) {
		return -1
	}
	for i := range want {
		if cols[i] != want[i] {
			return -1
		}
	}
	return t
}

func (s shape) rowTag(row []interface{}) []int {
	if s.bare&(bareRowEmpty|bareRowNil) != 0 {
		if same(row, s.row(0, 0)) {
			return []int{-2, 0}
		}
		return []int{-1, len(row)}
	}
	b, _ := s.width(0)
	if len(row) < b+2 {
		return []int{-1, len(row)}
	}
	q, ok1 := row[b].(int64)
	i, ok2 := row[b+1].(int64)
	if !ok1 || !ok2 || !same(row, s.row(int(q), int(i))) {
		return []int{-1, -1}
	}
	return []int{int(q), int(i)}
}

func (s shape) failTag(m map[string]interface{}) int {
	if s.bare&bareFail != 0 {
		if m != nil && len(m) == 0 {
			return -2
		}
		return -1
	}
	code, _ := m["code"].(string)
	if !strings.HasPrefix(code, "F") {
		code, _ = m["message"].(string)
	}
	if !strings.HasPrefix(code, "F") {
		return -1
	}
	if f := num(code[1:]); f > 0 && same(m, s.failMeta(f)) {
		return f
	}
	return -1
}

// same compares values; empty lists and maps may be nil
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	case nil, bool, int64, float64, string:
		return a == b
	}
	return false
}
