//go:build verifrec

package main

// Sessions that are recorded and replayed: by themselves, call by call, and
// under the driver. Judged by RecorderTrace.tla.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"os"
	"reflect"
	"sync"
	"time"

	bolt "github.com/johnnadratowski/golang-neo4j-bolt-driver"
)

func init() { recordMain = recordSessions }

// peer is the server of a raw session
type peer struct {
	ln       net.Listener
	ready    chan struct{}
	gone     chan struct{}
	c        net.Conn
	sent     []int
	arrived  []byte
	cut      bool
	greetErr error
}

func newPeer(rnd *rand.Rand) (*peer, error) {
	p := &peer{ready: make(chan struct{}), gone: make(chan struct{}), sent: []int{}}
	var err error
	if p.ln, err = net.Listen("tcp", "127.0.0.1:0"); err != nil {
		return nil, err
	}
	go func() {
		defer close(p.gone)
		c, err := p.ln.Accept()
		if err != nil {
			p.greetErr = err
			close(p.ready)
			return
		}
		p.c = c
		if err := greet(c, rnd, 0); err != nil {
			p.greetErr = err
			close(p.ready)
			return
		}
		close(p.ready)
		buf := make([]byte, 4096)
		for {
			n, err := c.Read(buf)
			p.arrived = append(p.arrived, buf[:n]...)
			if err != nil {
				return
			}
		}
	}()
	return p, nil
}

func ints(b []byte) []int {
	out := make([]int, len(b))
	for i, x := range b {
		out[i] = int(x)
	}
	return out
}

// rawBytes end as messages do, or nearly, more often than not
func (g gen) rawBytes(max int) []byte {
	b := make([]byte, 1+g.Intn(max))
	for i := range b {
		b[i] = []byte{0, 0, 1, 7, 0xB1, byte(g.Intn(256))}[g.Intn(6)]
	}
	if n := len(b); n >= 2 && g.Intn(2) == 0 {
		b[n-1], b[n-2] = 0, 0
	}
	return b
}

type rawRun struct {
	tracer
	g gen
}

// guard makes a panic or a call that doesn't return part of the trace
func (r *rawRun) guard(f func()) bool {
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				r.log(event{"e": "panic", "what": fmt.Sprint(p)})
				done <- false
			}
		}()
		f()
		done <- true
	}()
	select {
	case ok := <-done:
		return ok
	case <-time.After(30 * time.Second):
		r.log(event{"e": "hang"})
		return false
	}
}

type rawOp struct {
	write bool
	n     int
}

func (r *rawRun) record(name string) (ops []rawOp, err error) {
	g := r.g
	p, err := newPeer(rand.New(rand.NewSource(g.Int63())))
	if err != nil {
		return nil, err
	}
	defer p.ln.Close()
	url := "bolt://" + p.ln.Addr().String() + "?timeout=30"
	d, rec := bolt.VerifRecorder(name, url)
	if _, err := d.OpenNeo(url); err != nil {
		r.log(event{"e": "open", "what": err.Error()})
		return nil, nil
	}
	<-p.ready
	if p.greetErr != nil {
		return nil, p.greetErr
	}
	pending := 0
	ok := r.guard(func() {
		for i := 2 + g.Intn(9); i > 0; i-- {
			switch k := g.Intn(10); {
			case k < 4:
				b := g.rawBytes(12)
				n, err := rec.Write(b)
				ops = append(ops, rawOp{true, len(b)})
				r.log(event{"e": "rwrite", "b": ints(b), "k": n, "err": err != nil})
				clobber(b)
			case k < 9:
				if pending == 0 && !p.cut {
					b := g.rawBytes(14)
					p.c.Write(b)
					p.sent = append(p.sent, ints(b)...)
					pending += len(b)
				}
				n := []int{1, 2, 3, 5, 8, 20}[g.Intn(6)]
				buf := make([]byte, n)
				rec.SetReadDeadline(time.Now().Add(20 * time.Second))
				m, err := rec.Read(buf)
				pending -= m
				ops = append(ops, rawOp{false, n})
				r.log(event{"e": "rread", "n": n, "b": ints(buf[:m]), "err": err != nil})
				clobber(buf)
			default:
				switch {
				case g.Intn(2) == 0 && !p.cut && pending == 0:
					// nothing comes
					rec.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
					buf := make([]byte, 4)
					m, err := rec.Read(buf)
					ops = append(ops, rawOp{false, 4})
					r.log(event{"e": "rread", "n": 4, "b": ints(buf[:m]), "err": err != nil})
				case g.Intn(3) == 0:
					p.cut = true
					p.c.Close()
				}
			}
		}
		err := rec.Close()
		r.log(event{"e": "rclose", "err": err != nil})
	})
	if !ok {
		return ops, nil
	}
	select {
	case <-p.gone:
	case <-time.After(20 * time.Second):
		r.log(event{"e": "hang"})
	}
	p.c.Close()
	r.log(event{"e": "save", "sent": p.sent, "arrived": ints(p.arrived), "cut": p.cut})
	return ops, nil
}

// clobber does what callers do with their buffers afterwards
func clobber(b []byte) {
	for i := range b {
		b[i] ^= 0x5A
	}
}

// replay makes the calls again, in the same or in other pieces, or others
func (r *rawRun) replay(name string, ops []rawOp, kind int) {
	g := r.g
	d, rec := bolt.VerifRecorder(name, "")
	if _, err := d.OpenNeo(""); err != nil {
		r.log(event{"e": "open", "what": err.Error()})
		return
	}
	r.log(event{"e": "load", "kind": kind})
	read := func(n int) (int, bool) {
		buf := make([]byte, n)
		m, err := rec.Read(buf)
		if m < 0 || m > n {
			r.log(event{"e": "panic", "what": "impossible length"})
			return 0, true
		}
		r.log(event{"e": "pread", "n": n, "b": ints(buf[:m]), "err": err != nil})
		clobber(buf)
		return m, err != nil
	}
	write := func(n int) bool {
		k, err := rec.Write(g.bytes(n))
		r.log(event{"e": "pwrite", "n": n, "k": k, "err": err != nil})
		return err != nil
	}
	r.guard(func() {
		deviate := -1
		if kind == 2 {
			deviate = g.Intn(len(ops) + 1)
		}
		for i, o := range ops {
			if i == deviate {
				break
			}
			n := o.n
			for n > 0 {
				m := n
				if kind > 0 && g.Intn(2) == 0 {
					m = 1 + g.Intn(n)
				}
				if o.write {
					if write(m) {
						break
					}
					n -= m
					continue
				}
				if kind > 0 && g.Intn(3) == 0 {
					m = 1 + g.Intn(20)
				}
				k, failed := read(m)
				if failed || kind == 0 || g.Intn(3) > 0 {
					break
				}
				n -= k
			}
		}
		if kind == 2 {
			for i := g.Intn(5); i > 0; i-- {
				if g.Intn(2) == 0 {
					read(1 + g.Intn(20))
				} else {
					write(1 + g.Intn(20))
				}
			}
		} else {
			// the rest, if calls gave less than before
			for i := 0; i < 100; i++ {
				if _, failed := read(1 + g.Intn(9)); failed {
					break
				}
			}
		}
		err := rec.Close()
		r.log(event{"e": "pclose", "err": err != nil})
	})
}

func (g gen) bytes(n int) []byte {
	b := make([]byte, n)
	g.Read(b)
	return b
}

func rawScenario(name string, seed int64) obj {
	r := &rawRun{g: gen{rand.New(rand.NewSource(seed))}}
	ops, err := r.record(name)
	if err != nil {
		return obj{"harness": err.Error()}
	}
	if _, err := os.Stat("recordings/" + name + ".json"); err == nil {
		for _, kind := range []int{0, 1, 2, 2} {
			r.replay(name, ops, kind)
		}
	}
	return obj{"kind": "raw", "seed": seed, "events": r.finish()}
}

// plain is an event without what may differ: the text of errors and the
// order of maps
func plain(evs []event) []interface{} {
	out := []interface{}{}
	for _, e := range evs {
		if e["e"] == "req" {
			continue
		}
		m := map[string]interface{}{}
		for k, v := range e {
			if k != "what" && k != "args" {
				m[k] = v
			}
		}
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		var x interface{}
		json.Unmarshal(b, &x)
		out = append(out, sorted(x))
	}
	return out
}

// sorted makes maps, which are written as sequences in any order, comparable
func sorted(x interface{}) interface{} {
	switch v := x.(type) {
	case map[string]interface{}:
		for k, e := range v {
			v[k] = sorted(e)
		}
		if v["t"] == "bytes" {
			delete(v, "b")
		}
		if v["t"] == "map" {
			if l, ok := v["m"].([]interface{}); ok {
				keyed := map[string]interface{}{}
				for _, e := range l {
					b, _ := json.Marshal(e.([]interface{})[0])
					keyed[string(b)] = e
				}
				v["m"] = keyed
			}
		}
	case []interface{}:
		for i, e := range v {
			v[i] = sorted(e)
		}
	}
	return x
}

// driverScenario has the driver make the same calls with a recording
func driverScenario(name string, seed int64) obj {
	g := gen{rand.New(rand.NewSource(seed + 5))}
	live := &dataRun{mode: "C21"}
	if g.Intn(2) == 0 {
		live.cut = 1 + g.Intn(30<<uint(g.Intn(7)))
	}
	if err := live.listen(seed); err != nil {
		return obj{"harness": err.Error()}
	}
	url := "bolt://" + live.ln.Addr().String() + "?timeout=30"
	live.open, _ = bolt.VerifRecorder(name, url)
	live.calls(url)
	first := plain(live.finish())
	live.hangUp()
	res := []event{{"e": "live", "n": len(first)}}
	if _, err := os.Stat("recordings/" + name + ".json"); err != nil {
		return obj{"kind": "driver", "seed": seed, "events": append(res, event{"e": "unsaved"})}
	}
	for i := 0; i < 2; i++ {
		again := &dataRun{mode: "C21", g: gen{rand.New(rand.NewSource(seed))}}
		again.open, _ = bolt.VerifRecorder(name, "")
		again.calls("")
		got := plain(again.finish())
		same := reflect.DeepEqual(got, first)
		e := event{"e": "again", "same": same, "n": len(got)}
		if !same {
			for j := range first {
				if j >= len(got) || !reflect.DeepEqual(first[j], got[j]) {
					e["at"] = j
					e["live"] = first[j]
					if j < len(got) {
						e["replayed"] = got[j]
					}
					break
				}
			}
		}
		res = append(res, e)
	}
	// another program with the same recording: it comes to an end
	other := &dataRun{mode: "C21", g: gen{rand.New(rand.NewSource(seed + 1))}}
	other.open, _ = bolt.VerifRecorder(name, "")
	other.calls("")
	bad := ""
	for _, e := range other.finish() {
		if e["e"] == "panic" || e["e"] == "hang" {
			bad = fmt.Sprint(e["e"], " ", e["what"])
		}
	}
	res = append(res, event{"e": "other", "bad": bad != "", "what": bad})
	return obj{"kind": "driver", "seed": seed, "events": res}
}

func recordSessions(out, family, dir string, seed int64, n, workers int) error {
	if err := os.Chdir(dir); err != nil {
		return err
	}
	if err := os.MkdirAll("recordings", 0755); err != nil {
		return err
	}
	os.Setenv("RECORD_OUTPUT", "1")
	outs := make([]obj, n)
	var wg sync.WaitGroup
	sem := make(chan struct{}, workers)
	for i := range outs {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			name := fmt.Sprintf("verif-%s-%d", family, i)
			s := seed*1000003 + int64(i)
			if family == "driver" {
				outs[i] = driverScenario(name, s)
			} else {
				outs[i] = rawScenario(name, s)
			}
			os.Remove("recordings/" + name + ".json")
		}(i)
	}
	wg.Wait()
	return writeJSON(out, outs)
}
