package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

var goodVersion = []byte{0, 0, 0, 1}

// fragWriter writes b in pieces so that the peer sees it fragmented
func fragWrite(c net.Conn, b []byte, rnd *rand.Rand, frag int) error {
	if frag == 0 || len(b) == 0 {
		_, err := c.Write(b)
		return err
	}
	for len(b) > 0 {
		n := 1
		if frag > 1 {
			n = 1 + rnd.Intn(frag)
		}
		if n > len(b) {
			n = len(b)
		}
		if _, err := c.Write(b[:n]); err != nil {
			return err
		}
		b = b[n:]
		if len(b) > 0 && rnd.Intn(3) == 0 {
			time.Sleep(20 * time.Microsecond)
		}
	}
	return nil
}

// event is one line of a trace; only the fields its kind needs are set
type event map[string]interface{}

type tracer struct {
	sync.Mutex
	events []event
	done   bool
	last   time.Time // of the last event
}

func (t *tracer) log(e event) {
	t.Lock()
	if !t.done {
		t.events = append(t.events, e)
		t.last = time.Now()
	}
	t.Unlock()
}

// idler tells when nothing has been logged for some time
type idler struct {
	c    chan struct{}
	done chan struct{}
}

func (i idler) stop() { close(i.done) }

func (t *tracer) idle(limit time.Duration) idler {
	i := idler{make(chan struct{}), make(chan struct{})}
	go func() {
		wait := limit
		for {
			select {
			case <-i.done:
				return
			case <-time.After(wait):
			}
			t.Lock()
			wait = limit - time.Since(t.last)
			t.Unlock()
			if wait <= 0 {
				close(i.c)
				return
			}
		}
	}()
	return i
}

func (t *tracer) finish() []event {
	t.Lock()
	defer t.Unlock()
	t.done = true
	return t.events
}

// request is a decoded client message
type request struct {
	K, T   string
	X, Q   int
	Text   string
	Params interface{}
}

func num(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return -1
	}
	return n
}

// sentParams are the parameters a call with tag q sends
func sentParams(q int) map[string]interface{} {
	m := map[string]interface{}{"p": int64(q), "l": []interface{}{int64(q), "v", nil}}
	r := rand.New(rand.NewSource(int64(q)))
	for i := r.Intn(3); i > 0; i-- {
		m[fmt.Sprintf("m%d", i)] = someValue(r, 2)
	}
	return m
}

func paramsTag(v interface{}) int {
	m, ok := v.(map[string]interface{})
	if !ok {
		return -1
	}
	p, ok := m["p"].(int64)
	if !ok || !same(m, sentParams(int(p))) {
		return -1
	}
	return int(p)
}

func parseRequest(payload []byte) request {
	v, err := unpack(payload)
	s, ok := v.(pStruct)
	if err != nil || !ok {
		return request{K: "JUNK"}
	}
	zero := len(s.Fields) == 0
	switch {
	case s.Sig == sigAck && zero:
		return request{K: "ACK"}
	case s.Sig == sigReset && zero:
		return request{K: "RESET"}
	case s.Sig == sigPull && zero:
		return request{K: "PULL"}
	case s.Sig == sigDiscard && zero:
		return request{K: "DISCARD"}
	case s.Sig == sigRun && len(s.Fields) == 2:
		text, ok := s.Fields[0].(string)
		if !ok {
			return request{K: "JUNK"}
		}
		switch text {
		case "BEGIN", "COMMIT", "ROLLBACK":
			if m, ok := s.Fields[1].(map[string]interface{}); ok && len(m) == 0 {
				return request{K: "RUN", T: text}
			}
			return request{K: "RUN", T: "JUNK"}
		}
		if !strings.HasPrefix(text, "X") {
			return request{K: "RUN", T: "Q", X: -1, Q: paramsTag(s.Fields[1]), Text: text, Params: s.Fields[1]}
		}
		return request{K: "RUN", T: "Q", X: num(text[1:]), Q: paramsTag(s.Fields[1]), Text: text, Params: s.Fields[1]}
	}
	return request{K: "JUNK"}
}

func isTimeout(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}

// greet performs the server side of handshake and INIT, successfully
func greet(c net.Conn, rnd *rand.Rand, frag int) error {
	var hs [20]byte
	if _, err := io.ReadFull(c, hs[:]); err != nil {
		return err
	}
	if err := fragWrite(c, goodVersion, rnd, frag); err != nil {
		return err
	}
	if _, _, err := dechunk(c); err != nil {
		return err
	}
	return fragWrite(c, chunks(msg(sigSuccess, map[string]interface{}{"server": "Neo4j/3.1.0"}), whole), rnd, frag)
}
