package main

// An implementation of PackStream v1 and Bolt chunking that is independent of
// the driver's own. Used by the scripted server and as carrier of the
// specification's decisions; what is right is decided by the TLA+ modules.

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"sort"
)

const (
	sigInit    = 0x01
	sigAck     = 0x0E
	sigReset   = 0x0F
	sigRun     = 0x10
	sigDiscard = 0x2F
	sigPull    = 0x3F
	sigSuccess = 0x70
	sigRecord  = 0x71
	sigIgnored = 0x7E
	sigFailure = 0x7F
)

func msg(sig byte, fields ...interface{}) []byte {
	return pack(nil, pStruct{sig, fields})
}

type pStruct struct {
	Sig    byte
	Fields []interface{}
}

// pPair lists keep the order of map entries
type pMap []pPair
type pPair struct {
	K string
	V interface{}
}

func packHead(b []byte, n int, tiny byte, m8, m16, m32 byte) []byte {
	switch {
	case n < 16:
		return append(b, tiny+byte(n))
	case n < 256:
		return append(b, m8, byte(n))
	case n < 65536:
		return append(b, m16, byte(n>>8), byte(n))
	default:
		return append(b, m32, byte(n>>24), byte(n>>16), byte(n>>8), byte(n))
	}
}

func pack(b []byte, v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return append(b, 0xC0)
	case bool:
		if x {
			return append(b, 0xC3)
		}
		return append(b, 0xC2)
	case int:
		return pack(b, int64(x))
	case int64:
		switch {
		case x >= -16 && x <= 127:
			return append(b, byte(x))
		case x >= -128 && x <= 127:
			return append(b, 0xC8, byte(x))
		case x >= -32768 && x <= 32767:
			return append(b, 0xC9, byte(x>>8), byte(x))
		case x >= math.MinInt32 && x <= math.MaxInt32:
			return append(b, 0xCA, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
		default:
			b = append(b, 0xCB)
			return binary.BigEndian.AppendUint64(b, uint64(x))
		}
	case float64:
		b = append(b, 0xC1)
		return binary.BigEndian.AppendUint64(b, math.Float64bits(x))
	case string:
		b = packHead(b, len(x), 0x80, 0xD0, 0xD1, 0xD2)
		return append(b, x...)
	case []interface{}:
		b = packHead(b, len(x), 0x90, 0xD4, 0xD5, 0xD6)
		for _, i := range x {
			b = pack(b, i)
		}
		return b
	case map[string]interface{}:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b = packHead(b, len(x), 0xA0, 0xD8, 0xD9, 0xDA)
		for _, k := range keys {
			b = pack(b, k)
			b = pack(b, x[k])
		}
		return b
	case pMap:
		b = packHead(b, len(x), 0xA0, 0xD8, 0xD9, 0xDA)
		for _, p := range x {
			b = pack(b, p.K)
			b = pack(b, p.V)
		}
		return b
	case pStruct:
		b = packHead(b, len(x.Fields), 0xB0, 0xDC, 0xDD, 0xDD)
		b = append(b, x.Sig)
		for _, f := range x.Fields {
			b = pack(b, f)
		}
		return b
	}
	panic(fmt.Sprintf("harness cannot pack %T", v))
}

type unpacker struct {
	b   []byte
	err error
}

func (u *unpacker) take(n int) []byte {
	if u.err == nil && n > len(u.b) {
		u.err = io.ErrUnexpectedEOF
	}
	if u.err != nil {
		return nil
	}
	r := u.b[:n]
	u.b = u.b[n:]
	return r
}

func (u *unpacker) uint(n int) int {
	r := 0
	for _, x := range u.take(n) {
		r = r<<8 | int(x)
	}
	return r
}

func (u *unpacker) list(n int) []interface{} {
	out := []interface{}{}
	for i := 0; i < n && u.err == nil; i++ {
		out = append(out, u.val())
	}
	return out
}

func (u *unpacker) dict(n int) map[string]interface{} {
	out := map[string]interface{}{}
	for i := 0; i < n && u.err == nil; i++ {
		k, ok := u.val().(string)
		if !ok && u.err == nil {
			u.err = fmt.Errorf("map key is not a string")
		}
		if _, dup := out[k]; dup && u.err == nil {
			u.err = fmt.Errorf("duplicate map key")
		}
		out[k] = u.val()
	}
	return out
}

func (u *unpacker) str(n int) string { return string(u.take(n)) }

func (u *unpacker) strct(n int) interface{} {
	sig := u.take(1)
	if u.err != nil {
		return nil
	}
	return pStruct{sig[0], u.list(n)}
}

func (u *unpacker) val() interface{} {
	m := u.take(1)
	if u.err != nil {
		return nil
	}
	switch b := m[0]; {
	case b < 0x80:
		return int64(b)
	case b >= 0xF0:
		return int64(int8(b))
	case b < 0x90:
		return u.str(int(b & 15))
	case b < 0xA0:
		return u.list(int(b & 15))
	case b < 0xB0:
		return u.dict(int(b & 15))
	case b < 0xC0:
		return u.strct(int(b & 15))
	default:
		switch b {
		case 0xC0:
			return nil
		case 0xC1:
			x := u.take(8)
			if u.err != nil {
				return nil
			}
			return math.Float64frombits(binary.BigEndian.Uint64(x))
		case 0xC2:
			return false
		case 0xC3:
			return true
		case 0xC8:
			return int64(int8(u.uint(1)))
		case 0xC9:
			return int64(int16(u.uint(2)))
		case 0xCA:
			return int64(int32(u.uint(4)))
		case 0xCB:
			return int64(u.uint(8))
		case 0xD0:
			return u.str(u.uint(1))
		case 0xD1:
			return u.str(u.uint(2))
		case 0xD2:
			return u.str(u.uint(4))
		case 0xD4:
			return u.list(u.uint(1))
		case 0xD5:
			return u.list(u.uint(2))
		case 0xD6:
			return u.list(u.uint(4))
		case 0xD8:
			return u.dict(u.uint(1))
		case 0xD9:
			return u.dict(u.uint(2))
		case 0xDA:
			return u.dict(u.uint(4))
		case 0xDC:
			return u.strct(u.uint(1))
		case 0xDD:
			return u.strct(u.uint(2))
		}
		u.err = fmt.Errorf("bad marker %x", b)
		return nil
	}
}

func unpack(b []byte) (interface{}, error) {
	u := &unpacker{b: b}
	v := u.val()
	if u.err == nil && len(u.b) > 0 {
		u.err = fmt.Errorf("%d trailing bytes", len(u.b))
	}
	return v, u.err
}

// chunks frames a payload; sizes gives the chunk lengths to use (then max)
func chunks(payload []byte, sizes func() int) []byte {
	var out []byte
	for len(payload) > 0 {
		n := sizes()
		if n < 1 || n > 65535 {
			n = 65535
		}
		if n > len(payload) {
			n = len(payload)
		}
		out = append(out, byte(n>>8), byte(n))
		out = append(out, payload[:n]...)
		payload = payload[n:]
	}
	return append(out, 0, 0)
}

func whole() int { return 65535 }

// dechunk reads one message; it also returns the chunk lengths
func dechunk(r io.Reader) ([]byte, []int, error) {
	var out []byte
	var lens []int
	for {
		var h [2]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return out, lens, err
		}
		n := int(h[0])<<8 | int(h[1])
		if n == 0 {
			return out, lens, nil
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(r, b); err != nil {
			return out, lens, err
		}
		out = append(out, b...)
		lens = append(lens, n)
	}
}
