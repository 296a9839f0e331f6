package main

// An independent reading of the PackStream format, used as the oracle.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"reflect"
	"sort"
)

// Struct is a structure value: signature and fields
type Struct struct {
	Sig    byte
	Fields []interface{}
}

func be(n uint64, w int) []byte {
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, n)
	return b[8-w:]
}

func packInt(n int64) []byte {
	switch {
	case n >= -16 && n <= 127:
		return []byte{byte(n)}
	case n >= -128 && n <= 127:
		return append([]byte{0xC8}, be(uint64(n), 1)...)
	case n >= -32768 && n <= 32767:
		return append([]byte{0xC9}, be(uint64(n), 2)...)
	case n >= -2147483648 && n <= 2147483647:
		return append([]byte{0xCA}, be(uint64(n), 4)...)
	}
	return append([]byte{0xCB}, be(uint64(n), 8)...)
}

// header in the size class w (0: tiny)
func head(tiny, base byte, n, w int) []byte {
	switch w {
	case 0:
		return []byte{tiny + byte(n)}
	case 1:
		return append([]byte{base}, be(uint64(n), 1)...)
	case 2:
		return append([]byte{base + 1}, be(uint64(n), 2)...)
	}
	return append([]byte{base + 2}, be(uint64(n), 4)...)
}

func minw(n int) int {
	switch {
	case n < 16:
		return 0
	case n < 256:
		return 1
	case n < 65536:
		return 2
	}
	return 4
}

// packer writes values; wider picks a size class at least as wide as w
type packer struct {
	wider func(w int, max int) int
}

var minimal = packer{func(w, max int) int { return w }}

func (p packer) pack(v interface{}) []byte {
	switch x := v.(type) {
	case nil:
		return []byte{0xC0}
	case bool:
		if x {
			return []byte{0xC3}
		}
		return []byte{0xC2}
	case float64:
		return append([]byte{0xC1}, be(math.Float64bits(x), 8)...)
	case int64:
		b := packInt(x)
		w := len(b) - 1
		if w2 := p.wider(w, 8); w2 > w {
			m := map[int]byte{1: 0xC8, 2: 0xC9, 4: 0xCA, 8: 0xCB}[w2]
			return append([]byte{m}, be(uint64(x), w2)...)
		}
		return b
	case string:
		return append(head(0x80, 0xD0, len(x), p.wider(minw(len(x)), 4)), x...)
	case []interface{}:
		b := head(0x90, 0xD4, len(x), p.wider(minw(len(x)), 4))
		for _, y := range x {
			b = append(b, p.pack(y)...)
		}
		return b
	case map[string]interface{}:
		b := head(0xA0, 0xD8, len(x), p.wider(minw(len(x)), 4))
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b = append(b, p.pack(k)...)
			b = append(b, p.pack(x[k])...)
		}
		return b
	case Struct:
		b := head(0xB0, 0xDC, len(x.Fields), p.wider(minw(len(x.Fields)), 2))
		b = append(b, x.Sig)
		for _, y := range x.Fields {
			b = append(b, p.pack(y)...)
		}
		return b
	}
	panic(fmt.Sprintf("oracle cannot pack %T", v))
}

var errShort = errors.New("cut short")

// parse reads one value
func parse(b []byte, depth int) (interface{}, []byte, error) {
	if len(b) == 0 {
		return nil, nil, errShort
	}
	if depth > 5000 {
		return nil, nil, errors.New("too deep")
	}
	m, b := b[0], b[1:]
	size := func(w int) (int, error) {
		if len(b) < w {
			return 0, errShort
		}
		n := 0
		for i := 0; i < w; i++ {
			n = n<<8 | int(b[i])
		}
		b = b[w:]
		return n, nil
	}
	kind, w := byte(0), 0
	n := 0
	switch {
	case m == 0xC0:
		return nil, b, nil
	case m == 0xC2:
		return false, b, nil
	case m == 0xC3:
		return true, b, nil
	case m <= 0x7F || m >= 0xF0:
		return int64(int8(m)), b, nil
	case m == 0xC1:
		if len(b) < 8 {
			return nil, nil, errShort
		}
		return math.Float64frombits(binary.BigEndian.Uint64(b)), b[8:], nil
	case m >= 0xC8 && m <= 0xCB:
		w = 1 << (m - 0xC8)
		if len(b) < w {
			return nil, nil, errShort
		}
		var u uint64
		for i := 0; i < w; i++ {
			u = u<<8 | uint64(b[i])
		}
		sh := uint(64 - 8*w)
		return int64(u<<sh) >> sh, b[w:], nil
	case m >= 0x80 && m <= 0xBF:
		kind, n = m&0xF0, int(m&0x0F)
	case m >= 0xD0 && m <= 0xD2:
		kind, w = 0x80, 1<<(m-0xD0)
	case m >= 0xD4 && m <= 0xD6:
		kind, w = 0x90, 1<<(m-0xD4)
	case m >= 0xD8 && m <= 0xDA:
		kind, w = 0xA0, 1<<(m-0xD8)
	case m == 0xDC || m == 0xDD:
		kind, w = 0xB0, 1<<(m-0xDC)
	default:
		return nil, nil, fmt.Errorf("no such marker %x", m)
	}
	if w > 0 {
		var err error
		if n, err = size(w); err != nil {
			return nil, nil, err
		}
	}
	switch kind {
	case 0x80:
		if len(b) < n {
			return nil, nil, errShort
		}
		return string(b[:n]), b[n:], nil
	case 0x90:
		if len(b) < n {
			return nil, nil, errShort
		}
		out := make([]interface{}, n)
		var err error
		for i := range out {
			if out[i], b, err = parse(b, depth+1); err != nil {
				return nil, nil, err
			}
		}
		return out, b, nil
	case 0xA0:
		if len(b) < 2*n {
			return nil, nil, errShort
		}
		out := map[string]interface{}{}
		for i := 0; i < n; i++ {
			var k, v interface{}
			var err error
			if k, b, err = parse(b, depth+1); err != nil {
				return nil, nil, err
			}
			if v, b, err = parse(b, depth+1); err != nil {
				return nil, nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, fmt.Errorf("key is a %T", k)
			}
			out[ks] = v
		}
		return out, b, nil
	}
	if len(b) < 1 {
		return nil, nil, errShort
	}
	s := Struct{Sig: b[0]}
	b = b[1:]
	for i := 0; i < n; i++ {
		var v interface{}
		var err error
		if v, b, err = parse(b, depth+1); err != nil {
			return nil, nil, err
		}
		s.Fields = append(s.Fields, v)
	}
	return s, b, nil
}

// same compares values; floats by their bits
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for k := range x {
			v, ok := y[k]
			if !ok || !same(x[k], v) {
				return false
			}
		}
		return true
	case Struct:
		y, ok := b.(Struct)
		return ok && x.Sig == y.Sig && same(x.Fields, y.Fields)
	}
	return reflect.DeepEqual(a, b)
}

// unchunk splits a byte stream into messages; the headers must be at most max
func unchunk(b []byte, max int) (msgs [][]byte, err error) {
	var cur []byte
	open := false
	for len(b) > 0 {
		if len(b) < 2 {
			return msgs, errors.New("half a chunk header")
		}
		n := int(b[0])<<8 | int(b[1])
		b = b[2:]
		if n == 0 {
			msgs = append(msgs, cur)
			cur, open = nil, false
			continue
		}
		if n > max {
			return msgs, fmt.Errorf("chunk of %d bytes, more than %d", n, max)
		}
		if len(b) < n {
			return msgs, fmt.Errorf("chunk of %d bytes announced, %d follow", n, len(b))
		}
		cur = append(cur, b[:n]...)
		b = b[n:]
		open = true
	}
	if open {
		return msgs, errors.New("message without its end marker")
	}
	return msgs, nil
}

// chunk writes a message in chunks of sizes given by next
func chunk(msg []byte, next func() int) []byte {
	var out []byte
	for len(msg) > 0 {
		n := next()
		if n > len(msg) {
			n = len(msg)
		}
		if n > 65535 {
			n = 65535
		}
		out = append(out, be(uint64(n), 2)...)
		out = append(out, msg[:n]...)
		msg = msg[n:]
	}
	return append(out, 0, 0)
}
