package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/mindstand/go-bolt/encoding/encoding_v1"
	"github.com/mindstand/go-bolt/encoding/encoding_v2"
	"github.com/mindstand/go-bolt/protocol"
	"github.com/mindstand/go-bolt/protocol/protocol_v1"
	"github.com/mindstand/go-bolt/protocol/protocol_v2"
	"github.com/mindstand/go-bolt/protocol/protocol_v3"
	"github.com/mindstand/go-bolt/protocol/protocol_v4"
	"github.com/mindstand/go-bolt/structures/graph"
	"github.com/mindstand/go-bolt/structures/messages"
	"github.com/mindstand/go-bolt/structures/types"
	"github.com/mindstand/gotime"
)

type codec struct {
	name      string
	v         int
	marshal   func(interface{}) ([]byte, error)
	unmarshal func([]byte) (interface{}, error)
	enc       func(io.Writer, uint16) func(interface{}) error
	dec       func(io.Reader) func() (interface{}, error)
}

var codecs = []codec{
	{"v1", 1, encoding_v1.Marshal, encoding_v1.Unmarshal,
		func(w io.Writer, n uint16) func(interface{}) error { return encoding_v1.NewEncoder(w, n).Encode },
		func(r io.Reader) func() (interface{}, error) { return encoding_v1.NewDecoder(r).Decode }},
	{"v2", 2, encoding_v2.Marshal, encoding_v2.Unmarshal,
		func(w io.Writer, n uint16) func(interface{}) error { return encoding_v2.NewEncoder(w, n).Encode },
		func(r io.Reader) func() (interface{}, error) { return encoding_v2.NewDecoder(r).Decode }},
	through("v1 of protocol 1", 1, &protocol_v1.BoltProtocolV1{}),
	through("v2 of protocol 2", 2, &protocol_v2.BoltProtocolV2{}),
	through("v2 of protocol 3", 2, &protocol_v3.BoltProtocolV3{}),
	through("v2 of protocol 4", 2, &protocol_v4.BoltProtocolV4{}),
}

// through is the codec a protocol version offers
func through(name string, v int, p protocol.IBoltProtocol) codec {
	return codec{name, v, p.Marshal, p.Unmarshal,
		func(w io.Writer, n uint16) func(interface{}) error { return p.NewEncoder(w, n).Encode },
		func(r io.Reader) func() (interface{}, error) { return p.NewDecoder(r).Decode }}
}

func show(v interface{}) string {
	s := fmt.Sprintf("%T %+v", v, v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func hex(b []byte) string {
	if len(b) > 200 {
		return fmt.Sprintf("%x... (%d bytes)", b[:200], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// lift turns what the code under test accepts or returns into oracle values
func lift(v interface{}) interface{} {
	m := func(x map[string]interface{}) interface{} {
		if x == nil {
			return map[string]interface{}{}
		}
		return lift(x)
	}
	switch x := v.(type) {
	case int:
		return int64(x)
	case int8:
		return int64(x)
	case int16:
		return int64(x)
	case int32:
		return int64(x)
	case uint:
		return int64(x)
	case uint8:
		return int64(x)
	case uint16:
		return int64(x)
	case uint32:
		return int64(x)
	case uint64:
		return int64(x)
	case float32:
		return float64(x)
	case []interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k := range x {
			out[k] = lift(x[k])
		}
		return out
	case []string:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case []int:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case []int64:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case []float64:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case []bool:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case []uint8:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case []map[string]interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = m(x[i])
		}
		return out
	case [][]interface{}:
		out := make([]interface{}, len(x))
		for i := range x {
			out[i] = lift(x[i])
		}
		return out
	case graph.Node:
		return Struct{0x4E, []interface{}{x.NodeIdentity, lift(x.Labels), m(x.Properties)}}
	case graph.Relationship:
		return Struct{0x52, []interface{}{x.RelIdentity, x.StartNodeIdentity, x.EndNodeIdentity, x.Type, m(x.Properties)}}
	case graph.UnboundRelationship:
		return Struct{0x72, []interface{}{x.RelIdentity, x.Type, m(x.Properties)}}
	case graph.Path:
		ns, rs := make([]interface{}, len(x.Nodes)), make([]interface{}, len(x.Relationships))
		for i := range ns {
			ns[i] = lift(x.Nodes[i])
		}
		for i := range rs {
			rs[i] = lift(x.Relationships[i])
		}
		return Struct{0x50, []interface{}{ns, rs, lift(x.Sequence)}}
	case types.Point2D:
		return Struct{0x58, []interface{}{int64(x.SRID), x.X, x.Y}}
	case types.Point3D:
		return Struct{0x59, []interface{}{int64(x.SRID), x.X, x.Y, x.Z}}
	case messages.RecordMessage:
		f := lift(x.Fields)
		if x.Fields == nil {
			f = []interface{}{}
		}
		return Struct{0x71, []interface{}{f}}
	case messages.SuccessMessage:
		return Struct{0x70, []interface{}{m(x.Metadata)}}
	case messages.FailureMessage:
		return Struct{0x7F, []interface{}{m(x.Metadata)}}
	case messages.IgnoredMessage:
		return Struct{Sig: 0x7E}
	case messages.DiscardAllMessage:
		return Struct{Sig: 0x2F}
	case messages.PullAllMessage:
		return Struct{Sig: 0x3F}
	case messages.ResetMessage:
		return Struct{Sig: 0x0F}
	case tstruct:
		return Struct{x.sig, x.f}
	}
	return v
}

// tstruct is a structure with arbitrary signature and fields
type tstruct struct {
	sig byte
	f   []interface{}
}

func (t tstruct) Signature() int           { return int(t.sig) }
func (t tstruct) AllFields() []interface{} { return t.f }

// checkpack: out must be exactly the representation of v, maps in any order
func checkpack(out []byte, v interface{}) ([]byte, string) {
	lit := func(w []byte) string {
		if !bytes.HasPrefix(out, w) {
			n := len(w)
			if n > len(out) {
				n = len(out)
			}
			return fmt.Sprintf("want %s, got %s", hex(w), hex(out[:n]))
		}
		out = out[len(w):]
		return ""
	}
	switch x := v.(type) {
	case []interface{}:
		if e := lit(head(0x90, 0xD4, len(x), minw(len(x)))); e != "" {
			return nil, "list header: " + e
		}
		for i, y := range x {
			var e string
			if out, e = checkpack(out, y); e != "" {
				return nil, fmt.Sprintf("item %d: %s", i, e)
			}
		}
		return out, ""
	case map[string]interface{}:
		if e := lit(head(0xA0, 0xD8, len(x), minw(len(x)))); e != "" {
			return nil, "map header: " + e
		}
		seen := map[string]bool{}
		for i := 0; i < len(x); i++ {
			k, _, err := parse(out, 0)
			ks, ok := k.(string)
			if err != nil || !ok || seen[ks] {
				return nil, fmt.Sprintf("map entry %d: key %v %v", i, k, err)
			}
			seen[ks] = true
			y, ok := x[ks]
			if !ok {
				return nil, fmt.Sprintf("map key %q does not exist", ks)
			}
			var e string
			if out, e = checkpack(out, ks); e != "" {
				return nil, "map key: " + e
			}
			if out, e = checkpack(out, y); e != "" {
				return nil, fmt.Sprintf("value of %q: %s", ks, e)
			}
		}
		return out, ""
	case Struct:
		if e := lit(append(head(0xB0, 0xDC, len(x.Fields), minw(len(x.Fields))), x.Sig)); e != "" {
			return nil, "structure header: " + e
		}
		for i, y := range x.Fields {
			var e string
			if out, e = checkpack(out, y); e != "" {
				return nil, fmt.Sprintf("field %d: %s", i, e)
			}
		}
		return out, ""
	}
	e := lit(minimal.pack(v))
	return out, e
}

// ---------------------------------------------------------------- values
var edges = []int64{0, 1, -1, 15, 16, 17, -15, -16, -17, -18, 126, 127, 128, 129, -126, -127, -128, -129, 254, 255, 256, 257, -255, -256, -257, 32766, 32767, 32768, 32769,
	-32767, -32768, -32769, 65535, 65536, 65537, 2147483646, 2147483647, 2147483648, 2147483649, -2147483647, -2147483648, -2147483649, -2147483650,
	4294967295, 4294967296, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, 1 << 40, -(1 << 40), 0x0102030405060708, -0x0102030405060708}

var sizes = []int{0, 1, 2, 14, 15, 16, 17, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300, 1000, 32766, 32767, 32768, 32769, 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131070, 131071, 140000}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 1.1, math.Pi, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(), 1e300, 16777217}

// intforms: n in every Go integer type that holds it
func intforms(n int64) []interface{} {
	out := []interface{}{n, int(n)}
	if n == int64(int8(n)) {
		out = append(out, int8(n))
	}
	if n == int64(int16(n)) {
		out = append(out, int16(n))
	}
	if n == int64(int32(n)) {
		out = append(out, int32(n))
	}
	if n >= 0 {
		out = append(out, uint(n), uint64(n))
		if n == int64(uint8(n)) {
			out = append(out, uint8(n))
		}
		if n == int64(uint16(n)) {
			out = append(out, uint16(n))
		}
		if n == int64(uint32(n)) {
			out = append(out, uint32(n))
		}
	}
	return out
}

func text(r *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('!' + (i*7+n)%90)
	}
	if n > 0 && r != nil {
		b[r.Intn(n)] = byte(r.Intn(256))
	}
	return string(b)
}

func bigmap(n int) map[string]interface{} {
	m := make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		m[fmt.Sprintf("k%d", i)] = int64(i)
	}
	return m
}

func list(n int) []interface{} {
	l := make([]interface{}, n)
	for i := range l {
		l[i] = int64(i)
	}
	return l
}

// systematic yields the boundary values
func systematic(yield func(interface{})) {
	yield(nil)
	yield(true)
	yield(false)
	for _, n := range edges {
		for _, x := range intforms(n) {
			yield(x)
		}
	}
	for i := uint(0); i < 63; i++ {
		for _, d := range []int64{-1, 0, 1} {
			yield(int64(1)<<i + d)
			yield(-(int64(1) << i) + d)
		}
	}
	for _, f := range floats {
		yield(f)
		if f == f {
			yield(float32(f))
		}
	}
	for _, n := range sizes {
		yield(text(nil, n))
	}
	for n := 0; n < 300; n++ {
		yield(text(nil, n))
		yield(list(n))
		yield(bigmap(n))
		yield(tstruct{0x21, list(n)})
	}
	for _, n := range sizes {
		yield(list(n))
		yield(bigmap(n))
		if n < 65536 {
			yield(tstruct{0x21, list(n)})
		}
	}
	yield([]string{"a", "", "ccc"})
	yield([]int{1, -1, 200, 70000})
	yield([]int64{1, -1, 200, 70000, math.MinInt64})
	yield([]float64{1, 2.5})
	yield([]bool{true, false})
	yield([]uint8{0, 1, 127, 128, 255})
	yield([]map[string]interface{}{{"a": int64(1)}, {}})
	yield([][]interface{}{{int64(1)}, {}})
	yield(map[string]interface{}{"a": []string{"x", "y"}, "": nil})
	for _, n := range []int{0, 1, 15, 16, 127, 128, 255, 256, 40000, 65535, 65536} {
		s := make([]string, n)
		for i := range s {
			s[i] = fmt.Sprint("s", i)
		}
		yield(s)
	}
	node := graph.Node{NodeIdentity: 1, Labels: []string{"A", "B"}, Properties: map[string]interface{}{"p": "v", "q": int64(300)}}
	rel := graph.UnboundRelationship{RelIdentity: 12, Type: "T", Properties: map[string]interface{}{"since": int64(2000)}}
	yield(node)
	yield(graph.Node{})
	yield(graph.Relationship{RelIdentity: 1, StartNodeIdentity: 2, EndNodeIdentity: 3, Type: "KNOWS", Properties: map[string]interface{}{"w": 1.5}})
	yield(rel)
	yield(graph.Path{Nodes: []graph.Node{node, {NodeIdentity: 2}}, Relationships: []graph.UnboundRelationship{rel}, Sequence: []int{1, 1}})
	yield(graph.Path{})
	var deep interface{} = int64(1)
	for i := 0; i < 200; i++ {
		if i%2 == 0 {
			deep = []interface{}{deep}
		} else {
			deep = map[string]interface{}{"d": deep}
		}
		if i%20 == 0 {
			yield(deep)
		}
	}
}

func rvalue(r *rand.Rand, depth int, structs bool) interface{} {
	k := 10
	if structs {
		k = 14
	}
	if depth <= 0 {
		k = 6
	}
	props := func() map[string]interface{} {
		m := map[string]interface{}{}
		for i := r.Intn(4); i > 0; i-- {
			m[text(r, r.Intn(5))] = rvalue(r, depth-1, structs)
		}
		return m
	}
	id := func() int64 { return edges[r.Intn(len(edges))] }
	switch r.Intn(k) {
	case 0:
		return nil
	case 1:
		return r.Intn(2) == 0
	case 2:
		return edges[r.Intn(len(edges))]
	case 3:
		f := intforms(int64(r.Uint64()) >> uint(r.Intn(64)))
		return f[r.Intn(len(f))]
	case 4:
		return floats[r.Intn(10)]
	case 5:
		return text(r, r.Intn(20))
	case 6, 7:
		n := r.Intn(5)
		if r.Intn(10) == 0 {
			n = 14 + r.Intn(5)
		}
		l := make([]interface{}, n)
		for i := range l {
			l[i] = rvalue(r, depth-1, structs)
		}
		return l
	case 8, 9:
		return props()
	case 10:
		return graph.Node{NodeIdentity: id(), Labels: []string{text(r, 3)}, Properties: props()}
	case 11:
		return graph.Relationship{RelIdentity: id(), StartNodeIdentity: id(), EndNodeIdentity: id(), Type: text(r, 4), Properties: props()}
	case 12:
		return graph.UnboundRelationship{RelIdentity: id(), Type: text(r, 4), Properties: props()}
	}
	var p graph.Path
	for i := r.Intn(3); i > 0; i-- {
		p.Nodes = append(p.Nodes, graph.Node{NodeIdentity: id(), Labels: []string{}, Properties: props()})
		p.Relationships = append(p.Relationships, graph.UnboundRelationship{RelIdentity: id(), Type: text(r, 3), Properties: props()})
		p.Sequence = append(p.Sequence, int(id()))
	}
	return p
}

// ---------------------------------------------------------------- C01
type unsupported struct{ A int }

func tryEncode(c codec, v interface{}) {
	var out []byte
	var err error
	if p := guard(func() { out, err = c.marshal(v) }); p != "" {
		found("encoding panics", c.name+" "+show(v), "the PackStream bytes", p)
	}
	if err != nil {
		found("a value PackStream carries is refused", c.name+" "+show(v), "the PackStream bytes", err.Error())
	}
	msgs, err := unchunk(out, 65535)
	if err != nil || len(msgs) != 1 {
		found("not one well-formed message", c.name+" "+show(v), "one message", fmt.Sprintf("%d messages, %v, %s", len(msgs), err, hex(out)))
	}
	want := lift(v)
	if f, ok := want.(float64); ok {
		want = f
	}
	rest, e := checkpack(msgs[0], want)
	if e == "" && len(rest) > 0 {
		e = fmt.Sprintf("%d bytes too many", len(rest))
	}
	if e != "" {
		found("not the PackStream representation", c.name+" "+show(v), show(want), e)
	}
}

func searchC01(r *rand.Rand) {
	bad := []interface{}{uint64(math.MaxUint64), uint64(1 << 63), uint64(1<<63 + 5), unsupported{1}, &unsupported{1}, struct{}{}, make(chan int), func() {}, map[int]string{1: "a"},
		complex(1, 2), [2]int{1, 2}, []interface{}{int64(1), unsupported{1}}, map[string]interface{}{"a": make(chan int)}, []interface{}{[]interface{}{uint64(1 << 63)}},
		tstruct{0x11, []interface{}{unsupported{}}}, []uint64{1, 1 << 63}, []unsupported{{1}}, tstruct{0x11, make([]interface{}, 65536)}, map[string]interface{}{"a": map[string]interface{}{"b": unsupported{}}}}
	for _, c := range codecs {
		c := c
		for _, v := range bad {
			var out []byte
			var err error
			doing("%s encode %T", c.name, v)
			if p := guard(func() { out, err = c.marshal(v) }); p != "" {
				found("encoding panics", c.name+" "+show(v), "an error", p)
			}
			if err == nil {
				found("a value PackStream cannot carry is accepted", c.name+" "+show(v), "an error", hex(out))
			}
		}
		systematic(func(v interface{}) { tryEncode(c, v) })
	}
	for i := 0; i < 400000 && !late(); i++ {
		tryEncode(codecs[i%len(codecs)], rvalue(r, 4, true))
	}
}

// ---------------------------------------------------------------- C02
type badWriter struct {
	bytes.Buffer
	after int // bytes accepted before failing
	nth   int // when positive, the only Write call that fails
	calls int
}

var errWrite = errors.New("write failed")

func (w *badWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.calls == w.nth {
		return 0, errWrite
	}
	if w.after >= 0 && w.Len()+len(p) > w.after {
		n := w.after - w.Len()
		if n < 0 {
			n = 0
		}
		w.Buffer.Write(p[:n])
		return n, errWrite
	}
	return w.Buffer.Write(p)
}

func searchC02(r *rand.Rand) {
	chunks := []int{0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535}
	try := func(c codec, n int, vals []interface{}) {
		max := n
		if n == 0 {
			max = 65535
		}
		var w bytes.Buffer
		enc := c.enc(&w, uint16(n))
		in := fmt.Sprintf("%s chunk size %d, %d messages: %s", c.name, n, len(vals), show(vals))
		for _, v := range vals {
			var err error
			if p := guard(func() { err = enc(v) }); p != "" {
				found("encoding panics", in, "no panic", p)
			}
			if err != nil {
				found("encoding fails", in, "no error", err.Error())
			}
		}
		msgs, err := unchunk(w.Bytes(), max)
		if err != nil {
			found("malformed chunks", in, "well-formed chunks", err.Error()+" in "+hex(w.Bytes()))
		}
		if len(msgs) != len(vals) {
			found("wrong number of messages", in, fmt.Sprint(len(vals)), fmt.Sprint(len(msgs)))
		}
		for i, v := range vals {
			rest, e := checkpack(msgs[i], lift(v))
			if e != "" || len(rest) > 0 {
				found(fmt.Sprintf("chunk bodies of message %d are not its payload", i), in, show(v), fmt.Sprintf("%s, %d left over, %s", e, len(rest), hex(msgs[i])))
			}
		}
	}
	fail := func(c codec, n int, v interface{}, after, nth int) {
		w := &badWriter{after: after, nth: nth}
		enc := c.enc(w, uint16(n))
		in := fmt.Sprintf("%s chunk size %d, write fails after %d bytes or at call %d: %s", c.name, n, after, nth, show(v))
		var err error
		if p := guard(func() { err = enc(v) }); p != "" {
			found("encoding panics", in, "an error", p)
		}
		if err == nil {
			found("a failed write is not reported", in, "an error", "nil")
		}
		w.Reset()
		w.after, w.nth = -1, 0
		next := "next message"
		if err := enc(next); err != nil {
			found("no message can follow a failed one", in, "no error", err.Error())
		}
		msgs, err := unchunk(w.Bytes(), 65535)
		if err != nil || len(msgs) != 1 || !bytes.Equal(msgs[0], minimal.pack(next)) {
			found("a failed message leaves bytes for the next one", in, hex(minimal.pack(next)), hex(w.Bytes()))
		}
	}
	for _, c := range codecs {
		for _, n := range chunks {
			for _, size := range []int{0, 1, 2, 3, 5, 14, 15, 16, 20, 100, 254, 255, 256, 300, 4095, 65530, 65532, 65533, 65535, 65536, 70000, 131072, 200000} {
				if n > 0 && n < 16 && size > 70000 {
					continue
				}
				try(c, n, []interface{}{text(nil, size)})
			}
			// payload sizes around multiples of the chunk size
			for k := 1; k <= 3; k++ {
				for d := -8; d <= 3; d++ {
					if s := k*n + d; s >= 0 && s < 140000 {
						try(c, n, []interface{}{text(nil, s), int64(1), text(nil, s)})
					}
				}
			}
			l := list(40)
			try(c, n, []interface{}{l, "x", map[string]interface{}{"a": text(nil, 50), "b": l}, nil})
			try(c, n, []interface{}{list(1000), list(3)})
			// a message that cannot be encoded leaves nothing behind
			var w bytes.Buffer
			enc := c.enc(&w, uint16(n))
			for _, bad := range []interface{}{[]interface{}{text(nil, 30), unsupported{}}, []interface{}{text(nil, 70000), unsupported{}}, map[string]interface{}{"k": unsupported{}}} {
				w.Reset()
				if err := enc(bad); err == nil {
					found("an unsupported value is accepted", fmt.Sprint(c.name, " ", n), "an error", "nil")
				}
				w.Reset()
				if err := enc("ok"); err != nil {
					found("no message can follow a failed one", fmt.Sprint(c.name, " ", n), "no error", err.Error())
				}
				msgs, err := unchunk(w.Bytes(), 65535)
				if err != nil || len(msgs) != 1 || !bytes.Equal(msgs[0], minimal.pack("ok")) {
					found("a failed message leaves bytes for the next one", fmt.Sprintf("%s chunk size %d, a list with an unsupported member, then \"ok\"", c.name, n), hex(minimal.pack("ok")), hex(w.Bytes()))
				}
			}
			for _, v := range []interface{}{"hello", text(nil, 40), list(30)} {
				var w bytes.Buffer
				if err := c.enc(&w, uint16(n))(v); err != nil {
					found("encoding fails", c.name, "no error", err.Error())
				}
				for after := 0; after < w.Len(); after++ {
					fail(c, n, v, after, 0)
				}
				count := &badWriter{after: -1}
				if err := c.enc(count, uint16(n))(v); err == nil {
					for k := 1; k <= count.calls; k++ {
						fail(c, n, v, -1, k)
					}
				}
			}
		}
	}
	for i := 0; i < 100000 && !late(); i++ {
		vals := []interface{}{rvalue(r, 3, true), rvalue(r, 2, true), rvalue(r, 2, true)}
		n := r.Intn(40)
		if r.Intn(3) == 0 {
			n = r.Intn(65536)
		}
		try(codecs[i%len(codecs)], n, vals)
	}
}

// ---------------------------------------------------------------- C03
// pieces hands out a byte stream in parts
type pieces struct {
	b     []byte
	next  func() int
	end   error
	reads int
}

func (p *pieces) Read(b []byte) (int, error) {
	p.reads++
	if p.reads > 5000000 {
		panic("reads without end")
	}
	if len(p.b) == 0 {
		return 0, p.end
	}
	n := p.next()
	if n > len(p.b) {
		n = len(p.b)
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, p.b[:n])
	p.b = p.b[n:]
	// some readers report the end together with the last bytes
	return n, nil
}

func searchC03(r *rand.Rand) {
	nexts := map[string]func() func() int{
		"whole":       func() func() int { return func() int { return 1 << 30 } },
		"one by one":  func() func() int { return func() int { return 1 } },
		"two by two":  func() func() int { return func() int { return 2 } },
		"three":       func() func() int { return func() int { return 3 } },
		"alternating": func() func() int { i := 0; return func() int { i++; return 1 + i%5 } },
		"thousand":    func() func() int { return func() int { return 1000 } },
	}
	try := func(c codec, vals []interface{}, size func() int, how string, next func() int) {
		var stream []byte
		for _, v := range vals {
			stream = append(stream, chunk(minimal.pack(v), size)...)
		}
		in := fmt.Sprintf("%s, %d messages %s, read %s", c.name, len(vals), show(vals), how)
		p := &pieces{b: stream, next: next, end: io.EOF}
		dec := c.dec(p)
		left := len(stream)
		_ = left
		for i, v := range vals {
			var got interface{}
			var err error
			if p := guard(func() { got, err = dec() }); p != "" {
				found("reading panics", in, show(v), p)
			}
			if err != nil {
				found(fmt.Sprintf("message %d is refused", i), in, show(v), err.Error())
			}
			if !same(lift(got), v) {
				found(fmt.Sprintf("message %d is another", i), in, show(v), show(got))
			}
		}
		if len(p.b) != 0 {
			found("bytes left unread", in, "none", fmt.Sprint(len(p.b)))
		}
		if got, err := dec(); err == nil {
			found("a message out of an ended stream", in, "an error", show(got))
		}
	}
	cut := func(c codec, v interface{}, size func() int, at int, end error, next func() int, how string) {
		stream := chunk(minimal.pack(v), size)
		if at >= len(stream) {
			return
		}
		in := fmt.Sprintf("%s %s, stream of %d bytes ends after %d (%v), read %s", c.name, show(v), len(stream), at, end, how)
		dec := c.dec(&pieces{b: append([]byte{}, stream[:at]...), next: next, end: end})
		var got interface{}
		var err error
		if p := guard(func() { got, err = dec() }); p != "" {
			found("reading panics", in, "an error", p)
		}
		if err == nil {
			found("a message out of an incomplete stream", in, "an error", show(got))
		}
	}
	fixed := func(n int) func() int { return func() int { return n } }
	vals := []interface{}{int64(1), "hello", text(nil, 300), text(nil, 5000), list(50), nil, map[string]interface{}{"a": int64(1)}}
	for _, c := range codecs[:2] {
		for how, mk := range nexts {
			for _, n := range []int{1, 2, 3, 7, 127, 128, 255, 256, 1000, 65535} {
				try(c, vals, fixed(n), how, mk())
			}
			if how != "one by one" {
				try(c, []interface{}{text(nil, 70000), "x", text(nil, 200000), "y"}, fixed(65535), how, mk())
				try(c, []interface{}{text(nil, 40000), "x", text(nil, 66000)}, fixed(32768), how, mk())
			}
			for _, v := range []interface{}{int64(1), "hello", text(nil, 60)} {
				for _, n := range []int{1, 3, 40} {
					for at := 0; at < 220; at++ {
						cut(c, v, fixed(n), at, io.EOF, mk(), how)
						cut(c, v, fixed(n), at, errors.New("connection reset"), mk(), how)
					}
				}
			}
		}
		for at := 69000; at < 70100; at++ {
			cut(c, text(nil, 70000), fixed(65535), at, io.EOF, fixed(1<<30), "whole")
		}
	}
	for i := 0; i < 100000 && !late(); i++ {
		var vs []interface{}
		for j := 1 + r.Intn(3); j > 0; j-- {
			vs = append(vs, lift(rvalue(r, 3, false)))
		}
		try(codecs[i%len(codecs)], vs, func() int { return 1 + r.Intn(30) }, "at random", func() int { return 1 + r.Intn(12) })
	}
}

// ---------------------------------------------------------------- C04
func decodeWants(c codec, b []byte, want interface{}, in string) {
	var got interface{}
	var err error
	dec := c.dec(bytes.NewReader(append(chunk(b, func() int { return 60000 }), chunk([]byte{42}, func() int { return 1 })...)))
	if p := guard(func() { got, err = dec() }); p != "" {
		found("decoding panics", in+" "+hex(b), show(want), p)
	}
	if err != nil {
		found("a valid encoding is refused", in+" "+hex(b), show(want), err.Error())
	}
	if !same(lift(got), want) {
		found("decoded to another value", in+" "+hex(b), show(want), show(got))
	}
	nx, err := dec()
	if err != nil || !same(nx, int64(42)) {
		found("the next message is not found", in+" "+hex(b), "42", fmt.Sprint(nx, err))
	}
}

func srvmsgs() []interface{} {
	m := map[string]interface{}{"server": "Neo4j/4.0", "fields": []interface{}{"a", "b"}, "t_first": int64(3)}
	return []interface{}{Struct{0x70, []interface{}{m}}, Struct{0x70, []interface{}{map[string]interface{}{}}}, Struct{0x7F, []interface{}{map[string]interface{}{"code": "Neo.X", "message": "m"}}},
		Struct{Sig: 0x7E}, Struct{0x71, []interface{}{[]interface{}{int64(1), "a", nil, 2.5}}}, Struct{0x71, []interface{}{[]interface{}{}}},
		Struct{0x71, []interface{}{list(300)}}, Struct{Sig: 0x2F}, Struct{Sig: 0x3F}, Struct{Sig: 0x0F}}
}

func searchC04(r *rand.Rand) {
	wide := func(k int) packer {
		return packer{func(w, max int) int {
			for _, o := range []int{0, 1, 2, 4, 8} {
				if o >= w && o >= k && o <= max {
					return o
				}
			}
			return w
		}}
	}
	rw := packer{func(w, max int) int {
		opts := []int{}
		for _, o := range []int{0, 1, 2, 4, 8} {
			if o >= w && o <= max {
				opts = append(opts, o)
			}
		}
		return opts[r.Intn(len(opts))]
	}}
	for _, c := range codecs[:2] {
		c := c
		for _, k := range []int{0, 1, 2, 4, 8} {
			p := wide(k)
			systematic(func(v interface{}) {
				if t, ok := v.(tstruct); ok && t.sig == 0x21 {
					return
				}
				decodeWants(c, p.pack(lift(v)), lift(v), c.name)
			})
			for _, v := range srvmsgs() {
				decodeWants(c, p.pack(v), v, c.name)
			}
		}
		// a key given twice: the last entry counts
		decodeWants(c, []byte("\xa2\x81a\x01\x81a\x02"), map[string]interface{}{"a": int64(2)}, c.name)
		decodeWants(c, []byte("\xd8\x03\x81a\x01\x81b\x05\x81a\xc0"), map[string]interface{}{"a": nil, "b": int64(5)}, c.name)
		for m := 0; m < 256; m++ {
			if m <= 0x7F || m >= 0xF0 {
				decodeWants(c, []byte{byte(m)}, int64(int8(m)), c.name)
			}
			decodeWants(c, []byte{0xC8, byte(m)}, int64(int8(m)), c.name)
			decodeWants(c, []byte{0xC9, byte(m), 0x80}, int64(int16(m<<8|0x80)), c.name)
		}
	}
	for i := 0; i < 300000 && !late(); i++ {
		v := lift(rvalue(r, 4, true))
		c := codecs[i%len(codecs)]
		decodeWants(c, rw.pack(v), v, c.name)
	}
}

// ---------------------------------------------------------------- C05
// known: structure signatures with their fields; nil: fields checked elsewhere
func structok(s Struct, v int) (bool, bool) {
	isInt := func(x interface{}) bool { _, ok := x.(int64); return ok }
	isStr := func(x interface{}) bool { _, ok := x.(string); return ok }
	isMap := func(x interface{}) bool { _, ok := x.(map[string]interface{}); return ok }
	isFl := func(x interface{}) bool { _, ok := x.(float64); return ok }
	listof := func(f func(interface{}) bool) func(interface{}) bool {
		return func(x interface{}) bool {
			l, ok := x.([]interface{})
			if !ok {
				return false
			}
			for _, y := range l {
				if !f(y) {
					return false
				}
			}
			return true
		}
	}
	sig := func(n byte) func(interface{}) bool {
		return func(x interface{}) bool { t, ok := x.(Struct); return ok && t.Sig == n }
	}
	any := func(interface{}) bool { return true }
	var fs []func(interface{}) bool
	switch s.Sig {
	case 0x4E:
		fs = append(fs, isInt, listof(isStr), isMap)
	case 0x52:
		fs = append(fs, isInt, isInt, isInt, isStr, isMap)
	case 0x72:
		fs = append(fs, isInt, isStr, isMap)
	case 0x50:
		fs = append(fs, listof(sig(0x4E)), listof(sig(0x72)), listof(isInt))
	case 0x70, 0x7F:
		fs = append(fs, isMap)
	case 0x71:
		fs = append(fs, listof(any))
	case 0x7E, 0x2F, 0x3F, 0x0F:
	case 'X':
		fs = append(fs, isInt, isFl, isFl)
	case 'Y':
		fs = append(fs, isInt, isFl, isFl, isFl)
	case 'D', 't':
		fs = append(fs, isInt)
	case 'T', 'd':
		fs = append(fs, isInt, isInt)
	case 'F':
		fs = append(fs, isInt, isInt, isInt)
	case 'f':
		fs = append(fs, isInt, isInt, isStr)
	case 'E':
		fs = append(fs, isInt, isInt, isInt, isInt)
	default:
		return false, true
	}
	if v < 2 && strings.IndexByte("XYDtTdFfE", s.Sig) >= 0 {
		return false, true
	}
	if len(fs) != len(s.Fields) {
		return false, false // how many fields follow is not this oracle's business
	}
	for i, f := range fs {
		if !f(s.Fields[i]) {
			return false, true
		}
	}
	return true, true
}

// valid: every structure inside is well typed; sure: the oracle can tell
func validStructs(v interface{}, ver int) (ok, sure bool) {
	ok, sure = true, true
	and := func(o, s bool) { ok, sure = ok && o, sure && s }
	switch x := v.(type) {
	case []interface{}:
		for _, y := range x {
			and(validStructs(y, ver))
		}
	case map[string]interface{}:
		for _, y := range x {
			and(validStructs(y, ver))
		}
	case Struct:
		and(structok(x, ver))
		for _, y := range x.Fields {
			and(validStructs(y, ver))
		}
	}
	return
}

func hasTemporal(v interface{}) bool {
	switch x := v.(type) {
	case []interface{}:
		for _, y := range x {
			if hasTemporal(y) {
				return true
			}
		}
	case map[string]interface{}:
		for _, y := range x {
			if hasTemporal(y) {
				return true
			}
		}
	case Struct:
		if strings.IndexByte("DtTdFfE", x.Sig) >= 0 {
			return true
		}
		for _, y := range x.Fields {
			if hasTemporal(y) {
				return true
			}
		}
	}
	return false
}

func tryMalformed(c codec, b []byte) {
	in := c.name + " " + hex(b)
	stream := chunk(b, func() int { return 65535 })
	var got interface{}
	var err error
	done := make(chan string, 1)
	var m0, m1 runtime.MemStats
	measure := len(b) < 64
	if measure {
		runtime.ReadMemStats(&m0)
	}
	go func() { done <- guard(func() { got, err = c.unmarshal(stream) }) }()
	select {
	case p := <-done:
		if p != "" {
			found("decoding panics", in, "an error", p)
		}
	case <-time.After(20 * time.Second):
		found("decoding does not end", in, "an error", "still running after 20 s")
	}
	if measure {
		runtime.ReadMemStats(&m1)
		if d := m1.TotalAlloc - m0.TotalAlloc; d > 1<<20+uint64(len(b))*4096 {
			found("memory for sizes the message cannot back", in, "an error", fmt.Sprintf("%d bytes allocated for a message of %d", d, len(b)))
		}
	}
	want, _, werr := parse(b, 0)
	if werr != nil {
		if err == nil {
			// a structure may end before the fields the oracle wants
			if !bytesHaveStruct(b) {
				found("malformed input is accepted", in, werr.Error(), show(got))
			}
		}
		return
	}
	ok, sure := validStructs(want, c.v)
	if !sure {
		return
	}
	if !ok {
		if err == nil {
			found("an ill-typed structure is accepted", in, "an error", show(got))
		}
		return
	}
	if err != nil {
		if !hasTemporal(want) {
			found("a valid encoding is refused", in, show(want), err.Error())
		}
		return
	}
	if !hasTemporal(want) && !same(lift(got), want) {
		found("decoded to another value", in, show(want), show(got))
	}
}

func bytesHaveStruct(b []byte) bool {
	for _, x := range b {
		if x >= 0xB0 && x <= 0xBF || x == 0xDC || x == 0xDD {
			return true
		}
	}
	return false
}

// quiet sends standard output and error of f to nowhere; panics inside still end the process with a message
func searchC05(r *rand.Rand) {
	runtime.GC()
	bads := []interface{}{nil, true, int64(5), 1.5, "s", []interface{}{}, []interface{}{int64(1)}, []interface{}{"a"}, []interface{}{nil}, map[string]interface{}{}, map[string]interface{}{"a": int64(1)},
		[]interface{}{map[string]interface{}{}}, []interface{}{"a", int64(1)}, []interface{}{int64(1), "a"}}
	good := map[byte][]interface{}{
		0x4E: {int64(1), []interface{}{"A"}, map[string]interface{}{}},
		0x52: {int64(1), int64(2), int64(3), "T", map[string]interface{}{}},
		0x72: {int64(1), "T", map[string]interface{}{}},
		0x70: {map[string]interface{}{}}, 0x7F: {map[string]interface{}{}}, 0x71: {[]interface{}{}},
		'X': {int64(1), 1.0, 2.0}, 'Y': {int64(1), 1.0, 2.0, 3.0}, 'D': {int64(1)}, 'T': {int64(1), int64(2)}, 't': {int64(1)}, 'd': {int64(1), int64(2)},
		'F': {int64(1), int64(2), int64(3)}, 'f': {int64(1), int64(2), "UTC"}, 'E': {int64(1), int64(2), int64(3), int64(4)},
	}
	node, rel := Struct{0x4E, good[0x4E]}, Struct{0x72, good[0x72]}
	bads = append(bads, node, rel, []interface{}{node}, []interface{}{rel}, []interface{}{node, rel}, []interface{}{node, int64(1)}, []interface{}{rel, nil})
	good[0x50] = []interface{}{[]interface{}{node}, []interface{}{rel}, []interface{}{int64(1), int64(1)}}
	for _, c := range codecs[:2] {
		for i := 0; i < 256; i++ {
			doing("%s %x and variants", c.name, i)
			tryMalformed(c, []byte{byte(i)})
			for j := 0; j < 256; j++ {
				tryMalformed(c, []byte{byte(i), byte(j)})
			}
			for _, t := range []string{"\xff\xff", "\xff\xff\xff\xff", "\x7f\xff\xff\xff", "\x80\x00\x00\x00", "\x80\x00", "\x7f\xff", "\x00\x00\x00\x00", "\x00\x00\x00\x01", "\x00\x00\x00\x02a", "\x00\x05abcd",
				"\xff\xff\xff\xffabcdefgh", "\x05abcd", "\x80abcdefgh", "\xffabcdefgh", "\xff\xffabcdefgh", "\x05\x01\x02\x03\x04", "\x02\x81a\x01", "\x02\x01\x01\x81b\x01", "\x7f\xff\xff\xff\x01\x01",
				"\x08\x00\x00\x00\x01", "\x00\xff\xff\xff", "\x10\x00\x00\x00"} {
				tryMalformed(c, append([]byte{byte(i)}, t...))
			}
		}
		for sig, fs := range good {
			for i := range fs {
				for _, x := range bads {
					g := append([]interface{}{}, fs...)
					g[i] = x
					b := minimal.pack(Struct{sig, g})
					doing("%s %x", c.name, b)
					tryMalformed(c, b)
					tryMalformed(c, minimal.pack([]interface{}{Struct{sig, g}, int64(1)}))
				}
			}
			b := minimal.pack(Struct{sig, fs})
			for n := 0; n <= len(b); n++ {
				doing("%s %x", c.name, b[:n])
				tryMalformed(c, b[:n])
			}
		}
		systematic(func(v interface{}) {
			if t, ok := v.(tstruct); ok && t.sig == 0x21 {
				return
			}
			b := minimal.pack(lift(v))
			for _, n := range []int{1, 2, 3, 4, 5, 6, 9, len(b) / 2, len(b) - 1, len(b) - 2} {
				if n > 0 && n < len(b) {
					tryMalformed(c, b[:n])
				}
			}
		})
	}
	for i := 0; i < 300000 && !late(); i++ {
		c := codecs[i%len(codecs)]
		b := minimal.pack(lift(rvalue(r, 4, true)))
		for k := r.Intn(3); k >= 0 && len(b) > 0; k-- {
			switch r.Intn(4) {
			case 0:
				b = b[:r.Intn(len(b))]
			case 1:
				b[r.Intn(len(b))] = byte(r.Intn(256))
			case 2:
				j := r.Intn(len(b))
				b = append(b[:j:j], b[j+1:]...)
			case 3:
				j := r.Intn(len(b))
				b = append(b[:j:j], append([]byte{byte(r.Intn(256))}, b[j:]...)...)
			}
		}
		tryMalformed(c, b)
	}
	for _, c := range codecs {
		for _, m := range []string{"\x91", "\xd4\x01", "\xa1\x81a", "\xb1\x71", "\xa1", "\xb1\x70\xa1\x81a"} {
			for _, n := range []int{100, 100000, 30000000} {
				b := bytes.Repeat([]byte(m), n/len(m))
				if m == "\xd4\x01" {
					b = b[:len(b)/2*2]
				}
				doing("%s: %x repeated %d times", c.name, m, n/len(m))
				stream := chunk(b, func() int { return 65535 })
				var err error
				if p := guard(func() { _, err = c.unmarshal(stream) }); p != "" {
					found("decoding panics", fmt.Sprintf("%s: %x repeated %d times", c.name, m, n/len(m)), "an error", p)
				}
				if err == nil {
					found("malformed input is accepted", fmt.Sprintf("%s: %x repeated %d times", c.name, m, n/len(m)), "an error", "nil")
				}
			}
		}
	}
}

// ---------------------------------------------------------------- C06
func searchC06(r *rand.Rand) {
	try := func(c codec, v interface{}, n int) {
		in := fmt.Sprintf("%s chunk size %d %s", c.name, n, show(v))
		var w bytes.Buffer
		var got interface{}
		var err error
		if p := guard(func() { err = c.enc(&w, uint16(n))(v) }); p != "" || err != nil {
			found("encoding fails", in, "no error", fmt.Sprint(err, p))
		}
		rd := bytes.NewReader(w.Bytes())
		if p := guard(func() { got, err = c.dec(rd)() }); p != "" || err != nil {
			found("decoding what was encoded fails", in, show(v), fmt.Sprint(err, p))
		}
		if !same(lift(got), lift(v)) {
			found("another value comes back", in, show(lift(v)), show(lift(got)))
		}
		if fmt.Sprintf("%T", lift(v)) == "main.Struct" && fmt.Sprintf("%T", v) != fmt.Sprintf("%T", got) {
			found("another type comes back", in, fmt.Sprintf("%T", v), fmt.Sprintf("%T", got))
		}
		if rd.Len() > 0 {
			found("bytes left over", in, "none", fmt.Sprint(rd.Len()))
		}
	}
	for _, c := range codecs {
		c := c
		systematic(func(v interface{}) {
			if t, ok := v.(tstruct); ok && t.sig == 0x21 {
				return
			}
			try(c, v, 0)
			try(c, v, 255)
		})
	}
	for i := 0; i < 300000 && !late(); i++ {
		try(codecs[i%len(codecs)], rvalue(r, 4, true), r.Intn(65536)>>uint(r.Intn(16)))
	}
}

// ---------------------------------------------------------------- C07
func searchC07(r *rand.Rand) {
	c := codecs[1]
	day := func(t time.Time) int64 {
		s := t.Unix()
		d := s / 86400
		if s%86400 < 0 {
			d--
		}
		return d
	}
	// printed reports anything written to standard output while f runs
	printed := func(f func()) string {
		old := os.Stdout
		rd, w, err := os.Pipe()
		if err != nil {
			f()
			return ""
		}
		os.Stdout = w
		f()
		os.Stdout = old
		w.Close()
		b, _ := io.ReadAll(rd)
		rd.Close()
		return string(b)
	}
	enc := func(v interface{}, in string, want Struct) {
		var out []byte
		var err error
		pr := printed(func() {
			if p := guard(func() { out, err = c.marshal(v) }); p != "" {
				err = errors.New(p)
			}
		})
		if err != nil {
			found("encoding fails", in, show(want), err.Error())
		}
		if pr != "" {
			found("encoding prints", in, "nothing", pr)
		}
		msgs, err := unchunk(out, 65535)
		if err != nil || len(msgs) != 1 || !bytes.Equal(msgs[0], minimal.pack(want)) {
			found("not the structure of the protocol", in, fmt.Sprintf("%s %s", show(want), hex(minimal.pack(want))), hex(out))
		}
	}
	dec := func(s Struct, check func(got interface{}) string) {
		var got interface{}
		var err error
		b := minimal.pack(s)
		in := fmt.Sprintf("structure %c %v = %s", s.Sig, s.Fields, hex(b))
		pr := printed(func() {
			if p := guard(func() { got, err = c.unmarshal(chunk(b, func() int { return 1000 })) }); p != "" {
				err = errors.New(p)
			}
		})
		if pr != "" {
			found("decoding prints", in, "nothing", pr)
		}
		if err != nil {
			found("decoding fails", in, "a value", err.Error())
		}
		if e := check(got); e != "" {
			found("decoded to another value", in, e, show(got))
		}
	}
	civil := func(d int64) (int, time.Month, int) {
		t := time.Unix(d*86400, 0).UTC()
		return t.Year(), t.Month(), t.Day()
	}
	nano := func(h, m, s, n int) int64 { return int64(h*3600+m*60+s)*1000000000 + int64(n) }
	date := func(y int, m time.Month, d int) {
		t := time.Date(y, m, d, 0, 0, 0, 0, time.UTC)
		e := day(t)
		enc(gotime.NewDate(y, m, d), fmt.Sprintf("date %d-%d-%d", y, m, d), Struct{'D', []interface{}{e}})
		dec(Struct{'D', []interface{}{e}}, func(g interface{}) string {
			x, ok := g.(gotime.Date)
			if ok && x.Year() == t.Year() && x.Month() == t.Month() && x.Day() == t.Day() {
				return ""
			}
			return fmt.Sprintf("date %v", t)
		})
	}
	_ = civil
	clock := func(h, m, s, n, off int) {
		loc := time.FixedZone("z", off)
		enc(gotime.NewClock(h, m, s, n, loc), fmt.Sprintf("clock %d:%d:%d.%d %+d", h, m, s, n, off), Struct{'T', []interface{}{nano(h, m, s, n), int64(off)}})
		dec(Struct{'T', []interface{}{nano(h, m, s, n), int64(off)}}, func(g interface{}) string {
			x, ok := g.(gotime.Clock)
			if ok && x.Hour() == h && x.Minute() == m && x.Second() == s && x.Nanosecond() == n {
				if _, o := time.Date(2020, 1, 1, 0, 0, 0, 0, x.Location()).Zone(); o == off {
					return ""
				}
			}
			return fmt.Sprintf("clock %d:%d:%d.%d %+d", h, m, s, n, off)
		})
		enc(gotime.NewLocalClock(h, m, s, n), fmt.Sprintf("local clock %d:%d:%d.%d", h, m, s, n), Struct{'t', []interface{}{nano(h, m, s, n)}})
		cl := gotime.NewClockFromTime(time.Date(2024, 7, 3, h, m, s, n, loc)).GetTime()
		_, co := cl.Zone()
		enc(gotime.NewClockFromTime(time.Date(2024, 7, 3, h, m, s, n, loc)), "clock of a time "+cl.String(), Struct{'T', []interface{}{nano(cl.Hour(), cl.Minute(), cl.Second(), cl.Nanosecond()), int64(co)}})
		lc := gotime.NewLocalClockFromTime(time.Date(2024, 7, 3, h, m, s, n, time.Local))
		enc(lc, fmt.Sprintf("local clock of a time %d:%d:%d.%d", h, m, s, n), Struct{'t', []interface{}{nano(lc.Hour(), lc.Minute(), lc.Second(), lc.Nanosecond())}})
		dec(Struct{'t', []interface{}{nano(h, m, s, n)}}, func(g interface{}) string {
			x, ok := g.(gotime.LocalClock)
			if ok && x.Hour() == h && x.Minute() == m && x.Second() == s && x.Nanosecond() == n {
				return ""
			}
			return fmt.Sprintf("local clock %d:%d:%d.%d", h, m, s, n)
		})
	}
	instant := func(sec int64, n int, loc *time.Location) {
		t := time.Unix(sec, int64(n)).In(loc)
		_, off := t.Zone()
		local := sec + int64(off)
		enc(t, "time "+t.String(), Struct{'F', []interface{}{local, int64(n), int64(off)}})
		dec(Struct{'F', []interface{}{local, int64(n), int64(off)}}, func(g interface{}) string {
			x, ok := g.(time.Time)
			if ok && x.Equal(t) {
				if _, o := x.Zone(); o == off {
					return ""
				}
			}
			return t.String()
		})
	}
	zoned := func(sec int64, n int, id string) {
		loc, err := time.LoadLocation(id)
		if err != nil {
			return
		}
		u := time.Unix(sec, int64(n)).UTC()
		want := time.Date(u.Year(), u.Month(), u.Day(), u.Hour(), u.Minute(), u.Second(), u.Nanosecond(), loc)
		dec(Struct{'f', []interface{}{sec, int64(n), id}}, func(g interface{}) string {
			x, ok := g.(time.Time)
			if ok && x.Equal(want) && x.Location().String() == loc.String() {
				return ""
			}
			return want.String()
		})
	}
	localtime := func(sec int64, n int) {
		u := time.Unix(sec, int64(n)).UTC()
		chk := func(x gotime.LocalTime) bool {
			return x.Year() == u.Year() && x.Month() == u.Month() && x.Day() == u.Day() && x.Hour() == u.Hour() && x.Minute() == u.Minute() && x.Second() == u.Second() && x.Nanosecond() == u.Nanosecond()
		}
		lt := gotime.NewLocalTimeFromTime(time.Date(u.Year(), u.Month(), u.Day(), u.Hour(), u.Minute(), u.Second(), u.Nanosecond(), time.Local))
		if chk(lt) {
			enc(lt, "local time "+u.String(), Struct{'d', []interface{}{sec, int64(n)}})
		}
		dec(Struct{'d', []interface{}{sec, int64(n)}}, func(g interface{}) string {
			x, ok := g.(gotime.LocalTime)
			if ok && (chk(x) || !chk(lt)) {
				return ""
			}
			return u.String()
		})
	}
	duration := func(d time.Duration) {
		enc(d, fmt.Sprintf("duration %d ns", int64(d)), Struct{'E', []interface{}{int64(0), int64(0), int64(d / time.Second), int64(d % time.Second)}})
		dec(Struct{'E', []interface{}{int64(0), int64(0), int64(d / time.Second), int64(d % time.Second)}}, func(g interface{}) string {
			if g == d {
				return ""
			}
			return d.String()
		})
	}
	parts := func(mo, da, se, na int64) {
		want := time.Duration((mo*2629746+da*86400+se)*1000000000 + na)
		dec(Struct{'E', []interface{}{mo, da, se, na}}, func(g interface{}) string {
			if g == want {
				return ""
			}
			return want.String()
		})
	}
	point := func(srid int, x, y, z float64) {
		p2, p3 := types.Point2D{SRID: srid, X: x, Y: y}, types.Point3D{SRID: srid, X: x, Y: y, Z: z}
		for _, p := range []interface{}{p2, p3} {
			p := p
			enc(p, fmt.Sprintf("point %+v", p), lift(p).(Struct))
			dec(lift(p).(Struct), func(g interface{}) string {
				if fmt.Sprintf("%T", g) == fmt.Sprintf("%T", p) && same(lift(g), lift(p)) {
					return ""
				}
				return show(p)
			})
		}
	}
	days := []int64{0, 1, -1, 365, -365, 719162, -719162, 106751, 106752, -106752, -106753, 200000, -200000, 2932896, 3652059}
	for _, d := range days {
		date(civil(d))
	}
	date(1, 1, 1)
	date(9999, 12, 31)
	date(2000, 2, 29)
	clocks := [][4]int{{0, 0, 0, 0}, {0, 0, 0, 1}, {23, 59, 59, 999999999}, {12, 34, 56, 789000000}, {1, 0, 0, 0}, {13, 0, 1, 5}}
	offs := []int{0, 3600, -3600, 19800, -12600, 50400, -43200, 1, -1, 3599}
	for _, k := range clocks {
		for _, o := range offs {
			clock(k[0], k[1], k[2], k[3], o)
		}
	}
	secs := []int64{0, 1, -1, 86399, 86400, 1583057532, 1604203200, 1604210400, -2208988800, -10000000000, 10000000000, 253402300799, -62135596800, 1616893200, 1616889600, 1616896800, 1635642000, 1635645600}
	locs := []*time.Location{time.UTC, time.FixedZone("a", 3600), time.FixedZone("b", -12600), time.FixedZone("c", 50400), time.FixedZone("d", -1), time.Local}
	zones := []string{"UTC", "Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe"}
	for _, z := range zones {
		if l, err := time.LoadLocation(z); err == nil {
			locs = append(locs, l)
		}
	}
	for _, s := range secs {
		for _, n := range []int{0, 1, 999999999, 123456789} {
			for _, l := range locs {
				instant(s, n, l)
			}
			for _, z := range zones {
				zoned(s, n, z)
			}
			localtime(s, n)
		}
	}
	for _, d := range []time.Duration{0, 1, -1, time.Second, -time.Second, time.Second - 1, 1 - time.Second, math.MaxInt64, math.MinInt64, 90 * time.Minute, -1500 * time.Millisecond, 24 * time.Hour, 400 * 24 * time.Hour} {
		duration(d)
	}
	for _, p := range [][4]int64{{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}, {1, 2, 3, 4}, {-1, -2, -3, -4}, {12, 0, 0, 0}, {0, -1, 86400, 0}, {0, 0, -1, 999999999}, {1, -30, 5, 7}} {
		parts(p[0], p[1], p[2], p[3])
	}
	for _, f := range floats {
		point(4326, f, -f, f/3)
		point(7203, 1, f, 2)
		point(int(edges[r.Intn(len(edges))]), 1.5, 2.5, f)
	}
	for _, z := range []interface{}{nil, "x", 1.5, true} {
		for _, s := range []Struct{{'D', []interface{}{z}}, {'T', []interface{}{int64(1), z}}, {'t', []interface{}{z}}, {'d', []interface{}{z, int64(1)}}, {'d', []interface{}{int64(1), z}}, {'F', []interface{}{int64(1), z, int64(0)}},
			{'F', []interface{}{int64(1), int64(0), z}}, {'f', []interface{}{z, int64(0), "UTC"}}, {'f', []interface{}{int64(0), int64(0), int64(3)}}, {'f', []interface{}{int64(0), int64(0), "No/Such"}}, {'E', []interface{}{int64(1), z, int64(0), int64(0)}},
			{'E', []interface{}{int64(1), int64(0), int64(0), z}}, {'X', []interface{}{z, 1.0, 2.0}}, {'X', []interface{}{int64(1), int64(1), 2.0}}, {'Y', []interface{}{int64(1), 1.0, 2.0, int64(1)}}} {
			if z == 1.5 && s.Sig == 'X' && false {
				continue
			}
			b := minimal.pack(s)
			var got interface{}
			var err error
			if p := guard(func() { got, err = c.unmarshal(chunk(b, func() int { return 100 })) }); p != "" {
				found("decoding panics", hex(b), "an error", p)
			}
			if err == nil {
				found("an ill-typed structure is accepted", fmt.Sprintf("%c %v", s.Sig, s.Fields), "an error", show(got))
			}
		}
	}
	for i := 0; i < 20000 && !late(); i++ {
		date(civil(r.Int63n(7000000) - 3000000))
		clock(r.Intn(24), r.Intn(60), r.Intn(60), r.Intn(1000000000), r.Intn(100000)-50000)
		instant(r.Int63n(600000000000)-300000000000, r.Intn(1000000000), locs[r.Intn(len(locs))])
		localtime(r.Int63n(600000000000)-300000000000, r.Intn(1000000000))
		zoned(r.Int63n(6000000000)-3000000000, r.Intn(1000000000), zones[r.Intn(len(zones))])
		duration(time.Duration(r.Uint64() >> uint(r.Intn(60))))
		parts(r.Int63n(2000)-1000, r.Int63n(20000)-10000, r.Int63n(1<<30)-1<<29, r.Int63n(1<<40)-1<<39)
		point(r.Intn(10000), r.NormFloat64(), r.NormFloat64(), r.NormFloat64())
	}
}

func init() {
	searches["C01"], searches["C02"], searches["C03"], searches["C04"] = searchC01, searchC02, searchC03, searchC04
	searches["C05"], searches["C06"], searches["C07"] = searchC05, searchC06, searchC07
}
