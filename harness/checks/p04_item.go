package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
)

// CIPItem against a model buffer (data, read position): all sequences of
// append/read/typed-read/reset operations up to a depth.

type itemModel struct {
	data []byte
	pos  int
}

type itemOp struct {
	name string
	// do applies the operation to both and returns a mismatch description.
	do func(it *gologix.CIPItem, m *itemModel) string
}

func typedRead[T comparable](name string, size int, get func(*gologix.CIPItem) (T, error), dec func([]byte) T, eq func(a, b T) bool) itemOp {
	return itemOp{name, func(it *gologix.CIPItem, m *itemModel) string {
		v, err := get(it)
		if len(m.data)-m.pos < size {
			if err == nil {
				return fmt.Sprintf("%s succeeds with %d bytes left", name, len(m.data)-m.pos)
			}
			return ""
		}
		want := dec(m.data[m.pos:])
		m.pos += size
		if err != nil {
			return fmt.Sprintf("%s fails with enough data: %v", name, err)
		}
		if !eq(v, want) {
			return fmt.Sprintf("%s = %v, want %v", name, v, want)
		}
		return ""
	}}
}

func eqv[T comparable](a, b T) bool { return a == b }

func itemOps() []itemOp {
	le := binary.LittleEndian
	app := func(name string, v any, enc []byte) itemOp {
		return itemOp{"append " + name, func(it *gologix.CIPItem, m *itemModel) string {
			if err := it.Serialize(v); err != nil {
				return fmt.Sprintf("append %s: %v", name, err)
			}
			m.data = append(m.data, enc...)
			return ""
		}}
	}
	str := func(s string) []byte {
		b := le.AppendUint32(nil, uint32(len(s)))
		d := make([]byte, 84)
		copy(d, s)
		return append(b, d...)
	}
	return []itemOp{
		app("byte", byte(0xA1), []byte{0xA1}),
		app("uint16", uint16(0xB2C3), []byte{0xC3, 0xB2}),
		app("int32", int32(-0x01020304), le.AppendUint32(nil, 0xFEFDFCFC)),
		app("float64", math.Pi, le.AppendUint64(nil, math.Float64bits(math.Pi))),
		app("slice", []int16{1, -2}, []byte{1, 0, 0xFE, 0xFF}),
		app("segment", gologix.CIPInstance(300), []byte{0x25, 0, 0x2C, 1}),
		app("string", "odd", str("odd")),
		{"Write", func(it *gologix.CIPItem, m *itemModel) string {
			n, err := it.Write([]byte{7, 8, 9})
			m.data = append(m.data, 7, 8, 9)
			if n != 3 || err != nil {
				return fmt.Sprintf("Write = %d, %v", n, err)
			}
			return ""
		}},
		typedRead("Byte", 1, (*gologix.CIPItem).Byte, func(b []byte) byte { return b[0] }, eqv[byte]),
		typedRead("Uint16", 2, (*gologix.CIPItem).Uint16, func(b []byte) uint16 { return le.Uint16(b) }, eqv[uint16]),
		typedRead("Int16", 2, (*gologix.CIPItem).Int16, func(b []byte) int16 { return int16(le.Uint16(b)) }, eqv[int16]),
		typedRead("Uint32", 4, (*gologix.CIPItem).Uint32, func(b []byte) uint32 { return le.Uint32(b) }, eqv[uint32]),
		typedRead("Int32", 4, (*gologix.CIPItem).Int32, func(b []byte) int32 { return int32(le.Uint32(b)) }, eqv[int32]),
		typedRead("Uint64", 8, (*gologix.CIPItem).Uint64, func(b []byte) uint64 { return le.Uint64(b) }, eqv[uint64]),
		typedRead("Int64", 8, (*gologix.CIPItem).Int64, func(b []byte) int64 { return int64(le.Uint64(b)) }, eqv[int64]),
		typedRead("Float32", 4, (*gologix.CIPItem).Float32, func(b []byte) float32 { return math.Float32frombits(le.Uint32(b)) },
			func(a, b float32) bool { return math.Float32bits(a) == math.Float32bits(b) }),
		typedRead("Float64", 8, (*gologix.CIPItem).Float64, func(b []byte) float64 { return math.Float64frombits(le.Uint64(b)) },
			func(a, b float64) bool { return math.Float64bits(a) == math.Float64bits(b) }),
		{"Read(3)", func(it *gologix.CIPItem, m *itemModel) string {
			p := []byte{0xEE, 0xEE, 0xEE}
			n, err := it.Read(p)
			want := min(3, len(m.data)-m.pos)
			if want == 0 {
				if err != io.EOF || n != 0 {
					return fmt.Sprintf("Read at the end = %d, %v", n, err)
				}
				return ""
			}
			if n != want || err != nil || !bytes.Equal(p[:n], m.data[m.pos:m.pos+n]) {
				return fmt.Sprintf("Read = %d, %v, % x", n, err, p)
			}
			m.pos += n
			return ""
		}},
		{"DeSerialize", func(it *gologix.CIPItem, m *itemModel) string {
			var v struct {
				A uint8
				B uint16
			}
			err := it.DeSerialize(&v)
			left := len(m.data) - m.pos
			if left < 3 {
				m.pos = len(m.data) // a failed structured read consumes what was there
				if err == nil {
					return fmt.Sprintf("DeSerialize of 3 bytes succeeds with %d left", left)
				}
				return ""
			}
			a, b := m.data[m.pos], le.Uint16(m.data[m.pos+1:])
			m.pos += 3
			if err != nil || v.A != a || v.B != b {
				return fmt.Sprintf("DeSerialize = %+v, %v; want %v %v", v, err, a, b)
			}
			return ""
		}},
		{"Reset", func(it *gologix.CIPItem, m *itemModel) string {
			it.Reset()
			m.pos = 0
			return ""
		}},
	}
}

func p04Units(tier string) []vk.Unit {
	ops := itemOps()
	depth := 4
	if tier == "thorough" {
		depth = 5
	}
	var us []vk.Unit
	for i := range ops {
		for j := range ops {
			i, j := i, j
			us = append(us, vk.Unit{Name: ops[i].name + "; " + ops[j].name, Run: func(c *vk.C) {
				var it gologix.CIPItem
				var m itemModel
				seq := ""
				for d := 0; d < depth; d++ {
					k := i
					if d == 1 {
						k = j
					} else if d > 1 {
						k = c.Choose(len(ops), "op")
					}
					seq += ops[k].name + "; "
					if s := ops[k].do(&it, &m); s != "" {
						c.Fail("op:"+ops[k].name, "after %s: %s (data % x, position %d)", seq, s, m.data, m.pos)
					}
					c.Trans(1)
					c.State(m.data, m.pos)
					if !bytes.Equal(it.Rest(), m.data[m.pos:]) {
						c.Fail("rest:"+ops[k].name, "after %s: unread bytes are % x, want % x", seq, it.Rest(), m.data[m.pos:])
					}
					b, err := it.Bytes()
					want := append([]byte{0, 0}, le16(len(m.data))...)
					want = append(want, m.data...)
					if err != nil || !bytes.Equal(b, want) {
						c.Fail("bytes:"+ops[k].name, "after %s: item bytes % x (err %v), want % x", seq, b, err, want)
					}
				}
				c.Validated()
				c.Distinct(seq)
				c.Sample(func() string { return seq })
			}})
		}
	}
	return append(us, p04Lengths(), p04Same(), p04Frames())
}

// p04Lengths are item contents of every length up to 600 and around every
// power of two up to more than a frame can carry, in one or two appends.
func p04Lengths() vk.Unit {
	return vk.Unit{Name: "lengths", Run: func(c *vk.C) {
		n := c.Choose(600+11*5, "length")
		if n >= 600 {
			n -= 600
			n = 1<<(7+n/5) + n%5 - 2
		}
		split := c.Choose(3, "split")
		data := make([]byte, n)
		for i := range data {
			data[i] = byte(i*7 + i>>8)
		}
		var it gologix.CIPItem
		cut := []int{n, n / 2, min(n, 1)}[split]
		fmt.Fprint(io.Discard, it.Serialize(data[:cut]))
		it.Write(data[cut:])
		b, err := it.Bytes()
		if n > 0xFFFF {
			if err == nil {
				c.Fail("length", "%d bytes are framed as an item of %d with the length %#x", n, len(b), le.Uint16(b[2:]))
			}
		} else if want := append(append([]byte{0, 0}, le16(n)...), data...); err != nil || !bytes.Equal(b, want) {
			c.Fail("length", "an item of %d bytes is framed with % x, %d bytes (error %v)", n, b[:4], len(b), err)
		}
		if !bytes.Equal(it.Rest(), data) {
			c.Fail("length", "an item of %d bytes has %d bytes to read", n, len(it.Rest()))
		}
		c.Distinct(n, split)
		c.Trans(1)
		c.Validated()
	}}
}

// p04Same serialises values on their own, in an item that has contents, and
// together with another value.
func p04Same() vk.Unit {
	type pair struct {
		A uint8
		B int32
	}
	var vs []any
	for i := 0; i < 85; i++ {
		vs = append(vs, strings.Repeat("x", i))
	}
	for _, w := range []uint64{0, 1, 0x7F, 0x80, 0xFF, 0x1234, 0x8001, 0xFFFF, 0x12345678, 0x80000001, 0xFFFFFFFF, 0x123456789ABCDEF0, 0x8000000000000001, 1<<64 - 1} {
		vs = append(vs, int8(w), uint8(w), int16(w), uint16(w), int32(w), uint32(w), int64(w), w, math.Float32frombits(uint32(w)), math.Float64frombits(w), w&1 == 1,
			gologix.CIPClass(w), gologix.CIPInstance(w), gologix.CIPAttribute(w), gologix.CIPElement(w), gologix.CIPAddress(w), gologix.CIPPort{PortNo: byte(w)},
			[]int16{int16(w), 5}, []uint32{uint32(w)}, [3]uint8{1, byte(w), 3}, []float64{float64(w), 1.5}, []bool{w&1 == 1, true},
			pair{byte(w), int32(w)}, []pair{{byte(w), 1}, {2, int32(w)}}, []byte{byte(w), byte(w >> 8)})
	}
	return vk.Unit{Name: "same bytes", Run: func(c *vk.C) {
		v := vk.Pick(c, vs, "value")
		o := vk.Pick(c, []any{nil, byte(0xA1), "odd", gologix.CIPInstance(300), []uint16{0x1122}}, "before")
		alone := func(v any) []byte {
			b, err := gologix.Serialize(v)
			if err != nil {
				c.Fail("serialize", "Serialize(%T %v): %v", v, v, err)
			}
			return b.Bytes()
		}
		want := alone(v)
		switch x := v.(type) {
		case string:
			if len(want) != 88 || le.Uint32(want) != uint32(len(x)) || string(want[4:4+len(x)]) != x || len(bytes.Trim(want[4+len(x):], "\x00")) > 0 {
				c.Fail("string", "a string of %d bytes is serialised to % x", len(x), want)
			}
		case gologix.Serializable:
			if !bytes.Equal(want, x.Bytes()) || x.Len() != len(want) {
				c.Fail("serializable", "%T %v: Bytes % x, Len %d, serialised to % x", v, v, x.Bytes(), x.Len(), want)
			}
		default:
			var b bytes.Buffer
			if err := binary.Write(&b, le, v); err != nil || !bytes.Equal(want, b.Bytes()) {
				c.Fail("value", "%T %v is serialised to % x, not % x", v, v, want, b.Bytes())
			}
		}
		var it, it2 gologix.CIPItem
		var both *bytes.Buffer
		var err error
		e1, e2 := error(nil), error(nil)
		if o == nil {
			e1 = it.Serialize(v)
			e2 = it2.Serialize(v)
			both, err = gologix.Serialize(v)
		} else {
			want = append(alone(o), want...)
			e1 = it.Serialize(o, v)
			it2.Serialize(o)
			e2 = it2.Serialize(v)
			both, err = gologix.Serialize(o, v)
		}
		if e1 != nil || e2 != nil || err != nil || !bytes.Equal(it.Data, want) || !bytes.Equal(it2.Data, want) || !bytes.Equal(both.Bytes(), want) {
			c.Fail("differs", "%T %v after %T: item % x (%v), in two calls % x (%v), Serialize % x (%v), want % x", v, v, o, it.Data, e1, it2.Data, e2, both.Bytes(), err, want)
		}
		if s, ok := v.(string); ok {
			// string lists
			var it gologix.CIPItem
			if err := it.Serialize([]string{s, "odd", s}); err != nil || !bytes.Equal(it.Data, append(append(alone(s), alone("odd")...), alone(s)...)) {
				c.Fail("strings", "a list of strings of %d bytes is serialised to % x (%v)", len(s), it.Data, err)
			}
		}
		c.Distinct(fmt.Sprintf("%T %v %v", v, v, o))
		c.Trans(4)
		c.Validated()
	}}
}

// p04Frames sends service data of every length to a controller, which answers
// with as much.
func p04Frames() vk.Unit {
	return vk.Unit{Name: "frames", Run: func(c *vk.C) {
		n := c.Choose(300+11*5, "length")
		if n >= 300 {
			n -= 300
			n = 1<<(7+n/5) + n%5 - 2
		}
		n += vk.Pick(c, []int{0, -6, -8, -22, -24, -28}, "less")
		if n < 0 {
			return
		}
		reply := c.Bool("long reply")
		p := plc.New()
		data := make([]byte, n)
		for i := range data {
			data[i] = byte(i*7 + i>>8)
		}
		var got []byte
		seen := 0
		p.Override = func(q *plc.Req) *plc.Reply {
			if q.Service != 0x4B {
				return nil
			}
			seen++
			got = append([]byte(nil), q.Data...)
			if reply {
				return &plc.Reply{Data: data}
			}
			return &plc.Reply{Data: []byte{1, 2, 3}}
		}
		r := newRig(c, p)
		r.cl.ConnectionSize = 0xFFFF
		r.connect(c)
		send, answer := data, []byte{1, 2, 3}
		if reply {
			send, answer = []byte{9}, data
		}
		// what a frame takes
		if reply && n > 0xFFFF-26 {
			return
		}
		it, err := r.cl.GenericCIPMessage(0x4B, []byte{0x20, 0x67, 0x24, 1}, send)
		if !reply && n > 0xFFFF-28 {
			if err == nil || seen > 0 {
				c.Fail("frame", "a request with %d bytes has the error %v, %d requests with %d bytes arrive (%v)", n, err, seen, len(got), p.Problems)
			}
		} else {
			if len(p.Problems) > 0 {
				c.Fail("frame", "a request with %d bytes: %v", len(send), p.Problems)
			}
			if err != nil || seen != 1 || !bytes.Equal(got, send) || !bytes.Equal(it.Rest(), answer) {
				var rest []byte
				if it != nil {
					rest = it.Rest()
				}
				c.Fail("frame", "a request with %d bytes and an answer with %d: error %v, %d arrive with %d bytes, %d bytes are returned", len(send), len(answer), err, seen, len(got), len(rest))
			}
		}
		var v int32
		if err := r.cl.Read("T", &v); err == nil {
			c.Fail("frame", "a tag that is not there is read")
		} else if !r.cl.Connected() {
			c.Fail("frame", "the connection is lost after a request with %d bytes", len(send))
		}
		c.Distinct(n, reply)
		c.Trans(1)
		c.Validated()
	}}
}

func le16(n int) []byte { return binary.LittleEndian.AppendUint16(nil, uint16(n)) }

func init() {
	vk.Register(&vk.Check{
		ID: "P04", Level: "model_checking",
		Rule:        "every sequence of the 20 buffer operations up to the depth, applied to a CIPItem and to a model (byte string, read position); after every operation the unread bytes and the framed item (id, length, data) are compared; states are model states, a case is one operation sequence",
		Units:       p04Units,
		QuickBudget: 120 * time.Second, ThoroughBudget: 30 * time.Minute,
		Bounds: map[string]any{"depth": "4 quick, 5 thorough"},
	})
}
