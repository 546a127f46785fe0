package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
	"verifharness/vk"
)

// The predefined structures: control word, PRE/LEN, ACC/POS; status bits at
// the positions the controller documents.

var p03ints = []int32{0, 1, -1, 0x01020304, 0x7FFFFFFF, -0x80000000, 255, 65536}

func p03Units(tier string) []vk.Unit {
	le := binary.LittleEndian
	word := func(w uint32, a, b int32) []byte {
		x := le.AppendUint32(nil, w)
		x = le.AppendUint32(x, uint32(a))
		return le.AppendUint32(x, uint32(b))
	}
	type pk interface{}
	verify := func(c *vk.C, kind string, val pk, decode func(r *chunkReader) (any, int, error), want []byte) {
		var b bytes.Buffer
		n, err := gologix.Pack(&b, val)
		c.Trans(1)
		if err != nil || n != len(want) || !bytes.Equal(b.Bytes(), want) {
			c.Fail("pack:"+kind, "%s %+v packs to % x (n=%d err=%v), want % x", kind, val, b.Bytes(), n, err, want)
		}
		for _, chunk := range []int{64, 1, 3, 5} {
			r := &chunkReader{append(append([]byte(nil), want...), 0xEE), chunk}
			got, n, err := decode(r)
			c.Trans(1)
			if err != nil || n != len(want) || len(r.b) != 1 || got != val {
				c.Fail("unpack:"+kind, "%s: % x (%d bytes at a time) unpacks to %+v (n=%d err=%v), want %+v", kind, want, chunk, got, n, err, val)
			}
		}
		for cut := 0; cut < len(want); cut++ {
			if _, _, err := decode(&chunkReader{want[:cut], 64}); err == nil {
				c.Fail("short:"+kind, "%s unpacks from %d of %d bytes", kind, cut, len(want))
			}
			c.Trans(1)
		}
		if a, ok := val.(interface{ TypeAbbr() (string, uint16) }); ok {
			_, h := a.TypeAbbr()
			if w := map[string]uint16{"TIMER": 0x0F83, "COUNTER": 0x0F82, "CONTROL": 0x0F81, "STRING": 0x0FCE}[kind]; h != w {
				c.Fail("handle:"+kind, "the structure handle of %s is %#x, want %#x", kind, h, w)
			}
		}
		c.Distinct(fmt.Sprintf("%v", val))
		c.State(want)
		c.Validated()
		c.Sample(func() string { return fmt.Sprintf("%s %+v -> % x", kind, val, want) })
	}
	bits := func(n int, from uint) uint32 { // n bits from bit 31 down
		var w uint32
		for i := uint(0); i < 8; i++ {
			if n&(1<<i) != 0 {
				w |= 1 << (from - i)
			}
		}
		return w
	}
	has := func(n int, i uint) bool { return n&(1<<i) != 0 }
	us := []vk.Unit{
		{Name: "TIMER", Run: func(c *vk.C) {
			k := c.Choose(8, "bits")
			a, b := vk.Pick(c, p03ints, "PRE"), vk.Pick(c, p03ints, "ACC")
			t := lgxtypes.TIMER{PRE: a, ACC: b, EN: has(k, 0), TT: has(k, 1), DN: has(k, 2)}
			verify(c, "TIMER", t, func(r *chunkReader) (any, int, error) {
				var o lgxtypes.TIMER
				if r.n == 5 { // what was there before does not matter
					o = lgxtypes.TIMER{PRE: -7, ACC: 9, EN: true, TT: true, DN: true}
				}
				n, err := gologix.Unpack(r, &o)
				return o, n, err
			}, word(bits(k, 31), a, b))
		}},
		{Name: "COUNTER", Run: func(c *vk.C) {
			k := c.Choose(32, "bits")
			a, b := vk.Pick(c, p03ints, "PRE"), vk.Pick(c, p03ints, "ACC")
			t := lgxtypes.COUNTER{PRE: a, ACC: b, CU: has(k, 0), CD: has(k, 1), DN: has(k, 2), OV: has(k, 3), UN: has(k, 4)}
			verify(c, "COUNTER", t, func(r *chunkReader) (any, int, error) {
				var o lgxtypes.COUNTER
				if r.n == 5 { // what was there before does not matter
					o = lgxtypes.COUNTER{PRE: -7, ACC: 9, CU: true, CD: true, DN: true, OV: true, UN: true}
				}
				n, err := gologix.Unpack(r, &o)
				return o, n, err
			}, word(bits(k, 31), a, b))
		}},
		{Name: "CONTROL", Run: func(c *vk.C) {
			k := c.Choose(256, "bits")
			a, b := vk.Pick(c, p03ints, "LEN"), vk.Pick(c, p03ints, "POS")
			t := lgxtypes.CONTROL{LEN: a, POS: b, EN: has(k, 0), EU: has(k, 1), DN: has(k, 2), EM: has(k, 3), ER: has(k, 4), UL: has(k, 5), IN: has(k, 6), FD: has(k, 7)}
			verify(c, "CONTROL", t, func(r *chunkReader) (any, int, error) {
				var o lgxtypes.CONTROL
				if r.n == 5 { // what was there before does not matter
					o = lgxtypes.CONTROL{LEN: -7, POS: 9, EN: true, EU: true, DN: true, EM: true, ER: true, UL: true, IN: true, FD: true}
				}
				n, err := gologix.Unpack(r, &o)
				return o, n, err
			}, word(bits(k, 31), a, b))
		}},
		{Name: "STRING", Run: func(c *vk.C) {
			n := c.Choose(83, "len")
			s := lgxtypes.STRING{Len: int32(n)}
			want := le.AppendUint32(nil, uint32(n))
			data := make([]byte, 82)
			for i := 0; i < n; i++ {
				s.Data[i] = int8(i*7 - 100)
				data[i] = byte(s.Data[i])
			}
			want = append(want, data...)
			verify(c, "STRING", s, func(r *chunkReader) (any, int, error) {
				var o lgxtypes.STRING
				n, err := gologix.Unpack(r, &o)
				return o, n, err
			}, want)
		}},
		// the structures as members and as array elements of a user structure
		{Name: "embedded", Run: func(c *vk.C) {
			k := c.Choose(256, "bits")
			a := vk.Pick(c, p03ints, "PRE")
			type udt struct {
				Pre  int8
				T    lgxtypes.TIMER
				Mid  bool
				C    lgxtypes.COUNTER
				Q    lgxtypes.CONTROL
				Arr  [2]lgxtypes.TIMER
				Last int16
			}
			t := lgxtypes.TIMER{PRE: a, ACC: ^a, EN: has(k, 0), TT: has(k, 1), DN: has(k, 2)}
			t2 := lgxtypes.TIMER{PRE: ^a, ACC: a, EN: has(k, 5), TT: has(k, 6), DN: has(k, 7)}
			cn := lgxtypes.COUNTER{PRE: 5, ACC: a, CU: has(k, 0), CD: has(k, 1), DN: has(k, 2), OV: has(k, 3), UN: has(k, 4)}
			q := lgxtypes.CONTROL{LEN: a, POS: 9, EN: has(k, 0), EU: has(k, 1), DN: has(k, 2), EM: has(k, 3), ER: has(k, 4), UL: has(k, 5), IN: has(k, 6), FD: has(k, 7)}
			v := udt{Pre: -3, T: t, Mid: has(k, 3), C: cn, Q: q, Arr: [2]lgxtypes.TIMER{t, t2}, Last: -2}
			want := []byte{0xFD, 0, 0, 0}
			want = append(want, word(bits(k&7, 31), a, ^a)...)
			if v.Mid {
				want = append(want, 1, 0, 0, 0)
			} else {
				want = append(want, 0, 0, 0, 0)
			}
			want = append(want, word(bits(k&31, 31), 5, a)...)
			want = append(want, word(bits(k, 31), a, 9)...)
			want = append(want, word(bits(k&7, 31), a, ^a)...)
			want = append(want, word(bits(k>>5, 31), ^a, a)...)
			want = append(want, 0xFE, 0xFF)
			verify(c, "embedded", v, func(r *chunkReader) (any, int, error) {
				var o udt
				n, err := gologix.Unpack(r, &o)
				return o, n, err
			}, want)
		}},
	}
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "P03", Level: "model_checking",
		Rule:        "every combination of the documented status bits of TIMER, COUNTER and CONTROL with 8x8 preset/accumulator boundary values, every STRING length, alone and embedded in a user structure; each packed, compared with the documented word layout, unpacked through chunking readers and from every truncation; a case is one structure value",
		Units:       p03Units,
		QuickBudget: 60 * time.Second,
	})
}
