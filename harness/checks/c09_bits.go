package checks

import (
	"fmt"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
)

// C09: tag.N read into a bool is bit N of the tag.

var intKinds = []string{"SINT", "INT", "DINT", "LINT", "USINT", "UINT", "UDINT", "ULINT", "BYTE", "WORD", "DWORD", "LWORD"}

type oneBit struct {
	V bool `gologix:"{0}"`
}

type bitPair struct {
	V bool  `gologix:"{0}"`
	G int32 `gologix:"Guard"`
	W bool  `gologix:"{1}"`
}

func bitUnit(kn string, tier string) vk.Unit {
	k := kindByName(kn)
	return vk.Unit{Name: kn, Run: func(c *vk.C) {
		bit := c.Choose(71, "bit")
		form := c.Choose(4, "form")
		width := k.size * 8
		// value: zero, ones, only this bit, all but this bit, a mix
		pat := c.Choose(5, "value")
		val := make([]byte, k.size)
		switch pat {
		case 1, 3:
			for i := range val {
				val[i] = 0xFF
			}
		case 4:
			for i := range val {
				val[i] = byte(0x35 + 29*i)
			}
		}
		if bit < width {
			switch pat {
			case 2:
				val[bit/8] |= 1 << (bit % 8)
			case 3:
				val[bit/8] &^= 1 << (bit % 8)
			}
		}
		op := c.Choose(11, "operation")
		listed := c.Bool("listed")
		p := plc.New()
		if listed {
			p.Firmware = 32
		}
		t := p.AddTag(k.tag("One"))
		t.Instance = 10
		a := p.AddTag(k.tag("Arr", 5))
		a.Instance = 11
		u := &plc.UDT{Name: "Box", Template: 0x123, Handle: 0x4567, Size: 24, Members: []plc.Member{
			{Name: "Pad", Type: 0xC4, Size: 4, Off: 0, Bit: -1},
			{Name: "M", Type: k.code, Size: k.size, Off: 8, Bit: -1}}}
		s := p.AddTag(&plc.Tag{Name: "S", UDT: u, Dims: []int{2}})
		s.Instance = 12
		g := p.AddTag(&plc.Tag{Name: "Guard", Type: 0xC4, Instance: 13, Data: []byte{0x78, 0x56, 0x34, 0x12}})
		_ = g
		var base string
		switch form {
		case 0:
			copy(t.Data, val)
			base = "One"
		case 1:
			copy(a.Data[3*k.size:], val)
			base = "Arr[3]"
		case 2:
			copy(s.Data[24+8:], val)
			base = "S[1].M"
		case 3:
			copy(t.Data, val)
			base = "oNE"
		}
		tag := fmt.Sprintf("%s.%d", base, bit)
		// a second bit of the same word, for the combined reads
		other := (bit + 1) % width
		tag2 := fmt.Sprintf("%s.%d", base, other)
		want := bit < width && val[bit/8]>>(bit%8)&1 == 1
		want2 := val[other/8]>>(other%8)&1 == 1
		r := newRig(c, p)
		r.connect(c)
		if listed {
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("listall", "ListAllTags: %v", err)
			}
		}
		var got, got2 bool
		var err error
		name := ""
		two := false
		switch op {
		case 0:
			name = "Read"
			err = r.cl.Read(tag, &got)
		case 1:
			name = "Read_single(BOOL)"
			var v any
			v, err = r.cl.Read_single(tag, gologix.CIPTypeBOOL, 1)
			if err == nil {
				b, ok := v.(bool)
				if !ok {
					c.Fail("shape:"+name, "%s of %s gives %T", name, tag, v)
				}
				got = b
			}
		case 2:
			name = "ReadMulti"
			var o oneBit
			err = r.cl.ReadMulti(&o, tag)
			got = o.V
		case 3:
			name = "ReadMulti among others"
			var o bitPair
			err = r.cl.ReadMulti(&o, tag, tag2)
			got, got2, two = o.V, o.W, true
			if err == nil && o.G != 0x12345678 {
				c.Fail("neighbour", "%s of %s: the other tag reads %#x", name, tag, o.G)
			}
		case 4:
			name = "ReadMap"
			m := map[string]any{tag: false}
			err = r.cl.ReadMap(m)
			if err == nil {
				b, ok := m[tag].(bool)
				if !ok {
					c.Fail("shape:"+name, "%s of %s gives %T", name, tag, m[tag])
				}
				got = b
			}
		case 5:
			name = "ReadList"
			var l []any
			l, err = r.cl.ReadList([]string{tag, "Guard", tag2}, []any{false, int32(0), false}, []int{1, 1, 1})
			if err == nil {
				if len(l) != 3 {
					c.Fail("shape:"+name, "%s gives %d values", name, len(l))
				}
				b, ok := l[0].(bool)
				b2, ok2 := l[2].(bool)
				if !ok || !ok2 || l[1] != int32(0x12345678) {
					c.Fail("shape:"+name, "%s of %s gives %v", name, tag, l)
				}
				got, got2, two = b, b2, true
			}
		case 6:
			name = "Read again after a change"
			err = r.cl.Read(tag, &got)
			for _, d := range [][]byte{t.Data, a.Data, s.Data} {
				for i := range d {
					d[i] = ^d[i]
				}
			}
			var again bool
			e2 := r.cl.Read(tag, &again)
			if bit < width && (e2 != nil || again == want) {
				c.Fail("stale", "%s: %s reads %v then, with the word inverted, %v (%v)", kn, tag, got, again, e2)
			}
		case 7:
			name = "Read into the word's own type"
			d := k.newPtr()
			e := r.cl.Read(tag, d)
			c.Trans(1)
			if e == nil {
				c.Fail("bit-as-word", "reading %s of a %s holding % x into a %T succeeds with %v", tag, kn, val, d, deref(d))
			}
			return
		case 8:
			name = "Read_single(unknown)"
			v, e := r.cl.Read_single(tag, gologix.CIPTypeUnknown, 1)
			c.Trans(1)
			if e == nil && (bit >= width || v != want) {
				c.Fail("bit-as-word", "Read_single of %s, type unknown, of a %s holding % x gives %v", tag, kn, val, v)
			}
			return
		case 9, 10:
			name = "Read and the word after it"
			d := k.newPtr()
			if op == 10 {
				name = "Read after the word"
				if e := r.cl.Read(base, d); e != nil || deref(d) != k.val(val) {
					c.Fail("word:"+name, "reading %s, a %s holding % x, gives %v (%v)", base, kn, val, deref(d), e)
				}
			}
			err = r.cl.Read(tag, &got)
			if op == 9 {
				if e := r.cl.Read(base, d); e != nil || deref(d) != k.val(val) {
					c.Fail("word:"+name, "reading %s after %s, a %s holding % x, gives %v (%v)", base, tag, kn, val, deref(d), e)
				}
				err2 := r.cl.Read(tag, &got2)
				if (err == nil) != (err2 == nil) || got != got2 {
					c.Fail("word:"+name, "reading %s, %s and %s again gives %v (%v) and then %v (%v)", tag, base, tag, got, err, got2, err2)
				}
			}
		}
		c.Trans(1)
		c.Validated()
		c.Distinct(kn, bit, form, pat, op, listed)
		c.State(kn, bit, form, pat)
		r.problems(c, name)
		if bit >= width {
			if err == nil {
				c.Fail("out-of-range:"+name, "%s of %s, a %s of %d bits, succeeds with %v", name, tag, kn, width, got)
			}
			return
		}
		if err != nil {
			c.Fail("error:"+name+":"+kn, "%s of %s of a %s holding % x fails: %v", name, tag, kn, val, err)
		}
		if got != want || two && got2 != want2 {
			c.Fail("value:"+name+":"+kn, "%s of %s (and %s) of a %s holding % x gives %v (%v), want %v (%v)", name, tag, tag2, kn, val, got, got2, want, want2)
		}
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "C09", Level: "model_checking",
		Rule: "every integer type x bit 0..70 x {scalar, array element, structure member, other letter case} x five values (zero, ones, only that bit, all but that bit, mixed) x every read operation x {tags listed or not}; a case is one combination",
		Units: func(tier string) []vk.Unit {
			var us []vk.Unit
			for _, k := range intKinds {
				us = append(us, bitUnit(k, tier))
			}
			return us
		},
		Bounds:      map[string]any{"bits": "0..70"},
		Assumptions: []string{"a boolean read of a bit is a read of the whole word, as the package does"},
		QuickBudget: 200 * time.Second, ThoroughBudget: 600 * time.Second,
	})
}
