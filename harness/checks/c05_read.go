package checks

import (
	"fmt"
	"reflect"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
)

// C05: a typed Read returns exactly what the controller holds.

// chunking enumerates how the reply bytes reach the client.
type chunking struct {
	name string
	set  func(c *plc.Conn)
}

func uniform(n int) chunking {
	return chunking{fmt.Sprintf("every read returns at most %d bytes", n), func(c *plc.Conn) { c.Chunk = func(int) int { return n } }}
}

// splitAt delivers the nth reply (counted after arming) in two parts.
func splitAt(at int) chunking {
	return chunking{fmt.Sprintf("reply split after byte %d", at), func(c *plc.Conn) {
		seen := 0
		c.Chunk = func(avail int) int {
			if seen < at {
				k := at - seen
				if k > avail {
					k = avail
				}
				seen += k
				return k
			}
			return avail
		}
	}}
}

func readScalarUnit(k *kind, listed bool) vk.Unit {
	name := "scalar " + k.name
	if listed {
		name += " by instance"
	}
	return vk.Unit{Name: name, Run: func(c *vk.C) {
		p := plc.New()
		t := p.AddTag(k.tag("TagOne"))
		t.Instance = 300
		o := p.AddTag(k.tag("Other"))
		o.Instance = 3
		k.fill(o, 1, 1)
		pi := c.Choose(len(k.pats), "value")
		copy(t.Data, k.pats[pi])
		r := newRig(c, p)
		if listed {
			p.Firmware = 32
		}
		r.connect(c)
		if listed {
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("listall", "ListAllTags: %v", err)
			}
		}
		dst := k.newPtr()
		if k.name == "BOOL" && pi == 1 {
			t.Data[0] = []byte{1, 0xFF}[c.Choose(2, "true is")]
		}
		err := r.cl.Read("TagOne", dst)
		c.Trans(1)
		c.Validated()
		c.State(k.name, pi)
		c.Distinct(k.name, pi)
		c.Sample(func() string { return fmt.Sprintf("%s % x -> %v (%v)", k.name, t.Data, deref(dst), err) })
		r.problems(c, "Read")
		if err != nil {
			c.Fail("scalar-error:"+k.name, "reading a %s tag holding % x into %T fails: %v", k.name, t.Data, k.zero, err)
		}
		if want := k.val(t.Data); !same(deref(dst), want) {
			c.Fail("scalar-value:"+k.name, "reading a %s tag holding % x gives %v, want %v", k.name, t.Data, deref(dst), want)
		}
	}}
}

// mismatch: a destination whose type does not correspond must give an error or
// leave the destination alone, never a wrong value.
func readMismatchUnit(k *kind) vk.Unit {
	return vk.Unit{Name: "mismatch " + k.name, Run: func(c *vk.C) {
		g := kinds[c.Choose(len(kinds), "go type of")]
		n := []int{1, 2, 3}[c.Choose(3, "count")]
		p := plc.New()
		t := p.AddTag(k.tag("Arr", 4))
		k.fill(t, 3, 5)
		r := newRig(c, p)
		r.connect(c)
		var dst any
		if n == 1 {
			dst = g.newPtr()
		} else {
			if _, ok := g.zero.(bool); ok {
				c.Stop()
			}
			dst = g.newSlice(n)
		}
		err := r.cl.Read("Arr[1]", dst)
		c.Trans(1)
		c.Distinct(k.name, g.name, n)
		r.problems(c, "Read")
		if err != nil {
			return
		}
		var got []any
		if n == 1 {
			got = []any{deref(dst)}
		} else {
			got = elems(dst)
		}
		for i := range got {
			if want := k.val(t.Data[(1+i)*k.size:]); !same(got[i], want) {
				c.Fail("mismatch:"+k.name+":"+reflect.TypeOf(g.zero).String(), "reading %d elements of a %s array into %T succeeds with element %d = %v (%T); the controller holds %v (%T)", n, k.name, dst, i, got[i], got[i], want, want)
			}
		}
	}}
}

func readSliceUnit(k *kind, tier string) vk.Unit {
	counts := []int{1, 2, 3, 5, 32, 100}
	frags := []int{0, 1, 2, 3, 4, 7, 8, 12, 50}
	chunks := []chunking{{"whole", func(*plc.Conn) {}}, uniform(1), uniform(23), uniform(24)}
	sizes := []uint16{0, 500, 100}
	if tier == "thorough" {
		counts = nil
		for i := 1; i <= 130; i++ {
			counts = append(counts, i)
		}
		counts = append(counts, 500, 1500)
		frags = nil
		for i := 0; i <= 70; i++ {
			frags = append(frags, i)
		}
	}
	return vk.Unit{Name: "slice " + k.name, Run: func(c *vk.C) {
		p := plc.New()
		n := vk.Pick(c, counts, "count")
		start := []int{0, 1, 255, 256}[c.Choose(4, "start")]
		t := p.AddTag(k.tag("Arr", n+300))
		k.fill(t, 7, 11)
		frag := vk.Pick(c, frags, "fragment bytes")
		if k.name == "STRING" && frag != 0 {
			frag += 88 * 4
		}
		if frag != 0 && (n+frag-1)*k.size/frag > 400 {
			c.Stop()
		}
		size := vk.Pick(c, sizes, "connection size")
		ch := vk.Pick(c, chunks, "chunking")
		r := newRig(c, p)
		if size != 0 {
			r.cl.ConnectionSize = size
		}
		r.connect(c)
		p.FragBytes = frag
		ch.set(r.conn)
		f0 := p.Frames
		dst := k.newSlice(n)
		tag := fmt.Sprintf("Arr[%d]", start)
		if start == 0 && c.Bool("no index") {
			tag = "Arr"
		}
		err := r.cl.Read(tag, dst)
		c.Trans(p.Frames - f0)
		c.Validated()
		c.State(k.name, n, start, frag, size)
		c.Distinct(k.name, n, start, frag, size, ch.name)
		c.Sample(func() string {
			return fmt.Sprintf("Read(%s) of %d %s, fragments of %d, %s: %d requests, err=%v", tag, n, k.name, frag, ch.name, p.Frames-f0, err)
		})
		r.problems(c, fmt.Sprintf("Read(%s) of %d", tag, n))
		if err != nil {
			// A structured type that does not fit one reply may be refused.
			if k.name == "STRING" && p.Partials > 0 {
				c.Count("refused structured fragments", 1)
				return
			}
			c.Fail("slice-error:"+k.name+countClass(n), "reading %d elements of %s at %s (fragments of %d bytes, connection size %d, %s) fails: %v", n, k.name, tag, frag, size, ch.name, err)
		}
		for i, g := range elems(dst) {
			if want := k.val(t.Data[(start+i)*k.size:]); !same(g, want) {
				c.Fail("slice-value:"+k.name, "element %d of %d read at %s is %v, the controller holds %v (fragments of %d bytes, connection size %d, %s)", i, n, tag, g, want, frag, size, ch.name)
			}
		}
		if r.conn.Pending() != 0 {
			c.Fail("unread", "%d reply bytes left unread after the read", r.conn.Pending())
		}
	}}
}

func countClass(n int) string {
	if n <= 1 {
		return fmt.Sprintf(":%d", n)
	}
	return ":n"
}

func readSplitUnit(k *kind) vk.Unit {
	return vk.Unit{Name: "split " + k.name, Run: func(c *vk.C) {
		p := plc.New()
		t := p.AddTag(k.tag("Arr", 3))
		k.fill(t, 2, 9)
		r := newRig(c, p)
		r.connect(c)
		at := 1 + c.Choose(24+20+8+4+3*k.size, "split after")
		splitAt(at).set(r.conn)
		dst := k.newSlice(3)
		err := r.cl.Read("Arr", dst)
		c.Trans(1)
		c.Validated()
		c.Distinct(k.name, at)
		r.problems(c, "Read")
		if err != nil {
			c.Fail("split-error:"+k.name, "reading 3 %s with the reply split after byte %d fails: %v", k.name, at, err)
		}
		for i, g := range elems(dst) {
			if want := k.val(t.Data[i*k.size:]); !same(g, want) {
				c.Fail("split-value:"+k.name, "reply split after byte %d: element %d is %v, want %v", at, i, g, want)
			}
		}
	}}
}

func readBoolsUnit() vk.Unit {
	return vk.Unit{Name: "bool slices", Run: func(c *vk.C) {
		words := 1 + c.Choose(4, "words")
		n := []int{words * 32, 0, 1, 31, 33, 63}[c.Choose(6, "length")]
		p := plc.New()
		t := p.AddTag(&plc.Tag{Name: "Flags", Type: 0xD3, Dims: []int{6}})
		pat := c.Choose(4+32, "pattern")
		for i := range t.Data {
			switch {
			case pat < 4:
				t.Data[i] = []byte{0, 0xFF, 0xA5, byte(i*37 + 11)}[pat]
			case i%4 == (pat-4)/8:
				t.Data[i] = 1 << ((pat - 4) % 8)
			}
		}
		start := c.Choose(3, "start")
		p.FragBytes = []int{0, 4, 3}[c.Choose(3, "fragment")]
		r := newRig(c, p)
		r.connect(c)
		dst := make([]bool, n)
		err := r.cl.Read(fmt.Sprintf("Flags[%d]", start), dst)
		c.Trans(1)
		c.Validated()
		c.Distinct(n, pat, start)
		r.problems(c, "Read")
		if n == 0 {
			return
		}
		if n%32 != 0 {
			if err == nil {
				c.Fail("bools-length", "reading %d bools from 32 bit words succeeds", n)
			}
			return
		}
		if err != nil {
			c.Fail("bools-error", "reading %d bools at Flags[%d] fails: %v", n, start, err)
		}
		for i, b := range dst {
			if want := t.Data[start*4+i/8]>>(i%8)&1 == 1; b != want {
				c.Fail("bools-value", "bool %d of %d is %v, want %v", i, n, b, want)
			}
		}
	}}
}

type udtInner struct {
	A int16
	B bool
	C bool
	D float32
}
type udtOuter struct {
	X  int8
	In udtInner
	Y  int32
	Z  [3]int16
	S  [2]udtInner
	L  int64
}

// udtLayout is the controller's layout of udtOuter (natural alignment).
func udtOuterLayout() (*plc.UDT, func(v *udtOuter) []byte) {
	inner := &plc.UDT{Name: "udtInner", Template: 0x321, Handle: 0x1234, Size: 8, Members: []plc.Member{
		{Name: "A", Type: 0xC3, Size: 2, Off: 0, Bit: -1},
		{Name: "ZZZZZZZZZZinner1", Type: 0xC2, Size: 1, Off: 2, Bit: -1},
		{Name: "B", Type: 0xC1, Size: 1, Off: 2, Bit: 0},
		{Name: "C", Type: 0xC1, Size: 1, Off: 2, Bit: 1},
		{Name: "D", Type: 0xCA, Size: 4, Off: 4, Bit: -1},
	}}
	u := &plc.UDT{Name: "udtOuter", Template: 0x322, Handle: 0x5678, Size: 56}
	in := func(b []byte, v *udtInner) {
		le.PutUint16(b, uint16(v.A))
		if v.B {
			b[2] |= 1
		}
		if v.C {
			b[2] |= 2
		}
		le.PutUint32(b[4:], f32(v.D))
	}
	return &plc.UDT{Name: u.Name, Template: u.Template, Handle: u.Handle, Size: 56, Members: []plc.Member{
		{Name: "X", Type: 0xC2, Size: 1, Off: 0, Bit: -1},
		{Name: "In", Type: 0x8321, Size: 8, Off: 4, Bit: -1, UDT: inner},
		{Name: "Y", Type: 0xC4, Size: 4, Off: 12, Bit: -1},
		{Name: "Z", Type: 0xC3, Size: 2, Off: 16, Dim: 3, Bit: -1},
		{Name: "S", Type: 0x8321, Size: 8, Off: 24, Dim: 2, Bit: -1, UDT: inner},
		{Name: "L", Type: 0xC5, Size: 8, Off: 40, Bit: -1},
	}}, func(v *udtOuter) []byte {
		b := make([]byte, 48)
		b[0] = byte(v.X)
		in(b[4:], &v.In)
		le.PutUint32(b[12:], uint32(v.Y))
		for i := range v.Z {
			le.PutUint16(b[16+2*i:], uint16(v.Z[i]))
		}
		in(b[24:], &v.S[0])
		in(b[32:], &v.S[1])
		le.PutUint64(b[40:], uint64(v.L))
		return b
	}
}

func mkOuter(seed int) udtOuter {
	i := func(n int) udtInner {
		return udtInner{A: int16(seed*257 + n), B: (seed+n)&1 == 1, C: (seed+n)&2 == 2, D: float32(seed)*1.5 - float32(n)}
	}
	return udtOuter{X: int8(seed * 3), In: i(1), Y: int32(seed*65537 - 9), Z: [3]int16{int16(seed), -int16(seed), 77}, S: [2]udtInner{i(2), i(3)}, L: -int64(seed) << 33}
}

// readLargeUnit reads arrays around the 32 KB, 64 KB and 65535 element limits.
func readLargeUnit(k *kind, tier string) vk.Unit {
	return vk.Unit{Name: "large " + k.name, Run: func(c *vk.C) {
		var ns []int
		for _, b := range []int{32768, 65536, 131072} {
			for _, d := range []int{0, 1} {
				if n := b/k.size + d; n <= 65535 {
					ns = append(ns, n)
				}
			}
		}
		ns = append(ns, 65535)
		if tier == "thorough" {
			ns = append(ns, 65535/k.size, 32767, 32768, 32769, 50000)
		}
		ns = append(ns, 65536, 65537, 131072)
		n := vk.Pick(c, ns, "count")
		if n*k.size > 300000 && tier != "thorough" && n != 65536 {
			c.Stop()
		}
		p := plc.New()
		have := n
		if n > 65535 {
			have = 10
		}
		t := p.AddTag(&plc.Tag{Name: "Arr", Type: k.code, Dims: []int{have + 3}})
		for i := range t.Data {
			t.Data[i] = byte(i*7 + i/251 + i/65521*3)
		}
		size := []uint16{0, 500}[c.Choose(2, "connection size")]
		start := []int{0, 2}[c.Choose(2, "start")]
		r := newRig(c, p)
		if size != 0 {
			r.cl.ConnectionSize = size
		}
		r.connect(c)
		dst := k.newSlice(n)
		f0 := p.Frames
		err := r.cl.Read(fmt.Sprintf("Arr[%d]", start), dst)
		c.Trans(p.Frames - f0)
		c.Validated()
		c.State(k.name, n, size, start)
		c.Distinct(k.name, n, size, start)
		r.problems(c, fmt.Sprintf("Read of %d %s", n, k.name))
		if n > 65535 {
			if err == nil {
				c.Fail("too-many:"+k.name, "reading %d elements succeeds; a request cannot ask for more than 65535", n)
			}
			return
		}
		if err != nil {
			c.Fail("large-error:"+k.name, "reading %d %s at %d fails: %v", n, k.name, start, err)
		}
		for i, g := range elems(dst) {
			if want := k.val(t.Data[(start+i)*k.size:]); !same(g, want) {
				c.Fail("large-value:"+k.name, "element %d of %d read at %d is %v, the controller holds %v", i, n, start, g, want)
			}
		}
	}}
}

func readUDTUnit() vk.Unit {
	return vk.Unit{Name: "structures", Run: func(c *vk.C) {
		u, lay := udtOuterLayout()
		u.Size = 48
		p := plc.New()
		t := p.AddTag(&plc.Tag{Name: "Recs", UDT: u, Dims: []int{6}})
		var vals []udtOuter
		seed := c.Choose(8, "values")
		for i := 0; i < 6; i++ {
			v := mkOuter(seed*5 + i)
			vals = append(vals, v)
			copy(t.Data[i*48:], lay(&v))
		}
		start := c.Choose(3, "start")
		n := c.Choose(4, "count") // 0: scalar
		ch := []chunking{{"whole", func(*plc.Conn) {}}, uniform(1), uniform(5)}[c.Choose(3, "chunk")]
		p.FragBytes = []int{0, 48, 100, 10}[c.Choose(4, "fragment")]
		r := newRig(c, p)
		r.connect(c)
		ch.set(r.conn)
		tag := fmt.Sprintf("Recs[%d]", start)
		var err error
		var got []udtOuter
		if n == 0 {
			var v udtOuter
			err = r.cl.Read(tag, &v)
			got = []udtOuter{v}
		} else {
			got = make([]udtOuter, n)
			err = r.cl.Read(tag, got)
		}
		c.Trans(1)
		c.Validated()
		c.Distinct(seed, start, n, ch.name, p.FragBytes)
		r.problems(c, "Read")
		if err != nil {
			if p.FragBytes != 0 && p.FragBytes < 48*len(got) {
				c.Count("refused structured fragments", 1)
				return
			}
			c.Fail("udt-error", "reading %d structures at %s fails: %v", n, tag, err)
		}
		for i := range got {
			if got[i] != vals[start+i] {
				c.Fail("udt-value", "structure %d read at %s is %+v, want %+v", i, tag, got[i], vals[start+i])
			}
		}
		var in udtInner
		if err := r.cl.Read(fmt.Sprintf("Recs[%d].S[1]", start), &in); err != nil || in != vals[start].S[1] {
			c.Fail("udt-member", "nested member read gives %+v, %v, want %+v", in, err, vals[start].S[1])
		}
		var y int32
		if err := r.cl.Read(fmt.Sprintf("Recs[%d].Y", start), &y); err != nil || y != vals[start].Y {
			c.Fail("udt-member", "member read gives %v, %v, want %v", y, err, vals[start].Y)
		}
		var z [2]int16
		if err := r.cl.Read(fmt.Sprintf("Recs[%d].Z[1]", start), z[:]); err != nil || z != [2]int16{vals[start].Z[1], vals[start].Z[2]} {
			c.Fail("udt-member", "array member read gives %v, %v, want %v", z, err, vals[start].Z[1:])
		}
		r.problems(c, "member reads")
	}}
}

func readAnyUnit(k *kind) vk.Unit {
	return vk.Unit{Name: "untyped " + k.name, Run: func(c *vk.C) {
		p := plc.New()
		t := p.AddTag(k.tag("Arr", 4))
		k.fill(t, c.Choose(len(k.pats), "value"), 3)
		r := newRig(c, p)
		r.connect(c)
		n := 1 + c.Choose(3, "count")
		typ := []gologix.CIPType{k.cip, gologix.CIPTypeUnknown}[c.Choose(2, "type")]
		if k.name == "STRING" {
			typ = k.cip
		}
		v, err := r.cl.Read_single("Arr[1]", typ, uint16(n))
		c.Trans(1)
		c.Validated()
		c.Distinct(k.name, n, typ, t.Data)
		r.problems(c, "Read_single")
		if err != nil {
			c.Fail("single-error:"+k.name, "Read_single of %d %s as type %v fails: %v", n, k.name, typ, err)
		}
		norm := func(x any) any {
			if b, ok := x.([]byte); ok && k.name == "STRING" {
				return string(b)
			}
			return x
		}
		var got []any
		if n == 1 {
			got = []any{norm(v)}
		} else {
			l, ok := v.([]any)
			if !ok || len(l) != n {
				c.Fail("single-shape:"+k.name, "Read_single of %d %s returns %T", n, k.name, v)
			}
			for _, x := range l {
				got = append(got, norm(x))
			}
		}
		for i := range got {
			if want := k.val(t.Data[(1+i)*k.size:]); !same(got[i], want) {
				c.Fail("single-value:"+k.name, "Read_single element %d is %v (%T), want %v (%T)", i, got[i], got[i], want, want)
			}
		}
		if n == 1 && k.name != "STRING" {
			var a any
			err := r.cl.Read("Arr[1]", &a)
			if err != nil || !same(a, k.val(t.Data[k.size:])) {
				c.Fail("any-value:"+k.name, "Read into an any gives %v (%T), %v; want %v", a, a, err, k.val(t.Data[k.size:]))
			}
		}
	}}
}

func readErrorsUnit() vk.Unit {
	return vk.Unit{Name: "absent", Run: func(c *vk.C) {
		k := kinds[c.Choose(len(kinds), "kind")]
		p := plc.New()
		t := p.AddTag(k.tag("Arr", 4))
		k.fill(t, 3, 5)
		r := newRig(c, p)
		r.connect(c)
		tag := []string{"Nope", "Arr[4]", "Arr[2]", "Arr.x", "Arr[0,0]"}[c.Choose(5, "tag")]
		n := []int{3, 4, 0}[c.Choose(3, "count")]
		dst := k.newSlice(n)
		err := r.cl.Read(tag, dst)
		c.Trans(1)
		c.Distinct(k.name, tag, n)
		if n == 0 {
			return // anything but a crash
		}
		if err == nil {
			c.Fail("absent:"+tag, "reading %d elements of %s, which the controller refuses, succeeds with %v", n, tag, dst)
		}
		for _, e := range elems(dst) {
			if !same(e, k.zero) {
				c.Fail("absent-dirty:"+tag, "failed read of %s changed the destination to %v", tag, dst)
			}
		}
		// The client still works.
		one := k.newPtr()
		if err := r.cl.Read("Arr[1]", one); err != nil || !same(deref(one), k.val(t.Data[k.size:])) {
			c.Fail("after-error", "read after a refused read gives %v, %v", deref(one), err)
		}
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "C05", Level: "model_checking",
		Rule: "a case is one (controller type, values, element count, start index, fragment size, connection size, delivery of the reply bytes) run through Client.Read against the reference controller; distinct by those parameters; non-trivial when the read reached the controller",
		Units: func(tier string) []vk.Unit {
			var us []vk.Unit
			for _, k := range kinds {
				us = append(us, readScalarUnit(k, false), readScalarUnit(k, true), readMismatchUnit(k), readAnyUnit(k))
				if k.name != "BOOL" {
					us = append(us, readSplitUnit(k), readSliceUnit(k, tier))
				}
			}
			for _, n := range []string{"SINT", "INT", "UINT", "DINT", "REAL", "LINT", "LREAL"} {
				us = append(us, readLargeUnit(kindByName(n), tier))
			}
			return append(us, readBoolsUnit(), readUDTUnit(), readErrorsUnit())
		},
		Bounds: map[string]any{"types": "all 16 atomic/string types and nested structures", "quick": "counts {1,2,3,5,32,100} and around 32 KB, 64 KB, 128 KB and 65535 elements, fragment sizes {none,1,2,3,4,7,8,12,50}, connection sizes {4000,500,100}, reads of 1/23/24/all bytes and every two-part split", "thorough": "counts 1..130,500,1500; fragment sizes 0..70"},
		Assumptions: []string{
			"the reference controller (harness/plc) answers as 1756-PM020 describes",
			"an unusable destination length (0) only has to be survived",
		},
		QuickBudget: 200 * time.Second, ThoroughBudget: 800 * time.Second,
	})
}
