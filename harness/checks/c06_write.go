package checks

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
	"verifharness/plc"
	"verifharness/vk"
)

// C06: a write puts exactly the given values where it says and nowhere else.

// memory is a snapshot of every tag.
type memory map[string][]byte

func snap(p *plc.PLC) memory {
	m := memory{}
	for k, t := range p.Tags {
		m[k] = append([]byte(nil), t.Data...)
	}
	return m
}

// diff names the first byte that differs.
func (m memory) diff(p *plc.PLC) string {
	var names []string
	for k := range m {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		t := p.Tags[k]
		if !bytes.Equal(t.Data, m[k]) {
			for i := range t.Data {
				if t.Data[i] != m[k][i] {
					return fmt.Sprintf("%s byte %d is %#02x, expected %#02x", k, i, t.Data[i], m[k][i])
				}
			}
		}
	}
	return ""
}

// goCode is the controller type a Go value is written as.
var goCode = map[string]uint16{"bool": 0xC1, "uint8": 0xD1, "int8": 0xC2, "uint16": 0xC7, "int16": 0xC3, "uint32": 0xC8, "int32": 0xC4,
	"uint64": 0xD4, "int64": 0xC5, "float32": 0xCA, "float64": 0xCB, "string": 0xFF}

func goName(v any) string { return reflect.TypeOf(v).String() }

// encodes gives the controller bytes of a Go value, independently of the package.
func encodes(v any) []byte {
	switch x := v.(type) {
	case bool:
		if x {
			return []byte{1}
		}
		return []byte{0}
	case byte:
		return []byte{x}
	case int8:
		return []byte{byte(x)}
	case uint16:
		return le.AppendUint16(nil, x)
	case int16:
		return le.AppendUint16(nil, uint16(x))
	case uint32:
		return le.AppendUint32(nil, x)
	case int32:
		return le.AppendUint32(nil, uint32(x))
	case uint64:
		return le.AppendUint64(nil, x)
	case int64:
		return le.AppendUint64(nil, uint64(x))
	case float32:
		return le.AppendUint32(nil, f32(x))
	case float64:
		return le.AppendUint64(nil, math.Float64bits(x))
	case string:
		return plc.StringData(x)
	}
	panic("encodes")
}

var writeOps = []struct {
	name string
	run  func(cl *gologix.Client, tag string, v any) error
}{
	{"Write", func(cl *gologix.Client, tag string, v any) error { return cl.Write(tag, v) }},
	{"WriteMap", func(cl *gologix.Client, tag string, v any) error { return cl.WriteMap(map[string]any{tag: v}) }},
	{"WriteMulti", func(cl *gologix.Client, tag string, v any) error {
		return cl.WriteMulti(taggedStruct([]string{tag}, []any{v}))
	}},
}

// taggedStruct makes a struct value with one tagged field per value.
func taggedStruct(tags []string, vals []any) any {
	var fs []reflect.StructField
	for i, t := range tags {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(vals[i]), Tag: reflect.StructTag(`gologix:"` + t + `"`)})
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	for i := range vals {
		v.Field(i).Set(reflect.ValueOf(vals[i]))
	}
	return v.Interface()
}

// writePLC has a scalar, an array, a program tag and a structure member of
// every kind, all filled.
func writePLC(ks []*kind) *plc.PLC {
	p := plc.New()
	p.Programs = []plc.Program{{Name: "Main", Instance: 7}}
	inst := uint32(20)
	for i, k := range ks {
		for _, t := range []*plc.Tag{
			p.AddTag(k.tag("s" + k.name)),
			p.AddTag(k.tag("a"+k.name, 300)),
		} {
			inst++
			t.Instance = inst
			k.fill(t, i+3, 5)
		}
		pt := k.tag("p" + k.name)
		pt.Program = "Main"
		inst++
		pt.Instance = inst
		k.fill(p.AddTag(pt), i+4, 5)
		u := &plc.UDT{Name: "box" + k.name, Template: 0x200 + uint16(i), Handle: 0x4000 + uint16(i), Size: 8 + 4*k.size, Members: []plc.Member{
			{Name: "Pad", Type: 0xC4, Size: 4, Off: 0, Bit: -1},
			{Name: "M", Type: k.code, Size: k.size, Off: 8, Bit: -1, UDT: k.tag("").UDT},
			{Name: "N", Type: k.code, Size: k.size, Off: 8 + k.size, Dim: 3, Bit: -1, UDT: k.tag("").UDT}}}
		st := p.AddTag(&plc.Tag{Name: "u" + k.name, UDT: u, Dims: []int{2}})
		for j := range st.Data {
			st.Data[j] = byte(j*3 + i)
		}
	}
	return p
}

// target of a one value write.
var writeTargets = []struct {
	name string
	f    func(k *kind) (tag, mem string, off int)
}{
	{"scalar", func(k *kind) (string, string, int) { return "s" + k.name, "s" + k.name, 0 }},
	{"element", func(k *kind) (string, string, int) {
		return "a" + k.name + "[257]", "a" + k.name, 257 * k.size
	}},
	{"program tag", func(k *kind) (string, string, int) {
		return "Program:Main.p" + k.name, "program:main.p" + k.name, 0
	}},
	{"member", func(k *kind) (string, string, int) {
		return "u" + k.name + "[1].M", "u" + k.name, 8 + 4*k.size + 8
	}},
	{"member element", func(k *kind) (string, string, int) {
		return "u" + k.name + "[0].N[2]", "u" + k.name, 8 + 3*k.size
	}},
	{"upper case", func(k *kind) (string, string, int) {
		return strings.ToUpper("s" + k.name), "s" + k.name, 0
	}},
}

func writeScalarUnit(k *kind, tier string) vk.Unit {
	return vk.Unit{Name: "scalar " + k.name, Run: func(c *vk.C) {
		g := kinds[c.Choose(len(kinds), "go type of")]
		op := writeOps[c.Choose(len(writeOps), "op")]
		tg := writeTargets[c.Choose(len(writeTargets), "target")]
		listed := c.Bool("listed")
		match := goCode[goName(g.zero)] == k.code
		np := len(g.pats)
		if !match || tier != "thorough" && tg.name != "scalar" {
			np = min(np, 3)
		}
		pat := g.pats[c.Choose(np, "value")]
		v := g.val(pat)
		var p *plc.PLC
		if k == g {
			p = writePLC([]*kind{k})
		} else {
			p = writePLC([]*kind{k, g})
		}
		if listed {
			p.Firmware = 32
		}
		tag, mem, off := tg.f(k)
		mem = strings.ToLower(mem)
		r := newRig(c, p)
		r.connect(c)
		if listed {
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("listall", "ListAllTags: %v", err)
			}
		}
		before := snap(p)
		err := op.run(r.cl, tag, v)
		c.Trans(1)
		c.Validated()
		c.State(k.name, g.name, pat, tg.name)
		c.Distinct(k.name, g.name, pat, tg.name, op.name, listed)
		c.Sample(func() string { return fmt.Sprintf("%s(%s, %v %T): %v", op.name, tag, v, v, err) })
		r.problems(c, op.name)
		if err != nil {
			if d := before.diff(p); d != "" {
				c.Fail("error-dirty:"+op.name, "%s(%s, %T %v) fails with %v but %s", op.name, tag, v, v, err, d)
			}
			if match {
				c.Fail("refused:"+op.name+":"+k.name, "%s(%s, %T %v) to a %s fails: %v", op.name, tag, v, v, k.name, err)
			}
			return
		}
		want := encodes(v)
		if k.code == 0xFF {
			if !match {
				c.Fail("type:"+op.name, "%s(%s, %T %v) to a %s succeeds", op.name, tag, v, v, k.name)
			}
			want = append([]byte(nil), want...)
			copy(want[4+le.Uint32(want):], p.Tags[mem].Data[off+4+int(le.Uint32(want)):off+88])
		}
		if len(want) != k.size {
			c.Fail("type:"+op.name, "%s(%s, %T %v) to a %s succeeds", op.name, tag, v, v, k.name)
		}
		copy(before[mem][off:], want)
		if d := before.diff(p); d != "" {
			c.Fail("value:"+op.name+":"+k.name, "%s(%s, %T %v) succeeds but %s", op.name, tag, v, v, d)
		}
	}}
}

func writeSliceUnit(k *kind, tier string) vk.Unit {
	counts := []int{0, 1, 2, 3, 5, 40, 43, 44, 45, 46, 47, 90, 120, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 300, 492, 493, 494, 495, 496, 497, 498, 499, 500, 990, 996, 2000, 4000, 65535, 65536, 65537, 65539}
	if tier == "thorough" {
		counts = nil
		for i := 0; i < 520; i++ {
			counts = append(counts, i)
		}
		for i := 960; i < 1010; i++ {
			counts = append(counts, i)
		}
		counts = append(counts, 2000, 4000, 8000, 65535, 65536, 65537, 65539)
	}
	return vk.Unit{Name: "slice " + k.name, Run: func(c *vk.C) {
		n := vk.Pick(c, counts, "count")
		op := writeOps[c.Choose(len(writeOps), "op")]
		start := []int{0, 3}[c.Choose(2, "start")]
		size := []uint16{0, 500}[c.Choose(2, "connection size")]
		extra := []int{5, 0, -1}[c.Choose(3, "room behind")]
		p := plc.New()
		dim := start + n + extra
		if dim < 1 || dim > 70000 {
			dim = 1
		}
		t := p.AddTag(k.tag("Arr", dim))
		k.fill(t, 7, 11)
		o := p.AddTag(k.tag("Arrival", 4))
		k.fill(o, 1, 3)
		sl := reflect.ValueOf(k.newSlice(n))
		var want []byte
		for i := 0; i < n; i++ {
			b := k.pats[(i*13+5)%len(k.pats)]
			sl.Index(i).Set(reflect.ValueOf(k.val(b)))
			want = append(want, encodes(k.val(b))...)
		}
		r := newRig(c, p)
		if size != 0 {
			r.cl.ConnectionSize = size
		}
		r.connect(c)
		tag := "Arr"
		if start > 0 {
			tag = fmt.Sprintf("Arr[%d]", start)
		}
		before := snap(p)
		err := op.run(r.cl, tag, sl.Interface())
		c.Trans(1)
		c.Validated()
		c.State(k.name, n, start, size, extra)
		c.Distinct(k.name, n, start, size, extra, op.name)
		r.problems(c, fmt.Sprintf("%s of %d %s", op.name, n, k.name))
		limit := 4000
		if size != 0 {
			limit = int(size)
		}
		// sequence, service, path, type, count, data; and the multiple service wrapper
		need := 2 + 2 + 6 + 4 + n*k.size
		if k.code == 0xFF {
			need += 2
		}
		if start > 0 {
			need += 2
		}
		if op.name != "Write" {
			need += 6 + 4
		}
		fits := n > 0 && need <= limit && start+n <= dim && goCode[goName(k.zero)] == k.code && k.name != "BOOL"
		if err != nil {
			if d := before.diff(p); d != "" {
				c.Fail("slice-dirty:"+op.name, "%s of %d %s fails with %v but %s", op.name, n, k.name, err, d)
			}
			if fits {
				c.Fail("slice-refused:"+op.name+":"+k.name, "%s of %d %s to %s (%d elements), a request of %d of %d bytes, fails: %v", op.name, n, k.name, tag, dim, need, limit, err)
			}
			return
		}
		if n == 0 {
			if d := before.diff(p); d != "" {
				c.Fail("slice-empty:"+op.name, "%s of an empty slice: %s", op.name, d)
			}
			return
		}
		if start+n > dim {
			c.Fail("slice-beyond:"+op.name, "%s of %d %s at %d of an array of %d succeeds", op.name, n, k.name, start, dim)
		}
		if k.code == 0xFF {
			for i := 0; i < n; i++ {
				l := int(le.Uint32(want[i*88:]))
				copy(want[i*88+4+l:i*88+88], t.Data[(start+i)*88+4+l:])
			}
		}
		copy(before["arr"][start*k.size:], want)
		if d := before.diff(p); d != "" {
			c.Fail("slice-value:"+op.name+":"+k.name, "%s of %d %s at %s succeeds but %s", op.name, n, k.name, tag, d)
		}
	}}
}

func writeStringUnit() vk.Unit {
	return vk.Unit{Name: "string lengths", Run: func(c *vk.C) {
		n := []int{0, 1, 2, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 100, 255, 256, 3000, 65535, 65536, 70000}[c.Choose(20, "length")]
		op := writeOps[c.Choose(len(writeOps), "op")]
		form := c.Choose(4, "form")
		p := plc.New()
		k := kindByName("STRING")
		s := p.AddTag(k.tag("Str"))
		a := p.AddTag(k.tag("Strs", 4))
		k.fill(s, 20, 3)
		k.fill(a, 40, 7)
		g := p.AddTag(&plc.Tag{Name: "Guard", Type: 0xC4, Dims: []int{40}})
		_ = g
		str := strings.Repeat("xyZ\x00\xff", n/5+1)[:n]
		r := newRig(c, p)
		r.connect(c)
		before := snap(p)
		var err error
		mem, at := "str", 0
		switch form {
		case 0:
			err = op.run(r.cl, "Str", str)
		case 1:
			err = op.run(r.cl, "Strs[2]", str)
			mem, at = "strs", 2
		case 2:
			err = op.run(r.cl, "Strs[1]", []string{"ab", str})
			mem, at = "strs", 2
			copy(before["strs"][88:], append([]byte{2, 0, 0, 0}, "ab"...))
		case 3:
			err = op.run(r.cl, "Strs[1]", []string{str, "ab"})
			mem, at = "strs", 1
			copy(before["strs"][2*88:], append([]byte{2, 0, 0, 0}, "ab"...))
		}
		c.Trans(1)
		c.Validated()
		c.State(n, form)
		c.Distinct(n, op.name, form)
		r.problems(c, fmt.Sprintf("%s of a string of %d", op.name, n))
		if n > 82 {
			if err == nil {
				c.Fail("string-long:"+op.name, "%s of a string of %d characters to an 82 character string succeeds; the tag holds length %d", op.name, n, le.Uint32(p.Tags[mem].Data[88*at:]))
			}
			return
		}
		if err != nil {
			c.Fail("string-refused:"+op.name, "%s of a string of %d characters fails: %v", op.name, n, err)
		}
		le.PutUint32(before[mem][88*at:], uint32(n))
		copy(before[mem][88*at+4:], str)
		// what follows the characters of a string is not part of its value
		for _, x := range []string{"str", "strs"} {
			for o := 0; o < len(before[x]); o += 88 {
				l := int(le.Uint32(before[x][o:]))
				if (x != mem || o != 88*at) && form < 2 {
					continue
				}
				copy(before[x][o+4+l:o+88], p.Tags[x].Data[o+4+l:])
			}
		}
		if d := before.diff(p); d != "" {
			c.Fail("string-value:"+op.name, "%s of a string of %d characters succeeds but %s", op.name, n, d)
		}
	}}
}

// writeMapUnit: many tags at once, with at most one that cannot be written.
func writeMapUnit(tier string) vk.Unit {
	counts := []int{0, 1, 2, 3, 7, 30, 31, 60, 150, 400}
	if tier == "thorough" {
		counts = nil
		for i := 0; i <= 64; i++ {
			counts = append(counts, i)
		}
		counts = append(counts, 150, 200, 300, 400, 700)
	}
	return vk.Unit{Name: "many tags", Run: func(c *vk.C) {
		n := vk.Pick(c, counts, "count")
		mix := c.Choose(5, "kinds")
		size := []uint16{0, 500, 300}[c.Choose(3, "connection size")]
		multi := c.Bool("WriteMulti")
		if multi && n > 60 && tier != "thorough" {
			c.Stop()
		}
		bad := c.Choose(6, "obstacle")
		where := 0
		if bad != 0 {
			if n == 0 {
				c.Stop()
			}
			where = []int{0, n / 2, n - 1}[c.Choose(3, "where")]
		}
		p := plc.New()
		var tags []string
		var vals []any
		mixes := [][]string{{"DINT"}, {"BOOL", "SINT"}, {"STRING", "DINT"}, {"LINT", "REAL", "INT", "DINT"}, {"INT", "STRING", "LREAL", "BOOL", "UINT", "UDINT", "BYTE", "LWORD"}}
		pad := []string{"", "_a_rather_long_name_of_a_tag"}[c.Choose(2, "names")]
		want := memory{}
		for i := 0; i < n; i++ {
			k := kindByName(mixes[mix][i%len(mixes[mix])])
			name := fmt.Sprintf("T%d%s", i, pad)
			t := k.tag(name)
			if i%5 == 3 {
				t.Dims = []int{6}
			}
			p.AddTag(t)
			k.fill(t, i, 3)
			want[strings.ToLower(name)] = append([]byte(nil), t.Data...)
			b := k.pats[(i*5+7)%len(k.pats)]
			var v any = k.val(b)
			tag := name
			off := 0
			enc := encodes(v)
			if i%5 == 3 {
				if i%2 == 1 {
					tag += "[2]"
					off = 2 * k.size
				} else {
					tag += "[1]"
					sl := reflect.ValueOf(k.newSlice(2))
					b2 := k.pats[(i*5+11)%len(k.pats)]
					if k.name == "BOOL" {
						tag = name + "[2]"
						off = 2
					} else {
						sl.Index(0).Set(reflect.ValueOf(v))
						sl.Index(1).Set(reflect.ValueOf(k.val(b2)))
						v = sl.Interface()
						enc = append(enc, encodes(k.val(b2))...)
						off = k.size
					}
				}
			}
			w := want[strings.ToLower(name)]
			copy(w[off:], enc)
			if k.code == 0xFF {
				// only the characters count
				for o := off; o < off+len(enc); o += 88 {
					for j := o + 4 + int(le.Uint32(w[o:])); j < o+88; j++ {
						w[j] = 0xEE
					}
				}
			}
			tags, vals = append(tags, tag), append(vals, v)
		}
		obstacle := ""
		badName := ""
		if bad != 0 {
			badName = strings.ToLower(fmt.Sprintf("T%d%s", where, pad))
			t := p.Tags[badName]
			switch bad {
			case 1:
				obstacle = "a tag that does not exist"
				delete(p.Tags, badName)
				delete(want, badName)
			case 2:
				obstacle = "a read only tag"
				t.ReadOnly = true
				want[badName] = append([]byte(nil), t.Data...)
			case 3:
				obstacle = "a tag of another type"
				t.Type = 0xC9
				t.UDT = nil
				want[badName] = append([]byte(nil), t.Data...)
			case 4:
				obstacle = "a value of an unsupported type"
				vals[where] = 17
				want[badName] = append([]byte(nil), t.Data...)
			case 5:
				obstacle = "a malformed tag name"
				tags[where] = "Bad[x]"
				want[badName] = append([]byte(nil), t.Data...)
			}
		}
		r := newRig(c, p)
		if size != 0 {
			r.cl.ConnectionSize = size
		}
		r.connect(c)
		before := snap(p)
		f0 := p.Frames
		var err error
		name := "WriteMap"
		if multi {
			name = "WriteMulti"
			err = r.cl.WriteMulti(taggedStruct(tags, vals))
		} else {
			m := map[string]any{}
			for i := range tags {
				m[tags[i]] = vals[i]
			}
			err = r.cl.WriteMap(m)
		}
		c.Trans(p.Frames - f0)
		c.Validated()
		c.State(n, mix, size, bad, where, pad)
		c.Distinct(n, mix, size, bad, where, pad, multi)
		c.Sample(func() string {
			return fmt.Sprintf("%s of %d tags (%v), connection size %d, %s: %d requests, %v", name, n, mixes[mix], size, obstacle, p.Frames-f0, err)
		})
		r.problems(c, fmt.Sprintf("%s of %d tags", name, n))
		matches := func(k string, w []byte) (bool, int) {
			d := p.Tags[k].Data
			for i := range w {
				if d[i] != w[i] && !(w[i] == 0xEE && p.Tags[k].UDT != nil) {
					return false, i
				}
			}
			return true, 0
		}
		if err == nil {
			if bad != 0 {
				c.Fail("many-silent:"+name+":"+obstacle, "%s of %d tags among which %s succeeds", name, n, obstacle)
			}
			for k, w := range want {
				if ok, i := matches(k, w); !ok {
					c.Fail("many-value:"+name, "%s of %d tags succeeds but %s byte %d is %#02x, expected %#02x", name, n, k, i, p.Tags[k].Data[i], w[i])
				}
			}
			return
		}
		if bad == 0 {
			c.Fail("many-refused:"+name, "%s of %d tags (%v), connection size %d, fails: %v", name, n, mixes[mix], size, err)
		}
		for k, w := range want {
			if ok, i := matches(k, w); !ok && !bytes.Equal(before[k], p.Tags[k].Data) {
				c.Fail("many-dirty:"+name, "failed %s leaves %s byte %d %#02x, neither the old value nor the new", name, k, i, p.Tags[k].Data[i])
			}
		}
	}}
}

type tailUDT struct {
	A int32
	B int16
}
type flagUDT struct {
	A bool
	B [3]int16
	C bool
	D bool
	E float32
}
type byteTailUDT struct {
	A int32
	B int8
}
type longTailUDT struct {
	A int64
	B [2]int8
	C bool
}
type manyFlagsUDT struct {
	A, B, C, D, E, F, G, H, I bool
	X                         int16
}
type timedUDT struct {
	T lgxtypes.TIMER
	N int16
	S lgxtypes.STRING
}
type byteUDT struct {
	B byte
	I int8
	U uint16
	L uint64
	F float64
}

// structCase is a structure value, its controller layout and bytes.
type structCase struct {
	name   string
	udt    *plc.UDT
	handle uint16 // of predefined types
	mk     func(seed int) (any, []byte)
	slice  func(n int) reflect.Value
	// members: fields WriteMulti may write one by one
	noMulti bool
}

func bm(name string, t uint16, size, off int) plc.Member {
	return plc.Member{Name: name, Type: t, Size: size, Off: off, Bit: -1}
}

var timerUDT = &plc.UDT{Name: "TIMER", Template: 0xF83, Handle: 0x0F83, Size: 12, Members: []plc.Member{
	bm("CTL", 0xC4, 4, 0), bm("PRE", 0xC4, 4, 4), bm("ACC", 0xC4, 4, 8),
	{Name: "EN", Type: 0xC1, Size: 1, Off: 3, Bit: 7}, {Name: "TT", Type: 0xC1, Size: 1, Off: 3, Bit: 6}, {Name: "DN", Type: 0xC1, Size: 1, Off: 3, Bit: 5}}}

func structCases() []structCase {
	outer, lay := udtOuterLayout()
	outer.Size = 48
	outer.RealHandle()
	tail := (&plc.UDT{Name: "tailUDT", Template: 0x400, Size: 8, Members: []plc.Member{bm("A", 0xC4, 4, 0), bm("B", 0xC3, 2, 4)}}).RealHandle()
	flag := (&plc.UDT{Name: "flagUDT", Template: 0x401, Size: 16, Members: []plc.Member{
		bm("ZZZZZZZZZZflagUDT0", 0xC2, 1, 0), {Name: "A", Type: 0xC1, Size: 1, Off: 0, Bit: 0},
		{Name: "B", Type: 0xC3, Size: 2, Off: 2, Dim: 3, Bit: -1},
		bm("ZZZZZZZZZZflagUDT2", 0xC2, 1, 8), {Name: "C", Type: 0xC1, Size: 1, Off: 8, Bit: 0}, {Name: "D", Type: 0xC1, Size: 1, Off: 8, Bit: 1},
		bm("E", 0xCA, 4, 12)}}).RealHandle()
	bytesU := (&plc.UDT{Name: "byteUDT", Template: 0x402, Size: 24, Members: []plc.Member{
		bm("B", 0xC2, 1, 0), bm("I", 0xC2, 1, 1), bm("U", 0xC7, 2, 2), bm("L", 0xC9, 8, 8), bm("F", 0xCB, 8, 16)}}).RealHandle()
	byteTail := (&plc.UDT{Name: "byteTailUDT", Template: 0x404, Size: 8, Members: []plc.Member{bm("A", 0xC4, 4, 0), bm("B", 0xC2, 1, 4)}}).RealHandle()
	longTail := (&plc.UDT{Name: "longTailUDT", Template: 0x405, Size: 16, Members: []plc.Member{bm("A", 0xC5, 8, 0),
		{Name: "B", Type: 0xC2, Size: 1, Off: 8, Dim: 2, Bit: -1},
		bm("ZZZZZZZZZZlongTail2", 0xC2, 1, 10), {Name: "C", Type: 0xC1, Size: 1, Off: 10, Bit: 0}}}).RealHandle()
	many := &plc.UDT{Name: "manyFlagsUDT", Template: 0x406, Size: 4, Members: []plc.Member{bm("ZZZZZZZZZZmanyFlags0", 0xC2, 1, 0), bm("ZZZZZZZZZZmanyFlags8", 0xC2, 1, 1), bm("X", 0xC3, 2, 2)}}
	for i, n := range []string{"A", "B", "C", "D", "E", "F", "G", "H", "I"} {
		many.Members = append(many.Members, plc.Member{Name: n, Type: 0xC1, Size: 1, Off: i / 8, Bit: i % 8})
	}
	many.RealHandle()
	counterUDT := &plc.UDT{Name: "COUNTER", Template: 0xF82, Handle: 0x0F82, Size: 12, Members: []plc.Member{
		bm("CTL", 0xC4, 4, 0), bm("PRE", 0xC4, 4, 4), bm("ACC", 0xC4, 4, 8),
		{Name: "CU", Type: 0xC1, Size: 1, Off: 3, Bit: 7}, {Name: "CD", Type: 0xC1, Size: 1, Off: 3, Bit: 6}, {Name: "DN", Type: 0xC1, Size: 1, Off: 3, Bit: 5},
		{Name: "OV", Type: 0xC1, Size: 1, Off: 3, Bit: 4}, {Name: "UN", Type: 0xC1, Size: 1, Off: 3, Bit: 3}}}
	controlUDT := &plc.UDT{Name: "CONTROL", Template: 0xF81, Handle: 0x0F81, Size: 12, Members: []plc.Member{
		bm("CTL", 0xC4, 4, 0), bm("LEN", 0xC4, 4, 4), bm("POS", 0xC4, 4, 8)}}
	for i, n := range []string{"EN", "EU", "DN", "EM", "ER", "UL", "IN", "FD"} {
		controlUDT.Members = append(controlUDT.Members, plc.Member{Name: n, Type: 0xC1, Size: 1, Off: 3, Bit: 7 - i})
	}
	timed := &plc.UDT{Name: "timedUDT", Template: 0x403, Size: 104, Members: []plc.Member{
		{Name: "T", Type: 0x8F83, Size: 12, Off: 0, Bit: -1, UDT: timerUDT}, bm("N", 0xC3, 2, 12),
		{Name: "S", Type: 0x8FCE, Size: 88, Off: 16, Bit: -1, UDT: plc.StringUDT}}}
	timed.RealHandle()

	timer := func(i int) (lgxtypes.TIMER, []byte) {
		t := lgxtypes.TIMER{PRE: int32(i * 1000), ACC: -int32(i), EN: i&1 == 1, TT: i&2 == 2, DN: i&4 == 4}
		b := make([]byte, 12)
		if t.EN {
			b[3] |= 0x80
		}
		if t.TT {
			b[3] |= 0x40
		}
		if t.DN {
			b[3] |= 0x20
		}
		le.PutUint32(b[4:], uint32(t.PRE))
		le.PutUint32(b[8:], uint32(t.ACC))
		return t, b
	}
	str := func(i int) (lgxtypes.STRING, []byte) {
		s := strings.Repeat("ab", i*4)
		v := lgxtypes.STRING{Len: int32(len(s))}
		d := reflect.ValueOf(&v.Data).Elem()
		for j := range s {
			d.Index(j).Set(reflect.ValueOf(s[j]).Convert(d.Type().Elem()))
		}
		return v, plc.StringData(s)
	}
	slice := func(v any) func(int) reflect.Value {
		return func(n int) reflect.Value { return reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(v)), n, n) }
	}
	return []structCase{
		{"nested", outer, 0, func(s int) (any, []byte) { v := mkOuter(s); return v, lay(&v) }, slice(udtOuter{}), false},
		{"inner", outer.Members[1].UDT, 0, func(s int) (any, []byte) {
			v := mkOuter(s)
			return v.In, lay(&v)[4:12]
		}, slice(udtInner{}), false},
		{"short tail", tail, 0, func(s int) (any, []byte) {
			v := tailUDT{int32(s * 77777), int16(-s)}
			return v, append(append(encodes(v.A), encodes(v.B)...), 0, 0)
		}, slice(tailUDT{}), false},
		{"bools around an array", flag, 0, func(s int) (any, []byte) {
			v := flagUDT{s&1 == 1, [3]int16{int16(s), -5, int16(-s)}, s&2 == 2, s&4 == 4, float32(s) / 3}
			b := make([]byte, 16)
			if v.A {
				b[0] = 1
			}
			for i := range v.B {
				le.PutUint16(b[2+2*i:], uint16(v.B[i]))
			}
			if v.C {
				b[8] |= 1
			}
			if v.D {
				b[8] |= 2
			}
			copy(b[12:], encodes(v.E))
			return v, b
		}, slice(flagUDT{}), false},
		{"widths", bytesU, 0, func(s int) (any, []byte) {
			v := byteUDT{byte(s * 40), int8(-s), uint16(s * 9999), uint64(s) << 60, float64(s) / 7}
			b := make([]byte, 24)
			b[0], b[1] = v.B, byte(v.I)
			le.PutUint16(b[2:], v.U)
			le.PutUint64(b[8:], v.L)
			copy(b[16:], encodes(v.F))
			return v, b
		}, slice(byteUDT{}), true},
		{"TIMER", timerUDT, 0, func(s int) (any, []byte) { a, b := timer(s); return a, b }, slice(lgxtypes.TIMER{}), false},
		{"STRING structure", plc.StringUDT, 0, func(s int) (any, []byte) { a, b := str(s); return a, b }, slice(lgxtypes.STRING{}), false},
		{"COUNTER", counterUDT, 0, func(s int) (any, []byte) {
			v := lgxtypes.COUNTER{PRE: int32(s * 1000), ACC: -int32(s), CU: s&1 == 1, CD: s&2 == 2, DN: s&4 == 4, OV: s == 3, UN: s == 5}
			b := make([]byte, 12)
			for i, x := range []bool{v.CU, v.CD, v.DN, v.OV, v.UN} {
				if x {
					b[3] |= 0x80 >> i
				}
			}
			le.PutUint32(b[4:], uint32(v.PRE))
			le.PutUint32(b[8:], uint32(v.ACC))
			return v, b
		}, slice(lgxtypes.COUNTER{}), false},
		{"CONTROL", controlUDT, 0, func(s int) (any, []byte) {
			v := lgxtypes.CONTROL{LEN: int32(s * 1000), POS: -int32(s), EN: s&1 == 1, EU: s&2 == 2, DN: s&4 == 4, EM: s == 3, ER: s == 5, UL: s == 6, IN: s == 1, FD: s == 2}
			b := make([]byte, 12)
			for i, x := range []bool{v.EN, v.EU, v.DN, v.EM, v.ER, v.UL, v.IN, v.FD} {
				if x {
					b[3] |= 0x80 >> i
				}
			}
			le.PutUint32(b[4:], uint32(v.LEN))
			le.PutUint32(b[8:], uint32(v.POS))
			return v, b
		}, slice(lgxtypes.CONTROL{}), false},
		{"one byte tail", byteTail, 0, func(s int) (any, []byte) {
			v := byteTailUDT{int32(s * 77777), int8(-s)}
			return v, append(append(encodes(v.A), byte(v.B)), 0, 0, 0)
		}, slice(byteTailUDT{}), false},
		{"tail after a long", longTail, 0, func(s int) (any, []byte) {
			v := longTailUDT{int64(s) << 59, [2]int8{int8(s), -3}, s&1 == 1}
			b := make([]byte, 16)
			copy(b, encodes(v.A))
			b[8], b[9] = byte(v.B[0]), byte(v.B[1])
			if v.C {
				b[10] = 1
			}
			return v, b
		}, slice(longTailUDT{}), false},
		{"nine bools", many, 0, func(s int) (any, []byte) {
			w := 0x2A5 ^ s*0x91
			v := manyFlagsUDT{w&1 > 0, w&2 > 0, w&4 > 0, w&8 > 0, w&16 > 0, w&32 > 0, w&64 > 0, w&128 > 0, w&256 > 0, int16(s * 999)}
			return v, append(w16(w&0x1FF), encodes(v.X)...)
		}, slice(manyFlagsUDT{}), false},
		{"predefined members", timed, 0, func(s int) (any, []byte) {
			t, tb := timer(s)
			x, xb := str(s)
			v := timedUDT{t, int16(s * 5), x}
			b := append([]byte(nil), tb...)
			b = append(b, encodes(v.N)...)
			b = append(b, 0, 0)
			return v, append(b, xb...)
		}, slice(timedUDT{}), false},
	}
}

func writeStructUnit(ci int) vk.Unit {
	sc := structCases()[ci]
	return vk.Unit{Name: "structure " + sc.name, Run: func(c *vk.C) {
		sc := structCases()[ci]
		seed := c.Choose(8, "value")
		op := writeOps[c.Choose(len(writeOps), "op")]
		form := c.Choose(5, "form")
		size := []uint16{0, 500, 100}[c.Choose(3, "connection size")]
		p := plc.New()
		sz := sc.udt.Size
		one := p.AddTag(&plc.Tag{Name: "One", UDT: sc.udt})
		arr := p.AddTag(&plc.Tag{Name: "Arr", UDT: sc.udt, Dims: []int{5}})
		oth := p.AddTag(&plc.Tag{Name: "Oneness", UDT: sc.udt})
		for _, t := range []*plc.Tag{one, arr, oth} {
			for i := range t.Data {
				t.Data[i] = 0
			}
			for e := 0; e*sz < len(t.Data); e++ {
				_, b := sc.mk((seed + 3 + e) % 8)
				copy(t.Data[e*sz:], b)
			}
		}
		v, b := sc.mk(seed)
		r := newRig(c, p)
		if size != 0 {
			r.cl.ConnectionSize = size
		}
		r.connect(c)
		before := snap(p)
		var err error
		tag, mem, off := "One", "one", 0
		may := false // an error is acceptable
		switch form {
		case 0:
			err = op.run(r.cl, tag, v)
		case 1:
			tag, mem, off = "Arr[3]", "arr", 3*sz
			err = op.run(r.cl, tag, v)
		case 2, 3: // slices of structures
			n := form
			tag, mem, off = "Arr[1]", "arr", sz
			s := sc.slice(n)
			b = nil
			for i := 0; i < n; i++ {
				x, xb := sc.mk((seed + i) % 8)
				s.Index(i).Set(reflect.ValueOf(x))
				b = append(b, xb...)
			}
			err = op.run(r.cl, tag, s.Interface())
		case 4: // of another type name
			one.UDT.Handle ^= 0x55
			err = op.run(r.cl, tag, v)
			may = true
			if err == nil && op.name == "Write" {
				c.Fail("struct-handle", "Write of %s to a structure of another type succeeds", sc.name)
			}
		}
		c.Trans(1)
		c.Validated()
		c.State(sc.name, seed, form, size)
		c.Distinct(sc.name, seed, form, size, op.name)
		r.problems(c, op.name+" of a structure")
		if len(b)+40 > int(size) && size != 0 || sc.noMulti && op.name == "WriteMulti" {
			may = true
		}
		if err != nil {
			if d := before.diff(p); d != "" && op.name != "WriteMulti" {
				c.Fail("struct-dirty:"+op.name, "%s of a %s structure fails with %v but %s", op.name, sc.name, err, d)
			}
			if !may {
				c.Fail("struct-refused:"+op.name+":"+sc.name, "%s(%s, %+v) form %d fails: %v", op.name, tag, v, form, err)
			}
			return
		}
		copy(before[mem][off:], b)
		if d := before.diff(p); d != "" {
			c.Fail("struct-value:"+op.name+":"+sc.name, "%s(%s, %+v) form %d succeeds but %s", op.name, tag, v, form, d)
		}
	}}
}

type namedInt int32

type multiOdd struct {
	A int32 `gologix:"A"`
	B int32
	c int32
	multiEmbedded
	P *int32 `gologix:"P"`
}
type multiEmbedded struct {
	E int16 `gologix:"E"`
}
type multiHidden struct {
	A int32 `gologix:"A"`
	h int32 `gologix:"H"`
}

func oddPLC() *plc.PLC {
	p := plc.New()
	for _, n := range []string{"A", "B", "c", "P", "H", "F0"} {
		t := p.AddTag(&plc.Tag{Name: n, Type: 0xC4, Dims: nil})
		le.PutUint32(t.Data, 0x01010101)
	}
	p.AddTag(&plc.Tag{Name: "E", Type: 0xC3, Data: []byte{9, 9}})
	p.AddTag(&plc.Tag{Name: "Arr", Type: 0xC4, Dims: []int{6}})
	p.AddTag(&plc.Tag{Name: "Bits", Type: 0xD3, Dims: []int{2}})
	return p
}

func writeOddUnit() vk.Unit {
	i32 := int32(0x0A0B0C0D)
	type odd struct {
		v any
		// want: bytes of Arr from element 1 when it may succeed
		want []byte
	}
	odds := []odd{
		{nil, nil}, {int(5), nil}, {uint(5), nil}, {[]int{1, 2}, nil}, {map[string]int{"a": 1}, nil}, {&i32, encodes(i32)},
		{namedInt(7), encodes(int32(7))}, {[]namedInt{7, 8}, append(encodes(int32(7)), encodes(int32(8))...)}, {func() {}, nil},
		{[]bool{true, false}, nil}, {make([]bool, 32), nil}, {[3]int32{1, 2, 3}, append(append(encodes(int32(1)), encodes(int32(2))...), encodes(int32(3))...)},
		{[]any{int32(1), int32(2)}, append(encodes(int32(1)), encodes(int32(2))...)}, {[]any{}, []byte{}}, {[]int32(nil), []byte{}}, {struct{}{}, []byte{}},
		{complex64(1), nil}, {make(chan int), nil}, {[]*int32{&i32}, encodes(i32)}, {&[]int32{3, 4}, append(encodes(int32(3)), encodes(int32(4))...)},
		{error(nil), nil}, {[][]int32{{1}, {2}}, nil}, {struct{ X any }{1}, nil}, {struct{ S string }{"x"}, nil}, {struct{ P *int32 }{&i32}, nil},
		{struct{ a int32 }{1}, nil}, {[0]int32{}, []byte{}}, {struct{ A [0]udtInner }{}, []byte{}}, {&struct{ A int32 }{1}, nil}, {(*int32)(nil), nil},
		{[]string(nil), []byte{}}, {new(string), nil},
	}
	return vk.Unit{Name: "unusual values", Run: func(c *vk.C) {
		o := odds[c.Choose(len(odds), "value")]
		op := c.Choose(3, "op")
		p := oddPLC()
		r := newRig(c, p)
		r.connect(c)
		before := snap(p)
		var err error
		name := ""
		switch op {
		case 0:
			name = "Write"
			err = r.cl.Write("Arr[1]", o.v)
		case 1:
			name = "WriteMap"
			err = r.cl.WriteMap(map[string]any{"Arr[1]": o.v, "A": int32(5)})
		case 2:
			name = "WriteMulti"
			if o.v == nil {
				err = r.cl.WriteMulti(o.v)
			} else {
				err = r.cl.WriteMulti(taggedStruct([]string{"Arr[1]", "A"}, []any{o.v, int32(5)}))
			}
		}
		c.Trans(1)
		c.Distinct(fmt.Sprintf("%T", o.v), op)
		r.problems(c, fmt.Sprintf("%s of a %T", name, o.v))
		if err == nil {
			if o.want == nil {
				c.Fail("odd-silent:"+name, "%s of the %T %v to a DINT array succeeds", name, o.v, o.v)
			}
			copy(before["arr"][4:], o.want)
			if op > 0 {
				copy(before["a"], encodes(int32(5)))
			}
			if d := before.diff(p); d != "" {
				c.Fail("odd-value:"+name, "%s of the %T %v succeeds but %s", name, o.v, o.v, d)
			}
			return
		}
		if op > 0 {
			copy(before["a"], p.Tags["a"].Data)
		}
		if d := before.diff(p); d != "" {
			c.Fail("odd-dirty:"+name, "%s of the %T %v fails with %v but %s", name, o.v, o.v, err, d)
		}
	}}
}

func writeMultiFieldsUnit() vk.Unit {
	return vk.Unit{Name: "WriteMulti fields", Run: func(c *vk.C) {
		p := oddPLC()
		r := newRig(c, p)
		r.connect(c)
		before := snap(p)
		x := int32(77)
		var err error
		form := c.Choose(6, "form")
		must := false
		switch form {
		case 0:
			err = r.cl.WriteMulti(multiOdd{A: 5, B: 6, c: 7, multiEmbedded: multiEmbedded{E: 8}, P: &x})
			must = true
		case 1:
			err = r.cl.WriteMulti(multiOdd{A: 5, B: 6, c: 7, multiEmbedded: multiEmbedded{E: 8}})
		case 2:
			err = r.cl.WriteMulti(multiHidden{A: 5, h: 9})
		case 3:
			v := multiOdd{A: 5, multiEmbedded: multiEmbedded{E: 8}, P: &x}
			err = r.cl.WriteMulti(&v)
		case 4:
			err = r.cl.WriteMulti(map[string]any{"A": int32(5)})
		case 5:
			err = r.cl.WriteMulti(taggedStruct([]string{"Arr[1]", "Arr[4]"}, []any{[3]int32{11, 12, 13}, []int32{14, 15}}))
			must = true
		}
		c.Trans(1)
		c.Distinct(form)
		r.problems(c, "WriteMulti")
		if must && err != nil {
			c.Fail("fields-refused", "WriteMulti form %d fails: %v", form, err)
		}
		if err != nil {
			return
		}
		switch form {
		case 0, 3:
			copy(before["a"], encodes(int32(5)))
			copy(before["e"], encodes(int16(8)))
			copy(before["p"], encodes(x))
		case 1:
			c.Fail("fields-nil", "WriteMulti with a nil pointer field succeeds")
		case 2:
			copy(before["a"], encodes(int32(5)))
			copy(before["h"], encodes(int32(9)))
		case 4:
			copy(before["a"], encodes(int32(5)))
		case 5:
			for i := 0; i < 5; i++ {
				copy(before["arr"][4*(1+i):], encodes(int32(11+i)))
			}
		}
		if d := before.diff(p); d != "" {
			c.Fail("fields-value", "WriteMulti form %d succeeds but %s", form, d)
		}
	}}
}

func writeBitUnit(k *kind) vk.Unit {
	return vk.Unit{Name: "bit " + k.name, Run: func(c *vk.C) {
		bit := c.Choose(66, "bit")
		g := kinds[c.Choose(len(kinds), "go type")]
		op := writeOps[c.Choose(len(writeOps), "op")]
		v := g.val(g.pats[len(g.pats)-1])
		if _, ok := v.(bool); ok {
			v = c.Bool("bool")
		}
		if g != k && g.name != "BOOL" && bit > 3 {
			c.Stop()
		}
		p := writePLC([]*kind{k})
		form := c.Choose(2, "form")
		tag, mem, off := writeTargets[form].f(k)
		mem = strings.ToLower(mem)
		r := newRig(c, p)
		r.connect(c)
		before := snap(p)
		err := op.run(r.cl, fmt.Sprintf("%s.%d", tag, bit), v)
		c.Trans(1)
		c.Distinct(k.name, g.name, bit, op.name, v, form)
		r.problems(c, op.name+" of a bit")
		if err == nil {
			b, ok := v.(bool)
			if !ok {
				c.Fail("bit-word:"+op.name, "%s(%s.%d, %T %v) to a %s succeeds", op.name, tag, bit, v, v, k.name)
			}
			if bit >= k.size*8 || k.name == "BOOL" && bit > 0 {
				c.Fail("bit-range:"+op.name, "%s of bit %d of a %s succeeds", op.name, bit, k.name)
			}
			before[mem][off+bit/8] &^= 1 << (bit % 8)
			if b {
				before[mem][off+bit/8] |= 1 << (bit % 8)
			}
		}
		if d := before.diff(p); d != "" {
			c.Fail("bit-value:"+op.name, "%s(%s.%d, %v) gives %v, and %s", op.name, tag, bit, v, err, d)
		}
	}}
}

func writeOfflineUnit() vk.Unit {
	return vk.Unit{Name: "not connected", Run: func(c *vk.C) {
		auto := c.Bool("auto connect")
		dead := c.Bool("controller gone")
		op := writeOps[c.Choose(len(writeOps), "op")]
		p := oddPLC()
		r := newRig(c, p)
		r.cl.AutoConnect = auto
		if dead {
			r.setup = func(k *plc.Conn) { k.EOF = true; k.OnFrame = func(int, []byte, []byte) []byte { return nil } }
		}
		before := snap(p)
		err := op.run(r.cl, "A", int32(9))
		c.Trans(1)
		c.Distinct(auto, dead, op.name)
		if (err == nil) != (auto && !dead) {
			c.Fail("offline:"+op.name, "%s on a client that is not connected (AutoConnect %v, controller gone %v) gives %v", op.name, auto, dead, err)
		}
		if err == nil {
			copy(before["a"], encodes(int32(9)))
		}
		if d := before.diff(p); d != "" {
			c.Fail("offline-value", "%s: %v, %s", op.name, err, d)
		}
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "C06", Level: "model_checking",
		Rule: "a case is one write (operation, value and its type, target form, lengths, connection size, what else is in the request) executed against the reference controller, whose whole memory is compared with the expected one afterwards; distinct by those parameters; non-trivial when the client got as far as the request or its refusal",
		Units: func(tier string) []vk.Unit {
			us := []vk.Unit{writeMapUnit(tier), writeStringUnit(), writeOddUnit(), writeMultiFieldsUnit(), writeOfflineUnit()}
			for i := range structCases() {
				us = append(us, writeStructUnit(i))
			}
			for _, k := range kinds {
				us = append(us, writeScalarUnit(k, tier), writeSliceUnit(k, tier))
				if k.name != "STRING" {
					us = append(us, writeBitUnit(k))
				}
			}
			return us
		},
		Bounds: map[string]any{"types": "12 Go types x 16 controller types, structures, predefined types", "maps": "up to 400 (thorough 700) tags, connection sizes 4000/500/300, six obstacles at three positions"},
		Assumptions: []string{
			"the reference controller (harness/plc) checks write requests as 1756-PM020 describes: type code or structure handle, element count, exact data length",
			"what follows the last character of a STRING is not part of its value",
			"structures are aligned to 4 bytes as controllers do; the checked structures have a member of at least that alignment",
		},
		QuickBudget: 240 * time.Second, ThoroughBudget: 800 * time.Second,
	})
}
