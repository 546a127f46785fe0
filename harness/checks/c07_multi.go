package checks

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"verifharness/plc"
	"verifharness/vk"
)

// C07: a multi-tag read pairs every value with its own tag.

// cell is one thing that can be asked for in a multi-tag read.
type cell struct {
	name  string
	tag   string
	zero  any // example value / zero of the field
	elems int
	want  any // for slices: []any
}

// cellPLC builds a controller with one tag per cell kind and the cells.
func cellPLC(seed int) (*plc.PLC, []cell) {
	p := plc.New()
	var cs []cell
	for _, k := range kinds {
		t := p.AddTag(k.tag("x" + k.name))
		k.fill(t, 3+seed, 1)
		cs = append(cs, cell{k.name, "x" + k.name, k.zero, 1, k.val(t.Data)})
	}
	arr := func(kn string, n int) {
		k := kindByName(kn)
		t := p.AddTag(k.tag(fmt.Sprintf("a%d%s", n, kn), n+2))
		k.fill(t, 5+seed, 3)
		var w []any
		for i := 0; i < n; i++ {
			w = append(w, k.val(t.Data[(1+i)*k.size:]))
		}
		cs = append(cs, cell{fmt.Sprintf("%d %s", n, kn), t.Name + "[1]", k.newSlice(n), n, w})
	}
	arr("DINT", 3)
	arr("SINT", 2)
	arr("STRING", 2)
	arr("REAL", 1)
	arr("STRING", 1)
	u, lay := udtOuterLayout()
	u.Size = 48
	v := mkOuter(9 + seed)
	t := p.AddTag(&plc.Tag{Name: "rec", UDT: u, Dims: []int{2}})
	copy(t.Data[48:], lay(&v))
	cs = append(cs, cell{"structure", "rec[1]", udtOuter{}, 1, v},
		cell{"member", "rec[1].Y", int32(0), 1, v.Y},
		cell{"nested member", "rec[1].S[1].A", int16(0), 1, v.S[1].A},
		cell{"inner structure", "rec[1].In", udtInner{}, 1, v.In})
	d := p.AddTag(&plc.Tag{Name: "bits", Type: 0xC4, Data: le.AppendUint32(nil, 0xA5C30F12^uint32(seed))})
	cs = append(cs, cell{"bit", "bits.9", false, 1, (le.Uint32(d.Data)>>9)&1 == 1},
		cell{"bit31", "bits.31", false, 1, true})
	return p, cs
}

func cellGot(cl *cell, v any) (any, bool) {
	if l, ok := cl.want.([]any); ok {
		rv := reflect.ValueOf(v)
		if !rv.IsValid() || rv.Kind() != reflect.Slice {
			return v, false
		}
		var g []any
		for i := 0; i < rv.Len(); i++ {
			g = append(g, rv.Index(i).Interface())
		}
		if len(g) != len(l) {
			return g, false
		}
		for i := range g {
			if !same(g[i], l[i]) {
				return g, false
			}
		}
		return g, true
	}
	return v, same(v, cl.want)
}

// multiOps are the ways to ask for a list of cells; each returns the values.
var multiOps = []struct {
	name string
	run  func(c *vk.C, r *rig, cs []cell) ([]any, error)
}{
	{"ReadList", func(c *vk.C, r *rig, cs []cell) ([]any, error) {
		var names []string
		var types []any
		var n []int
		for _, x := range cs {
			names = append(names, x.tag)
			types = append(types, x.zero)
			n = append(n, x.elems)
		}
		v, err := r.cl.ReadList(names, types, n)
		if err == nil && len(v) != len(cs) {
			c.Fail("count:ReadList", "ReadList of %d tags gives %d values", len(cs), len(v))
		}
		return v, err
	}},
	{"ReadMap", func(c *vk.C, r *rig, cs []cell) ([]any, error) { return readMapOp(r, cs, r.cl.ReadMap) }},
	{"ReadMulti(map)", func(c *vk.C, r *rig, cs []cell) ([]any, error) {
		return readMapOp(r, cs, func(m map[string]any) error { return r.cl.ReadMulti(m) })
	}},
	{"ReadMulti(struct)", func(c *vk.C, r *rig, cs []cell) ([]any, error) { return readStructOp(c, r, cs, false) }},
	{"ReadMulti(embedded)", func(c *vk.C, r *rig, cs []cell) ([]any, error) { return readStructOp(c, r, cs, true) }},
}

func readMapOp(r *rig, cs []cell, f func(map[string]any) error) ([]any, error) {
	m := map[string]any{}
	for _, x := range cs {
		m[x.tag] = x.zero
	}
	n := len(m)
	err := f(m)
	if err == nil && len(m) != n {
		err = fmt.Errorf("the map grew from %d to %d entries", n, len(m))
	}
	var v []any
	for _, x := range cs {
		v = append(v, m[x.tag])
	}
	return v, err
}

type embeddedRead struct {
	E1 int32 `gologix:"xDINT"`
	E2 int16 `gologix:"xINT"`
}

func readStructOp(c *vk.C, r *rig, cs []cell, embed bool) ([]any, error) {
	var fs []reflect.StructField
	if embed {
		fs = append(fs, reflect.StructField{Name: "EmbeddedRead", Anonymous: true, Type: reflect.TypeOf(embeddedRead{})})
	}
	for i, x := range cs {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("U%d", i), Type: reflect.TypeOf(int32(0))})
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(x.zero), Tag: reflect.StructTag(fmt.Sprintf(`json:"q" gologix:"%s"`, x.tag))})
	}
	st := reflect.New(reflect.StructOf(fs))
	for i, x := range cs {
		if v := reflect.ValueOf(x.zero); v.Kind() == reflect.Slice {
			st.Elem().FieldByName(fmt.Sprintf("F%d", i)).Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		}
		st.Elem().FieldByName(fmt.Sprintf("U%d", i)).SetInt(int64(1000 + i))
	}
	err := r.cl.ReadMulti(st.Interface())
	var v []any
	for i := range cs {
		v = append(v, st.Elem().FieldByName(fmt.Sprintf("F%d", i)).Interface())
		if u := st.Elem().FieldByName(fmt.Sprintf("U%d", i)).Int(); u != int64(1000+i) {
			c.Fail("untagged", "ReadMulti changed the untagged field U%d to %d", i, u)
		}
	}
	if embed && err == nil {
		e := st.Elem().Field(0).Interface().(embeddedRead)
		k := kindByName("DINT")
		if want := k.val(r.p.Tags["xdint"].Data); e.E1 != want {
			c.Fail("embedded", "the embedded field of tag xDINT reads %d, want %d", e.E1, want)
		}
	}
	return v, err
}

func checkCells(c *vk.C, op string, cs []cell, got []any, err error) {
	var names []string
	for _, x := range cs {
		names = append(names, x.name)
	}
	desc := strings.Join(names, ", ")
	if len(cs) > 8 {
		desc = fmt.Sprintf("%s, ... (%d tags)", strings.Join(names[:8], ", "), len(cs))
	}
	if err != nil {
		c.Fail("error:"+op, "%s of [%s] fails: %v", op, desc, err)
	}
	for i := range cs {
		if g, ok := cellGot(&cs[i], got[i]); !ok {
			c.Fail("value:"+op+":"+cs[i].name, "%s of [%s]: value %d, of tag %s, is %v (%T), want %v (%T)", op, desc, i, cs[i].tag, g, got[i], cs[i].want, cs[i].want)
		}
	}
}

func listsUnit(first int, depth int) vk.Unit {
	_, cs0 := cellPLC(0)
	return vk.Unit{Name: "lists starting with " + cs0[first].name, Run: func(c *vk.C) {
		p, cs := cellPLC(1)
		list := []cell{cs[first]}
		for i := 1; i < depth; i++ {
			k := c.Choose(len(cs)+1, "tag")
			if k == len(cs) {
				break
			}
			list = append(list, cs[k])
		}
		op := multiOps[c.Choose(len(multiOps), "operation")]
		listed := c.Bool("listed")
		r := newRig(c, p)
		if listed {
			p.Firmware = 32
			n := uint32(20)
			for _, k := range kinds {
				p.Tags[strings.ToLower("x"+k.name)].Instance = n
				n += 100
			}
		}
		r.connect(c)
		if listed {
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("listall", "ListAllTags: %v", err)
			}
		}
		got, err := op.run(c, r, list)
		c.Trans(1)
		c.Validated()
		key := op.name
		for _, x := range list {
			key += "|" + x.name
		}
		c.Distinct(key, listed)
		c.State(key)
		r.problems(c, op.name)
		checkCells(c, op.name, list, got, err)
		// The same list again must give the same answer.
		got, err = op.run(c, r, list)
		checkCells(c, op.name+" again", list, got, err)
	}}
}

// sizesUnit: long lists around every split position.
func sizesUnit(pat string, of []string, tier string) vk.Unit {
	return vk.Unit{Name: "sizes " + pat, Run: func(c *vk.C) {
		lo, hi, step := 128, 330, 1
		if tier == "thorough" {
			hi = 700
		}
		size := lo + step*c.Choose((hi-lo)/step, "connection size")
		nameLen := []int{3, 4, 7, 12, 25, 40}[c.Choose(6, "name length")]
		op := multiOps[c.Choose(4, "operation")]
		n := 45
		p := plc.New()
		var list []cell
		for i := 0; i < n; i++ {
			spec := of[i%len(of)]
			cnt := 0
			name := strings.Repeat("t", nameLen-3) + fmt.Sprintf("q%02d", i)
			if j := strings.IndexByte(spec, '*'); j > 0 {
				fmt.Sscan(spec[:j], &cnt)
				spec = spec[j+1:]
			}
			bit := strings.HasSuffix(spec, ".bit")
			unknown := strings.HasSuffix(spec, ".any")
			spec = strings.TrimSuffix(strings.TrimSuffix(spec, ".bit"), ".any")
			if spec == "UDT" {
				u, lay := udtOuterLayout()
				u.Size = 48
				v := mkOuter(i)
				t := p.AddTag(&plc.Tag{Name: name, UDT: u})
				copy(t.Data, lay(&v))
				list = append(list, cell{spec, name, udtOuter{}, 1, v})
				continue
			}
			k := kindByName(spec)
			switch {
			case cnt > 0:
				t := p.AddTag(k.tag(name, cnt))
				k.fill(t, i, 1)
				var w []any
				for e := 0; e < cnt; e++ {
					w = append(w, k.val(t.Data[e*k.size:]))
				}
				list = append(list, cell{spec, name, k.newSlice(cnt), cnt, w})
			case bit:
				t := p.AddTag(k.tag(name))
				k.fill(t, i*3, 1)
				list = append(list, cell{spec, name + ".6", false, 1, t.Data[0]>>6&1 == 1})
			case unknown:
				t := p.AddTag(k.tag(name))
				k.fill(t, i*3, 1)
				if op.name == "ReadMulti(struct)" {
					list = append(list, cell{spec, name, k.zero, 1, k.val(t.Data)})
				} else {
					list = append(list, cell{spec, name, nil, 1, k.val(t.Data)})
				}
			default:
				t := p.AddTag(k.tag(name))
				k.fill(t, i*3, 1)
				list = append(list, cell{spec, name, k.zero, 1, k.val(t.Data)})
			}
		}
		r := newRig(c, p)
		r.cl.ConnectionSize = uint16(size)
		p.AllowLarge = size > 500
		r.connect(c)
		if got := r.conn.S.Conns[0].Size; got != size {
			c.Fail("connection-size", "asked for connections of %d bytes, the client opened one of %d", size, got)
		}
		f0 := p.Frames
		got, err := op.run(c, r, list)
		c.Trans(p.Frames - f0)
		c.Validated()
		c.Distinct(pat, size, nameLen, op.name)
		c.State(pat, size, nameLen)
		r.problems(c, fmt.Sprintf("%s of %d tags of %s with names of %d on a connection of %d", op.name, n, pat, nameLen, size))
		checkCells(c, fmt.Sprintf("%s (size)", op.name), list, got, err)
	}}
}

// longUnit: arrays of many elements among other tags.
func longUnit() vk.Unit {
	return vk.Unit{Name: "long arrays", Run: func(c *vk.C) {
		k := kindByName(vk.Pick(c, []string{"SINT", "INT", "DINT", "BYTE", "REAL"}, "type"))
		n := vk.Pick(c, []int{127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 600, 767, 768, 900, 1024, 1800, 3500}, "elements")
		pos := c.Choose(3, "position")
		op := multiOps[c.Choose(len(multiOps), "operation")]
		first := vk.Pick(c, []int{0, 1, 255, 256}, "first")
		if n*k.size > 3700 {
			c.Stop()
		}
		p, cs := cellPLC(1)
		t := p.AddTag(k.tag("long", first+n+3))
		k.fill(t, 3, 7)
		var w []any
		for i := 0; i < n; i++ {
			w = append(w, k.val(t.Data[(first+i)*k.size:]))
		}
		name := "long"
		if first > 0 {
			name = fmt.Sprintf("long[%d]", first)
		}
		list := []cell{cs[3], cs[5]}
		list = append(list[:pos:pos], append([]cell{{fmt.Sprintf("%d %s", n, k.name), name, k.newSlice(n), n, w}}, list[pos:]...)...)
		r := newRig(c, p)
		r.connect(c)
		got, err := op.run(c, r, list)
		c.Trans(1)
		c.Validated()
		c.Distinct(k.name, n, pos, first, op.name)
		c.State(k.name, n, first)
		r.problems(c, op.name)
		checkCells(c, op.name+" (long)", list, got, err)
	}}
}

func mismatchUnit() vk.Unit {
	return vk.Unit{Name: "mismatched types", Run: func(c *vk.C) {
		p, cs := cellPLC(1)
		x := cs[c.Choose(len(cs), "tag")]
		y := cs[c.Choose(len(cs), "as")]
		op := multiOps[c.Choose(4, "operation")]
		asked := x
		asked.zero, asked.elems = y.zero, y.elems
		pos := c.Choose(2, "position")
		guard := cell{"DINT", "xDINT", int32(0), 1, kindByName("DINT").val(p.Tags["xdint"].Data)}
		list := []cell{asked, guard}
		if pos == 1 {
			list = []cell{guard, asked}
		}
		r := newRig(c, p)
		r.connect(c)
		got, err := op.run(c, r, list)
		c.Trans(1)
		c.Distinct(x.name, y.name, op.name, pos)
		r.problems(c, op.name)
		if err != nil {
			return
		}
		// It succeeded: what it returned must be what the controller holds at
		// that place, in the controller's type.
		g := got[pos]
		if asked.tag == guard.tag && op.name == "ReadMap" {
			return
		}
		if _, ok := cellGot(&x, g); ok {
			return
		}
		if _, raw := g.([]byte); raw && (x.name == "structure" || x.name == "inner structure") {
			return
		}
		if reflect.TypeOf(y.zero).Kind() == reflect.Struct && (strings.Contains(x.name, "STRING") || strings.Contains(x.name, "structure")) {
			return // which Go structure fits is for the caller to know
		}
		if strings.Contains(y.name, "STRING") && strings.Contains(x.name, "structure") {
			return // user defined string types are structures too
		}
		data := asElems(g)
		if len(data) == 1 && same(data[0], x.want) {
			return
		}
		ok := len(data) == y.elems
		if k := kindOfCell(x.name); k != nil && ok {
			name, _, _ := strings.Cut(x.tag, "[")
			mem := p.Tags[strings.ToLower(name)].Data
			if name != x.tag {
				mem = mem[k.size:]
			}
			for i := range data {
				ok = ok && same(data[i], k.val(mem[i*k.size:]))
			}
		} else {
			ok = false
		}
		if !ok {
			c.Fail("mismatch:"+op.name+":"+x.name+" as "+y.name, "%s of tag %s (%s, holding %v) as %T gives %v (%T) without an error", op.name, x.tag, x.name, x.want, y.zero, g, g)
		}
	}}
}

func kindOfCell(name string) *kind {
	if i := strings.IndexByte(name, ' '); i > 0 {
		name = name[i+1:]
	}
	for _, k := range kinds {
		if k.name == name {
			return k
		}
	}
	return nil
}

func asElems(v any) []any {
	if l, ok := v.([]any); ok {
		return l
	}
	rv := reflect.ValueOf(v)
	if rv.IsValid() && rv.Kind() == reflect.Slice {
		return elems(v)
	}
	return []any{v}
}

func c07Units(tier string) []vk.Unit {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	_, cs := cellPLC(0)
	var us []vk.Unit
	for i := range cs {
		us = append(us, listsUnit(i, depth))
	}
	for _, pat := range []string{"DINT", "SINT", "LINT", "BOOL", "STRING", "UDT", "DINT.bit", "LINT.bit", "DINT.any", "LINT.any", "STRING.any x", "3*DINT", "20*SINT", "1*REAL", "1*STRING", "DINT STRING", "SINT 5*LINT BOOL", "UDT BOOL DINT.bit", "STRING SINT 7*INT UDT LINT.any"} {
		if strings.HasSuffix(pat, " x") {
			continue
		}
		us = append(us, sizesUnit(pat, strings.Fields(pat), tier))
	}
	us = append(us, longUnit(), mismatchUnit(), vk.Unit{Name: "empty", Run: func(c *vk.C) {
		op := multiOps[c.Choose(4, "operation")]
		p, cs := cellPLC(0)
		r := newRig(c, p)
		r.connect(c)
		_, _ = op.run(c, r, nil)
		got, err := op.run(c, r, cs[:3])
		c.Distinct(op.name)
		checkCells(c, op.name+" after empty", cs[:3], got, err)
	}})
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "C07", Level: "model_checking",
		Rule:        "every list of up to n cells over 27 kinds (every type, arrays, one-element arrays, strings, structures, members, bits) through ReadList, ReadMap, ReadMulti on a map, a struct and a struct with an embedded struct, tags listed or not; lists of 45 tags of 18 type patterns with six name lengths at every connection size of a range (every split position); every tag asked for as every type; a case is one list and operation; request sizes are judged by the reference controller",
		Units:       c07Units,
		Bounds:      map[string]any{"quick": "lists of 3, connection sizes 128..329", "thorough": "lists of 4, connection sizes 128..699"},
		Assumptions: []string{"slices asked for in a map or list may come back as []any, as the package's tests expect"},
		QuickBudget: 250 * time.Second, ThoroughBudget: 840 * time.Second,
	})
}
