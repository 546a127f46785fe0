package checks

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/danomagnum/gologix"

	"verifharness/plc"
	"verifharness/vk"
)

// C12: tag groups read every definition from the tag its template names.

// substitute replaces every {n} of the template by the nth argument, once.
func substitute(tpl string, args []any) string {
	var sb strings.Builder
	for i := 0; i < len(tpl); {
		if tpl[i] == '{' {
			if j := strings.IndexByte(tpl[i:], '}'); j > 1 {
				d := tpl[i+1 : i+j]
				if n, err := strconv.Atoi(d); err == nil && n >= 0 && strconv.Itoa(n) == d && n < len(args) {
					sb.WriteString(fmt.Sprint(args[n]))
					i += j + 1
					continue
				}
			}
		}
		sb.WriteByte(tpl[i])
		i++
	}
	return sb.String()
}

var tplTokens = []string{"{0}", "{1}", "{2}", "{10}", "{", "}", "{{", "0", "{00}", "{a}", "x", "{-1}"}
var tplArgs = []any{"y", "{0}", "{1}", "", 7, uint8(200), "}", "{", "1}", "{2}", "{10}"}

// templateUnit substitutes every template with every argument list.
func templateUnit(toks, maxArgs int) []vk.Unit {
	return vk.Shard(vk.Unit{Name: fmt.Sprintf("templates of %d tokens, %d arguments", toks, maxArgs), Run: func(c *vk.C) {
		tpl := "t"
		for i := 0; i < toks; i++ {
			tpl += tplTokens[c.Choose(len(tplTokens), "token")]
		}
		p := plc.New()
		r := newRig(c, p)
		r.connect(c)
		// all argument lists on one connection
		var lists [][]any
		var gen func(l []any)
		gen = func(l []any) {
			lists = append(lists, append([]any(nil), l...))
			if len(l) < maxArgs {
				for _, a := range tplArgs {
					gen(append(l, a))
				}
			}
		}
		gen(nil)
		long := make([]any, 11)
		for i := range long {
			long[i] = fmt.Sprintf("L%d", i)
		}
		lists = append(lists, long)
		p.MaxFrames = 10 + 8*len(lists)
		for li, args := range lists {
			want := substitute(tpl, args)
			t := p.AddTag(&plc.Tag{Name: want, Type: 0xC4})
			le.PutUint32(t.Data, uint32(li*77+1))
			// what a wrong substitution may name exists as well, with other values
			desc := fmt.Sprintf("template %q with %q", tpl, args)
			g := gologix.NewTagGroup(gologix.TagDef{Name: tpl, Type: gologix.CIPTypeDINT})
			res, err := r.cl.ReadTagGroup(g, args...)
			c.Eval(1)
			c.Distinct(tpl, fmt.Sprint(args))
			if err != nil {
				c.Fail("read", "%s, naming %q: %v; the controller was asked for %s", desc, want, err, lastPaths(p))
			}
			if v, err := res.Int32(want); err != nil || v != int32(li*77+1) || len(res.Raw()) != 1 {
				c.Fail("name", "%s, naming %q, gives %v (%v)", desc, want, res.Raw(), err)
			}
			if d := g.Defs(); d[0].Name != tpl {
				c.Fail("changed", "%s: the template is now %q", desc, d[0].Name)
			}
			p.Tags = map[string]*plc.Tag{}
			p.Reqs = p.Reqs[:0]
		}
		c.Trans(len(lists))
		c.State(tpl)
		c.Validated()
		r.problems(c, tpl)
	}}, 16, 2)
}

func lastPaths(p *plc.PLC) string {
	var r []string
	for _, q := range p.Reqs {
		for _, m := range append([]plc.Req{q}, q.Multi...) {
			if segs, err := plc.ParseEPath(m.Path); err == nil {
				r = append(r, plc.SegString(segs))
			}
		}
	}
	if len(r) > 2 {
		r = r[len(r)-2:]
	}
	return strings.Join(r, " ")
}

// structFieldUnit substitutes the arguments of tagged structs and buffers.
func otherTemplateUnit() vk.Unit {
	return vk.Unit{Name: "templates elsewhere", Run: func(c *vk.C) {
		way := c.Choose(3, "way")
		a0 := tplArgs[c.Choose(len(tplArgs), "first")]
		a1 := tplArgs[c.Choose(len(tplArgs), "second")]
		tpl := "T{1}u{0}{1}"
		want := substitute(tpl, []any{a0, a1})
		p := plc.New()
		t := p.AddTag(&plc.Tag{Name: want, Type: 0xC4})
		le.PutUint32(t.Data, 0x1234567)
		r := newRig(c, p)
		r.connect(c)
		c.Distinct(way, a0, a1)
		c.State(way, a0, a1)
		c.Trans(1)
		var got int32
		var err error
		switch way {
		case 0:
			v := struct {
				V int32 `gologix:"T{1}u{0}{1}"`
			}{}
			err = r.cl.ReadMulti(&v, a0, a1)
			got = v.V
		case 1, 2:
			b, e := r.cl.NewDataTableBuffer()
			if e != nil {
				c.Fail("new", "%v", e)
			}
			v := struct {
				V int32 `gologix:"T{1}u{0}{1}"`
			}{}
			if way == 1 {
				err = b.AddTaggedStruct(&v, a0, a1)
			} else {
				err = b.AddTagGroup(gologix.NewTagGroup(gologix.TagDef{Name: tpl, Type: gologix.CIPTypeDINT}), a0, a1)
			}
			if err == nil {
				var res *gologix.TagGroupResult
				res, err = b.ReadAllTyped()
				if err == nil {
					got, err = res.Int32(want)
				}
			}
		}
		if err != nil || got != 0x1234567 {
			c.Fail("other", "way %d: template %q with %q, %q names %q: %#x, %v", way, tpl, a0, a1, want, got, err)
		}
		c.Validated()
		r.problems(c, tpl)
	}}
}

// checkAccessors compares every typed accessor with the value.
func checkAccessors(c *vk.C, res *gologix.TagGroupResult, name string, want any, desc string) {
	rv := reflect.ValueOf(want)
	isSlice := rv.Kind() == reflect.Slice
	one := func(acc string, got any, err error, exp any, ok bool) {
		if ok && (err != nil || !same(got, exp)) {
			c.Fail("accessor:"+acc, "%s: %s gives %v (%v), expected %v", desc, acc, got, err, exp)
		}
		if !ok && err == nil {
			c.Fail("accessor-type:"+acc, "%s: %s of %v (%T) gives %v without an error", desc, acc, want, want, got)
		}
	}
	v, err := res.Value(name)
	if isSlice {
		if err != nil || !sameElems(v, want) {
			c.Fail("value", "%s: %s is %v (%T, %v), expected %v", desc, name, v, v, err, want)
		}
	} else if err != nil || !same(v, want) {
		c.Fail("value", "%s: %s is %v (%T, %v), expected %v (%T)", desc, name, v, v, err, want, want)
	}
	s, err := res.String(name)
	ws, ok := want.(string)
	one("String", s, err, ws, ok)
	b, err := res.Bool(name)
	wb, ok := want.(bool)
	one("Bool", b, err, wb, ok)
	i16, err := res.Int16(name)
	w16, ok := want.(int16)
	one("Int16", i16, err, w16, ok)
	i32, err := res.Int32(name)
	w32, ok := want.(int32)
	one("Int32", i32, err, w32, ok)
	u32, err := res.Uint32(name)
	wu, okU := want.(uint32)
	if ok {
		wu, okU = uint32(w32), true
	}
	one("Uint32", u32, err, wu, okU)
	f32v, err := res.Float32(name)
	wf, ok := want.(float32)
	one("Float32", f32v, err, wf, ok)
	f64v, err := res.Float64(name)
	wd, ok := want.(float64)
	one("Float64", f64v, err, wd, ok)
	is, err := res.Int32Slice(name)
	wis, ok := want.([]int32)
	one("Int32Slice", any(is), err, any(wis), ok)
	fs, err := res.Float32Slice(name)
	wfs, ok := want.([]float32)
	if ok && err == nil && sameElems(fs, wfs) {
		return
	}
	one("Float32Slice", any(fs), err, any(wfs), ok)
}

func sameElems(a, b any) bool {
	x, y := asElems(a), asElems(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !same(x[i], y[i]) {
			return false
		}
	}
	return true
}

// typesUnit reads every type and count with every value pattern.
func typesUnit() vk.Unit {
	return vk.Unit{Name: "every type and count", Run: func(c *vk.C) {
		k := kinds[c.Choose(len(kinds), "kind")]
		n := []int{0, 1, 2, 3, 7}[c.Choose(5, "elements")]
		form := c.Choose(6, "form")
		listed := c.Bool("listed")
		buffer := c.Bool("buffer")
		p := plc.New()
		if listed {
			p.Firmware = 33
		}
		var t *plc.Tag
		name, tpl, off := "Val", "V{0}", 0
		switch form {
		case 0: // scalar or array from its start
			if n > 1 {
				t = p.AddTag(k.tag("Val", n))
			} else {
				t = p.AddTag(k.tag("Val"))
			}
		case 1:
			t = p.AddTag(k.tag("Val", 12))
			name, tpl, off = "Val[3]", "V{0}[{1}]", 3
		case 2:
			t = p.AddTag(k.tag("Val", 3, 4))
			name, tpl, off = "Val[1,1]", "V{0}[1,{2}]", 5
			if n > 3 {
				return
			}
		case 3:
			p.Programs = []plc.Program{{Name: "Main", Instance: 9}}
			t = k.tag("Val", 12)
			t.Program = "Main"
			t = p.AddTag(t)
			name, tpl, off = "Program:Main.Val[3]", "Program:Main.V{0}[{1}]", 3
		case 4, 5: // array in an element of an array of structures
			if k.name == "BOOL" {
				return
			}
			m := plc.Member{Name: "Val", Type: k.code, Size: k.size, Dim: 12, Off: k.size, Bit: -1}
			if k.name == "STRING" {
				m.UDT, m.Type = plc.StringUDT, 0x8FCE
			}
			u := &plc.UDT{Name: "Box", Template: 0x123, Handle: 0x4567, Size: 16 * k.size, Members: []plc.Member{{Name: "Pad", Type: 0xC2, Size: 1, Bit: -1}, m}}
			t = p.AddTag(&plc.Tag{Name: "Bx", UDT: u, Dims: []int{3}})
			name, tpl, off = "Bx[1].Val[3]", "Bx[1].V{0}[{1}]", 16+1+3
			if form == 5 {
				name, tpl, off = "Bx[1].Val", "Bx[{2}].V{0}", 16+1
			}
		}
		t.Instance = 0x111
		r := newRig(c, p)
		r.connect(c)
		if listed {
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("list", "%v", err)
			}
		}
		g := gologix.NewTagGroup(gologix.TagDef{Name: tpl, Type: k.cip, Elements: n})
		args := []any{"al", 3, "1"}
		var b *gologix.DataTableBuffer
		if buffer {
			var err error
			if b, err = r.cl.NewDataTableBuffer(); err == nil {
				err = b.AddTagGroup(g, args...)
			}
			if err != nil {
				c.Fail("add", "%v", err)
			}
		}
		desc := fmt.Sprintf("%d x %s as %s, listed %v, buffer %v", n, k.name, name, listed, buffer)
		c.State(desc)
		cnt := n
		if cnt < 1 {
			cnt = 1
		}
		p.MaxFrames = 10000
		for start := range k.pats {
			if len(k.pats) > 40 && start%3 != 0 {
				continue
			}
			k.fill(t, start, 1)
			var want any
			if cnt == 1 {
				want = k.val(t.Data[off*k.size:])
			} else {
				s := reflect.ValueOf(k.newSlice(cnt))
				for i := 0; i < cnt; i++ {
					s.Index(i).Set(reflect.ValueOf(k.val(t.Data[(off+i)*k.size:])))
				}
				want = s.Interface()
			}
			var res *gologix.TagGroupResult
			var err error
			if buffer {
				res, err = b.ReadAllTyped()
			} else {
				res, err = r.cl.ReadTagGroup(g, args...)
			}
			c.Eval(1)
			c.Trans(1)
			c.Distinct(desc, start)
			if err != nil {
				c.Fail("error:"+k.name, "%s holding %v: %v", desc, want, err)
			}
			if len(res.Raw()) != 1 {
				c.Fail("names", "%s: result has %v", desc, res.Raw())
			}
			checkAccessors(c, res, name, want, desc)
			if _, err := res.Value(name + "x"); err == nil {
				c.Fail("no-such", "%s: a name that was not read has a value", desc)
			}
		}
		c.Validated()
		r.problems(c, desc)
	}}
}

// groupDefs are the definitions groups are made of.
var groupDefs = []gologix.TagDef{
	{Name: "D", Type: gologix.CIPTypeDINT},
	{Name: "Row{0}", Type: gologix.CIPTypeINT, Elements: 1},
	{Name: "A[{0}]", Type: gologix.CIPTypeDINT, Elements: 3},
	{Name: "S{1}", Type: gologix.CIPTypeSTRING},
	{Name: "D.{0}", Type: gologix.CIPTypeBOOL},
	{Name: "U.{1}", Type: gologix.CIPTypeREAL},
	{Name: "Missing{0}", Type: gologix.CIPTypeDINT},
}

// groupUnit reads every list of definitions with every argument pair, twice,
// with one request refused.
func groupUnit(n int, fault bool) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("groups of %d, fault %v", n, fault), Run: func(c *vk.C) {
		var defs []gologix.TagDef
		for i := 0; i < n; i++ {
			defs = append(defs, groupDefs[c.Choose(len(groupDefs), "definition")])
		}
		listed := c.Bool("listed")
		p := plc.New()
		if listed {
			p.Firmware = 33
		}
		u := &plc.UDT{Name: "Pair", Template: 0x321, Handle: 0x77, Size: 8, Members: []plc.Member{
			{Name: "X", Type: 0xCA, Size: 4, Bit: -1}, {Name: "Y", Type: 0xCA, Size: 4, Off: 4, Bit: -1}}}
		p.AddTag(&plc.Tag{Name: "D", Type: 0xC4, Instance: 1})
		p.AddTag(&plc.Tag{Name: "Row1", Type: 0xC3, Instance: 2})
		p.AddTag(&plc.Tag{Name: "Row2", Type: 0xC3, Instance: 3})
		p.AddTag(&plc.Tag{Name: "A", Type: 0xC4, Dims: []int{6}, Instance: 4})
		p.AddTag(&plc.Tag{Name: "SX", UDT: plc.StringUDT, Instance: 5})
		p.AddTag(&plc.Tag{Name: "SY", UDT: plc.StringUDT, Instance: 6})
		p.AddTag(&plc.Tag{Name: "U", UDT: u, Instance: 7})
		r := newRig(c, p)
		r.connect(c)
		if listed {
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("list", "%v", err)
			}
		}
		in := append([]gologix.TagDef(nil), defs...)
		g := gologix.NewTagGroup(in...)
		for i := range in {
			in[i].Name, in[i].Type = "spoilt", gologix.CIPTypeLINT
		}
		used, hit := false, false
		if fault {
			p.Override = func(q *plc.Req) *plc.Reply {
				if (q.Service == 0x4C || q.Service == 0x0A || q.Service == 0x52) && !used && c.Bool("refuse") {
					used, hit = true, true
					return &plc.Reply{Status: 0x02}
				}
				return nil
			}
		}
		desc := fmt.Sprintf("group %v, listed %v", defs, listed)
		c.Distinct(desc, fault)
		for round := 0; round < 3; round++ {
			a0, a1 := 1+c.Choose(2, "first"), []string{"X", "Y"}[c.Choose(2, "second")]
			for _, t := range p.Tags {
				if t.UDT == plc.StringUDT {
					copy(t.Data, plc.StringData(fmt.Sprintf("%s in round %d", t.Name, round)))
					continue
				}
				for i := range t.Data {
					t.Data[i] = byte(int(t.Instance)*31+i*9+round*57+5) & 0x3F
				}
			}
			want := map[string]any{}
			missing := false
			for _, d := range defs {
				name := substitute(d.Name, []any{a0, a1})
				switch {
				case name == "D":
					want[name] = int32(le.Uint32(p.Tags["d"].Data))
				case strings.HasPrefix(name, "Row"):
					want[name] = int16(le.Uint16(p.Tags[strings.ToLower(name)].Data))
				case strings.HasPrefix(name, "A"):
					w := make([]int32, 3)
					for i := range w {
						w[i] = int32(le.Uint32(p.Tags["a"].Data[4*(a0+i):]))
					}
					want[name] = w
				case strings.HasPrefix(name, "S"):
					b := p.Tags[strings.ToLower(name)].Data
					want[name] = string(b[4 : 4+le.Uint32(b)])
				case strings.HasPrefix(name, "D."):
					want[name] = p.Tags["d"].Data[0]>>a0&1 == 1
				case strings.HasPrefix(name, "U."):
					o := 0
					if a1 == "Y" {
						o = 4
					}
					want[name] = kindByName("REAL").val(p.Tags["u"].Data[o:])
				default:
					missing = true
				}
			}
			hit = false
			res, err := r.cl.ReadTagGroup(g, a0, a1)
			c.Trans(1)
			if missing || hit {
				if err == nil {
					c.Fail("no-error", "%s, round %d: a tag is missing or refused, the read gives %v", desc, round, res.Raw())
				}
				continue
			}
			if err != nil {
				c.Fail("error", "%s, round %d (%d,%s): %v", desc, round, a0, a1, err)
			}
			if len(res.Raw()) != len(want) {
				c.Fail("names", "%s, round %d: result %v, expected %v", desc, round, res.Raw(), want)
			}
			for name, w := range want {
				checkAccessors(c, res, name, w, fmt.Sprintf("%s, round %d", desc, round))
			}
			ds := g.Defs()
			for i := range ds {
				w := defs[i]
				if w.Elements < 1 {
					w.Elements = 1
				}
				if ds[i] != w {
					c.Fail("changed", "%s: definition %d is now %v", desc, i, ds[i])
				}
				ds[i] = gologix.TagDef{Name: "spoilt", Type: gologix.CIPTypeLREAL, Elements: 9}
			}
		}
		c.State(desc)
		c.Validated()
		r.problems(c, desc)
	}}
}

// manyGroupUnit reads groups that need several requests.
func manyGroupUnit() vk.Unit {
	return vk.Unit{Name: "large groups", Run: func(c *vk.C) {
		large := c.Bool("large")
		n := 1 + c.Choose(130, "definitions")
		p := plc.New()
		p.AllowLarge = large
		var defs []gologix.TagDef
		want := map[string]any{}
		for i := 0; i < n; i++ {
			k := kinds[i%len(kinds)]
			t := p.AddTag(k.tag(fmt.Sprintf("Tag%d_5", i)))
			k.fill(t, i+3, 1)
			defs = append(defs, gologix.TagDef{Name: fmt.Sprintf("Tag%d_{0}", i), Type: k.cip})
			want[t.Name] = k.val(t.Data)
		}
		r := newRig(c, p)
		r.connect(c)
		desc := fmt.Sprintf("%d definitions, large %v", n, large)
		c.Distinct(desc)
		c.State(desc)
		c.Trans(n)
		res, err := r.cl.ReadTagGroup(gologix.NewTagGroup(defs...), 5)
		if err != nil {
			c.Fail("error", "%s: %v", desc, err)
		}
		if len(res.Raw()) != n {
			c.Fail("names", "%s: %d results", desc, len(res.Raw()))
		}
		for name, w := range want {
			checkAccessors(c, res, name, w, desc)
		}
		c.Validated()
		r.problems(c, desc)
	}}
}

func c12Units(tier string) []vk.Unit {
	toks, args, defs := 3, 2, 3
	if tier == "thorough" {
		toks, args, defs = 4, 3, 4
	}
	var us []vk.Unit
	us = append(us, templateUnit(toks, args)...)
	us = append(us, templateUnit(toks+1, args-1)...)
	us = append(us, otherTemplateUnit(), typesUnit(), manyGroupUnit())
	for n := 0; n <= defs; n++ {
		us = append(us, groupUnit(n, false), groupUnit(n, true))
	}
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "C12", Level: "model_checking",
		Rule:        "every template of up to n tokens over placeholders, braces, digits and letters with every argument list over 11 values (several of which look like placeholders); every type, count and path form through ReadTagGroup and a data table buffer, every typed accessor on every result; every list of definitions with every argument pair in three rounds with at most one refused request; groups that need several requests",
		Units:       c12Units,
		Bounds:      map[string]any{"quick": "3 tokens with 2 arguments, 4 with 1, groups of 3", "thorough": "4 tokens with 3 arguments, 5 with 2, groups of 4"},
		Assumptions: []string{"a placeholder without an argument stays as it is", "definitions that name the same tag after substitution give one result"},
		QuickBudget: 250 * time.Second, ThoroughBudget: 840 * time.Second,
	})
}
