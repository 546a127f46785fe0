package checks

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"

	"verifharness/plc"
	"verifharness/vk"
)

// C10: listings return every entry once, with what it is, and terminate.

// symKind is one kind of symbol a controller may hold.
type symKind struct {
	name string
	typ  uint16
	dims []int
	udt  bool
	// listed: it is a tag a client can use.
	listed bool
}

var symKinds = []symKind{
	{"a%d", 0xC4, nil, false, true},
	{"Bb%d", 0xCA, []int{3}, false, true},
	{"Cube_%d", 0xC2, []int{2, 3, 4}, false, true},
	{"St%d", 0, nil, true, true},
	{"StructureArrayWithAnOrdinaryLongName%d", 0, []int{2, 5}, true, true},
	{"__hidden%d", 0xC4, nil, false, false},
	{"Module:%d:I", 0xC3, nil, false, false},
	{"Program:P%d", 0x1068, nil, false, false},
	{"Programmed%d", 0xC5, nil, false, true},
}

func listUDT(n int) *plc.UDT {
	return &plc.UDT{Name: fmt.Sprintf("Kind%d", n), Template: uint16(0x200 + n), Handle: uint16(0x5500 + n), Size: 8, Suffix: ";nEBECEA", Members: []plc.Member{
		{Name: "First", Type: 0xC4, Size: 4, Bit: -1},
		{Name: fmt.Sprintf("Second%d", n), Type: 0xC3, Size: 2, Off: 4, Bit: -1},
	}}
}

// addSym adds the nth symbol of a scope.
func addSym(p *plc.PLC, k symKind, prog string, n int, inst uint32) *plc.Tag {
	t := &plc.Tag{Name: fmt.Sprintf(k.name, n), Program: prog, Instance: inst, Type: k.typ, Dims: k.dims}
	if k.udt {
		t.UDT = listUDT(n % 2)
	}
	if k.typ == 0x1068 {
		t.Size = 4
	}
	t = p.AddTag(t)
	for i := range t.Data {
		t.Data[i] = byte(int(inst)*7 + i*3 + 1)
	}
	return t
}

// sameUDT compares a listed structure with the controller's.
func sameUDT(g *gologix.UDTDescriptor, u *plc.UDT) string {
	if g == nil {
		return "has no structure"
	}
	if g.Name != u.Name || g.Instance_ID != uint32(u.Template) {
		return fmt.Sprintf("is structure %q of template %#x", g.Name, g.Instance_ID)
	}
	if len(g.Members) != len(u.Members) {
		return fmt.Sprintf("has %d members, expected %d", len(g.Members), len(u.Members))
	}
	if g.Info.SizeBytes != uint32(u.Size) || int(g.Info.MemberCount) != len(u.Members) || uint16(g.Info.Handle) != u.Handle {
		return fmt.Sprintf("has size %d, %d members, handle %#x", g.Info.SizeBytes, g.Info.MemberCount, g.Info.Handle)
	}
	for i, m := range u.Members {
		gm := g.Members[i]
		info, typ := uint16(m.Dim), m.Type
		if m.Dim > 0 {
			typ |= 0x2000
		}
		if m.Bit >= 0 {
			info = uint16(m.Bit)
		}
		if gm.Name != m.Name || gm.Info.Info != info || gm.Info.Type != typ || gm.Info.Offset != uint32(m.Off) {
			return fmt.Sprintf("member %d is %q %+v, expected %+v", i, gm.Name, gm.Info, m)
		}
		if m.UDT == nil {
			if gm.UDT != nil {
				return fmt.Sprintf("member %d %q has a structure", i, gm.Name)
			}
			continue
		}
		if s := sameUDT(gm.UDT, m.UDT); s != "" {
			return fmt.Sprintf("member %d %q %s", i, gm.Name, s)
		}
	}
	return ""
}

// sameTag compares a listed tag with the controller's.
func sameTag(g gologix.KnownTag, t *plc.Tag, needUDT bool) string {
	name := t.Name
	if t.Program != "" {
		name = "program:" + t.Program + "." + t.Name
	}
	if g.Name != name && !(t.Program != "" && strings.EqualFold(g.Name, name)) {
		return fmt.Sprintf("has the name %q", g.Name)
	}
	if uint32(g.Instance) != t.Instance {
		return fmt.Sprintf("has instance %d, expected %d", g.Instance, t.Instance)
	}
	if w := uint16(g.Info.Type) | uint16(g.Info.TypeInfo)<<8; w != t.TypeWord() {
		return fmt.Sprintf("has type %#x, expected %#x", w, t.TypeWord())
	}
	d := [3]uint32{}
	for i := range t.Dims {
		d[i] = uint32(t.Dims[i])
	}
	if d != [3]uint32{g.Info.Dimension1, g.Info.Dimension2, g.Info.Dimension3} || fmt.Sprint(g.Array_Order) != fmt.Sprint(append([]int{}, t.Dims...)) {
		return fmt.Sprintf("has dimensions %d %d %d %v, expected %v", g.Info.Dimension1, g.Info.Dimension2, g.Info.Dimension3, g.Array_Order, t.Dims)
	}
	if t.Program != "" && (g.Parent == nil || !strings.EqualFold(g.Parent.Name, t.Program)) {
		return fmt.Sprintf("is in scope %v, expected program %s", g.Parent, t.Program)
	}
	if t.Program == "" && g.Parent != nil {
		return fmt.Sprintf("is in program %s", g.Parent.Name)
	}
	if t.UDT != nil && needUDT {
		return sameUDT(g.UDT, t.UDT)
	}
	if t.UDT == nil && g.UDT != nil {
		return "has a structure"
	}
	return ""
}

func usable(t *plc.Tag) bool {
	return !strings.HasPrefix(t.Name, "__") && !strings.Contains(t.Name, ":")
}

// expectKnown fails unless the known tags are what the controller has.
func expectKnown(c *vk.C, cl *gologix.Client, want map[string]*plc.Tag, what string) {
	for k, t := range want {
		g, ok := cl.KnownTags[k]
		if !ok {
			c.Fail("missing", "%s: tag %s (instance %d) is not listed", what, k, t.Instance)
		}
		if s := sameTag(g, t, t.Program == ""); s != "" {
			c.Fail("wrong", "%s: tag %s %s", what, k, s)
		}
		if t.UDT != nil && t.Program == "" {
			u, ok := cl.KnownTypes[t.UDT.Name]
			if !ok {
				c.Fail("type-missing", "%s: type %s of tag %s is not listed", what, t.UDT.Name, k)
			}
			if s := sameUDT(&u, t.UDT); s != "" {
				c.Fail("type-wrong", "%s: type %s %s", what, t.UDT.Name, s)
			}
		}
	}
	for k := range cl.KnownTags {
		if want[k] == nil && !(strings.HasPrefix(k, "program:") && !strings.Contains(k, ".")) {
			c.Fail("extra", "%s: %q is listed and the controller has no such tag", what, k)
		}
	}
}

func usableTags(p *plc.PLC, from uint32, programs bool) map[string]*plc.Tag {
	want := map[string]*plc.Tag{}
	for k, t := range p.Tags {
		if usable(t) && (t.Program == "" && t.Instance >= from || t.Program != "" && programs) {
			want[k] = t
		}
	}
	return want
}

func expectPrograms(c *vk.C, cl *gologix.Client, want []plc.Program, ids bool, what string) {
	var g, w []string
	for _, v := range cl.KnownPrograms {
		s := v.Name
		if ids {
			s = fmt.Sprintf("%s=%d", v.Name, v.ID)
		}
		g = append(g, s)
	}
	for _, v := range want {
		s := v.Name
		if ids {
			s = fmt.Sprintf("%s=%d", v.Name, v.Instance)
			if k, ok := cl.KnownPrograms[v.Name]; !ok || k.Name != v.Name {
				c.Fail("program-key", "%s: program %s is not known by its name", what, v.Name)
			}
		}
		w = append(w, s)
	}
	sort.Strings(g)
	sort.Strings(w)
	if fmt.Sprint(g) != fmt.Sprint(w) {
		c.Fail("programs", "%s: programs are %v, expected %v", what, g, w)
	}
}

// readKnown reads the scalar DINTs (by instance where the client does that).
func readKnown(c *vk.C, cl *gologix.Client, p *plc.PLC, what string) {
	var names []string
	for k := range p.Tags {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		t := p.Tags[k]
		if t.Type != 0xC4 || len(t.Dims) > 0 || !usable(t) {
			continue
		}
		var v int32
		if err := cl.Read(t.Full(), &v); err != nil {
			c.Fail("read-listed", "%s: reading %s after listing: %v", what, t.Full(), err)
		}
		if v != int32(le.Uint32(t.Data)) {
			c.Fail("read-other", "%s: reading %s after listing gives %#x, it holds % x", what, t.Full(), v, t.Data)
		}
	}
}

var listGaps = []uint32{1, 3, 250, 65530}

// popUnit lists every population of n symbols.
func popUnit(n int, subset []int, gaps []uint32) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("populations of %d symbols of %d kinds", n, len(subset)), Run: func(c *vk.C) {
		fallback := c.Bool("no program list")
		page := c.Choose(3, "page")
		if n > 3 {
			page = c.Choose(n, "page") % n
		}
		p := plc.New()
		p.ProgramList = !fallback
		p.PageRecords = page
		p.Firmware = 33
		inst := uint32(0)
		desc := fmt.Sprintf("fallback %v, %d per page:", fallback, page)
		var progs []plc.Program
		for i := 0; i < n; i++ {
			k := symKinds[subset[c.Choose(len(subset), "kind")]]
			inst += gaps[c.Choose(len(gaps), "gap")]
			t := addSym(p, k, "", i, inst)
			desc += fmt.Sprintf(" %s@%d", t.Name, inst)
			if k.typ == 0x1068 {
				progs = append(progs, plc.Program{Name: t.Name[len("Program:"):], Instance: 0x1000 + uint32(i)})
				addSym(p, symKinds[0], t.Name[len("Program:"):], 7, 2)
				addSym(p, symKinds[i%5], t.Name[len("Program:"):], 8, 5)
			}
		}
		p.Programs = progs
		r := newRig(c, p)
		r.connect(c)
		c.Trans(n)
		c.Distinct(desc)
		c.Validated()
		if err := r.cl.ListAllTags(0); err != nil {
			c.Fail("error", "%s: ListAllTags fails: %v", desc, err)
		}
		r.problems(c, desc)
		expectKnown(c, r.cl, usableTags(p, 0, true), desc)
		expectPrograms(c, r.cl, progs, !fallback, desc)
		readKnown(c, r.cl, p, desc)
		c.State(desc)
	}}
}

// bigUnit lists many symbols in replies of what fits.
func bigUnit(large bool, max, step int) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("many symbols, large connection %v", large), Run: func(c *vk.C) {
		n := c.Choose(max/step, "symbols") * step
		prog := c.Bool("in a program")
		nameLen := 1 + c.Choose(40, "name length")
		first := []uint32{1, 200, 65000}[c.Choose(3, "first instance")]
		p := plc.New()
		p.AllowLarge = large
		scope := ""
		if prog {
			scope = "Main"
			p.Programs = []plc.Program{{Name: "Main", Instance: 0x31}}
		}
		for i := 0; i < n; i++ {
			name := fmt.Sprintf("%s%d", strings.Repeat("n", nameLen), i)
			t := p.AddTag(&plc.Tag{Name: name, Program: scope, Instance: first + uint32(i), Type: 0xC4})
			le.PutUint32(t.Data, uint32(i))
		}
		desc := fmt.Sprintf("%d symbols of %d characters from instance %d, program %v, large %v", n, nameLen, first, prog, large)
		r := newRig(c, p)
		r.connect(c)
		if err := r.cl.ListAllTags(0); err != nil {
			c.Fail("error", "%s: ListAllTags fails: %v", desc, err)
		}
		c.Trans(p.Frames)
		c.Distinct(desc)
		c.State(desc)
		c.Validated()
		r.problems(c, desc)
		expectKnown(c, r.cl, usableTags(p, 0, true), desc)
	}}
}

// subUnit lists one program's tags, or all from an instance on.
func subUnit(n int) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("%d tags from any instance", n), Run: func(c *vk.C) {
		scope := c.Choose(3, "scope") // controller, program by instance, program by name
		page := c.Choose(3, "page")
		p := plc.New()
		p.PageRecords = page
		prog := ""
		kp := &gologix.KnownProgram{Name: "Main", ID: 0x123}
		p.Programs = []plc.Program{{Name: "Other", Instance: 7}, {Name: "Main", Instance: 0x123}}
		addSym(p, symKinds[1], "Other", 90, 3)
		if scope > 0 {
			prog = "Main"
			addSym(p, symKinds[0], "", 91, 2)
		}
		if scope == 2 {
			kp.ID = 0
		}
		inst := uint32(0)
		var insts []uint32
		for i := 0; i < n; i++ {
			inst += listGaps[c.Choose(len(listGaps), "gap")]
			addSym(p, symKinds[[]int{0, 2, 5, 4, 1, 6}[(i+page)%6]], prog, i, inst)
			insts = append(insts, inst)
		}
		starts := []uint32{0, 1, inst + 1, 0xFFFFFFFF}
		for _, v := range insts {
			starts = append(starts, v, v+1)
		}
		start := starts[c.Choose(len(starts), "start")]
		desc := fmt.Sprintf("scope %d, instances %v, %d per page, from %d", scope, insts, page, start)
		r := newRig(c, p)
		r.connect(c)
		c.Trans(n)
		c.Distinct(desc)
		c.State(desc)
		c.Validated()
		if scope == 0 {
			if err := r.cl.ListAllTags(start); err != nil {
				c.Fail("error", "%s: ListAllTags fails: %v", desc, err)
			}
			r.problems(c, desc)
			expectKnown(c, r.cl, usableTags(p, start, start <= 1), desc)
			return
		}
		got, err := r.cl.ListSubTags(kp, start)
		if err != nil {
			c.Fail("error", "%s: ListSubTags fails: %v", desc, err)
		}
		r.problems(c, desc)
		want := map[string]*plc.Tag{}
		var order []*plc.Tag
		for k, t := range p.Tags {
			if usable(t) && t.Program == "Main" && t.Instance >= start {
				want[k] = t
				order = append(order, t)
			}
		}
		expectKnown(c, r.cl, want, desc)
		sort.Slice(order, func(i, j int) bool { return order[i].Instance < order[j].Instance })
		if len(got) != len(order) {
			c.Fail("count", "%s: ListSubTags returns %d tags, expected %d", desc, len(got), len(order))
		}
		for i, t := range order {
			if s := sameTag(got[i], t, false); s != "" {
				c.Fail("returned", "%s: tag %d returned (%s) %s", desc, i, t.Full(), s)
			}
		}
	}}
}

// progUnit lists programs.
func progUnit(n int) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("%d programs", n), Run: func(c *vk.C) {
		page := c.Choose(n+1, "page")
		p := plc.New()
		p.PageRecords = page
		inst := uint32(0)
		desc := fmt.Sprintf("%d per page:", page)
		for i := 0; i < n; i++ {
			inst += []uint32{1, 2, 255, 65535}[c.Choose(4, "gap")]
			name := strings.Repeat("Prog", 1+3*c.Choose(3, "name")) + fmt.Sprint(i)
			p.Programs = append(p.Programs, plc.Program{Name: name, Instance: inst})
			desc += fmt.Sprintf(" %s@%d", name, inst)
			addSym(p, symKinds[i%5], name, i, uint32(1+i))
		}
		addSym(p, symKinds[0], "", 50, 4)
		r := newRig(c, p)
		r.connect(c)
		c.Trans(n)
		c.Distinct(desc)
		c.State(desc)
		c.Validated()
		if err := r.cl.ListAllPrograms(); err != nil {
			c.Fail("error", "%s: ListAllPrograms fails: %v", desc, err)
		}
		r.problems(c, desc)
		expectPrograms(c, r.cl, p.Programs, true, desc)
		if len(r.cl.KnownTags) != 0 {
			c.Fail("extra", "%s: ListAllPrograms lists tags", desc)
		}
		if err := r.cl.ListAllTags(0); err != nil {
			c.Fail("error", "%s: ListAllTags fails: %v", desc, err)
		}
		expectPrograms(c, r.cl, p.Programs, true, desc)
		expectKnown(c, r.cl, usableTags(p, 0, true), desc)
	}}
}

// memberKinds are the kinds of structure members.
var memberKinds = []func(i int) plc.Member{
	func(i int) plc.Member { return plc.Member{Type: 0xC4, Size: 4, Bit: -1} },
	func(i int) plc.Member { return plc.Member{Type: 0xC3, Size: 2, Dim: 10, Bit: -1} },
	func(i int) plc.Member { return plc.Member{Type: 0xC1, Size: 1, Bit: i % 8} },
	func(i int) plc.Member { return plc.Member{UDT: listUDT(i % 2), Bit: -1} },
	func(i int) plc.Member { return plc.Member{UDT: listUDT(5), Dim: 4, Bit: -1} },
	func(i int) plc.Member {
		inner := listUDT(3)
		inner.Members = append(inner.Members, plc.Member{Name: "Deep", UDT: listUDT(4), Type: 0x8000 | 0x204, Off: 8, Bit: -1}, plc.Member{Name: "Deep2", UDT: listUDT(4), Type: 0x8000 | 0x204, Off: 16, Bit: -1})
		inner.Size = 24
		return plc.Member{UDT: inner, Bit: -1}
	},
	func(i int) plc.Member { return plc.Member{UDT: plc.StringUDT, Bit: -1} },
}

func buildUDT(c *vk.C, n int, nameLen int) *plc.UDT {
	u := &plc.UDT{Name: "Outer", Template: 0x300, Handle: 0x7788}
	off := 0
	for i := 0; i < n; i++ {
		k := c.Choose(len(memberKinds), "member")
		m := memberKinds[k](i)
		m.Off = off
		m.Name = fmt.Sprintf("%s%d", strings.Repeat("M", nameLen), i)
		if m.UDT != nil {
			m.Type = 0x8000 | m.UDT.Template
			m.Size = m.UDT.Size
		}
		if m.Dim > 0 {
			off += m.Size * m.Dim
		} else {
			off += m.Size
		}
		off = (off + 3) &^ 3
		u.Members = append(u.Members, m)
	}
	u.Size = off
	return u
}

// memberUnit lists the members of every structure of n members.
func memberUnit(n int, parts []int) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("structures of %d members", n), Run: func(c *vk.C) {
		part := parts[c.Choose(len(parts), "reply size")]
		suffix := []string{"", ";nEBECEA", ";"}[c.Choose(3, "suffix")]
		nameLen := []int{1, 6, 40}[c.Choose(3, "names")]
		u := buildUDT(c, n, nameLen)
		u.Suffix = suffix
		p := plc.New()
		p.TemplateBytes = part
		p.AddTag(&plc.Tag{Name: "Thing", Instance: 9, UDT: u})
		desc := fmt.Sprintf("replies of %d bytes, name %q:", part, u.Name+suffix)
		for _, m := range u.Members {
			desc += fmt.Sprintf(" %s:%#x@%d", m.Name, m.Type, m.Off)
		}
		r := newRig(c, p)
		r.connect(c)
		c.Distinct(desc)
		c.State(desc)
		c.Validated()
		for i := 0; i < 2; i++ {
			v, err := r.cl.ListMembers(0x300)
			if err != nil {
				c.Fail("error", "%s: ListMembers fails: %v", desc, err)
			}
			r.problems(c, desc)
			if s := sameUDT(&v, u); s != "" {
				c.Fail("members", "%s: the structure %s", desc, s)
			}
		}
		c.Trans(p.Frames)
		if err := r.cl.ListAllTags(0); err != nil {
			c.Fail("error", "%s: ListAllTags fails: %v", desc, err)
		}
		expectKnown(c, r.cl, usableTags(p, 0, true), desc)
	}}
}

// idsUnit lists structures with every pair of template numbers.
func idsUnit(c *vk.C) {
	ids := []uint16{1, 2, 0x7F, 0x80, 0xFF, 0x100, 0x101, 0x1FF, 0x201, 0x2FF, 0x300, 0x400, 0x401, 0x7FF, 0x800, 0x801, 0x8FF, 0xC01, 0xFCE, 0xFFE, 0xFFF}
	a, b := vk.Pick(c, ids, "template"), vk.Pick(c, ids, "template")
	nested := c.Bool("nested")
	dims := [][]int{nil, {1}, {5}, {2, 3}, {3, 2}, {1, 4}, {2, 3, 4}, {4, 2, 3}, {300, 2}}[c.Choose(9, "dimensions")]
	members := c.Bool("members first")
	if a == b {
		c.Stop()
	}
	u, v := listUDT(0), listUDT(1)
	u.Template, v.Template = a, b
	v.Members = append(v.Members, plc.Member{Name: "More", Type: 0xC4, Size: 4, Off: 8, Bit: -1})
	v.Size = 12
	if nested {
		u.Members = append(u.Members, plc.Member{Name: "In", Type: 0x8000 | b, UDT: v, Off: 8, Bit: -1, Size: 12})
		u.Size = 20
	}
	p := plc.New()
	p.Programs = []plc.Program{{Name: "Main", Instance: 9}}
	p.AddTag(&plc.Tag{Name: "u", Instance: 3, UDT: u, Dims: dims})
	p.AddTag(&plc.Tag{Name: "v", Instance: 4, UDT: v})
	p.AddTag(&plc.Tag{Name: "w", Instance: 5, UDT: u})
	p.AddTag(&plc.Tag{Name: "x", Instance: 6, Type: 0xC3, Dims: dims})
	p.AddTag(&plc.Tag{Name: "x", Program: "Main", Instance: 6, Type: 0xC3, Dims: dims})
	desc := fmt.Sprintf("templates %#x and %#x, nested %v, dimensions %v", a, b, nested, dims)
	r := newRig(c, p)
	r.connect(c)
	if members {
		for _, x := range []*plc.UDT{u, v, u} {
			g, err := r.cl.ListMembers(uint32(x.Template))
			if err != nil {
				c.Fail("error", "%s: ListMembers(%#x) fails: %v", desc, x.Template, err)
			}
			if s := sameUDT(&g, x); s != "" {
				c.Fail("members", "%s: the structure %#x %s", desc, x.Template, s)
			}
		}
	}
	if err := r.cl.ListAllTags(0); err != nil {
		c.Fail("error", "%s: ListAllTags fails: %v", desc, err)
	}
	r.problems(c, desc)
	expectKnown(c, r.cl, usableTags(p, 0, true), desc)
	c.Trans(p.Frames)
	c.Distinct(desc, members)
	c.State(desc)
	c.Validated()
}

// wideUnit lists structures of many members.
func wideUnit(large bool, max, step int) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("structures of many members, large connection %v", large), Run: func(c *vk.C) {
		n := 1 + c.Choose(max/step, "members")*step
		nameLen := 1 + c.Choose(40, "name length")
		part := []int{0, 100, 333}[c.Choose(3, "reply size")]
		p := plc.New()
		p.AllowLarge = large
		p.TemplateBytes = part
		u := &plc.UDT{Name: "Wide", Template: 0x301, Handle: 0x99, Size: 4 * n}
		for i := 0; i < n; i++ {
			u.Members = append(u.Members, plc.Member{Name: fmt.Sprintf("%s%d", strings.Repeat("w", nameLen), i), Type: 0xC4, Size: 4, Off: 4 * i, Bit: -1})
		}
		p.AddUDT(u)
		desc := fmt.Sprintf("%d members of %d characters, large %v, replies of %d", n, nameLen, large, part)
		r := newRig(c, p)
		r.connect(c)
		v, err := r.cl.ListMembers(0x301)
		c.Trans(p.Frames)
		c.Distinct(desc)
		c.State(desc)
		c.Validated()
		if err != nil {
			c.Fail("error", "%s: ListMembers fails: %v", desc, err)
		}
		r.problems(c, desc)
		if s := sameUDT(&v, u); s != "" {
			c.Fail("members", "%s: the structure %s", desc, s)
		}
	}}
}

// failUnit refuses one page of a listing.
func failUnit(c *vk.C) {
	page := 1 + c.Choose(2, "page")
	what := c.Choose(5, "listing")
	k := c.Choose(6, "refused page")
	st := byte(1 + c.Choose(255, "status"))
	empty := c.Bool("with the page's data")
	p := plc.New()
	p.PageRecords = page
	p.TemplateBytes = 30
	p.ProgramList = what != 4
	for i := 0; i < 4; i++ {
		p.Programs = append(p.Programs, plc.Program{Name: fmt.Sprintf("P%d", i), Instance: uint32(10 + i)})
		addSym(p, symKinds[0], "", i, uint32(3+2*i))
		addSym(p, symKinds[1], "P1", i, uint32(4+3*i))
		if what == 4 {
			addSym(p, symKinds[7], "", i, uint32(20+i))
		}
	}
	u := listUDT(1)
	p.AddTag(&plc.Tag{Name: "u", Instance: 100, UDT: u})
	class := []byte{0x6B, 0x68, 0x68, 0x6C, 0x6B}[what]
	n := 0
	hit := false
	var inner func(r *plc.Req) *plc.Reply
	inner = func(r *plc.Req) *plc.Reply {
		if len(r.Path) < 2 || r.Service != 0x55 && r.Service != 0x4C {
			return nil
		}
		first := r.Path[1]
		if r.Path[0] != 0x20 || first != class || (what == 1) != (len(r.Path) <= 6 && first == 0x68) && first == 0x68 {
			return nil
		}
		n++
		if n != k+1 {
			return nil
		}
		hit = true
		rp := &plc.Reply{Status: st}
		if empty {
			p.Override = nil
			full := p.Serve(r)
			p.Override = inner
			if full.Status != 0 && full.Status != 6 {
				return nil
			}
			rp.Data = full.Data
		}
		return rp
	}
	p.Override = inner
	r := newRig(c, p)
	r.connect(c)
	var err error
	count, members := 0, gologix.UDTDescriptor{}
	switch what {
	case 0, 4:
		err = r.cl.ListAllTags(0)
	case 1:
		err = r.cl.ListAllPrograms()
	case 2:
		var ts []gologix.KnownTag
		ts, err = r.cl.ListSubTags(&gologix.KnownProgram{Name: "P1", ID: 11}, 0)
		count = len(ts)
	case 3:
		members, err = r.cl.ListMembers(uint32(u.Template))
	}
	if !hit {
		c.Stop()
	}
	desc := fmt.Sprintf("listing %d, %d per page, page %d answered with status %#x (data %v)", what, page, k, st, empty)
	c.Trans(p.Frames)
	c.Distinct(desc)
	c.State(desc, err == nil)
	c.Validated()
	if st == 6 && err == nil {
		// the rest was asked for: nothing may be missing
		switch what {
		case 0, 4:
			expectKnown(c, r.cl, usableTags(p, 0, true), desc)
		case 1:
			expectPrograms(c, r.cl, p.Programs, true, desc)
		case 2:
			if count != 4 {
				c.Fail("partial", "%s: %d tags returned", desc, count)
			}
		case 3:
			if s := sameUDT(&members, u); s != "" {
				c.Fail("partial", "%s: the structure %s", desc, s)
			}
		}
		return
	}
	if err == nil {
		c.Fail("ignored", "%s: no error", desc)
	}
}

// relistUnit lists, changes the controller, and lists again.
func relistUnit(n int) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("listing again after a change of %d symbols", n), Run: func(c *vk.C) {
		p := plc.New()
		p.Firmware = 33
		p.ProgramList = c.Bool("program list")
		var desc string
		fill := func() {
			p.Tags = map[string]*plc.Tag{}
			p.Programs = nil
			inst := uint32(0)
			desc += " then"
			used := map[int]bool{}
			for i := 0; i < n; i++ {
				k := c.Choose(6, "symbol")
				if k == 0 || used[k] {
					continue
				}
				used[k] = true
				inst++
				switch k {
				case 1, 2:
					addSym(p, symKinds[0], "", k, inst)
				case 3:
					t := addSym(p, symKinds[3], "", 1, inst)
					t.UDT = listUDT(1)
					if n := c.Choose(2, "layout"); n == 1 {
						t.UDT.Members[1].Name = "Changed"
					}
					p.AddUDT(t.UDT)
				case 4, 5:
					name := fmt.Sprintf("P%d", k)
					addSym(p, symKind{"Program:P%d", 0x1068, nil, false, false}, "", k, inst)
					p.Programs = append(p.Programs, plc.Program{Name: name, Instance: 60 + inst})
					addSym(p, symKinds[0], name, k, 4)
				}
				desc += fmt.Sprintf(" %d", k)
			}
		}
		fill()
		r := newRig(c, p)
		r.connect(c)
		for i := 0; i < 2; i++ {
			if i == 1 {
				fill()
			}
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("error", "%s: ListAllTags fails: %v", desc, err)
			}
			r.problems(c, desc)
			expectKnown(c, r.cl, usableTags(p, 0, true), desc)
			expectPrograms(c, r.cl, p.Programs, p.ProgramList, desc)
			readKnown(c, r.cl, p, desc)
		}
		for _, id := range []int{1, 2} {
			name := fmt.Sprintf("a%d", id)
			var v int32
			err := r.cl.Read(name, &v)
			if p.Tags[name] == nil && err == nil {
				c.Fail("read-gone", "%s: reading %s, which is gone, gives %d", desc, name, v)
			}
		}
		c.Trans(p.Frames)
		c.Distinct(desc)
		c.State(desc)
		c.Validated()
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID:    "C10",
		Level: "model_checking",
		Rule:  "one case is one controller population (symbols by kind, order and instance gaps; programs; structure members), one page size and one listing of it, with or without a page refused; every combination is run. Every case is non-trivial: the known tags, programs and types (or the returned list) must be exactly the controller's.",
		Units: func(tier string) []vk.Unit {
			th := tier == "thorough"
			all := []int{0, 1, 2, 3, 4, 5, 6, 7, 8}
			few := []int{0, 4, 5, 7}
			var us []vk.Unit
			for n := 0; n <= 2; n++ {
				us = append(us, popUnit(n, all, listGaps))
			}
			us = append(us, vk.Shard(popUnit(3, all, listGaps[:2]), 16, 4)...)
			us = append(us, vk.Shard(popUnit(4, few, []uint32{1, 300}), 8, 4)...)
			big, step := 60, 3
			if th {
				us = append(us, vk.Shard(popUnit(3, all, listGaps), 32, 4)...)
				us = append(us, vk.Shard(popUnit(4, all, []uint32{1, 300}), 64, 4)...)
				us = append(us, vk.Shard(popUnit(5, few, []uint32{1, 300}), 64, 4)...)
				big, step = 300, 1
			}
			us = append(us, vk.Shard(bigUnit(true, 4*big, 4*step), 8, 2)...)
			us = append(us, vk.Shard(bigUnit(false, big, step), 8, 2)...)
			for n := 0; n <= 3; n++ {
				us = append(us, vk.Shard(subUnit(n), 4, 3)...)
				us = append(us, vk.Shard(progUnit(n), 4, 3)...)
			}
			us = append(us, vk.Shard(relistUnit(2), 4, 2)...)
			us = append(us, vk.Shard(relistUnit(3), 8, 3)...)
			if th {
				us = append(us, vk.Shard(subUnit(4), 16, 3)...)
				us = append(us, vk.Shard(progUnit(4), 16, 3)...)
				us = append(us, vk.Shard(relistUnit(4), 32, 3)...)
			}
			parts := []int{0, 1, 7, 8, 33}
			for n := 0; n <= 3; n++ {
				us = append(us, vk.Shard(memberUnit(n, parts), 4, 3)...)
			}
			if th {
				us = append(us, vk.Shard(memberUnit(4, parts), 32, 5)...)
			}
			us = append(us, vk.Shard(wideUnit(true, 4*big, 4*step), 8, 2)...)
			us = append(us, vk.Shard(wideUnit(false, big, step), 8, 2)...)
			us = append(us, vk.Unit{Name: "template numbers and dimensions", Run: idsUnit})
			us = append(us, vk.Shard(vk.Unit{Name: "refused pages", Run: failUnit}, 8, 3)...)
			return us
		},
		Bounds: map[string]any{
			"symbols":   "every sequence of up to 3 (some kinds: 4) symbols of 9 kinds x instance gaps; up to 240 symbols with default pages; thorough: 4 (5) and 1200",
			"pages":     "1..n records, what fits 504 or 4000 bytes; template replies of 1, 7, 8, 33 bytes or what fits",
			"programs":  "up to 3 (thorough 4) with every gap and name length",
			"members":   "every sequence of up to 3 (thorough 4) of 7 kinds; up to 240 plain ones",
			"refused":   "every page of 5 listings x every status",
			"by design": "system symbols (__ prefix) and module symbols (name with a colon) are not listed",
		},
		MaxProcs:    1,
		QuickBudget: 200 * time.Second, ThoroughBudget: 13 * time.Minute,
	})
}
