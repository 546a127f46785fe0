package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"

	"verifharness/plc"
	"verifharness/vk"
)

// C11: a data table buffer returns the current value of exactly its tags.

var (
	str120 = &plc.UDT{Name: "STR120", Template: 0x0C78, Handle: 0x0C78, Size: 124, Members: []plc.Member{
		{Name: "LEN", Type: 0xC4, Size: 4, Bit: -1}, {Name: "DATA", Type: 0xC2, Size: 1, Off: 4, Dim: 120, Bit: -1}}}
	str20 = &plc.UDT{Name: "STR20", Template: 0x0C14, Handle: 0x0C14, Size: 24, Members: []plc.Member{
		{Name: "LEN", Type: 0xC4, Size: 4, Bit: -1}, {Name: "DATA", Type: 0xC2, Size: 1, Off: 4, Dim: 20, Bit: -1}}}
)

// dtSlot is one thing a buffer can hold: a name and what it addresses.
type dtSlot struct {
	name string
	cip  gologix.CIPType
	tag  *plc.Tag
	off  int
	size int
}

func (s *dtSlot) raw() []byte {
	if s.tag == nil {
		return nil
	}
	return append([]byte(nil), s.tag.Data[s.off:s.off+s.size]...)
}

func (s *dtSlot) val() any {
	if s.cip == gologix.CIPTypeSTRING {
		b := s.raw()
		return string(b[4 : 4+le.Uint32(b)])
	}
	for _, k := range kinds {
		if k.cip == s.cip {
			return k.val(s.raw())
		}
	}
	panic("slot kind")
}

// dtWorld is a controller with tags and everything known about their names.
type dtWorld struct {
	p     *plc.PLC
	slots map[string]*dtSlot
	epoch int
}

func newDTWorld() *dtWorld {
	w := &dtWorld{p: plc.New(), slots: map[string]*dtSlot{}}
	inst := uint32(0x20)
	add := func(name, kn string, dims ...int) *plc.Tag {
		k := kindByName(kn)
		t := w.p.AddTag(k.tag(name, dims...))
		t.Instance = inst
		inst += 0x65
		for i := 0; i < len(t.Data)/k.size; i++ {
			n := name
			switch len(dims) {
			case 1:
				n = fmt.Sprintf("%s[%d]", name, i)
			case 2:
				n = fmt.Sprintf("%s[%d,%d]", name, i/dims[1], i%dims[1])
			}
			w.slots[n] = &dtSlot{n, k.cip, t, i * k.size, k.size}
			if i == 0 && len(dims) > 0 {
				w.slots[name] = &dtSlot{name, k.cip, t, 0, k.size}
			}
		}
		return t
	}
	add("D", "DINT")
	add("I", "INT")
	add("B", "BOOL")
	add("F", "REAL")
	add("A", "DINT", 6)
	add("M", "INT", 2, 3)
	add("S", "STRING")
	add("SA", "STRING", 2)
	for i, u := range []*plc.UDT{str120, str20} {
		t := w.p.AddTag(&plc.Tag{Name: u.Name + "Tag", Instance: uint32(0x900 + i), UDT: u})
		w.slots[t.Name] = &dtSlot{t.Name, gologix.CIPTypeSTRING, t, 0, u.Size}
	}
	w.slots["Nope"] = &dtSlot{name: "Nope", cip: gologix.CIPTypeDINT, size: 4}
	w.tick()
	return w
}

// tick gives every tag a new value.
func (w *dtWorld) tick() {
	w.epoch++
	for _, t := range w.p.Tags {
		switch {
		case t.UDT != nil:
			n := t.UDT.Size
			for o := 0; o < len(t.Data); o += n {
				max := n - 4
				if t.UDT == plc.StringUDT {
					max = 82
				}
				l := (w.epoch*37 + o + int(t.Instance)) % (max + 1)
				if w.epoch%4 == 1 {
					l = max
				}
				le.PutUint32(t.Data[o:], uint32(l))
				for i := 0; i < max; i++ {
					t.Data[o+4+i] = byte(33 + (w.epoch*5+i*3+o+int(t.Instance))%94)
				}
			}
		case t.Type == 0xC1:
			t.Data[0] = byte(w.epoch & 1)
		default:
			for i := range t.Data {
				t.Data[i] = byte(w.epoch*41 + i*7 + int(t.Instance))
			}
			if t.Type == 0xCA { // no NaN
				t.Data[3] &= 0x3F
			}
		}
	}
}

// mTag is one tag of the model buffer.
type mTag struct {
	slot *dtSlot
	ref  any
}

// mBuf is the model of one buffer.
type mBuf struct {
	buf    *gologix.DataTableBuffer
	open   bool
	tags   []mTag
	groups map[string][]string
}

func (m *mBuf) names() []string {
	var r []string
	for _, t := range m.tags {
		r = append(r, t.slot.name)
	}
	sort.Strings(r)
	return r
}

func (m *mBuf) has(name string) bool {
	for _, t := range m.tags {
		if t.slot.name == name {
			return true
		}
	}
	return false
}

// add adds the tags to the model.
func (m *mBuf) add(w *dtWorld, ref any, names ...string) {
	for _, n := range names {
		s := w.slots[n]
		if s == nil {
			panic("no slot " + n)
		}
		m.tags = append(m.tags, mTag{s, ref})
	}
}

// dtStruct is filled by AddTaggedStruct.
type dtInner struct {
	In float32 `gologix:"F"`
}

type dtStruct struct {
	skip int
	V    int32   `gologix:"A[{0}]"`
	Un   int16   // no tag
	L    []int32 `gologix:"A[4]"`
	dtPad
	X int16 `gologix:"M[{0},2]"`
}

type dtPad struct {
	E bool `gologix:"B"`
}

// dtRun is one history.
type dtRun struct {
	c     *vk.C
	w     *dtWorld
	r     *rig
	bufs  []*mBuf
	fault bool // a request may be refused
	used  bool
	hit   bool // the current operation was refused something
	desc  []string
	refs  []dtRef
}

// dtRef is a variable the buffer may write to and what it must hold.
type dtRef struct {
	what string
	ptr  any
	want any
}

func (d *dtRun) fail(key, f string, a ...any) {
	d.c.Fail(key, "%s: %s", strings.Join(d.desc, ", "), fmt.Sprintf(f, a...))
}

func newDTRun(c *vk.C, fault, listed bool) *dtRun {
	d := &dtRun{c: c, w: newDTWorld(), fault: fault}
	if listed {
		d.w.p.Firmware = 33
		d.desc = append(d.desc, "listed")
	}
	d.r = newRig(c, d.w.p)
	d.r.connect(c)
	if listed {
		if err := d.r.cl.ListAllTags(0); err != nil {
			d.fail("list", "ListAllTags: %v", err)
		}
	}
	d.w.p.Override = func(r *plc.Req) *plc.Reply {
		if len(r.Path) < 2 || r.Path[0] != 0x20 || r.Path[1] != 0xB2 {
			return nil
		}
		c.Trans(1)
		if d.fault && !d.used && c.Bool("refuse") {
			d.used, d.hit = true, true
			d.desc = append(d.desc, fmt.Sprintf("(service %#x refused)", r.Service))
			return &plc.Reply{Status: 0x02}
		}
		return nil
	}
	return d
}

func (d *dtRun) newBuf() {
	d.desc = append(d.desc, "new buffer")
	d.hit = false
	b, err := d.r.cl.NewDataTableBuffer()
	if (err != nil) != d.hit {
		d.fail("new", "NewDataTableBuffer gives %v", err)
	}
	if err == nil {
		d.bufs = append(d.bufs, &mBuf{buf: b, open: true, groups: map[string][]string{}})
	}
	d.check()
}

// check compares every buffer with the model and the controller.
func (d *dtRun) check() {
	open := 0
	for i, m := range d.bufs {
		if !m.open {
			continue
		}
		open++
		var got []string
		tags := m.buf.Tags()
		for _, t := range tags {
			got = append(got, t.Name)
		}
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(m.names()) {
			d.fail("tags", "buffer %d has tags %v, expected %v", i, got, m.names())
		}
		pb := d.w.p.Buffers[uint32(m.buf.InstanceID())]
		if pb == nil {
			d.fail("lost", "the controller has no buffer %d", i)
		}
		// Every tag the controller has must be one of the buffer's.
		left := m.names()
		for _, t := range pb.Tags {
			tag, off := d.w.p.Where(t.Segs)
			ok := false
			for _, bt := range tags {
				s := d.w.slots[bt.Name]
				if bt.Index() == t.Index && s.tag == tag && s.off == off && s.size == t.Size {
					ok = true
					if k := sort.SearchStrings(left, bt.Name); k < len(left) && left[k] == bt.Name {
						left = append(left[:k:k], left[k+1:]...)
					} else {
						ok = false
					}
					break
				}
			}
			if !ok {
				d.fail("diverged", "the controller's buffer %d holds %s at index %d with %d bytes, which the client's %s does not", i, plc.SegString(t.Segs), t.Index, t.Size, showTags(tags))
			}
		}
	}
	if open != len(d.w.p.Buffers) {
		d.fail("leak", "the controller has %d buffers, %d are open", len(d.w.p.Buffers), open)
	}
	for _, r := range d.refs {
		if !same(deref(r.ptr), r.want) {
			d.fail("variable", "variable for %s is %v, expected %v", r.what, deref(r.ptr), r.want)
		}
	}
	if len(d.w.p.Problems) > 0 {
		d.fail("protocol:"+problemKind(d.w.p.Problems[0]), "the controller was sent %s", strings.Join(d.w.p.Problems, "; "))
	}
}

func showTags(ts []gologix.DataTableBufferTag) string {
	var r []string
	for _, t := range ts {
		r = append(r, fmt.Sprintf("%s@%d/%d", t.Name, t.Index(), t.DataTypeSize))
	}
	return strings.Join(r, " ")
}

// refer notes a variable the buffer was given.
func (d *dtRun) refer(what string, ptr any) {
	d.refs = append(d.refs, dtRef{what, ptr, deref(ptr)})
}

// readOK performs read kind k (0 ReadAll, 1 ReadAllRaw, 2 ReadAllTyped).
func (d *dtRun) read(m *mBuf, k int) {
	d.w.tick()
	d.hit = false
	var got map[string]any
	var err error
	switch k {
	case 0:
		got, err = m.buf.ReadAll()
	case 1:
		var raw map[string][]byte
		raw, err = m.buf.ReadAllRaw()
		if err == nil {
			got = map[string]any{}
			for n, b := range raw {
				got[n] = b
			}
		}
	case 2:
		var res *gologix.TagGroupResult
		res, err = m.buf.ReadAllTyped()
		if err == nil {
			got = res.Raw()
		}
	}
	if !m.open || len(m.tags) == 0 || m.has("Nope") || d.hit {
		if err == nil {
			d.fail("read-no-error", "read %d succeeds with %v", k, got)
		}
		d.check()
		return
	}
	if err != nil {
		d.fail("read-error", "read %d of %v fails: %v", k, m.names(), err)
	}
	want := map[string]any{}
	for _, t := range m.tags {
		if k == 1 {
			want[t.slot.name] = t.slot.raw()
		} else {
			want[t.slot.name] = t.slot.val()
		}
	}
	if k == 2 {
		flat := want
		want = map[string]any{}
		part := map[string]bool{}
		for base, names := range m.groups {
			if len(names) == 1 {
				want[base] = flat[names[0]]
				part[names[0]] = true
				continue
			}
			var l []any
			for _, n := range names {
				l = append(l, flat[n])
				part[n] = true
			}
			want[base] = l
		}
		for n, v := range flat {
			if !part[n] {
				want[n] = v
			}
		}
	}
	if k != 1 {
		for _, t := range m.tags {
			for i := range d.refs {
				if d.refs[i].ptr == t.ref {
					d.refs[i].want = t.slot.val()
				}
			}
		}
	}
	if fmt.Sprintf("%#v", sortMap(got)) != fmt.Sprintf("%#v", sortMap(want)) {
		d.fail("value", "read %d gives %v, expected %v", k, got, want)
	}
	d.check()
	// everything is on the controller now
	pb := d.w.p.Buffers[uint32(m.buf.InstanceID())]
	if len(pb.Tags) != len(m.tags) {
		d.fail("diverged", "after a read the controller has %d tags, the buffer %d", len(pb.Tags), len(m.tags))
	}
}

func sortMap(m map[string]any) []any {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []any
	for _, k := range ks {
		r = append(r, k, m[k])
	}
	return r
}

// remove removes a tag by name.
func (d *dtRun) remove(m *mBuf, name string) {
	d.desc = append(d.desc, "remove "+name)
	d.hit = false
	err := m.buf.RemoveTag(name)
	if !m.open || !m.has(name) || d.hit {
		if err == nil {
			d.fail("remove-no-error", "RemoveTag(%s) succeeds", name)
		}
		d.check()
		return
	}
	if err != nil {
		d.fail("remove-error", "RemoveTag(%s) fails: %v", name, err)
	}
	for i, t := range m.tags {
		if t.slot.name == name {
			m.tags = append(m.tags[:i:i], m.tags[i+1:]...)
			break
		}
	}
	if !m.has(name) {
		for b, ns := range m.groups {
			for _, n := range ns {
				if n == name {
					delete(m.groups, b)
					break
				}
			}
		}
	}
	d.check()
}

// added is what to do after an add returned.
func (d *dtRun) added(m *mBuf, err error, f func()) {
	if !m.open {
		if err == nil {
			d.fail("add-closed", "adding to a closed buffer succeeds")
		}
		return
	}
	if err != nil {
		d.fail("add-error", "adding fails: %v", err)
	}
	f()
	d.check()
}

// dtOp is one operation of the history.
type dtOp struct {
	name string
	run  func(d *dtRun, m *mBuf)
}

func opAdd(name string) dtOp {
	return dtOp{"add " + name, func(d *dtRun, m *mBuf) {
		d.added(m, m.buf.AddTag(name, d.w.slots[name].cip), func() { m.add(d.w, nil, name) })
	}}
}

func opRead(k int) dtOp {
	return dtOp{[]string{"ReadAll", "ReadAllRaw", "ReadAllTyped"}[k], func(d *dtRun, m *mBuf) { d.read(m, k) }}
}

var dtOps = []dtOp{
	opAdd("D"),
	opAdd("I"),
	opAdd("S"),
	opAdd("Nope"),
	{"add reference D", func(d *dtRun, m *mBuf) {
		v := new(int32)
		*v = 77
		d.added(m, m.buf.AddTagRef("D", v), func() {
			m.add(d.w, v, "D")
			d.refer("D", v)
		})
	}},
	{"AddTags I, A[1]", func(d *dtRun, m *mBuf) {
		d.added(m, m.buf.AddTags(map[string]gologix.CIPType{"I": gologix.CIPTypeINT, "A[1]": gologix.CIPTypeDINT}), func() { m.add(d.w, nil, "I", "A[1]") })
	}},
	{"AddTagGroup", func(d *dtRun, m *mBuf) {
		g := gologix.NewTagGroup(gologix.TagDef{Name: "A[{0}]", Type: gologix.CIPTypeDINT, Elements: 3}, gologix.TagDef{Name: "F", Type: gologix.CIPTypeREAL})
		d.added(m, m.buf.AddTagGroup(g, 1), func() {
			m.add(d.w, nil, "A[1]", "A[2]", "A[3]", "F")
			m.groups["A[1]"] = []string{"A[1]", "A[2]", "A[3]"}
			m.groups["F"] = []string{"F"}
		})
	}},
	{"AddTaggedStruct", func(d *dtRun, m *mBuf) {
		s := &dtStruct{skip: 5, V: 9, Un: 3, L: []int32{-1, -2}, X: 4}
		d.added(m, m.buf.AddTaggedStruct(s, 0), func() {
			m.add(d.w, &s.V, "A[0]")
			m.add(d.w, &s.L[0], "A[4]")
			m.add(d.w, &s.L[1], "A[5]")
			m.add(d.w, &s.E, "B")
			m.add(d.w, &s.X, "M[0,2]")
			m.groups["A[0]"] = []string{"A[0]"}
			m.groups["A[4]"] = []string{"A[4]", "A[5]"}
			m.groups["B"] = []string{"B"}
			m.groups["M[0,2]"] = []string{"M[0,2]"}
			d.refer("V", &s.V)
			d.refer("L[0]", &s.L[0])
			d.refer("L[1]", &s.L[1])
			d.refer("E", &s.E)
			d.refer("X", &s.X)
			d.refer("Un", &s.Un)
			d.refer("skip", &s.skip)
		})
	}},
	{"remove D", func(d *dtRun, m *mBuf) { d.remove(m, "D") }},
	{"remove A[2]", func(d *dtRun, m *mBuf) { d.remove(m, "A[2]") }},
	{"remove Nope", func(d *dtRun, m *mBuf) { d.remove(m, "Nope") }},
	{"remove first", func(d *dtRun, m *mBuf) {
		if len(m.tags) > 0 {
			// by name: the order in which AddTags adds is Go's map order
			d.remove(m, m.names()[0])
		}
	}},
	opRead(0), opRead(1), opRead(2),
	{"SyncTags", func(d *dtRun, m *mBuf) {
		d.hit = false
		err := m.buf.SyncTags()
		if !m.open || m.has("Nope") || d.hit {
			if err == nil {
				d.fail("sync-no-error", "SyncTags succeeds")
			}
			d.check()
			return
		}
		if err != nil {
			d.fail("sync-error", "SyncTags of %v fails: %v", m.names(), err)
		}
		d.check()
		if pb := d.w.p.Buffers[uint32(m.buf.InstanceID())]; len(pb.Tags) != len(m.tags) {
			d.fail("sync-lost", "after SyncTags the controller has %d tags of %v", len(pb.Tags), m.names())
		}
	}},
	{"close", func(d *dtRun, m *mBuf) {
		d.hit = false
		err := m.buf.Close()
		if (err != nil) != (m.open && d.hit) {
			d.fail("close", "Close gives %v", err)
		}
		if err == nil {
			m.open = false
		}
		d.check()
	}},
}

// finish reads and closes what is open with no more faults.
func (d *dtRun) finish() {
	d.fault = false
	for _, m := range d.bufs {
		if m.open {
			for m.has("Nope") {
				d.remove(m, "Nope")
			}
			d.desc = append(d.desc, "final reads")
			for k := 0; k < 3; k++ {
				d.read(m, k)
			}
			opRead(0).run(d, m)
		}
		if err := m.buf.Close(); err != nil {
			d.fail("final-close", "Close fails: %v", err)
		}
		m.open = false
	}
	d.check()
	d.c.Validated()
}

func dtNamed(names ...string) []dtOp {
	var r []dtOp
	for _, n := range names {
		ok := false
		for _, o := range dtOps {
			if o.name == n {
				r, ok = append(r, o), true
			}
		}
		if !ok {
			panic("no op " + n)
		}
	}
	return r
}

// histUnit explores every history of depth operations on one buffer.
func histUnit(name string, ops []dtOp, depth int, listed bool) []vk.Unit {
	return vk.Shard(vk.Unit{Name: fmt.Sprintf("%s, depth %d, listed %v", name, depth, listed), Run: func(c *vk.C) {
		d := newDTRun(c, true, listed)
		for i := 0; i < depth; i++ {
			// every operation works on an open buffer; before there is one, it is made
			if len(d.bufs) == 0 {
				d.newBuf()
				if len(d.bufs) == 0 {
					continue
				}
			}
			m := d.bufs[len(d.bufs)-1]
			op := ops[c.Choose(len(ops), "operation")]
			d.desc = append(d.desc, op.name)
			op.run(d, m)
			c.State(name, listed, d.state())
		}
		c.Distinct(strings.Join(d.desc, ","))
		d.finish()
		c.Sample(func() string { return strings.Join(d.desc, ", ") })
	}}, 24, 3)
}

// state is the model's state.
func (d *dtRun) state() string {
	s := ""
	for _, m := range d.bufs {
		s += fmt.Sprint(m.open, m.names(), len(m.groups))
		if pb := d.w.p.Buffers[uint32(m.buf.InstanceID())]; pb != nil {
			for _, t := range pb.Tags {
				s += fmt.Sprint(" ", t.Index, t.Batch)
			}
		}
	}
	return s
}

// twoUnit interleaves two buffers.
func twoUnit(depth int) []vk.Unit {
	ops := dtNamed("add D", "add S", "add reference D", "remove first", "ReadAll", "close")
	return vk.Shard(vk.Unit{Name: fmt.Sprintf("two buffers, depth %d", depth), Run: func(c *vk.C) {
		d := newDTRun(c, true, false)
		for i := 0; i < depth; i++ {
			if len(d.bufs) < 2 {
				d.newBuf()
				continue
			}
			m := d.bufs[c.Choose(2, "buffer")]
			op := ops[c.Choose(len(ops), "operation")]
			d.desc = append(d.desc, op.name)
			op.run(d, m)
			c.State("two", d.state())
		}
		c.Distinct(strings.Join(d.desc, ","))
		d.finish()
	}}, 16, 3)
}

// kindsUnit adds every kind of tag in every way and reads it.
func kindsUnit() vk.Unit {
	return vk.Unit{Name: "every kind", Run: func(c *vk.C) {
		ki := c.Choose(len(kinds)+2, "kind")
		listed := c.Bool("listed")
		way := c.Choose(4, "way")
		w := newDTWorld()
		var k *kind
		var name string
		custom := ki >= len(kinds)
		if custom {
			k = kindByName("STRING")
			name = []string{"STR120Tag", "STR20Tag"}[ki-len(kinds)]
			if !listed {
				return // its size is not known
			}
		} else {
			k = kinds[ki]
			name = "Tag1[1]"
			w.p.AddTag(k.tag("Tag1", 3)).Instance = 0x7777
		}
		if listed {
			w.p.Firmware = 33
		}
		r := newRig(c, w.p)
		r.connect(c)
		if listed {
			if err := r.cl.ListAllTags(0); err != nil {
				c.Fail("list", "ListAllTags: %v", err)
			}
		}
		b, err := r.cl.NewDataTableBuffer()
		if err != nil {
			c.Fail("new", "%v", err)
		}
		ptr := k.newPtr()
		desc := fmt.Sprintf("%s (%s) added by %d, listed %v", name, k.name, way, listed)
		cip := k.cip
		switch way {
		case 0:
			err = b.AddTag(name, cip)
		case 1:
			err = b.AddTags(map[string]gologix.CIPType{name: cip})
		case 2:
			err = b.AddTagRef(name, ptr)
		case 3:
			err = b.AddTagGroup(gologix.NewTagGroup(gologix.TagDef{Name: name, Type: cip}))
		}
		if err != nil {
			c.Fail("add", "%s: %v", desc, err)
		}
		t := w.p.Tags["tag1"]
		off, size := k.size, k.size
		vals := k.pats
		if custom {
			t, off = w.p.Tags[strings.ToLower(name)], 0
			size = t.Size
			vals = nil
			for n := 0; n <= size-4; n++ {
				v := make([]byte, size)
				le.PutUint32(v, uint32(n))
				for i := 0; i < n; i++ {
					v[4+i] = byte(33 + (i*3+n)%94)
				}
				vals = append(vals, v)
			}
		}
		for _, pat := range vals {
			copy(t.Data[off:], pat)
			var want any
			if k.name == "STRING" {
				want = string(pat[4 : 4+le.Uint32(pat)])
			} else {
				want = k.val(pat)
			}
			c.Trans(1)
			c.Distinct(desc, string(pat))
			got, err := b.ReadAll()
			if err != nil {
				c.Fail("read", "%s holding % x: %v", desc, pat, err)
			}
			if len(got) != 1 || !same(got[name], want) {
				c.Fail("value:"+k.name, "%s holding %v gives %v", desc, want, got)
			}
			if way == 2 && !same(deref(ptr), want) {
				c.Fail("variable:"+k.name, "%s holding %v fills the variable with %v", desc, want, deref(ptr))
			}
			raw, err := b.ReadAllRaw()
			if err != nil || string(raw[name]) != string(pat) {
				c.Fail("raw", "%s holding % x gives % x, %v", desc, pat, raw, err)
			}
			c.Eval(1)
		}
		c.Validated()
		r.problems(c, desc)
	}}
}

// manyUnit adds many tags at once or in two parts.
func manyUnit(tier string) vk.Unit {
	counts := []int{1, 2, 30, 50, 60, 100, 127, 128, 200, 254, 255, 256, 257, 300}
	if tier == "thorough" {
		counts = nil
		for i := 1; i < 420; i++ {
			counts = append(counts, i)
		}
	}
	return vk.Unit{Name: "many tags", Run: func(c *vk.C) {
		large := c.Bool("large")
		n := vk.Pick(c, counts, "tags")
		first := vk.Pick(c, []int{0, 1, n / 2, n - 1}, "synchronised first")
		nameLen := vk.Pick(c, []int{1, 7, 30}, "name")
		kn := vk.Pick(c, []string{"SINT", "INT", "mixed"}, "kind")
		refuse := c.Choose(4, "refuse")
		p := plc.New()
		p.AllowLarge = large
		adds := 0
		p.Override = func(r *plc.Req) *plc.Reply {
			if r.Service == 0x4E {
				adds++
				if adds == refuse {
					return &plc.Reply{Status: 0x02}
				}
			}
			return nil
		}
		r := newRig(c, p)
		r.connect(c)
		b, err := r.cl.NewDataTableBuffer()
		if err != nil {
			c.Fail("new", "%v", err)
		}
		want := map[string]any{}
		total := 2 * n // batch headers
		desc := fmt.Sprintf("%d %s tags with names of %d, %d first, large %v, refused add %d", n, kn, nameLen+3, first, large, refuse)
		for i := 0; i < n; i++ {
			k := kindByName(kn2(kn, i))
			name := fmt.Sprintf("%s%03d", strings.Repeat("n", nameLen), i)
			t := p.AddTag(k.tag(name))
			copy(t.Data, k.pats[(i*3+1)%len(k.pats)])
			want[name] = k.val(t.Data)
			total += k.size
			if err := b.AddTag(name, k.cip); err != nil {
				c.Fail("add", "%s: %v", desc, err)
			}
			if i+1 == first {
				if err := b.SyncTags(); err != nil && refuse == 0 {
					c.Fail("sync", "%s: %v", desc, err)
				}
			}
		}
		room := 490
		if large {
			room = 3990
		}
		if total > room {
			return // its values do not fit one reply
		}
		c.Trans(n)
		c.Distinct(desc)
		c.State(desc)
		got, err := b.ReadAll()
		if refuse > 0 && err != nil {
			got, err = b.ReadAll()
		}
		if err != nil {
			c.Fail("read", "%s: ReadAll fails: %v (%s)", desc, err, strings.Join(p.Problems, "; "))
		}
		r.problems(c, desc)
		if !reflect.DeepEqual(got, want) {
			for k, v := range want {
				if !same(got[k], v) {
					c.Fail("value", "%s: %s is %v, expected %v", desc, k, got[k], v)
				}
			}
			c.Fail("extra", "%s: %d values for %d tags", desc, len(got), len(want))
		}
		// remove every other one
		for i := 0; i < n; i += 2 {
			name := fmt.Sprintf("%s%03d", strings.Repeat("n", nameLen), i)
			if err := b.RemoveTag(name); err != nil {
				c.Fail("remove", "%s: %v", desc, err)
			}
			delete(want, name)
		}
		got, err = b.ReadAll()
		if (err != nil) != (len(want) == 0) {
			c.Fail("read-removed", "%s: ReadAll of the other half gives %v", desc, err)
		}
		if err == nil && !reflect.DeepEqual(got, want) {
			c.Fail("value-removed", "%s: the other half reads %v, expected %v", desc, got, want)
		}
		r.problems(c, desc)
		c.Validated()
	}}
}

func kn2(kn string, i int) string {
	if kn == "mixed" {
		return []string{"DINT", "BOOL", "INT", "SINT", "SINT"}[i%5]
	}
	return kn
}

// badUnit adds what a buffer cannot hold: it must be refused when added or
// read correctly; either way the rest of the buffer stays usable.
func badUnit() vk.Unit {
	type named int32
	type pair struct{ A, B int32 }
	cases := []struct {
		name string
		add  func(b *gologix.DataTableBuffer) error
	}{
		{"reference by value", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("D", int32(4)) }},
		{"reference to a slice", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("A", &[]int32{1, 2}) }},
		{"reference slice", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("A", []int32{1, 2}) }},
		{"reference to a structure", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("D", &pair{}) }},
		{"reference to a named type", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("D", new(named)) }},
		{"nil reference", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("D", (*int32)(nil)) }},
		{"no reference", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("D", nil) }},
		{"unknown type", func(b *gologix.DataTableBuffer) error { return b.AddTag("D", gologix.CIPTypeUnknown) }},
		{"unknown type of several", func(b *gologix.DataTableBuffer) error {
			return b.AddTags(map[string]gologix.CIPType{"D": gologix.CIPTypeUnknown, "I": gologix.CIPTypeINT})
		}},
		{"group with an unknown type", func(b *gologix.DataTableBuffer) error {
			return b.AddTagGroup(gologix.NewTagGroup(gologix.TagDef{Name: "I", Type: gologix.CIPTypeINT}, gologix.TagDef{Name: "A[0]", Type: gologix.CIPTypeUnknown, Elements: 2}))
		}},
		{"bad path", func(b *gologix.DataTableBuffer) error { return b.AddTag("A[x]", gologix.CIPTypeDINT) }},
		{"structure by value", func(b *gologix.DataTableBuffer) error { return b.AddTaggedStruct(dtStruct{}, 0) }},
		{"nil structure", func(b *gologix.DataTableBuffer) error { return b.AddTaggedStruct((*dtStruct)(nil), 0) }},
		{"structure nil", func(b *gologix.DataTableBuffer) error { return b.AddTaggedStruct(nil) }},
		{"structure that is none", func(b *gologix.DataTableBuffer) error { v := 5; return b.AddTaggedStruct(&v) }},
		{"structure with an unexported field", func(b *gologix.DataTableBuffer) error {
			return b.AddTaggedStruct(&struct {
				G int16 `gologix:"I"`
				v int32 `gologix:"D"`
			}{})
		}},
		{"structure with a structure", func(b *gologix.DataTableBuffer) error {
			return b.AddTaggedStruct(&struct {
				G int16 `gologix:"I"`
				P pair  `gologix:"D"`
			}{})
		}},
		{"structure with an empty slice", func(b *gologix.DataTableBuffer) error {
			return b.AddTaggedStruct(&struct {
				G int16   `gologix:"I"`
				P []int32 `gologix:"A[0]"`
			}{})
		}},
		{"structure with a nil embedded structure", func(b *gologix.DataTableBuffer) error {
			return b.AddTaggedStruct(&struct {
				G int16 `gologix:"I"`
				*dtInner
			}{})
		}},
		{"bit", func(b *gologix.DataTableBuffer) error { return b.AddTag("D.3", gologix.CIPTypeBOOL) }},
		{"bit reference", func(b *gologix.DataTableBuffer) error { return b.AddTagRef("D.3", new(bool)) }},
		{"bits", func(b *gologix.DataTableBuffer) error {
			return b.AddTags(map[string]gologix.CIPType{"D.3": gologix.CIPTypeBOOL})
		}},
		{"negative count group", func(b *gologix.DataTableBuffer) error {
			return b.AddTagGroup(gologix.NewTagGroup(gologix.TagDef{Name: "I", Type: gologix.CIPTypeINT, Elements: -3}))
		}},
	}
	return vk.Unit{Name: "what a buffer cannot hold", Run: func(c *vk.C) {
		cs := cases[c.Choose(len(cases), "case")]
		when := c.Choose(3, "when") // first, after an unsynchronised tag, after a read
		listed := c.Bool("listed")
		d := newDTRun(c, false, listed)
		d.newBuf()
		m := d.bufs[0]
		if when > 0 {
			opAdd("D").run(d, m)
		}
		if when > 1 {
			d.read(m, 0)
		}
		d.desc = append(d.desc, cs.name)
		c.Distinct(cs.name, when, listed)
		c.State(cs.name, when)
		err := cs.add(m.buf)
		if err == nil {
			// accepted: it must be readable and right
			for _, t := range m.buf.Tags()[len(m.tags):] {
				if s := d.w.slots[t.Name]; s != nil {
					m.tags = append(m.tags, mTag{slot: s})
				} else if strings.HasPrefix(t.Name, "D.") {
					d.w.tick()
					got, err := m.buf.ReadAll()
					if want := d.w.p.Tags["d"].Data[0]&8 != 0; err != nil || got[t.Name] != want {
						d.fail("bit", "bit 3 of % x reads %v (%v)", d.w.p.Tags["d"].Data, got, err)
					}
					return
				} else {
					d.fail("odd", "it added %q", t.Name)
				}
			}
		}
		if len(m.tags) == 0 {
			opAdd("S").run(d, m)
		}
		d.read(m, 0)
		d.read(m, 1)
		got, err := m.buf.ReadAllTyped()
		if err != nil {
			d.fail("typed", "ReadAllTyped fails: %v", err)
		}
		_ = got
		opAdd("I").run(d, m)
		d.read(m, 0)
		d.check()
		c.Validated()
	}}
}

// structUnit adds tagged structures of several shapes, several times.
func structUnit() vk.Unit {
	type one struct {
		L []int32 `gologix:"A[2]"`
	}
	type arr struct {
		L []int32 `gologix:"A"`
		S string  `gologix:"S"`
	}
	type deep struct {
		N int16 // no tag
		dtInner
		*dtPad
		D int32 `gologix:"D"`
	}
	type par struct {
		X int16 `gologix:"M[{0},{1}]"`
		Y int16 `gologix:"M[{1},{0}]"`
	}
	return vk.Unit{Name: "tagged structures", Run: func(c *vk.C) {
		n := 1 + c.Choose(3, "how many")
		d := newDTRun(c, false, c.Bool("listed"))
		d.newBuf()
		m := d.bufs[0]
		for i := 0; i < n; i++ {
			s := c.Choose(6, "structure")
			d.desc = append(d.desc, fmt.Sprint("structure ", s))
			var err error
			put := func(name string, ptr any) {
				m.add(d.w, ptr, name)
				d.refer(fmt.Sprintf("%s of %d", name, i), ptr)
				m.groups[name] = []string{name}
			}
			switch s {
			case 0:
				v := &one{L: []int32{9}}
				err = m.buf.AddTaggedStruct(v)
				put("A[2]", &v.L[0])
			case 1:
				v := &arr{L: []int32{9, 8, 7}, S: "x"}
				err = m.buf.AddTaggedStruct(v)
				for k := range v.L {
					m.add(d.w, &v.L[k], fmt.Sprintf("A[%d]", k))
					d.refer(fmt.Sprintf("A[%d] of %d", k, i), &v.L[k])
				}
				m.groups["A"] = []string{"A[0]", "A[1]", "A[2]"}
				put("S", &v.S)
			case 2:
				v := &deep{N: 3, dtPad: &dtPad{}}
				err = m.buf.AddTaggedStruct(v)
				put("F", &v.In)
				put("B", &v.E)
				put("D", &v.D)
				d.refer("N", &v.N)
			case 3:
				v := &par{}
				err = m.buf.AddTaggedStruct(v, 0, 1)
				put("M[0,1]", &v.X)
				put("M[1,0]", &v.Y)
			case 4:
				v := new(int32)
				err = m.buf.AddTagRef("D", v)
				m.add(d.w, v, "D")
				d.refer("D", v)
			case 5:
				v := &struct {
					D int32 `gologix:"D"`
				}{-4}
				err = m.buf.AddTaggedStruct(v)
				put("D", &v.D)
			}
			if err != nil {
				d.fail("add-struct", "adding fails: %v", err)
			}
			if c.Bool("read") {
				d.read(m, 2*c.Choose(2, "how"))
			}
		}
		c.Distinct(strings.Join(d.desc, ","))
		c.State(d.state())
		d.finish()
	}}
}

func c11Units(tier string) []vk.Unit {
	deep := 4
	if tier == "thorough" {
		deep = 5
	}
	var us []vk.Unit
	us = append(us, histUnit("all operations", dtOps, deep, false)...)
	us = append(us, histUnit("all operations", dtOps, deep-1, true)...)
	us = append(us, histUnit("few operations", dtNamed("add D", "add I", "add Nope", "remove D", "remove first", "ReadAll"), deep+2, false)...)
	us = append(us, twoUnit(deep+2)...)
	us = append(us, kindsUnit(), manyUnit(tier), badUnit(), structUnit())
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "C11", Level: "model_checking",
		Rule:        "every history of up to n operations (add, add reference, several, group, tagged structure, remove, the three reads, synchronise, close) on one and on two buffers, with at most one controller request refused at every place; every kind of tag added in every way with every value pattern; buffers of up to hundreds of tags whose additions need several requests; what cannot be added. After every operation the buffer, the controller's buffer and every referenced variable are compared with a model",
		Units:       c11Units,
		Bounds:      map[string]any{"quick": "histories of 4 over 17 operations, 6 over 6", "thorough": "histories of 5 over 17, 7 over 6"},
		Assumptions: []string{"the controller numbers a buffer's tags in the order they were added and never reuses a number", "the reply carries one header per add request that still has tags", "a refused add request adds none of its tags", "the order in which AddTags takes the tags from a map is Go's; every oracle is independent of it"},
		QuickBudget: 250 * time.Second, ThoroughBudget: 840 * time.Second,
	})
}
