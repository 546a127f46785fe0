package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/vk"
)

// s08Tag is a tag of the population: n is -1 for a scalar.
type s08Tag struct {
	name string
	k    *kind
	n    int
	v    [][]byte
}

func (t s08Tag) count() int { return max(t.n, 1) }

func (t s08Tag) String() string {
	n := t.name
	if len(n) > 20 {
		n = fmt.Sprintf("%s...(%d)", n[:16], len(n))
	}
	if t.n < 0 {
		return n + ":" + t.k.name
	}
	return fmt.Sprintf("%s:%s[%d]", n, t.k.name, t.n)
}

type s08 struct {
	*s07
	m    *gologix.MapTagProvider
	tags []s08Tag // in the order of their instances
}

// newS08 makes a server with some tags.  Every value of every tag is its own.
func newS08(c *vk.C, firmware int, tags []s08Tag) *s08 {
	s := &s08{m: &gologix.MapTagProvider{Data: map[string]any{}}, tags: tags}
	s.s07 = &s07{}
	s.srvRig = newSrvRig(c, map[string]gologix.CIPEndpoint{string(route): s.m})
	s.srv.Attributes[4] = int16(0x0100 | firmware)
	sort.Slice(s.tags, func(i, j int) bool { return s.tags[i].name < s.tags[j].name })
	for i := range s.tags {
		t := &s.tags[i]
		t.v = nil
		for e := 0; e < t.count(); e++ {
			t.v = append(t.v, s08Value(t.k, i, e, 0))
		}
		s.m.Data[t.name] = t.value()
	}
	s.log = []string{fmt.Sprint(s.tags)}
	if len(s.tags) > 12 {
		s.log = []string{fmt.Sprintf("%d tags %v ... %v", len(tags), s.tags[0], s.tags[len(tags)-1])}
	}
	return s
}

// s08Value is the value of an element.
func s08Value(k *kind, tag, elem, gen int) []byte {
	switch k.name {
	case "BOOL":
		return []byte{byte(tag+elem+gen) & 1}
	case "STRING":
		b := make([]byte, 88)
		copy(b[4:], fmt.Sprintf("s%d.%d.%d", tag, elem, gen))
		b[0] = byte(bytes.IndexByte(b[4:], 0))
		return b
	case "REAL":
		return le.AppendUint32(nil, 0x3F800000+uint32(tag*256+elem+gen*65536))
	case "LREAL":
		return le.AppendUint64(nil, 0x3FF0000000000000+uint64(tag*256+elem+gen*65536))
	}
	b := le.AppendUint64(nil, uint64(tag*7+elem*3+gen*101+1)&0x7F|uint64(tag*256+elem)<<8)
	return b[:k.size]
}

// value is the Go value of a tag.
func (t *s08Tag) value() any {
	if t.n < 0 {
		return t.k.val(t.v[0])
	}
	out := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(t.k.zero)), t.n, t.n)
	for i := range t.v {
		if i < t.n {
			out.Index(i).Set(reflect.ValueOf(t.k.val(t.v[i])))
		}
	}
	return out.Interface()
}

// typ is the symbol type: the type code and the number of dimensions.
func (t *s08Tag) typeOK(typ uint16) bool {
	dims := uint16(0)
	if t.n >= 0 {
		dims = 1
	}
	if typ>>13&3 != dims || typ&0x9F00 != 0 {
		return false
	}
	if t.k.name == "STRING" {
		return typ&0xFF == 0xFF
	}
	_, ok := t.k.typeMatches([]byte{byte(typ), 0})
	return ok
}

// list is a raw listing: from an instance, some attributes, all of its pages.
func (s *s08) list(class int, width int, from uint32, attrs []int) (recs map[uint32][]byte, order []uint32, pages int, m mreply) {
	recs = map[uint32][]byte{}
	for {
		p := []byte{0x20, byte(class)}
		switch {
		case width == 1 && from < 256:
			p = append(p, 0x24, byte(from))
		case width <= 2 && from < 65536:
			p = append(append(p, 0x25, 0), w16(int(from))...)
		default:
			p = append(append(p, 0x26, 0), w32(from)...)
		}
		req := w16(len(attrs))
		for _, a := range attrs {
			req = append(req, w16(a)...)
		}
		m = s.conn().ud(creq(0x55, p, req))
		pages++
		s.c.Trans(1)
		if m.status != 0 && m.status != 6 {
			return
		}
		if len(m.data) > 500 {
			s.fail("page-size", "a page of the list from instance %d has %d bytes, more than the connection's size", from, len(m.data))
		}
		b := m.data
		n := 0
		for len(b) > 0 {
			if len(b) < 4 {
				s.fail("list-format", "the list from instance %d ends with % x", from, b)
			}
			id := le.Uint32(b)
			at := 4
			for _, a := range attrs {
				l := 0
				switch a {
				case 1:
					l = 2
					if at+2 <= len(b) {
						l += int(le.Uint16(b[at:]))
					}
				case 2:
					l = 2
				case 8:
					l = 12
				}
				at += l
			}
			if at > len(b) {
				s.fail("list-format", "the list from instance %d with attributes %v ends with % x", from, attrs, b)
			}
			if _, ok := recs[id]; ok || id < from || len(order) > 0 && id <= order[len(order)-1] {
				s.fail("list-order", "instance %d follows %v in the list from %d", id, order, from)
			}
			recs[id] = b[4:at]
			order = append(order, id)
			b = b[at:]
			n++
		}
		if m.status == 0 {
			return
		}
		if n == 0 {
			s.fail("list-stuck", "the list from instance %d goes on without an instance", from)
		}
		from = order[len(order)-1] + 1
	}
}

// checkList lists and compares with the population.
func (s *s08) checkList(width int, from uint32, attrs []int) {
	recs, order, _, m := s.list(0x6B, width, from, attrs)
	if m.status != 0 {
		s.fail("list-refused", "the list of attributes %v from instance %d is refused: %v", attrs, from, m)
	}
	first := int(max(from, 1))
	want := max(len(s.tags)-first+1, 0)
	if len(order) != want {
		s.fail("list-count", "the list from instance %d has %d of %d instances: %v", from, len(order), want, order)
	}
	for i, id := range order {
		if int(id) != first+i {
			s.fail("list-instances", "the list from instance %d has instances %v", from, order)
		}
		t := &s.tags[id-1]
		b := recs[id]
		for _, a := range attrs {
			switch a {
			case 1:
				n := int(le.Uint16(b))
				if string(b[2:2+n]) != t.name {
					s.fail("list-name", "instance %d is listed as %q, it is %v", id, b[2:2+n], t)
				}
				b = b[2+n:]
			case 2:
				if !t.typeOK(le.Uint16(b)) {
					s.fail("list-type", "instance %d (%v) is listed with type %#x", id, t, le.Uint16(b))
				}
				b = b[2:]
			case 8:
				if int(le.Uint32(b)) != max(t.n, 0) || le.Uint32(b[4:]) != 0 || le.Uint32(b[8:]) != 0 {
					s.fail("list-dims", "instance %d (%v) is listed with dimensions % x", id, t, b[:12])
				}
				b = b[12:]
			}
		}
	}
}

// checkClient lists with the client and reads what it lists.
func (s *s08) checkClient() {
	cl := s.client()
	if err := cl.ListAllTags(0); err != nil {
		s.fail("client-list", "ListAllTags: %v", err)
	}
	listed := 0
	for i := range s.tags {
		t := &s.tags[i]
		if t.name == "" || strings.HasPrefix(t.name, "__") || strings.Contains(t.name, ":") {
			continue // the client leaves these out
		}
		listed++
		kt, ok := cl.KnownTags[strings.ToLower(t.name)]
		if !ok || kt.Name != t.name || int(kt.Instance) != i+1 {
			s.fail("client-tag", "ListAllTags has %+v for instance %d, %v", kt, i+1, t)
		}
		if !t.typeOK(uint16(kt.Info.Type) | uint16(kt.Info.TypeInfo)<<8) {
			s.fail("client-type", "ListAllTags has type %v (%#x) for %v", kt.Info.Type, kt.Info.TypeInfo, t)
		}
		dims := []int{}
		if t.n > 0 {
			dims = append(dims, t.n)
		}
		if !reflect.DeepEqual(kt.Array_Order, dims) {
			s.fail("client-dims", "ListAllTags has dimensions %v for %v", kt.Array_Order, t)
		}
		if t.n == 0 {
			continue
		}
		got, err := cl.Read_single(t.name, t.k.cip, uint16(t.count()))
		s.c.Trans(1)
		if err != nil {
			s.fail("client-read", "%v is listed but reading it gives %v", t, err)
		}
		if !s08Same(t, got) {
			s.fail("client-value", "reading %v after it was listed gives %v, it is %v", t, got, s.m.Data[t.name])
		}
	}
	if len(cl.KnownTags) != listed {
		s.fail("client-extra", "ListAllTags has %d tags of %d", len(cl.KnownTags), listed)
	}
}

// s08Same compares a value that Read_single gave with a tag.
func s08Same(t *s08Tag, got any) bool {
	if t.k.name == "STRING" {
		return true // Read_single gives strings as bytes of their structure
	}
	v := reflect.ValueOf(got)
	if t.count() == 1 && v.Kind() != reflect.Slice {
		return same(got, t.k.val(t.v[0]))
	}
	if v.Kind() != reflect.Slice || v.Len() != t.count() {
		return false
	}
	for i := range t.v {
		e := v.Index(i).Interface()
		if !same(e, t.k.val(t.v[i])) {
			return false
		}
	}
	return true
}

// instPath addresses an instance of the symbol class.
func instPath(n, width int) []byte {
	switch {
	case width == 1 && n < 256:
		return []byte{0x20, 0x6B, 0x24, byte(n)}
	case width <= 2 && n < 65536:
		return append([]byte{0x20, 0x6B, 0x25, 0}, w16(n)...)
	}
	return append([]byte{0x20, 0x6B, 0x26, 0}, w32(uint32(n))...)
}

// holds fails when a tag does not have the model's value.
func (s *s08) holds(how string) {
	for i := range s.tags {
		t := &s.tags[i]
		s.m.Mutex.Lock()
		v := s.m.Data[t.name]
		n := len(s.m.Data)
		s.m.Mutex.Unlock()
		if !same(v, t.value()) || n != len(s.tags) {
			s.fail("effect:"+how, "%s leaves %v with %v instead of %v (%d tags)", how, t, v, t.value(), n)
		}
	}
}

// checkInstances addresses every tag by its instance.
func (s *s08) checkInstances(width int) {
	k := s.conn()
	for i := range s.tags {
		t := &s.tags[i]
		if t.n == 0 {
			continue
		}
		p := instPath(i+1, width)
		expect := func(how string, m mreply, v [][]byte) {
			s.c.Trans(1)
			data, ok := t.k.typeMatches(m.data)
			if m.status != 0 || !ok || !bytes.Equal(data, bytes.Join(v, nil)) {
				s.fail("instance-read:"+how, "%s of instance %d (%v) is answered with %v, it is % x", how, i+1, t, m, bytes.Join(v, nil))
			}
		}
		expect("read", k.ud(creq(0x4C, p, w16(t.count()))), t.v)
		expect("routed read", s.peer().rr(ucsend(route, creq(0x4C, p, w16(t.count())))), t.v)
		expect("fragmented read", k.ud(creq(0x52, p, w16(t.count()), w32(0))), t.v)
		m := k.ud(multiReq(creq(0x4C, p, w16(t.count()))))
		if m.status != 0 || len(m.data) < 8 {
			s.fail("instance-read:multi", "a multi service read of instance %d (%v) is answered with %v", i+1, t, m)
		}
		sm, err := parseMR(m.data[4:])
		if err != nil {
			s.fail("instance-read:multi", "a multi service read of instance %d (%v): %v", i+1, t, err)
		}
		expect("multi service read", sm, t.v)
		if t.n >= 0 {
			for e := range t.v {
				expect("element read", k.ud(creq(0x4C, cat(p, idx(e)), w16(1))), t.v[e:e+1])
			}
		}
		// writes in turn
		head := []byte{byte(t.k.code), 0}
		if t.k.name == "STRING" {
			head = []byte{0xA0, 2, 0xCE, 0x0F}
		}
		gen := 0
		write := func(how string, do func(req []byte) mreply, e int) {
			gen++
			at, p2 := 0, p
			if e >= 0 {
				at, p2 = e, cat(p, idx(e))
			}
			v := s08Value(t.k, i, at, gen)
			m := do(creq(0x4D, p2, head, w16(1), v))
			s.c.Trans(1)
			if m.status != 0 {
				s.fail("instance-write:"+how, "%s of instance %d (%v) is refused: %v", how, i+1, t, m)
			}
			t.v[at] = v
			s.holds(how + " of an instance")
		}
		write("write", k.ud, -1)
		write("routed write", func(b []byte) mreply { return s.peer().rr(ucsend(route, b)) }, -1)
		write("multi service write", func(b []byte) mreply {
			m := k.ud(multiReq(b))
			if len(m.data) < 8 {
				return m
			}
			sm, err := parseMR(m.data[4:])
			if err != nil {
				s.fail("instance-write:multi", "%v: %v", m, err)
			}
			return sm
		}, -1)
		if t.n > 1 {
			write("element write", k.ud, t.n-1)
		}
		// the custom class numbers its instances alike
		g := cat([]byte{0x20, 0xC8}, p[2:], []byte{0x30, 1})
		for how, do := range []func([]byte) mreply{s.peer().rr, func(b []byte) mreply { return s.peer().rr(ucsend(route, b)) }} {
			expect(fmt.Sprint("attribute read ", how), do(creq(0x0E, g)), t.v[:1])
			if t.k.name != "BOOL" || true {
				gen++
				v := s08Value(t.k, i, 0, gen)
				m := do(creq(0x10, g, head, w16(1), v))
				if m.status != 0 {
					s.fail("attribute-write", "a write of instance %d of class 0xC8 (%v) is refused: %v", i+1, t, m)
				}
				t.v[0] = v
				s.holds("attribute write of an instance")
			}
		}
	}
	// there is nothing beyond
	for _, n := range []int{0, len(s.tags) + 1, 256 + len(s.tags), 65536, 65537} {
		p := instPath(n, width)
		if n > 0 && n <= len(s.tags) {
			continue
		}
		for how, m := range []mreply{
			k.ud(creq(0x4C, p, w16(1))),
			s.peer().rr(ucsend(route, creq(0x4C, p, w16(1)))),
			k.ud(creq(0x4D, p, []byte{0xC4, 0, 1, 0, 9, 9, 9, 9})),
			s.peer().rr(creq(0x0E, cat([]byte{0x20, 0xC8}, p[2:], []byte{0x30, 1}))),
			s.peer().rr(creq(0x10, cat([]byte{0x20, 0xC8}, p[2:], []byte{0x30, 1}), []byte{0xC4, 0, 1, 0, 9, 9, 9, 9})),
		} {
			if m.status == 0 {
				s.fail("beyond", "instance %d of %d is answered with %v (way %d)", n, len(s.tags), m, how)
			}
		}
		s.holds("a refused request")
	}
}

var s08Names = []string{"alpha", "Beta", "gamma_1", "a", "Z9", "udt.member", "lit[3]"}

// s08Shapes are the shapes of tags: every type as a scalar and as arrays.
func s08Shapes() []s08Tag {
	var r []s08Tag
	for _, k := range kinds {
		if k.name == "USINT" || k.name == "ULINT" || k.name == "WORD" || k.name == "DWORD" {
			continue // the Go types have other type codes
		}
		for _, n := range []int{-1, 1, 3} {
			if k.name == "BOOL" && n >= 0 {
				continue // the client reads these in words
			}
			r = append(r, s08Tag{k: k, n: n})
		}
	}
	return r
}

func (s *s08) all(width int) {
	for _, attrs := range [][]int{{1, 2}, {1, 2, 8}, {2, 1}, {8, 1, 2}, {1}, {2}, {8}, {}} {
		for from := uint32(0); from <= uint32(len(s.tags))+1; from++ {
			if len(s.tags) > 8 && from > 2 && from != uint32(len(s.tags)) && from != 256 && from != 257 {
				continue
			}
			s.checkList(width, from, attrs)
		}
	}
	s.c.State(fmt.Sprint(s.tags), width)
	s.checkClient()
	s.checkInstances(width)
}

// s08Small has every population of up to n tags over all shapes.
func s08Small(n int) vk.Unit {
	shapes := s08Shapes()
	return vk.Unit{Name: fmt.Sprint("population of ", n), Run: func(c *vk.C) {
		var tags []s08Tag
		first := c.Choose(len(s08Names), "name")
		for i := 0; i < n; i++ {
			t := shapes[c.Choose(len(shapes), "shape")]
			t.name = s08Names[(first+i*2)%len(s08Names)]
			if t.n >= 0 {
				t.name = strings.Trim(strings.ReplaceAll(t.name, "[", "_"), "]") // that would be an index of the array
			}
			tags = append(tags, t)
		}
		fw := vk.Pick(c, []int{18, 33}, "firmware")
		s := newS08(c, fw, tags)
		s.all(1 + c.Choose(3, "width"))
		c.Distinct(fmt.Sprint(s.tags), fw)
		c.Validated()
		c.Sample(func() string { return fmt.Sprint(s.tags) })
	}}
}

// s08Lengths has names of every length, so that a page ends at every place.
func s08Lengths() vk.Unit {
	return vk.Unit{Name: "name lengths", Run: func(c *vk.C) {
		n := 1 + c.Choose(255, "length")
		q := vk.Pick(c, []int{2, 5, 9}, "tags")
		var tags []s08Tag
		for i := 0; i < q; i++ {
			l := n
			if i == 0 {
				l = 1 + (n*37)%255
			}
			name := fmt.Sprintf("%c%s", 'b'+i, strings.Repeat("x", 255))[:l]
			tags = append(tags, s08Tag{name: name, k: kindByName("DINT"), n: -1 + 3*(i%2)})
		}
		s := newS08(c, 18, tags)
		for _, attrs := range [][]int{{1, 2}, {1, 2, 8}, {1}} {
			for from := uint32(0); from <= uint32(q)+1; from++ {
				s.checkList(1, from, attrs)
			}
		}
		s.checkClient()
		c.Distinct(n, q)
		c.Validated()
	}}
}

// s08Large has many tags.
func s08Large() vk.Unit {
	return vk.Unit{Name: "many tags", Run: func(c *vk.C) {
		n := vk.Pick(c, []int{20, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 60, 100, 254, 255, 256, 257, 300, 600}, "tags")
		var tags []s08Tag
		ks := []string{"DINT", "REAL", "INT", "LINT"}
		for i := 0; i < n; i++ {
			tags = append(tags, s08Tag{name: fmt.Sprintf("tag%04d", n-1-i), k: kindByName(ks[i%4]), n: []int{-1, 2}[i%2]})
		}
		fw := vk.Pick(c, []int{18, 33}, "firmware")
		s := newS08(c, fw, tags)
		s.all(1)
		c.Distinct(n, fw)
		c.Validated()
	}}
}

// s08History lists again after tags were added by requests.
func s08History() vk.Unit {
	return vk.Unit{Name: "added tags", Run: func(c *vk.C) {
		k := kindByName("DINT")
		s := newS08(c, 33, []s08Tag{{name: "mm", k: k, n: -1}, {name: "pp", k: k, n: 2}})
		for i := 0; i < 3; i++ {
			switch c.Choose(3, "do") {
			case 0:
				s.checkClient()
			case 1:
				s.checkList(1, 0, []int{1, 2, 8})
			case 2:
				name := vk.Pick(c, []string{"aa", "nn", "zz", "mm"}, "name")
				v := s08Value(k, 50+i, 0, i)
				m := s.conn().ud(creq(0x4D, sym(name), []byte{0xC4, 0, 1, 0}, v))
				if m.status != 0 {
					s.fail("write", "%v", m)
				}
				found := false
				for j := range s.tags {
					if s.tags[j].name == name {
						s.tags[j].v[0] = v
						found = true
					}
				}
				if !found {
					s.tags = append(s.tags, s08Tag{name, k, -1, [][]byte{v}})
				}
				sort.Slice(s.tags, func(i, j int) bool { return s.tags[i].name < s.tags[j].name })
				s.log = append(s.log, "write "+name)
			}
		}
		s.all(1)
		c.Distinct(fmt.Sprint(s.log))
		c.Validated()
	}}
}

// s08Refused asks for what is not there.
func s08Refused() vk.Unit {
	return vk.Unit{Name: "refused", Run: func(c *vk.C) {
		s := newS08(c, 18, []s08Tag{{name: "mm", k: kindByName("DINT"), n: -1}})
		class := vk.Pick(c, []int{0x6B, 0x68, 0x64, 0x6C, 1, 0xC8, 0xAC}, "class")
		attrs := vk.Pick(c, [][]int{{1, 2}, {28}, {1, 2, 99}, {3}, {0}, {1, 7}}, "attributes")
		_, _, _, m := s.list(class, 1, 0, attrs)
		ok := class == 0x6B && len(attrs) == 2 && attrs[1] == 2
		if ok != (m.status == 0) {
			s.fail("refused", "the list of class %#x attributes %v is answered with %v", class, attrs, m)
		}
		for how, m := range []mreply{
			s.conn().ud(creq(0x4C, cls(class, 1), w16(1))),
			s.peer().rr(ucsend(route, creq(0x4C, cls(class, 1), w16(1)))),
			s.conn().ud(creq(0x4C, cat(sym("program:x"), cls(0x6B, 1)), w16(1))),
		} {
			if (class == 0x6B && how < 2) != (m.status == 0) {
				s.fail("refused", "a read of instance 1 of class %#x is answered with %v (way %d)", class, m, how)
			}
		}
		s.holds("a refused request")
		c.Distinct(class, attrs)
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "S08", Level: "model_checking",
		Rule: "A real server with every population of up to two (thorough: three) tags over every type as scalar and as arrays, names of every length, and up to 600 tags: the symbol list is requested from every instance with every combination of attributes over all of its pages and must name each tag once, in order, with its type and dimensions, in replies that fit the connection; the real client's ListAllTags must give the same and every listed tag must be readable through it (with and without instance addressing); every instance is then read and written by number in every way (connected, routed, fragmented, multi service, elements, class 0xC8) in every width and the provider compared with a model; instances and attributes that do not exist are refused. A case is non-trivial when it has a distinct population.",
		Units: func(tier string) []vk.Unit {
			us := []vk.Unit{s08Refused(), s08History()}
			us = append(us, vk.Shard(s08Small(1), 4, 2)...)
			us = append(us, vk.Shard(s08Small(2), 24, 3)...)
			us = append(us, vk.Shard(s08Lengths(), 16, 2)...)
			us = append(us, vk.Shard(s08Large(), 16, 2)...)
			if tier == "thorough" {
				us = append(us, vk.Shard(s08Small(3), 64, 3)...)
			}
			return us
		},
		Bounds:      map[string]any{"tags": "2 (3 thorough) over all shapes, 600 in all", "name_length": 255, "array": 3},
		Assumptions: []string{"names differ by more than case and fit a symbol segment", "tags of programs are not listed by this server"},
		QuickBudget: 200 * time.Second, ThoroughBudget: 13 * time.Minute,
	})
}
