package checks

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
)

// s07ID is an identity.
type s07ID struct {
	v      [5]uint16 // vendor, device type, product code, revision, status
	serial uint32
	name   string
}

func (i s07ID) String() string {
	n := i.name
	if len(n) > 12 {
		n = n[:12] + "..."
	}
	return fmt.Sprintf("%#04x serial %#x name %q (%d)", i.v, i.serial, n, len(i.name))
}

func (i s07ID) short() string {
	if len(i.name) > 255 {
		return i.name[:255]
	}
	return i.name
}

// attr is the encoding of one attribute.
func (i s07ID) attr(a int) []byte {
	switch {
	case a <= 5:
		return w16(int(i.v[a-1]))
	case a == 6:
		return w32(i.serial)
	}
	return append([]byte{byte(len(i.short()))}, i.short()...)
}

func (i s07ID) all() []byte {
	var b []byte
	for a := 1; a <= 7; a++ {
		b = append(b, i.attr(a)...)
	}
	return b
}

type s07 struct {
	*srvRig
	id  s07ID
	p   *peer
	k   *pconn
	cl  *gologix.Client
	log []string
}

func newS07(c *vk.C) *s07 {
	s := &s07{}
	s.srvRig = newSrvRig(c, map[string]gologix.CIPEndpoint{string(route): &gologix.MapTagProvider{Data: map[string]any{"t": int32(1)}}})
	s.set(s07ID{v: [5]uint16{0x1234, 0x5678, 0x9ABC, 0xDEF0, 0x1324}, serial: 0x89674523, name: "some device"})
	return s
}

func (s *s07) set(id s07ID) {
	s.id = id
	for a, v := range id.v {
		s.srv.Attributes[gologix.CIPAttribute(a+1)] = int16(v)
	}
	s.srv.Attributes[6] = id.serial
	s.srv.Attributes[7] = id.name
	s.c.State(fmt.Sprint(id.v, id.serial), id.name)
	s.c.Validated()
	s.log = append(s.log, "set "+id.String())
}

func (s *s07) peer() *peer {
	if s.p == nil {
		s.p = s.srvRig.peer()
		s.p.register()
	}
	return s.p
}

func (s *s07) conn() *pconn {
	if s.k == nil {
		s.k = s.peer().open(s02Conn)
	}
	return s.k
}

func (s *s07) client() *gologix.Client {
	if s.cl == nil {
		s.cl = gologix.NewClient("10.0.0.1")
		s.cl.SocketTimeout = time.Second
		s.cl.KeepAliveAutoStart = false
		if err := s.cl.Connect(); err != nil {
			s.c.Fail("connect", "a client can't connect to the server: %v", err)
		}
	}
	return s.cl
}

func (s *s07) fail(key, format string, a ...any) {
	l := s.log
	if len(l) > 6 {
		l = l[len(l)-6:]
	}
	s.c.Fail(key, "after %v: %s", l, fmt.Sprintf(format, a...))
}

// same compares the data of a reply.
func (s *s07) same(form string, m mreply, want []byte) {
	if m.status != 0 {
		s.fail("refused:"+form, "%s is refused: %v", form, m)
	}
	if !bytes.Equal(m.data, want) {
		s.fail("differs:"+form, "%s reports\n% x, the identity is\n% x", form, m.data, want)
	}
}

// listIdentity decodes a ListIdentity reply.
func (s *s07) listIdentity(form string, p *peer) {
	ctx := p.nextCtx()
	fs := p.call(plc.EncapFrame(0x63, p.session, 0, ctx, nil))
	if len(fs) != 1 || fs[0].cmd != 0x63 || fs[0].status != 0 || !bytes.Equal(fs[0].ctx, ctx) {
		s.fail("list-identity", "%s is answered with %+v", form, fs)
	}
	it, err := plc.ParseItems(fs[0].body)
	if err != nil || len(it) != 1 || it[0].ID != 0x0C {
		s.fail("list-identity", "%s has items %v (%v)", form, it, err)
	}
	b := it[0].Data
	if len(b) < 18 || !bytes.Equal(b[:18], []byte{1, 0, 0, 2, 0xAF, 0x12, 10, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}) {
		s.fail("list-identity", "%s begins with % x: version 1 and the address 10.0.0.1:44818 are expected", form, b)
	}
	want := s.id.all()
	if len(b) != 18+len(want)+1 || !bytes.Equal(b[18:18+len(want)], want) {
		s.fail("differs:"+form, "%s reports\n% x, the identity is\n% x and a state byte", form, b[18:], want)
	}
}

type s07Form struct {
	name string
	do   func(s *s07, form string)
}

// s07Forms are the ways to ask.
func s07Forms() []s07Form {
	id := cls(1, 1)
	prog := func(s *s07) []byte { return s.id.attr(7) }
	r := []s07Form{
		{"ListIdentity", func(s *s07, f string) { s.listIdentity(f, s.peer()) }},
		{"ListIdentity without a session", func(s *s07, f string) { s.listIdentity(f, s.srvRig.peer()) }},
		{"Client.ListIdentity", func(s *s07, f string) {
			l, err := s.client().ListIdentity()
			if err != nil {
				s.fail("refused:"+f, "%s: %v", f, err)
			}
			got := s07ID{v: [5]uint16{uint16(l.Vendor), uint16(l.DeviceType), l.ProductCode, l.Revision, l.Status}, serial: l.SerialNumber, name: l.ProductName}
			want := s.id
			want.name = want.short()
			if got != want {
				s.fail("differs:"+f, "%s reports %v, the identity is %v", f, got, want)
			}
		}},
		{"GetAttributeAll", func(s *s07, f string) { s.same(f, s.peer().rr(creq(1, id)), s.id.all()) }},
		{"wrapped GetAttributeAll", func(s *s07, f string) { s.same(f, s.peer().rr(ucsend(route, creq(1, id))), s.id.all()) }},
		{"connected GetAttributeAll", func(s *s07, f string) { s.same(f, s.conn().ud(creq(1, id)), s.id.all()) }},
		{"GetAttributeAll of the program", func(s *s07, f string) { s.same(f, s.peer().rr(creq(1, cls(0x64, 1))), prog(s)) }},
		{"wrapped GetAttributeAll of the program", func(s *s07, f string) {
			s.same(f, s.peer().rr(ucsend(route, creq(1, cls(0x64, 1)))), prog(s))
		}},
		{"connected GetAttributeAll of the program", func(s *s07, f string) { s.same(f, s.conn().ud(creq(1, cls(0x64, 1))), prog(s)) }},
	}
	for a := 1; a <= 7; a++ {
		req := creq(0x0E, cat(id, attrSeg(a)))
		r = append(r,
			s07Form{fmt.Sprint("GetAttributeSingle ", a), func(s *s07, f string) { s.same(f, s.peer().rr(req), s.id.attr(a)) }},
			s07Form{fmt.Sprint("wrapped GetAttributeSingle ", a), func(s *s07, f string) {
				s.same(f, s.peer().rr(ucsend(route, req)), s.id.attr(a))
			}},
			s07Form{fmt.Sprint("connected GetAttributeSingle ", a), func(s *s07, f string) { s.same(f, s.conn().ud(req), s.id.attr(a)) }},
			s07Form{fmt.Sprint("Client.GetAttrSingle ", a), func(s *s07, f string) {
				it, err := s.client().GetAttrSingle(gologix.CipObject_Identity, 1, gologix.CIPAttribute(a))
				if err != nil {
					s.fail("refused:"+f, "%s: %v", f, err)
				}
				if !bytes.Equal(it.Rest(), s.id.attr(a)) {
					s.fail("differs:"+f, "%s reports % x, the identity is % x", f, it.Rest(), s.id.attr(a))
				}
			}})
	}
	return r
}

var s07Words = []uint16{0, 1, 0x007F, 0x0080, 0x00FF, 0x0100, 0x7FFF, 0x8000, 0xFF00, 0xFFFF, 0x1776}

func s07Names() []string {
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	r := []string{string(all[:200]), string(all[100:]), "Gerät", "\x00", "a\x00b", "\xff\xfe"}
	for n := 0; n <= 300; n++ {
		if n < 8 || n > 248 && n < 262 || n%16 < 2 || n >= 76 && n <= 96 || n == 300 {
			r = append(r, strings.Repeat("Device ", 50)[:n])
		}
	}
	return append(r, strings.Repeat("x", 4000), strings.Repeat("y", 70000))
}

func s07Serials() []uint32 {
	return []uint32{0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01020304, 0xFE000000}
}

// s07Fields gives every boundary value to every attribute, asked for in every way.
func s07Fields() vk.Unit {
	return vk.Unit{Name: "fields", Run: func(c *vk.C) {
		s := newS07(c)
		id := s.id
		switch a := c.Choose(7, "attribute"); {
		case a < 5:
			id.v[a] = vk.Pick(c, s07Words, "value")
		case a == 5:
			id.serial = vk.Pick(c, s07Serials(), "value")
		default:
			id.name = vk.Pick(c, s07Names(), "name")
		}
		s.set(id)
		for _, f := range s07Forms() {
			f.do(s, f.name)
			c.Trans(1)
		}
		c.Distinct(id)
		c.Sample(func() string { return id.String() + ": every form agrees" })
	}}
}

// s07All gives an attribute all of its 16 bit values.
func s07All() vk.Unit {
	return vk.Unit{Name: "every word", Run: func(c *vk.C) {
		a, hi := c.Choose(5, "attribute"), c.Choose(256, "high byte")
		s := newS07(c)
		fs := s07Forms()
		var use []s07Form
		for i, f := range fs {
			if i < 6 || strings.HasSuffix(f.name, fmt.Sprint("Single ", a+1)) {
				use = append(use, f)
			}
		}
		for lo := 0; lo < 256; lo++ {
			id := s.id
			id.v[a] = uint16(hi<<8 | lo)
			s.log = nil
			s.set(id)
			for i, f := range use {
				if i == 1 && lo%64 != 0 {
					continue // each of these takes a new connection
				}
				f.do(s, f.name)
				c.Trans(1)
			}
		}
		c.Distinct(a, hi)
	}}
}

// s07Pairs gives boundary values to two attributes at a time.
func s07Pairs() vk.Unit {
	words := []uint16{0, 0x00FF, 0x8000, 0xFFFF}
	return vk.Unit{Name: "pairs", Run: func(c *vk.C) {
		s := newS07(c)
		id := s.id
		a := c.Choose(6, "first")
		b := a + 1 + c.Choose(6-a, "second")
		for _, x := range []int{a, b} {
			switch {
			case x < 5:
				id.v[x] = vk.Pick(c, words, "value")
			case x == 5:
				id.serial = vk.Pick(c, []uint32{0, 0xFF, 0x80000000, 0xFFFFFFFF}, "value")
			default:
				id.name = vk.Pick(c, []string{"", "x", strings.Repeat("z", 255), strings.Repeat("z", 256)}, "name")
			}
		}
		s.set(id)
		for _, f := range s07Forms() {
			f.do(s, f.name)
			c.Trans(1)
		}
		c.Distinct(id)
	}}
}

// s07History changes attributes between the questions.
func s07History(depth int) vk.Unit {
	return vk.Unit{Name: "history", Run: func(c *vk.C) {
		s := newS07(c)
		fs := s07Forms()
		for i := 0; i < depth; i++ {
			f := fs[c.Choose(len(fs), "form")]
			f.do(s, f.name)
			s.log = append(s.log, f.name)
			c.Trans(1)
			if i+1 < depth {
				id := s.id
				switch a := c.Choose(3, "change"); a {
				case 0:
					id.v[i%5] ^= 0x8181
				case 1:
					id.serial += 0x01010101
				case 2:
					id.name = strings.Repeat("n", (len(id.name)+100)%256)
				}
				s.set(id)
			}
		}
		c.Distinct(fmt.Sprint(s.log))
	}}
}

// s07Lengths has a name of every length and, at every position, a byte of every value.
func s07Lengths() vk.Unit {
	return vk.Unit{Name: "names", Run: func(c *vk.C) {
		s := newS07(c)
		id := s.id
		n := c.Choose(1100, "length")
		b := bytes.Repeat([]byte{'n'}, n)
		for i := range b {
			b[i] = byte(i*7 + n)
		}
		id.name = string(b)
		s.set(id)
		for _, f := range s07Forms() {
			f.do(s, f.name)
			c.Trans(1)
		}
		c.Distinct(n)
	}}
}

// s07Encodings asks with every width of class, instance and attribute.
func s07Encodings() vk.Unit {
	return vk.Unit{Name: "encodings", Run: func(c *vk.C) {
		s := newS07(c)
		class := [][]byte{{0x20, 1}, {0x21, 0, 1, 0}}[c.Choose(2, "class width")]
		inst := [][]byte{{0x24, 1}, {0x25, 0, 1, 0}, {0x26, 0, 1, 0, 0, 0}}[c.Choose(3, "instance width")]
		how := c.Choose(3, "how")
		ask := func(req []byte) mreply {
			switch how {
			case 0:
				return s.peer().rr(req)
			case 1:
				return s.peer().rr(ucsend(route, req))
			}
			return s.conn().ud(req)
		}
		s.same(fmt.Sprintf("GetAttributeAll of % x way %d", cat(class, inst), how), ask(creq(1, cat(class, inst))), s.id.all())
		for a := 1; a <= 7; a++ {
			for _, seg := range [][]byte{{0x30, byte(a)}, {0x31, 0, byte(a), 0}} {
				p := cat(class, inst, seg)
				s.same(fmt.Sprintf("GetAttributeSingle of % x way %d", p, how), ask(creq(0x0E, p)), s.id.attr(a))
				c.Trans(1)
			}
		}
		c.Distinct(class, inst, how)
	}}
}

// s07Missing has an attribute that is missing or of another type: what reports
// it is refused, and the rest goes on.
func s07Missing() vk.Unit {
	return vk.Unit{Name: "missing", Run: func(c *vk.C) {
		s := newS07(c)
		a := 1 + c.Choose(7, "attribute")
		if c.Bool("wrong type") {
			s.srv.Attributes[gologix.CIPAttribute(a)] = struct{ X []int }{}
		} else {
			delete(s.srv.Attributes, gologix.CIPAttribute(a))
		}
		id := cls(1, 1)
		refused := func(how string, m mreply) {
			if m.status == 0 {
				s.fail("missing:"+how, "%s without attribute %d is answered with %v", how, a, m)
			}
		}
		p, k := s.peer(), s.conn()
		refused("GetAttributeAll", p.rr(creq(1, id)))
		refused("wrapped GetAttributeAll", p.rr(ucsend(route, creq(1, id))))
		refused("connected GetAttributeAll", k.ud(creq(1, id)))
		ctx := p.nextCtx()
		fs := p.call(plc.EncapFrame(0x63, p.session, 0, ctx, nil))
		if len(fs) != 1 || fs[0].cmd != 0x63 || fs[0].status == 0 {
			s.fail("missing:ListIdentity", "ListIdentity without attribute %d is answered with %+v", a, fs)
		}
		for b := 1; b <= 7; b++ {
			req := creq(0x0E, cat(id, attrSeg(b)))
			for how, m := range []mreply{p.rr(req), p.rr(ucsend(route, req)), k.ud(req)} {
				if b == a {
					refused(fmt.Sprint("GetAttributeSingle way ", how), m)
				} else {
					s.same(fmt.Sprintf("GetAttributeSingle %d way %d", b, how), m, s.id.attr(b))
				}
			}
		}
		c.Trans(25)
		c.Distinct(a, fmt.Sprintf("%T", s.srv.Attributes[gologix.CIPAttribute(a)]))
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "S07", Level: "model_checking",
		Rule: "A real server is asked for its identity in 37 ways (ListIdentity with and without a session and by the client; identity and program name by GetAttributeAll direct, routed and connected; every attribute by GetAttributeSingle direct, routed, connected and by the client) for every boundary value of every attribute, all pairs of boundary values, every length class of product name, every 16 bit value of each attribute, every history of questions and changes up to a depth, every equivalent encoding of the path, and every attribute missing or of a wrong type. Each reply is compared byte for byte with the encoding of the configured identity. A case is non-trivial when it has a distinct identity, history or encoding.",
		Units: func(tier string) []vk.Unit {
			us := []vk.Unit{s07Fields(), s07Encodings(), s07Missing()}
			us = append(us, vk.Shard(s07Pairs(), 8, 2)...)
			us = append(us, vk.Shard(s07History(3), 16, 2)...)
			us = append(us, vk.Shard(s07All(), 40, 2)...)
			if tier == "thorough" {
				us = append(us, vk.Shard(s07Lengths(), 16, 1)...)
			}
			return us
		},
		Bounds:      map[string]any{"attributes": 7, "forms": 37, "name_length": "boundaries to 70000 quick, all to 1100 thorough", "history": 3},
		Assumptions: []string{"attributes are not changed while a request is being handled", "a product name longer than a SHORT_STRING can be is cut to 255 bytes in every form"},
		QuickBudget: 150 * time.Second, ThoroughBudget: 12 * time.Minute,
	})
}
