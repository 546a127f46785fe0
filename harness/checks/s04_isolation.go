package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/vk"
)

// s04Conn is the model's view of one connection.
type s04Conn struct {
	k     *pconn
	owner int
	route int
	io    bool
	open  bool
	f     fopen
}

// s04 is a server with two tag routes and two I/O routes, and up to three
// originators.
type s04 struct {
	*srvRig
	same  bool // originators use the same identifiers
	maps  [2]*gologix.MapTagProvider
	ios   [2]*gologix.IOProvider[s03In, s03Out]
	tag   [2]int32
	out   [2]s03Out
	peers [3]*peer // nil: not there
	seen  int      // originators that have acted
	conns []*s04Conn
	next  int32
	log   []string
}

var s04Routes = [][]byte{{1, 0}, {1, 1}, {1, 2}, {1, 3}}

func newS04(c *vk.C) *s04 {
	s := &s04{next: 1000}
	eps := map[string]gologix.CIPEndpoint{}
	for i := range s.maps {
		s.tag[i] = int32(100 + i)
		s.maps[i] = &gologix.MapTagProvider{Data: map[string]any{"t": s.tag[i], "own": fmt.Sprint("provider ", i)}}
		s.ios[i] = &gologix.IOProvider[s03In, s03Out]{In: &s03In{}, Out: &s03Out{}}
		eps[string(s04Routes[i])] = s.maps[i]
		eps[string(s04Routes[2+i])] = s.ios[i]
	}
	s.srvRig = newSrvRig(c, eps)
	return s
}

func (s *s04) fail(key, format string, a ...any) {
	s.c.Fail(key, "after %v: %s", s.log, fmt.Sprintf(format, a...))
}

// quiet fails when a session other than p's has been sent something.
func (s *s04) quiet(p int) {
	for i, q := range s.peers {
		if i != p && q != nil {
			if b := q.k.take(); len(b) > 0 {
				s.fail("stray", "session %d is sent % x while session %d was served", i, b, p)
			}
			if q.k.isClosed() {
				s.fail("session lost", "session %d has been closed by the server", i)
			}
		}
	}
}

// ident is the part of a forward open that originators may have in common.
func (s *s04) ident(p, slot int) fopen {
	f := fopen{to: 0x7000, ot: 0x100, serial: uint16(10 + slot), vendor: 0x1234, oserial: 42, rpi: 2000000, trigger: 0xA3}
	if !s.same {
		f.to += uint32(p*16 + slot)
		f.ot += uint32(p*16 + slot)
		f.vendor += uint16(p)
		f.oserial += uint32(p)
	}
	return f
}

func (s *s04) slot(p, slot int) *s04Conn {
	for _, k := range s.conns {
		if k.open && k.owner == p && int(k.f.serial)-10 == slot {
			return k
		}
	}
	return nil
}

// verify checks every connection there ever was, and every provider.
func (s *s04) verify() {
	for i, k := range s.conns {
		if k.io {
			s.packetTo(k)
			continue
		}
		if k.open {
			m := k.k.ud(creq(0x4C, sym("t"), w16(1)))
			if m.status != 0 || !bytes.Equal(m.data, cat([]byte{0xC4, 0}, w32(uint32(s.tag[k.route])))) {
				s.fail("connection", "a read on connection %d of originator %d (route %d, value %d) is answered with %v", i, k.owner, k.route, s.tag[k.route], m)
			}
			s.quiet(k.owner)
		} else if p := s.peers[k.owner]; p != nil {
			s.refused(p, k, fmt.Sprintf("closed connection %d", i))
		}
		// from other sessions
		for q, p := range s.peers {
			if p != nil && q != k.owner {
				s.refused(p, k, fmt.Sprintf("connection %d of originator %d used by %d", i, k.owner, q))
			}
		}
	}
	for i := range s.maps {
		s.maps[i].Mutex.Lock()
		got := s.maps[i].Data
		s.maps[i].Mutex.Unlock()
		if want := map[string]any{"t": s.tag[i], "own": fmt.Sprint("provider ", i)}; !reflect.DeepEqual(got, want) {
			s.fail("provider", "route %d holds %v, not %v", i, got, want)
		}
		if got := s.ios[i].GetOutputData(); got != s.out[i] {
			s.fail("outputs", "the outputs of route %d are %+v, not %+v", 2+i, got, s.out[i])
		}
	}
	s.c.Trans(1)
	live := ""
	for _, k := range s.conns {
		live += fmt.Sprint(k.owner, k.route, k.open, ";")
	}
	s.c.State(live, s.tag, s.out)
	s.c.Validated()
}

// refused writes on a connection that is not the session's (or no more).
func (s *s04) refused(p *peer, k *s04Conn, what string) {
	// an identifier may be in use again, by this session
	for _, o := range s.conns {
		if o != k && o.open && o.k.ot == k.k.ot {
			return
		}
	}
	ctx := p.nextCtx()
	p.seq++
	fs := p.call(udFrame(p.session, ctx, k.k.ot, p.seq&0xFFFF, creq(0x4D, sym("t"), dintWrite(0xBAD))))
	if len(fs) != 1 {
		s.fail("reply-count", "%s: a write has %d replies (connection closed %v)", what, len(fs), p.k.isClosed())
	}
	if fs[0].status == 0 {
		if _, _, m, err := parseUD(fs[0]); err != nil || m.status == 0 {
			s.fail("accepted", "%s: a write is answered with %v %v", what, m, err)
		}
	}
}

// packetTo sends an I/O packet and says what becomes of it.
func (s *s04) packetTo(k *s04Conn) {
	s.next++
	v := s.next
	for _, o := range s.conns {
		if o != k && o.open && o.k.ot == k.k.ot {
			return
		}
	}
	s.packet(ioPacket(k.k.ot, uint32(v), cat(w32(uint32(v)), w16(int(k.f.serial)), []byte{byte(k.owner), 1})))
	if k.open {
		s.out[k.route] = s03Out{v, int16(k.f.serial), [2]byte{byte(k.owner), 1}}
	}
	for i := range s.ios {
		if got := s.ios[i].GetOutputData(); got != s.out[i] {
			s.fail("outputs", "an I/O packet of connection %#x (open %v, route %d) leaves route %d at %+v, not %+v", k.k.ot, k.open, k.route, i, got, s.out[i])
		}
	}
}

// step is one action.  It returns false when there is nothing to do.
func (s *s04) step() bool {
	c := s.c
	p := c.Choose(min(3, s.seen+1), "originator")
	if p == s.seen {
		s.seen++
	}
	say := func(format string, a ...any) { s.log = append(s.log, fmt.Sprintf("%d ", p)+fmt.Sprintf(format, a...)) }
	if s.peers[p] == nil {
		s.peers[p] = s.peer()
		s.peers[p].ctx = byte(p * 64)
		s.peers[p].register()
		say("registers")
	}
	pe := s.peers[p]
	act := c.Choose(15, "action")
	switch {
	case act < 6: // open one of two connections on a route, or an I/O connection
		slot, rt := act%2, act/2
		f := s.ident(p, slot)
		if s.slot(p, slot) != nil {
			return false
		}
		f.path = cat(s04Routes[rt], cls(2, 1))
		if rt == 2 {
			rt = 2 + slot
			f.path = cat(s04Routes[rt], cls(4, 1))
			f.trigger = 1
			f.rpi = 3600e6
		} else {
			f.large = slot == 1
		}
		k := &s04Conn{k: pe.open(f), owner: p, route: rt % 2, io: rt > 1, open: true, f: f}
		for _, o := range s.conns {
			if o.open && o.k.ot == k.k.ot {
				s.fail("identifier", "originator %d is given O->T id %#x, which is in use", p, k.k.ot)
			}
		}
		s.conns = append(s.conns, k)
		say("opens %d on route %d: %#x", slot, rt, k.k.ot)
	case act < 8: // close it, or what another originator may have opened
		slot := act - 6
		k := s.slot(p, slot)
		f := s.ident(p, slot)
		f.path = cat(s04Routes[0], cls(2, 1))
		m := pe.rr(f.closeReq())
		say("closes %d", slot)
		if (m.status == 0) != (k != nil) {
			s.fail("close", "the close is answered with %v", m)
		}
		if k != nil {
			k.open = false
		}
	case act < 9: // close with the identity of another originator
		if s.same {
			return false
		}
		f := s.ident((p+1)%3, 0)
		f.path = cat(s04Routes[0], cls(2, 1))
		m := pe.rr(f.closeReq())
		say("closes a connection of %d", (p+1)%3)
		if m.status == 0 {
			s.fail("close", "the close of another originator's connection is answered with %v", m)
		}
	case act < 11: // write on a connection
		k := s.slot(p, act-9)
		if k == nil || k.io {
			return false
		}
		s.next++
		m := k.k.ud(creq(0x4D, sym("t"), dintWrite(uint32(s.next))))
		say("writes %d on %d", s.next, act-9)
		if m.status != 0 {
			s.fail("write", "the write is answered with %v", m)
		}
		s.tag[k.route] = s.next
	case act < 13: // unconnected write on a route
		s.next++
		rt := act - 11
		m := pe.rr(ucsend(s04Routes[rt], creq(0x4D, sym("t"), dintWrite(uint32(s.next)))))
		say("writes %d to route %d", s.next, rt)
		if m.status != 0 {
			s.fail("write", "the unconnected write is answered with %v", m)
		}
		s.tag[rt] = s.next
	case act < 15: // go away
		if act == 13 {
			pe.k.drop(false)
			say("drops")
		} else {
			pe.k.send(encapUnregister(pe))
			if b := pe.k.take(); len(b) > 0 || !pe.k.isClosed() {
				s.fail("unregister", "after unregistering, closed=%v sent % x", pe.k.isClosed(), b)
			}
			say("unregisters")
		}
		s.peers[p] = nil
		for _, k := range s.conns {
			if k.owner == p {
				k.open = false
			}
		}
	}
	s.quiet(p)
	return true
}

func encapUnregister(p *peer) []byte {
	f := rrFrame(p.session, p.nextCtx(), nil)[:24]
	f[0], f[2], f[3] = 0x66, 0, 0
	return f
}

func s04Unit(same bool, depth int) vk.Unit {
	name := "distinct"
	if same {
		name = "equal"
	}
	return vk.Unit{Name: fmt.Sprintf("%s identifiers, %d actions", name, depth), Run: func(c *vk.C) {
		s := newS04(c)
		s.same = same
		for d := 0; d < depth; d++ {
			if !s.step() {
				return
			}
			s.verify()
		}
		c.Distinct(fmt.Sprint(s.log))
	}}
}

// s04Paths is unconnected requests and forward opens over every route, with
// routes that are prefixes or extensions of others.
func s04Paths() vk.Unit {
	return vk.Unit{Name: "routes", Run: func(c *vk.C) {
		routes := [][]byte{{1, 0}, {1, 1}, {2, 0}, {1, 255}, {0, 0}, {18, 0}}
		eps := map[string]gologix.CIPEndpoint{}
		var ps []*gologix.MapTagProvider
		n := 1 + c.Choose(len(routes), "registered")
		for i := 0; i < n; i++ {
			p := &gologix.MapTagProvider{Data: map[string]any{"t": int32(i)}}
			ps = append(ps, p)
			eps[string(routes[i])] = p
		}
		r := newSrvRig(c, eps)
		p := r.peer()
		p.register()
		target := c.Choose(len(routes), "target")
		rt := routes[target]
		want := func(what string, m mreply) {
			if target >= n {
				if m.status == 0 {
					c.Fail("route accepted", "%s over the route % x, of which there are %d: %v", what, rt, n, m)
				}
				return
			}
			if m.status != 0 || (m.svc == 0xCC && !bytes.Equal(m.data, cat([]byte{0xC4, 0}, w32(uint32(target))))) {
				c.Fail("route", "%s over the route % x: %v, value %d is there", what, rt, m, target)
			}
		}
		rd := creq(0x4C, sym("t"), w16(1))
		want("unconnected read", p.rr(ucsend(rt, rd)))
		for i, path := range [][]byte{cat(rt, cls(2, 1)), rt} {
			f := fopen{to: uint32(77 + i), serial: uint16(i), vendor: 1, oserial: 1, rpi: 1000, trigger: 0xA3, path: path}
			m := p.rr(f.req())
			if m.status != 0 {
				if target < n {
					c.Fail("open", "forward open with the path % x is answered with %v", path, m)
				}
				continue
			}
			k := &pconn{p, f, le.Uint32(m.data), le.Uint32(m.data[4:])}
			want("read", k.ud(rd))
			want("multi service read", func() mreply {
				m := k.ud(multiReq(rd))
				if m.status != 0 || len(m.data) < 8 {
					return m
				}
				sm, err := parseMR(m.data[4:])
				if err != nil {
					c.Fail("multi", "%v: %v", m, err)
				}
				return sm
			}())
			want("write", k.ud(creq(0x4D, sym("t"), dintWrite(uint32(target)))))
		}
		want("unconnected write", p.rr(ucsend(rt, creq(0x4D, sym("t"), dintWrite(0x55)))))
		for i, p := range ps {
			v := int32(i)
			if i == target {
				v = 0x55
			}
			if !reflect.DeepEqual(p.Data, map[string]any{"t": v}) {
				c.Fail("provider", "after a write of 0x55 over the route % x the provider of % x holds %v", rt, routes[i], p.Data)
			}
		}
		c.Distinct(fmt.Sprint(n, target))
		c.Trans(8)
		c.Validated()
	}}
}

// s04Triads is a session (or two) with up to three connections whose triads
// (serial number, vendor, originator serial number) differ in any of the
// three, and two closes with any triad: only the connection with all three,
// opened by the session that asks, is closed.
func s04Triads() vk.Unit {
	return vk.Unit{Name: "triads", Run: func(c *vk.C) {
		s := newS04(c)
		n := 2 + c.Choose(2, "connections")
		other := c.Choose(n+1, "opened by another session") // from this one on; n: none
		ps := []*peer{s.peer(), nil}
		ps[0].register()
		if other < n {
			ps[1] = s.peer()
			ps[1].ctx = 64
			ps[1].register()
		}
		of := func(tri int) fopen {
			return fopen{to: uint32(0x7000 + tri), ot: 0x100, serial: 10 + uint16(tri&1), vendor: 0x1234 + uint16(tri>>1&1)*0x100,
				oserial: 42 + uint32(tri>>2&1)<<16, rpi: 2000000, trigger: 0xA3}
		}
		type conn struct {
			k        *pconn
			by, tri  int
			rt       int
			isClosed bool
		}
		var ks []*conn
		last := -1
		for i := 0; i < n; i++ {
			k := &conn{rt: i % 2}
			if i >= other {
				k.by = 1
			}
			if k.by == 1 && i == other {
				last = -1 // another session may have the same ones
			}
			if last == 7 {
				return
			}
			k.tri = last + 1 + c.Choose(7-last, "triad")
			last = k.tri
			f := of(k.tri)
			f.path = cat(s04Routes[k.rt], cls(2, 1))
			k.k = ps[k.by].open(f)
			ks = append(ks, k)
		}
		log := fmt.Sprint(n, other)
		for _, k := range ks {
			log += fmt.Sprint(" ", k.tri)
		}
		for step := 0; step < 2; step++ {
			by := 0
			if ps[1] != nil {
				by = c.Choose(2, "closed by")
			}
			tri := c.Choose(8, "closes")
			log += fmt.Sprint(" closes ", by, tri)
			f := of(tri)
			f.path = cat(s04Routes[0], cls(2, 1))
			m := ps[by].rr(f.closeReq())
			var hit *conn
			for _, k := range ks {
				if !k.isClosed && k.by == by && k.tri == tri {
					hit = k
				}
			}
			if (m.status == 0) != (hit != nil) {
				c.Fail("close", "session %d closes triad %03b (%s): answered with %v", by, tri, log, m)
			}
			if hit != nil {
				hit.isClosed = true
			}
			for i, k := range ks {
				p := ps[k.by]
				ctx := p.nextCtx()
				p.seq++
				fs := p.call(udFrame(p.session, ctx, k.k.ot, p.seq&0xFFFF, creq(0x4C, sym("t"), w16(1))))
				if len(fs) != 1 {
					c.Fail("reply-count", "a read on connection %d has %d replies", i, len(fs))
				}
				good := false
				if fs[0].status == 0 {
					_, _, m, err := parseUD(fs[0])
					good = err == nil && m.status == 0 && bytes.Equal(m.data, cat([]byte{0xC4, 0}, w32(uint32(s.tag[k.rt]))))
				}
				if good == k.isClosed {
					c.Fail("connection", "connection %d (session %d, triad %03b, closed %v) after session %d closed %03b: a read succeeds: %v", i, k.by, k.tri, k.isClosed, by, tri, good)
				}
			}
			c.Trans(1)
		}
		c.Distinct(log)
		c.Validated()
	}}
}

// s04Strangers is requests and packets on connections that do not exist, with
// identifiers that differ from those of open ones in one or two bits, in whole
// bytes or words, or are those of the other direction.
func s04Strangers() vk.Unit {
	return vk.Unit{Name: "strangers", Run: func(c *vk.C) {
		var masks []uint32
		for i := 0; i < 32; i++ {
			masks = append(masks, 1<<i)
			for j := 0; j < i; j++ {
				masks = append(masks, 1<<i|1<<j)
			}
		}
		masks = append(masks, 0xFF, 0xFF00, 0xFF0000, 0xFF000000, 0xFFFF, 0xFFFF0000, 0xFFFFFF, 0xFFFFFF00, 0xFFFFFFFF)
		part := c.Choose(8, "part of the masks")
		s := newS04(c)
		for i := 0; i < 2; i++ {
			s.peers[i] = s.peer()
			s.peers[i].ctx = byte(64 * i)
			s.peers[i].register()
			f := s.ident(i, 0)
			f.path = cat(s04Routes[i], cls(2, 1))
			s.conns = append(s.conns, &s04Conn{k: s.peers[i].open(f), owner: i, route: i, open: true, f: f})
			f = s.ident(i, 1)
			f.path, f.trigger, f.rpi = cat(s04Routes[2+i], cls(4, 1)), 1, 3600e6
			s.conns = append(s.conns, &s04Conn{k: s.peers[i].open(f), owner: i, route: i, io: true, open: true, f: f})
		}
		k := vk.Pick(c, s.conns, "connection")
		ids := []uint32{}
		for i, m := range masks {
			if i%8 == part {
				ids = append(ids, k.k.ot^m)
			}
		}
		if part == 0 {
			ids = append(ids, 0, 1, 0xFFFFFFFF, k.k.to, uint32(k.f.serial), k.k.ot<<16|k.k.ot>>16)
		}
		reqs := [][]byte{
			creq(0x4C, sym("t"), w16(1)),
			creq(0x52, sym("t"), w16(1), w32(0)),
			creq(0x4D, sym("t"), dintWrite(0xBAD)),
			multiReq(creq(0x4D, sym("t"), dintWrite(0xBAD))),
			creq(0x0E, cat(cls(1, 1), attrSeg(1))),
			creq(0x55, cls(0x6B, 0), w16(2), w16(1), w16(2)),
		}
		for _, id := range ids {
			used := false
			for _, o := range s.conns {
				used = used || o.k.ot == id
			}
			if used {
				continue
			}
			if k.io {
				s.next++
				s.packet(ioPacket(id, uint32(s.next), cat(w32(uint32(s.next)), w16(1), []byte{1, 1})))
				for i := range s.ios {
					if got := s.ios[i].GetOutputData(); got != s.out[i] {
						s.fail("stranger's outputs", "an I/O packet of connection %#x, which does not exist (%#x does), leaves route %d at %+v", id, k.k.ot, i, got)
					}
				}
			}
			for _, p := range s.peers[:2] {
				for _, req := range reqs {
					ctx := p.nextCtx()
					p.seq++
					fs := p.call(udFrame(p.session, ctx, id, p.seq&0xFFFF, req))
					if len(fs) != 1 {
						s.fail("reply-count", "request % x on connection %#x, which does not exist, has %d replies (connection closed %v)", req, id, len(fs), p.k.isClosed())
					}
					if fs[0].status == 0 {
						if _, _, m, err := parseUD(fs[0]); err != nil || m.status == 0 {
							s.fail("stranger accepted", "request % x on connection %#x, which does not exist (%#x does), is answered with %v %v", req, id, k.k.ot, m, err)
						}
					}
					c.Trans(1)
				}
			}
		}
		s.verify()
		c.Distinct(fmt.Sprint(part, k.owner, k.io))
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "S04", Level: "model_checking",
		Rule: "Every history of actions of up to three originators (register, open either of two connections on two tag routes or two I/O routes, close one's own or another's, write connected or over any route, drop, unregister), with equal or with distinct identifiers and serial numbers. After every action every connection that was ever opened is used by its owner and by every other session: open ones must work on their own provider, closed ones and foreign ones must be refused, only the session that asked may be sent anything, and every provider and output assembly equals the model. Requests of every service and I/O packets with identifiers that differ from an open connection's in one or two bits or in bytes must be refused or ignored. A case is non-trivial when it has a distinct history of that length.",
		Units: func(tier string) []vk.Unit {
			d := 4
			if tier == "thorough" {
				d = 5
			}
			us := append([]vk.Unit{s04Paths(), s04Strangers()}, vk.Shard(s04Triads(), 4, 3)...)
			for _, same := range []bool{true, false} {
				us = append(us, vk.Shard(s04Unit(same, d), 16, 4)...)
			}
			return us
		},
		Bounds:      map[string]any{"originators": 3, "connections_each": 2, "routes": 4, "actions": "4 quick, 5 thorough"},
		Assumptions: []string{"originators are interchangeable: the first action of each is in order of their numbers", "one session does not open two connections with the same triad at a time"},
		QuickBudget: 150 * time.Second, ThoroughBudget: 12 * time.Minute,
	})
}
