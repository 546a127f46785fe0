package checks

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
	"verifharness/vnet"
)

type s03In struct {
	A int32
	B [3]int16
}

type s03Out struct {
	X int32
	Y int16
	Z [2]byte
}

// s03Rig is a server with every kind of provider, a healthy session that must
// not notice anything, and a hostile one.
type s03Rig struct {
	*srvRig
	maps     *strictMap
	io       *gologix.IOProvider[s03In, s03Out]
	ch       *gologix.IOChannelProvider[s03In, s03Out]
	good     *pconn
	goodIO   uint32
	lastOut  int32
	bad      *pconn
	badIO    uint32
	badChan  uint32
	mapIO    uint32
	received int // bytes from the hostile peer
	start    uint64
}

var (
	ioRoute   = []byte{1, 1}
	chanRoute = []byte{1, 2}
)

// deafUDP takes datagrams.
type deafUDP struct{ net.Conn }

func (deafUDP) Write(b []byte) (int, error) { return len(b), nil }
func (deafUDP) Close() error                { return nil }

func newS03Rig(c *vk.C) *s03Rig {
	p := &strictMap{}
	p.Data = map[string]any{
		"dint": int32(0x01020304), "rodint": int32(5), "wodint": int32(6),
		"adint": int32(77), "arr": []int32{1, 2, 3, 4}, "str": "hello", "strs": []string{"a", "b"}, "weird": struct{ A []int }{},
		"safe": []int16{11, 22},
	}
	r := &s03Rig{maps: p}
	r.io = &gologix.IOProvider[s03In, s03Out]{In: &s03In{}, Out: &s03Out{}}
	r.ch = &gologix.IOChannelProvider[s03In, s03Out]{}
	r.srvRig = newSrvRig(c, map[string]gologix.CIPEndpoint{string(route): p, string(ioRoute): r.io, string(chanRoute): r.ch})
	dial := vnet.OnDial
	vnet.OnDial = func(network, address string, timeout time.Duration) (net.Conn, error) {
		if network == "udp" {
			return deafUDP{}, nil
		}
		return dial(network, address, timeout)
	}
	g := r.peer()
	g.register()
	r.good = g.open(fopen{to: 0x600D, serial: 1, vendor: 1, oserial: 1, rpi: 2000000, trigger: 0xA3, path: cat(route, cls(2, 1))})
	ioOpen := func(serial uint16, path []byte) fopen {
		return fopen{ot: 0, to: 0x10000 + uint32(serial), serial: serial, vendor: 1, oserial: 1, rpi: 3600e6, trigger: 1, path: cat(path, cls(4, 1))}
	}
	r.goodIO = g.open(ioOpen(2, ioRoute)).ot
	b := r.peer()
	b.register()
	r.bad = b.open(s02Conn)
	r.badIO = b.open(ioOpen(3, ioRoute)).ot
	r.badChan = b.open(ioOpen(4, chanRoute)).ot
	r.mapIO = b.open(ioOpen(5, route)).ot
	r.start = allocated()
	return r
}

// ioPacket is an O->T packet of a class 1 connection.
func ioPacket(conn uint32, seq uint32, data []byte) []byte {
	return plc.Items(false, plc.Item{ID: 0x8002, Data: cat(w32(conn), w32(seq))}, plc.Item{ID: 0xB1, Data: cat(w32(seq), w16(1), data)})
}

// attack sends bytes as the hostile peer.
func (r *s03Rig) attack(b []byte) {
	r.received += len(b)
	r.bad.p.k.send(b)
}

// judge fails unless the healthy session works as before.
func (r *s03Rig) judge(what string) {
	c := r.c
	if n := allocated() - r.start; n > uint64(4<<20+200*r.received) {
		c.Fail("allocation", "%s: %d bytes are allocated for %d bytes received", what, n, r.received)
	}
	m := r.good.ud(creq(0x4C, sym("safe"), w16(2)))
	if m.status != 0 || !bytes.Equal(m.data, []byte{0xC3, 0, 11, 0, 22, 0}) {
		c.Fail("healthy read", "%s: after that the healthy session's read is answered with %v", what, m)
	}
	m = r.good.p.rr(ucsend(route, creq(0x4C, sym("safe"), w16(1))))
	if m.status != 0 || !bytes.Equal(m.data, []byte{0xC3, 0, 11, 0}) {
		c.Fail("healthy unconnected read", "%s: after that the healthy session's read is answered with %v", what, m)
	}
	r.lastOut += 0x01000001
	x := r.lastOut
	r.packet(ioPacket(r.goodIO, 7, []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), 5, 0, 6, 7}))
	if out := r.io.GetOutputData(); out != (s03Out{x, 5, [2]byte{6, 7}}) {
		c.Fail("healthy io", "%s: after that an I/O packet of the healthy session leaves the outputs at %+v", what, out)
	}
	// new peers are welcome
	p := r.peer()
	p.register()
	r.check()
	c.Trans(4)
	r.maps.Mutex.Lock()
	data := fmt.Sprint(r.maps.Data)
	r.maps.Mutex.Unlock()
	c.State(data, r.bad.p.k.isClosed())
	c.Validated()
}

// s03Catalogue is the valid and invalid requests that are to be corrupted.
func s03Catalogue() []req2 {
	r := s02Requests()
	io := func(trigger byte, rpi uint32, path []byte) []byte {
		return fopen{to: 0x777, serial: 77, vendor: 0x1234, oserial: 99, rpi: rpi, trigger: trigger, path: path}.req()
	}
	sread := func(tag string, n int) []byte { return creq(0x4C, sym(tag), w16(n)) }
	strWrite := func(n int) []byte {
		b := cat([]byte{0xA0, 2, 0xCE, 0x0F}, w16(n))
		for i := 0; i < n; i++ {
			b = append(b, cat(w32(3), []byte("abc"), make([]byte, 81))...)
		}
		return b
	}
	add := []req2{
		{name: "io open", rr: io(1, 1000000, cat(ioRoute, cls(4, 1)))},
		{name: "io open of keyed path", rr: io(1, 1000000, cat([]byte{0x34, 4, 0, 0, 0, 0, 0, 0, 0, 0}, cls(0x69, 1)))},
		{name: "io open without rpi", rr: io(1, 0, cat(ioRoute, cls(4, 1)))},
		{name: "io open of no route", rr: io(1, 1000000, cat([]byte{1, 9}, cls(4, 1)))},
		{name: "io open large", rr: fopen{large: true, to: 0x777, serial: 77, vendor: 0x1234, oserial: 99, rpi: 0, trigger: 1, path: cat(ioRoute, cls(4, 1))}.req()},
		{name: "open with a long route", rr: io(0xA3, 1000, cat([]byte{0x12, 9}, []byte("10.0.0.12"), []byte{0, 1, 0}, cls(2, 1)))},
		{name: "read strings", ud: sread("strs", 2)},
		{name: "write string", ud: creq(0x4D, sym("str"), strWrite(1))},
		{name: "write strings", ud: creq(0x4D, sym("strs"), strWrite(2))},
		{name: "write array", ud: creq(0x4D, sym("arr"), []byte{0xC4, 0, 4, 0}, make([]byte, 16))},
		{name: "write element", ud: creq(0x4D, cat(sym("arr"), idx(2)), dintWrite(9))},
		{name: "write new", ud: creq(0x4D, sym("new"), dintWrite(9))},
		{name: "read element", ud: creq(0x4C, cat(sym("arr"), idx(2)), w16(2))},
		{name: "read member", ud: creq(0x4C, cat(sym("arr"), sym("member"), idx(300)), w16(1))},
		{name: "read big index", ud: creq(0x4C, cat(sym("arr"), idx(70000)), w16(1))},
		{name: "read two indexes", ud: creq(0x4C, cat(sym("arr"), idx(1), idx(2)), w16(1))},
		{name: "read index only", ud: creq(0x4C, idx(1), w16(1))},
		{name: "read long index only", ud: creq(0x4C, idx(300), w16(1))},
		{name: "read instance", ud: creq(0x4C, cls(0x6B, 300), w16(1))},
		{name: "read nothing", ud: []byte{0x4C, 0, 1, 0}},
		{name: "write nothing named", ud: cat([]byte{0x4D, 0}, dintWrite(1))},
		{name: "read 65535", ud: sread("arr", 65535)},
		{name: "read 32768", ud: sread("arr", 32768)},
		{name: "read element 65535", ud: creq(0x4C, cat(sym("arr"), idx(2)), w16(65535))},
		{name: "read element 0", ud: creq(0x4C, cat(sym("arr"), idx(2)), w16(0))},
		{name: "read none", ud: sread("arr", 0)},
		{name: "frag 65535", ud: creq(0x52, sym("arr"), w16(65535), w32(0xFFFFFFFF))},
		{name: "write 65535", ud: creq(0x4D, sym("arr"), []byte{0xC4, 0, 0xFF, 0xFF}, make([]byte, 16))},
		{name: "write 65535 strings", ud: creq(0x4D, sym("strs"), []byte{0xA0, 2, 0xCE, 0x0F, 0xFF, 0xFF})},
		{name: "multi of 65535", ud: creq(0x0A, cls(2, 1), w16(65535))},
		{name: "multi nested", ud: multiReq(multiReq(sread("dint", 1)), sread("arr", 40000))},
		{name: "multi of the same", ud: creq(0x0A, cls(2, 1), w16(3), w16(8), w16(8), w16(8), sread("dint", 1))},
		{name: "multi backwards", ud: creq(0x0A, cls(2, 1), w16(2), w16(0), w16(2))},
		{name: "uc in uc", rr: ucsend(route, ucsend(route, sread("dint", 1)))},
		{name: "uc open", rr: ucsend(route, s02Conn.req())},
		{name: "uc write", rr: ucsend(route, creq(0x4D, sym("dint"), []byte{0xC4, 0, 0, 0}))},
		{name: "uc read 65535", rr: ucsend(route, sread("arr", 65535))},
		{name: "uc sas", rr: ucsend(route, creq(0x10, cat(cls(0xC8, 1), attrSeg(1)), dintWrite(5)))},
		{name: "uc gas 16 bit", rr: ucsend(route, []byte{0x0E, 6, 0x21, 0, 0xC8, 0, 0x25, 0, 1, 0, 0x31, 0, 1, 0})},
		{name: "sas of none", rr: creq(0x10, cat(cls(0xC8, 1), attrSeg(1)), []byte{0xC4, 0, 0, 0})},
		{name: "list 16 bit", ud: creq(0x55, []byte{0x21, 0, 0x6B, 0, 0x25, 0, 0xFF, 0xFF}, w16(2), w16(1), w16(2))},
		{name: "rr with a connected item", raw: func(p *peer, ctx []byte) []byte {
			return plc.EncapFrame(0x6F, p.session, 0, ctx, plc.Items(true, plc.Item{ID: 0xA1, Data: w32(1)}, plc.Item{ID: 0xB1, Data: cat(w16(1), sread("dint", 1))}))
		}},
		{name: "rr with 65535 items", raw: func(p *peer, ctx []byte) []byte {
			return plc.EncapFrame(0x6F, p.session, 0, ctx, cat(make([]byte, 6), w16(65535)))
		}},
		{name: "rr with a large item", raw: func(p *peer, ctx []byte) []byte {
			return plc.EncapFrame(0x6F, p.session, 0, ctx, cat(make([]byte, 6), w16(2), make([]byte, 4), w16(0xB2), w16(65535)))
		}},
		{name: "ud with an empty address", raw: func(p *peer, ctx []byte) []byte {
			return plc.EncapFrame(0x70, p.session, 0, ctx, plc.Items(true, plc.Item{ID: 0xA1}, plc.Item{ID: 0xB1, Data: cat(w16(1), sread("dint", 1))}))
		}},
		{name: "unregister", raw: func(p *peer, ctx []byte) []byte { return plc.EncapFrame(0x66, p.session, 0, ctx, nil) }},
		{name: "closes its connection", rr: s02Conn.closeReq()},
	}
	for i := range add {
		add[i].out = outAny
	}
	return append(r, add...)
}

// damage changes a byte or a word of b, or cuts it.
func damage(c *vk.C, b []byte, deep bool) ([]byte, string) {
	b = bytes.Clone(b)
	kinds := []string{"byte", "cut", "word", "drop", "insert"}
	kind := vk.Pick(c, kinds, "damage")
	if len(b) == 0 && kind != "insert" {
		c.Stop()
	}
	var what string
	switch kind {
	case "byte":
		at := c.Choose(len(b), "at")
		vals := []byte{0, 1, 0x7F, 0x80, 0xFF, b[at] + 1, b[at] - 1, b[at] ^ 0x80, 2 * b[at]}
		if deep {
			vals = nil
			for v := 0; v < 256; v++ {
				vals = append(vals, byte(v))
			}
		}
		v := vk.Pick(c, vals, "value")
		what = fmt.Sprintf("byte %d from %#x to %#x", at, b[at], v)
		b[at] = v
	case "cut":
		n := c.Choose(len(b), "to")
		what = fmt.Sprintf("cut to %d", n)
		b = b[:n]
	case "word":
		if len(b) < 2 {
			c.Stop()
		}
		at := c.Choose(len(b)-1, "at")
		v := vk.Pick(c, []uint16{0, 1, 2, 0x7F00, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF}, "value")
		what = fmt.Sprintf("word %d to %#x", at, v)
		le.PutUint16(b[at:], v)
	case "drop":
		at := c.Choose(len(b), "at")
		what = fmt.Sprintf("byte %d removed", at)
		b = append(b[:at], b[at+1:]...)
	case "insert":
		at := c.Choose(len(b)+1, "at")
		v := vk.Pick(c, []byte{0, 0xFF, 0x91, 0x28}, "value")
		what = fmt.Sprintf("byte %#x inserted at %d", v, at)
		b = cat(b[:at], []byte{v}, b[at:])
	}
	return b, what
}

// fixLength makes the frame's length field right.
func fixLength(f []byte) {
	if len(f) >= 24 {
		le.PutUint16(f[2:], uint16(len(f)-24))
	}
}

func s03Frames() vk.Unit {
	qs := s03Catalogue()
	return vk.Unit{Name: "corrupted request", Run: func(c *vk.C) {
		q := vk.Pick(c, qs, "request")
		level := vk.Pick(c, []string{"request", "frame", "frame kept whole"}, "level")
		if q.raw != nil && level == "request" {
			c.Stop()
		}
		r := newS03Rig(c)
		var what string
		if level == "request" {
			if q.rr != nil {
				q.rr, what = damage(c, q.rr, false)
			} else {
				q.ud, what = damage(c, q.ud, false)
			}
		}
		f := r.bad.make(q).frame
		if level != "request" {
			// the session handle is a random number
			var b []byte
			b, what = damage(c, f, false)
			f = b
			if level == "frame kept whole" {
				fixLength(f)
			}
		}
		r.attack(f)
		r.judge(q.name + " with " + what)
		// and whatever comes next
		r.attack(make([]byte, 24))
		r.attack(r.bad.make(req2{ud: creq(0x4C, sym("dint"), w16(1))}).frame)
		r.judge(q.name + " with " + what + ", then more")
		r.bad.p.k.drop(false)
		r.judge(q.name + " with " + what + ", then the end")
		c.Distinct(q.name, level, what)
	}}
}

// s03First sends requests before the session is registered, and after it ended.
func s03First() vk.Unit {
	qs := s03Catalogue()
	return vk.Unit{Name: "out of order", Run: func(c *vk.C) {
		q := vk.Pick(c, qs, "request")
		after := vk.Pick(c, []string{"nothing", "unregister", "close", "the same"}, "after")
		n := 1 + c.Choose(2, "times")
		r := newS03Rig(c)
		switch after {
		case "nothing":
			r.bad = &pconn{p: r.peer()}
		case "unregister":
			r.attack(plc.EncapFrame(0x66, r.bad.p.session, 0, nil, nil))
		case "close":
			r.attack(r.bad.make(req2{rr: s02Conn.closeReq()}).frame)
		case "the same":
			r.attack(r.bad.make(q).frame)
		}
		for i := 0; i < n; i++ {
			r.attack(r.bad.make(q).frame)
		}
		r.judge(q.name + " after " + after)
		r.bad.p.k.drop(true)
		r.judge(q.name + " after " + after + ", then a reset")
		c.Distinct(q.name, after, n)
	}}
}

// s03Services sends every service with short paths and data.
func s03Services() vk.Unit {
	return vk.Unit{Name: "every service", Run: func(c *vk.C) {
		svc := byte(c.Choose(256, "service"))
		form := vk.Pick(c, []string{"connected", "unconnected", "embedded", "multi"}, "form")
		paths := [][]byte{nil, {0}, {1}, {2, 0x20, 1, 0x24, 1}, {3, 0x20, 1, 0x24, 1, 0x30, 1}, {2, 0x91, 3, 'a', 'r'}, {1, 0x28, 0}, {255, 0x91, 255}, {3, 0x91, 3, 'a', 'r', 'r', 0}, {3, 0x20, 0xC8, 0x24, 1, 0x30, 1}, {3, 0x20, 0x6B, 0x25, 0, 0, 0}}
		datas := [][]byte{nil, {0}, {0, 0}, {1, 0}, {0xFF, 0xFF}, {0xC4, 0, 0, 0}, {0xC4, 0, 0xFF, 0xFF}, {0xA0, 2, 0xCE, 0x0F, 1, 0}, {1, 0, 0, 0, 0, 0}, bytes.Repeat([]byte{0xFF}, 40), make([]byte, 40)}
		p := vk.Pick(c, paths, "path")
		d := vk.Pick(c, datas, "data")
		r := newS03Rig(c)
		req := cat([]byte{svc}, p, d)
		q := req2{}
		switch form {
		case "connected":
			q.ud = req
		case "unconnected":
			q.rr = req
		case "embedded":
			q.rr = ucsend(route, req)
		case "multi":
			q.ud = multiReq(req, req)
		}
		r.attack(r.bad.make(q).frame)
		r.judge(fmt.Sprintf("%s request % x", form, req))
		c.Distinct(form, req)
	}}
}

// s03Packets sends datagrams.
func s03Packets() vk.Unit {
	return vk.Unit{Name: "datagrams", Run: func(c *vk.C) {
		which := vk.Pick(c, []string{"io", "channel", "map", "explicit", "none"}, "connection")
		n := vk.Pick(c, []int{8, 0, 1, 7, 9, 400}, "length")
		extra := vk.Pick(c, []string{"", "encapsulated", "three items"}, "form")
		r := newS03Rig(c)
		conn := map[string]uint32{"io": r.badIO, "channel": r.badChan, "map": r.mapIO, "explicit": r.bad.ot, "none": 0xDEAD}[which]
		b := ioPacket(conn, 9, bytes.Repeat([]byte{0x33}, n))
		switch extra {
		case "encapsulated":
			b = plc.EncapFrame(0x63, 0, 0, nil, nil)
		case "three items":
			b = cat(b, w16(0x8000), w16(0))
			b[0] = 3
		}
		what := "whole"
		if c.Bool("damaged") {
			b, what = damage(c, b, false)
		}
		r.received += len(b)
		if len(b) > 0 || c.Bool("empty datagram") {
			r.packet(b)
		}
		r.packet(b)
		r.judge(fmt.Sprintf("datagram for %s of %d bytes %s, %s", which, n, extra, what))
		c.Distinct(which, n, extra, what)
	}}
}

// s03Headers sends encapsulation headers alone.
func s03Headers() vk.Unit {
	return vk.Unit{Name: "headers", Run: func(c *vk.C) {
		cmd := c.Choose(257, "command")
		if cmd == 256 {
			cmd = 0xFFFF
		}
		n := vk.Pick(c, []int{0, 1, 2, 4, 6, 8, 12, 20, 40, 300}, "length")
		claim := vk.Pick(c, []int{0, 1, -1, 65535}, "claimed length")
		fill := vk.Pick(c, []byte{0, 0xFF, 1}, "fill")
		reg := c.Bool("registered")
		r := newS03Rig(c)
		if !reg {
			r.bad = &pconn{p: r.peer()}
		}
		f := plc.EncapFrame(uint16(cmd), r.bad.p.session, 0, nil, bytes.Repeat([]byte{fill}, n))
		if claim == 65535 {
			le.PutUint16(f[2:], 65535)
		} else {
			le.PutUint16(f[2:], uint16(n+claim))
		}
		r.attack(f)
		r.judge(fmt.Sprintf("command %#x with %d bytes of %#x, length off by %d", cmd, n, fill, claim))
		r.bad.p.k.drop(true)
		r.judge("reset")
		c.Distinct(cmd, n, claim, fill, reg)
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "S03", Level: "model_checking",
		Rule:        "every request of a catalogue with every byte set to boundary values, every word set to boundary values, every truncation, deletion and insertion, inside a well-formed frame or of the frame itself; every service code with short paths and data in four forms; every encapsulation command with wrong lengths; every datagram form damaged in the same ways; every request out of order.  After each the server's goroutines must not have panicked, allocation must be bounded by the bytes received, and a healthy session's connected and unconnected reads, its class 1 outputs and a new session must work; non-trivial: distinct damage",
		Bounds:      map[string]any{"damage": "one per request (thorough: two)"},
		Assumptions: []string{"the sockets are in memory", "allocation is bounded by 512 KB and 200 bytes per byte received"},
		QuickBudget: 300 * time.Second, ThoroughBudget: 800 * time.Second,
		Units: func(tier string) []vk.Unit {
			var us []vk.Unit
			us = append(us, vk.Shard(s03Frames(), 32, 3)...)
			us = append(us, vk.Shard(s03First(), 4, 2)...)
			us = append(us, vk.Shard(s03Services(), 8, 2)...)
			us = append(us, vk.Shard(s03Packets(), 4, 2)...)
			us = append(us, vk.Shard(s03Headers(), 8, 2)...)
			return us
		},
	})
}
