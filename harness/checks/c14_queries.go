package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/canned"
	"verifharness/plc"
	"verifharness/vk"
)

// C14: attribute, identity and service queries ask for what the caller named
// and return what the device states.

// asked is one query rig: the controller answers every request with rep and
// keeps the last request.
type asked struct {
	r    *rig
	reqs []plc.Req
	rep  func(q *plc.Req) plc.Reply
}

func newAsked(c *vk.C, large bool) *asked {
	a := &asked{}
	p := plc.New()
	p.MaxFrames = 0
	p.AllowLarge = large
	a.r = newRig(c, p)
	a.r.connect(c)
	p.Override = func(q *plc.Req) *plc.Reply {
		a.reqs = append(a.reqs, *q)
		if a.rep == nil {
			return &plc.Reply{Status: 0x08}
		}
		x := a.rep(q)
		return &x
	}
	return a
}

// room is what one reply can carry after its 4 byte header.
func (a *asked) room() int {
	for _, s := range a.r.p.Sessions {
		for _, k := range s.Conns {
			if !k.Closed {
				return k.Size - 6
			}
		}
	}
	return 0
}

func (a *asked) take() []plc.Req {
	q := a.reqs
	a.reqs = nil
	a.r.p.Reqs = nil
	return q
}

// filler makes n bytes that differ by place and seed.
func filler(n int, seed uint32) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%d bytes % x...", len(b), b[:24])
	}
	return fmt.Sprintf("%d bytes % x", len(b), b)
}

// checkAsked compares the only request with what had to be sent.
func (a *asked) checkAsked(c *vk.C, what string, svc byte, segs []plc.Seg, data []byte) {
	q := a.take()
	a.r.problems(c, what)
	if len(q) != 1 {
		c.Fail("requests", "%s: the controller was sent %d requests", what, len(q))
	}
	if q[0].Service != svc {
		c.Fail("service", "%s: the controller was asked for service %#x, expected %#x", what, q[0].Service, svc)
	}
	got, err := plc.ParseEPath(q[0].Path)
	if err != nil {
		c.Fail("path", "%s: the path sent is malformed: %v", what, err)
	}
	same := len(got) == len(segs)
	for i := 0; same && i < len(segs); i++ {
		same = got[i] == segs[i]
	}
	if !same {
		c.Fail("path", "%s: the controller was asked for %s, expected %s", what, plc.SegString(got), plc.SegString(segs))
	}
	if !bytes.Equal(q[0].Data, data) {
		c.Fail("data", "%s: the request carries %s, expected %s", what, short(q[0].Data), short(data))
	}
}

// checkRest compares what is left in a result item.
func checkRest(c *vk.C, what string, it *gologix.CIPItem, err error, want []byte) {
	if err != nil {
		c.Fail("refused", "%s fails: %v", what, err)
	}
	if it == nil {
		c.Fail("nil", "%s returns neither a value nor an error", what)
	}
	if got := it.Rest(); !bytes.Equal(got, want) {
		c.Fail("value", "%s returns %s, the controller answered %s", what, short(got), short(want))
	}
}

func bounds(max uint64) []uint32 {
	var r []uint32
	for _, v := range []uint64{0, 1, 2, 100, 127, 128, 254, 255, 256, 257, 0x1234, 0x3412, 0x7FFF, 0x8000, 0xFF00, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x123456, 0x12345678, 0x7FFFFFFF, 0x80000000, 0xFF000000, 0xFFFFFFFF} {
		if v <= max {
			r = append(r, uint32(v))
		}
	}
	return r
}

// refusedWith checks the error of a refused query.
func refusedWith(c *vk.C, what string, err error) {
	if err == nil {
		c.Fail("accepted", "%s: a refused query returns no error", what)
	}
}

// queries are the operations of the table that are decided here, and the tag
// read and write that may come between them.
func queries() []cop {
	var r []cop
	for _, o := range clientOps {
		for _, n := range []string{"GetAttr", "GetController", "GenericCIP", "ListIdentity", "ListServices"} {
			if strings.HasPrefix(o.name, n) {
				r = append(r, o)
			}
		}
		if o.name == "Read" || o.name == "Write" {
			r = append(r, o)
		}
	}
	if len(r) < 8 {
		panic("queries are missing")
	}
	return r
}

func c14Units(tier string) []vk.Unit {
	deep := tier == "thorough"
	var us []vk.Unit
	us = append(us, vk.Unit{Name: "single:addresses", Run: func(c *vk.C) {
		a := newAsked(c, c.Bool("large connection"))
		cls := vk.Pick(c, bounds(0xFFFF), "class")
		n := 0
		one := func(inst, at uint32) {
			n++
			v := filler(int(1+(inst+at)%9), cls*7+inst*3+at)
			a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: v} }
			what := fmt.Sprintf("GetAttrSingle(%d, %d, %d)", cls, inst, at)
			it, err := a.r.cl.GetAttrSingle(gologix.CIPClass(cls), gologix.CIPInstance(inst), gologix.CIPAttribute(at))
			checkRest(c, what, it, err, v)
			a.checkAsked(c, what, 0x0E, []plc.Seg{{Kind: 'c', Num: cls}, {Kind: 'i', Num: inst}, {Kind: 'a', Num: at}}, nil)
			c.State("single", cls, inst, at)
			c.Distinct("single", cls, inst, at)
		}
		for _, inst := range bounds(0xFFFFFFFF) {
			for _, at := range bounds(0xFFFF) {
				one(inst, at)
			}
		}
		c.Eval(n - 1)
		c.Trans(n)
		c.Distinct(cls, n)
		c.State("single", cls)
		c.Sample(func() string { return fmt.Sprintf("class %d: %d queries", cls, n) })
	}})
	// every value of each number
	sweep := vk.Unit{Name: "single:every number", Run: func(c *vk.C) {
		which := c.Choose(4, "class, instance, high instance or attribute")
		blk := uint32(c.Choose(16, "block"))
		a := newAsked(c, true)
		for v := blk << 12; v < (blk+1)<<12; v++ {
			x := v
			cls, inst, at := uint32(0x300), uint32(7), uint32(3)
			switch which {
			case 0:
				cls = x
			case 1:
				inst = x
			case 2:
				inst = x<<16 | x>>3&0xFFFF
			case 3:
				at = x
			}
			val := le.AppendUint32(nil, cls<<16^inst^at<<5)
			a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: val} }
			what := fmt.Sprintf("GetAttrSingle(%d, %d, %d)", cls, inst, at)
			it, err := a.r.cl.GetAttrSingle(gologix.CIPClass(cls), gologix.CIPInstance(inst), gologix.CIPAttribute(at))
			checkRest(c, what, it, err, val)
			a.checkAsked(c, what, 0x0E, []plc.Seg{{Kind: 'c', Num: cls}, {Kind: 'i', Num: inst}, {Kind: 'a', Num: at}}, nil)
			c.State("single", cls, inst, at)
			c.Distinct("single", cls, inst, at)
			c.Eval(1)
			c.Trans(1)
		}
		c.Distinct("sweep", which, blk)
		c.State("sweep", which, blk)
	}}
	us = append(us, vk.Shard(sweep, 4, 2)...)
	us = append(us, vk.Unit{Name: "sizes", Run: func(c *vk.C) {
		a := newAsked(c, c.Bool("large connection"))
		op := c.Choose(3, "query")
		room := a.room()
		if room < 300 {
			panic("no connection")
		}
		n := 0
		for sz := 0; sz <= room; sz++ {
			if op == 1 && sz < 2 {
				continue
			}
			n++
			v := filler(sz, uint32(sz))
			a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: v} }
			switch op {
			case 0:
				it, err := a.r.cl.GetAttrSingle(0x64, 1, 2)
				checkRest(c, fmt.Sprintf("GetAttrSingle of %d bytes", sz), it, err, v)
			case 1:
				it, err := a.r.cl.GetAttrList(0x64, 1, 2)
				checkRest(c, fmt.Sprintf("GetAttrList of %d bytes", sz), it, err, v[2:])
			case 2:
				it, err := a.r.cl.GenericCIPMessage(0x4B, []byte{0x20, 0x64, 0x24, 1}, nil)
				checkRest(c, fmt.Sprintf("GenericCIPMessage with a reply of %d bytes", sz), it, err, v)
			}
			a.take()
			a.r.problems(c, "sizes")
			c.State("sizes", op, room, sz)
			c.Distinct("sizes", op, room, sz)
		}
		c.Eval(n - 1)
		c.Trans(n)
		c.Distinct("sizes", op, room)
		c.State("sizes", op, room)
	}})
	us = append(us, vk.Unit{Name: "list:orders", Run: func(c *vk.C) {
		pool := []uint16{1, 2, 11, 255, 256, 0x1234, 0xFFFF}
		maxLen := 4
		if deep {
			maxLen = 6
		}
		a := newAsked(c, c.Bool("large connection"))
		cls := vk.Pick(c, []uint32{1, 0x8B, 0x100, 0xFFFF}, "class")
		inst := vk.Pick(c, []uint32{0, 1, 256, 0x10000, 0xFFFFFFFF}, "instance")
		n := 0
		var list []uint16
		var rec func()
		rec = func() {
			if len(list) > 0 || true {
				n++
				req := le.AppendUint16(nil, uint16(len(list)))
				rep := le.AppendUint16(nil, uint16(len(list)))
				args := make([]gologix.CIPAttribute, len(list))
				for i, x := range list {
					args[i] = gologix.CIPAttribute(x)
					req = le.AppendUint16(req, x)
					rep = le.AppendUint16(rep, x)
					rep = append(rep, 0, 0)
					rep = append(rep, filler(int(x)%5+1, uint32(x)+inst)...)
				}
				a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: rep} }
				what := fmt.Sprintf("GetAttrList(%d, %d, %v)", cls, inst, list)
				it, err := a.r.cl.GetAttrList(gologix.CIPClass(cls), gologix.CIPInstance(inst), args...)
				checkRest(c, what, it, err, rep[2:])
				a.checkAsked(c, what, 0x03, []plc.Seg{{Kind: 'c', Num: cls}, {Kind: 'i', Num: inst}}, req)
				c.State(cls, inst, string(req))
				c.Distinct(cls, inst, string(req))
				// an attribute that is not there: the reply is refused in part
				a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Status: 0x0A, Data: rep} }
				_, err = a.r.cl.GetAttrList(gologix.CIPClass(cls), gologix.CIPInstance(inst), args...)
				refusedWith(c, what, err)
				a.take()
			}
			if len(list) == maxLen {
				return
			}
			for _, x := range pool {
				list = append(list, x)
				rec()
				list = list[:len(list)-1]
			}
		}
		rec()
		c.Eval(2*n - 1)
		c.Trans(2 * n)
		c.Distinct("list", cls, inst)
		c.State("list", cls, inst)
	}})
	us = append(us, vk.Unit{Name: "list:lengths", Run: func(c *vk.C) {
		a := newAsked(c, c.Bool("large connection"))
		room := a.room()
		n := 0
		for k := 0; k <= room/2+8; k++ {
			n++
			args := make([]gologix.CIPAttribute, k)
			req := le.AppendUint16(nil, uint16(k))
			for i := range args {
				args[i] = gologix.CIPAttribute(i*3 + 1)
				req = le.AppendUint16(req, uint16(i*3+1))
			}
			rep := append(le.AppendUint16(nil, uint16(k)), filler(min(4*k, room-2), uint32(k))...)
			a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: rep} }
			what := fmt.Sprintf("GetAttrList of %d attributes", k)
			it, err := a.r.cl.GetAttrList(0x64, 1, args...)
			// request: sequence, service, path words, 4 bytes of path
			if 2+2+4+len(req) > room+6 {
				if err == nil {
					c.Fail("too-long", "%s does not fit the connection and returns no error", what)
				}
				break
			}
			checkRest(c, what, it, err, rep[2:])
			a.checkAsked(c, what, 0x03, []plc.Seg{{Kind: 'c', Num: 0x64}, {Kind: 'i', Num: 1}}, req)
		}
		c.Eval(n - 1)
		c.Trans(n)
		c.Distinct("lengths", room)
		c.State("lengths", room, n)
	}})
	us = append(us, vk.Unit{Name: "controller properties", Run: func(c *vk.C) {
		a := newAsked(c, true)
		w16 := []uint16{0, 1, 0x00FF, 0xFF00, 0x8001, 0xFFFF}
		w32 := []uint32{0, 1, 0xFF, 0x00FF0000, 0x80000001, 0xFFFFFFFF}
		v1 := vk.Pick(c, w16, "attribute 1")
		v2 := vk.Pick(c, w16, "attribute 2")
		n := 0
		for _, v3 := range w32 {
			for _, v4 := range w32 {
				for _, v5 := range w32 {
					n++
					rep := []byte{5, 0, 1, 0, 0, 0}
					rep = le.AppendUint16(rep, v1)
					rep = append(rep, 2, 0, 0, 0)
					rep = le.AppendUint16(rep, v2)
					rep = append(rep, 3, 0, 0, 0)
					rep = le.AppendUint32(rep, v3)
					rep = append(rep, 4, 0, 0, 0)
					rep = le.AppendUint32(rep, v4)
					rep = append(rep, 10, 0, 0, 0)
					rep = le.AppendUint32(rep, v5)
					a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: rep} }
					got, err := a.r.cl.GetControllerPropList()
					if err != nil {
						c.Fail("refused", "GetControllerPropList fails: %v", err)
					}
					if got.Attr1 != v1 || got.Attr2 != v2 || got.Attr3 != v3 || got.Attr4 != v4 || got.Attr5 != v5 {
						c.Fail("properties", "GetControllerPropList returns %+v, the controller holds %#x %#x %#x %#x %#x", got, v1, v2, v3, v4, v5)
					}
					a.checkAsked(c, "GetControllerPropList", 0x03, []plc.Seg{{Kind: 'c', Num: 0xAC}, {Kind: 'i', Num: 1}}, []byte{5, 0, 1, 0, 2, 0, 3, 0, 4, 0, 10, 0})
					// the same and each single change of it
					if !got.Match(got) {
						c.Fail("match", "properties %+v do not match themselves", got)
					}
					for f := 0; f < 10; f++ {
						alt := got
						switch f {
						case 0:
							alt.Attr1++
						case 1:
							alt.Attr2 ^= 0x8000
						case 2:
							alt.Attr3 ^= 1 << 31
						case 3:
							alt.Attr4 ^= 0x10000
						case 4:
							alt.Attr5--
						case 5:
							alt.Attr1_Status = 5
						case 6:
							alt.Attr2_Status = 0x100
						case 7:
							alt.Attr3_Status++
						case 8:
							alt.Attr4_Status++
						case 9:
							alt.Attr5_Status--
						}
						if got.Match(alt) || alt.Match(got) {
							c.Fail("match", "properties %+v and %+v are said to match", got, alt)
						}
					}
				}
			}
		}
		c.Eval(n - 1)
		c.Trans(n)
		c.Distinct("prop", v1, v2)
		c.State("prop", v1, v2)
	}})
	order := vk.Unit{Name: "order", Run: func(c *vk.C) {
		p := opsPLC(4)
		r := newRig(c, p)
		r.connect(c)
		depth := 3
		if deep {
			depth = 5
		}
		var names []string
		for i := 0; i < depth; i++ {
			op := vk.Pick(c, queries(), "query")
			id := i % 4
			names = append(names, op.name)
			o := op.run(r.cl, p, id)
			what := strings.Join(names, ", ")
			if o.err != nil {
				c.Fail("refused", "%s: the last one fails: %v", what, o.err)
			}
			if o.wrong != "" {
				c.Fail("value", "%s: the last one: %s", what, o.wrong)
			}
			c.Trans(1)
			c.State(what)
		}
		r.problems(c, strings.Join(names, ", "))
		c.Distinct(strings.Join(names, ","))
	}}
	us = append(us, vk.Shard(order, 4, 2)...)
	us = append(us, vk.Unit{Name: "refused", Run: func(c *vk.C) {
		a := newAsked(c, true)
		ext := c.Choose(3, "extended status words")
		withData := c.Bool("data after the status")
		for st := 1; st < 256; st++ {
			var rp plc.Reply
			rp.Status = byte(st)
			for i := 0; i < ext; i++ {
				rp.Ext = append(rp.Ext, uint16(0x2100+st+i))
			}
			if withData {
				rp.Data = filler(40, uint32(st))
			}
			a.rep = func(*plc.Req) plc.Reply { return rp }
			_, err := a.r.cl.GetAttrSingle(1, 1, 1)
			refusedWith(c, fmt.Sprintf("GetAttrSingle with status %#x", st), err)
			_, err = a.r.cl.GetAttrList(1, 1, 1)
			refusedWith(c, fmt.Sprintf("GetAttrList with status %#x", st), err)
			_, err = a.r.cl.GetControllerPropList()
			refusedWith(c, fmt.Sprintf("GetControllerPropList with status %#x", st), err)
			_, err = canned.GetFaults(a.r.cl)
			refusedWith(c, fmt.Sprintf("GetFaults with status %#x", st), err)
			_, err = canned.GetForces(a.r.cl)
			refusedWith(c, fmt.Sprintf("GetForces with status %#x", st), err)
			_, err = a.r.cl.GenericCIPMessage(0x0E, []byte{0x20, 1, 0x24, 1}, nil)
			refusedWith(c, fmt.Sprintf("GenericCIPMessage with status %#x", st), err)
			var se gologix.CIPStatusError
			if !errors.As(err, &se) {
				c.Fail("status", "GenericCIPMessage with status %#x fails with %v, which is no status error", st, err)
			}
			if byte(se.Status) != byte(st) {
				c.Fail("status", "GenericCIPMessage refused with status %#x reports status %#x", st, byte(se.Status))
			}
			c.Eval(6)
			c.Trans(6)
			a.take()
		}
		c.Distinct("refused", ext, withData)
		c.State("refused", ext, withData)
	}})
	us = append(us, vk.Unit{Name: "generic:requests", Run: func(c *vk.C) {
		a := newAsked(c, c.Bool("large connection"))
		room := a.room() + 6
		kindOf := c.Choose(3, "services, path lengths or data lengths")
		n := 0
		one := func(svc byte, path, data []byte) {
			n++
			rep := filler(n%17, uint32(n))
			a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: rep} }
			what := fmt.Sprintf("GenericCIPMessage(%#x, %d byte path, %d bytes of data)", svc, len(path), len(data))
			p0, d0 := bytes.Clone(path), bytes.Clone(data)
			it, err := a.r.cl.GenericCIPMessage(gologix.CIPService(svc), path, data)
			if !bytes.Equal(path, p0) || !bytes.Equal(data, d0) {
				c.Fail("clobbered", "%s changes its arguments", what)
			}
			if 2+2+len(path)+len(data) > room {
				if err == nil {
					c.Fail("too-long", "%s does not fit the connection and returns no error", what)
				}
				c.Stop()
			}
			checkRest(c, what, it, err, rep)
			c.State("generic", svc, len(path), len(data), room)
			c.Distinct("generic", svc, len(path), len(data), room)
			q := a.take()
			a.r.problems(c, what)
			if len(q) != 1 {
				c.Fail("requests", "%s: the controller was sent %d requests", what, len(q))
			}
			if q[0].Service != svc || !bytes.Equal(q[0].Path, path) || !bytes.Equal(q[0].Data, data) {
				c.Fail("request", "%s: the controller was sent service %#x, path %s, data %s; expected path %s, data %s", what, q[0].Service, short(q[0].Path), short(q[0].Data), short(path), short(data))
			}
		}
		base := []byte{0x20, 0x73, 0x24, 1}
		switch kindOf {
		case 0:
			for svc := 1; svc < 128; svc++ {
				if svc == 0x0A {
					continue // the multiple service packet has its own request form
				}
				for _, dn := range []int{0, 1, 2, 5} {
					one(byte(svc), base, filler(dn, uint32(svc)))
				}
			}
		case 1:
			// paths are any even number of bytes up to 255 words
			for w := 1; w <= 255 && 2*w+4 <= room; w++ {
				path := bytes.Repeat([]byte{0x28, byte(w)}, w)
				copy(path, base)
				one(0x4C, path, nil)
				if 2*w+5 <= room {
					one(0x4C, path, []byte{byte(w)})
				}
			}
		case 2:
			for dn := 0; dn <= room+3; dn++ {
				one(0x4C, base, filler(dn, uint32(dn)))
			}
		}
		c.Eval(n - 1)
		c.Trans(n)
		c.Distinct("generic", kindOf, room)
		c.State("generic", kindOf, room)
	}})
	us = append(us, vk.Unit{Name: "identity", Run: func(c *vk.C) {
		p := plc.New()
		p.MaxFrames = 0
		r := newRig(c, p)
		r.connect(c)
		w16 := []uint16{0, 1, 0x00FF, 0xFF00, 0x1234, 0x8001, 0xFFFF}
		field := c.Choose(4, "fields, name, items or state")
		n := 0
		type id struct {
			ver, fam, port       uint16
			addr, z0, z1         uint32
			vend, dev, code, rev uint16
			status               uint16
			serial               uint32
			name                 string
			state                byte
		}
		enc := func(x id) []byte {
			b := le.AppendUint16(nil, x.ver)
			b = binary.BigEndian.AppendUint16(b, x.fam)
			b = binary.BigEndian.AppendUint16(b, x.port)
			b = binary.BigEndian.AppendUint32(b, x.addr)
			b = binary.BigEndian.AppendUint32(b, x.z0)
			b = binary.BigEndian.AppendUint32(b, x.z1)
			for _, w := range []uint16{x.vend, x.dev, x.code, x.rev, x.status} {
				b = le.AppendUint16(b, w)
			}
			b = le.AppendUint32(b, x.serial)
			b = append(b, byte(len(x.name)))
			b = append(b, x.name...)
			return append(b, x.state)
		}
		try := func(x id, more ...plc.Item) {
			n++
			c.State(fmt.Sprint(x), len(more))
			c.Distinct(fmt.Sprint(x), len(more))
			p.IdentityItems = func() []plc.Item { return append([]plc.Item{{ID: 0x0C, Data: enc(x)}}, more...) }
			g, err := r.cl.ListIdentity()
			if err != nil {
				c.Fail("refused", "ListIdentity fails: %v (identity %+v)", err, x)
			}
			got := id{g.EncapProtocolVersion, g.SocketAddress.Family, g.SocketAddress.Port, g.SocketAddress.Address, g.SocketAddress.Zero0, g.SocketAddress.Zero1,
				uint16(g.Vendor), uint16(g.DeviceType), g.ProductCode, g.Revision, g.Status, g.SerialNumber, g.ProductName, g.State}
			if got != x {
				c.Fail("identity", "ListIdentity returns %+v, the device states %+v", got, x)
			}
			r.problems(c, "ListIdentity")
		}
		base := id{1, 2, 0xAF12, 0x0A000001, 0, 0, 1, 14, 0x5E, 0x0B14, 0x3060, 0xC0FFEE01, "1756-L71/B LOGIX5571", 3}
		switch field {
		case 0:
			for i := 0; i < 12; i++ {
				vals := w16
				for _, v := range vals {
					for _, hi := range w16 {
						x := base
						w := uint32(hi)<<16 | uint32(v)
						switch i {
						case 0:
							x.ver = v
						case 1:
							x.fam = v
						case 2:
							x.port = v
						case 3:
							x.addr = w
						case 4:
							x.z0 = w
						case 5:
							x.z1 = w
						case 6:
							x.vend = v
						case 7:
							x.dev = v
						case 8:
							x.code = v
						case 9:
							x.rev = v
						case 10:
							x.status = v
						case 11:
							x.serial = w
						}
						try(x)
					}
				}
			}
		case 1:
			for l := 0; l < 256; l++ {
				for v := 0; v < 3; v++ {
					x := base
					switch v {
					case 0:
						x.name = strings.Repeat("n", l)
					case 1:
						x.name = string(filler(l, uint32(l)))
					case 2:
						x.name = " " + strings.Repeat("\x00", max(l-1, 0))
						x.name = x.name[:l]
					}
					try(x)
				}
			}
		case 2:
			for m := 0; m < 4; m++ {
				var more []plc.Item
				for i := 0; i < m; i++ {
					o := base
					o.serial += uint32(i + 1)
					o.name = "other"
					more = append(more, plc.Item{ID: 0x0C, Data: enc(o)})
				}
				try(base, more...)
				// the reply may be followed by what this version does not know
				more = append(more, plc.Item{ID: 0x8000, Data: make([]byte, 16)})
				try(base, more...)
			}
			p.IdentityItems = func() []plc.Item { return nil }
			if g, err := r.cl.ListIdentity(); err == nil {
				c.Fail("empty", "ListIdentity returns %+v from a device that states no identity", g)
			}
		case 3:
			for s := 0; s < 256; s++ {
				x := base
				x.state = byte(s)
				try(x)
				x.name = ""
				try(x)
			}
		}
		c.Eval(n - 1)
		c.Trans(n)
		c.Distinct("identity", field)
		c.State("identity", field)
	}})
	us = append(us, vk.Unit{Name: "services", Run: func(c *vk.C) {
		p := plc.New()
		p.MaxFrames = 0
		r := newRig(c, p)
		r.connect(c)
		type svc struct {
			ver, caps uint16
			name      string
		}
		try := func(xs []svc) {
			p.ServiceItems = func() []plc.Item {
				var r []plc.Item
				for _, x := range xs {
					b := le.AppendUint16(nil, x.ver)
					b = le.AppendUint16(b, x.caps)
					nm := make([]byte, 16)
					copy(nm, x.name)
					r = append(r, plc.Item{ID: 0x100, Data: append(b, nm...)})
				}
				return r
			}
			got, err := r.cl.ListServices()
			if err != nil {
				c.Fail("refused", "ListServices fails: %v (%v)", err, xs)
			}
			var g []svc
			for _, x := range got {
				g = append(g, svc{x.EncapProtocolVersion, uint16(x.Capabilities), x.Name})
			}
			if fmt.Sprintf("%q", g) != fmt.Sprintf("%q", xs) {
				c.Fail("services", "ListServices returns %q, the device states %q", g, xs)
			}
			r.problems(c, "ListServices")
			c.Trans(1)
			c.Eval(1)
		}
		w16 := []uint16{0, 1, 0x20, 0x0100, 0x0120, 0x8000, 0xFFFF}
		pool := []svc{{1, 0x120, "Communications"}, {0, 0, ""}, {0xFFFF, 0x8001, "sixteen bytes it"}, {2, 0xFF00, "\x01a b"}}
		switch c.Choose(2, "fields or counts") {
		case 0:
			for _, v := range w16 {
				for _, w := range w16 {
					try([]svc{{v, w, "Communications"}})
				}
			}
			for l := 0; l <= 16; l++ {
				try([]svc{{1, 0x20, strings.Repeat("x", l)}})
				try([]svc{{1, 0x20, strings.Repeat("\xff", l)}})
			}
		case 1:
			var xs []svc
			var rec func()
			rec = func() {
				try(xs)
				if len(xs) == 4 {
					return
				}
				for _, x := range pool {
					xs = append(xs, x)
					rec()
					xs = xs[:len(xs)-1]
				}
			}
			rec()
		}
		c.Distinct("services", len(pool))
		c.State("services")
	}})
	us = append(us, vk.Unit{Name: "faults", Run: func(c *vk.C) {
		a := newAsked(c, true)
		which := c.Choose(6, "field")
		n := 0
		try := func(want canned.FaultSummary) {
			n++
			b := le.AppendUint32(nil, uint32(want.MajorType))
			b = le.AppendUint32(b, uint32(want.MinorType))
			b = le.AppendUint16(b, want.MajorCount)
			b = le.AppendUint16(b, want.MinorCount)
			for _, e := range want.Events {
				b = le.AppendUint64(b, e.Timestamp)
				b = le.AppendUint16(b, e.FaultClass)
				b = le.AppendUint16(b, e.FaultCode)
				b = append(b, e.Detail[:]...)
			}
			a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: b} }
			got, err := canned.GetFaults(a.r.cl)
			if err != nil {
				c.Fail("refused", "GetFaults fails: %v", err)
			}
			if got != want {
				c.Fail("faults", "GetFaults returns %+v, the controller states %+v", got, want)
			}
			a.checkAsked(c, "GetFaults", 0x01, []plc.Seg{{Kind: 'c', Num: 0x73}, {Kind: 'i', Num: 1}}, nil)
		}
		var base canned.FaultSummary
		base.MajorType, base.MinorType, base.MajorCount, base.MinorCount = 0x10, 0x20, 3, 4
		for i := range base.Events {
			base.Events[i] = canned.FaultEvent{Timestamp: uint64(1000 + i), FaultClass: 4, FaultCode: uint16(20 + i)}
			copy(base.Events[i].Detail[:], filler(30, uint32(i)))
		}
		preds := map[canned.FaultType]func(canned.FaultType) bool{
			canned.FaultType_Powerup: canned.FaultType.PowerupFault, canned.FaultType_IO: canned.FaultType.IOFault,
			canned.FaultType_Program: canned.FaultType.ProgramFault, canned.FaultType_Watchdog: canned.FaultType.WatchdogFault,
			canned.FaultType_NVMemory: canned.FaultType.NVMemoryFault, canned.FaultType_ModeChange: canned.FaultType.ModeChangeFault,
			canned.FaultType_SerialPort: canned.FaultType.SerialPortFault, canned.FaultType_EnergyStorage: canned.FaultType.EnergyStorageFault,
			canned.FaultType_Motion: canned.FaultType.MotionFault, canned.FaultType_Redundancy: canned.FaultType.RedundancyFault,
			canned.FaultType_RTC: canned.FaultType.RTCFault, canned.FaultType_NonRecoverable: canned.FaultType.NonRecoverableFault,
			canned.FaultType_Communication: canned.FaultType.CommunicationFault, canned.FaultType_Diagnostics: canned.FaultType.DiagnosticsFault,
			canned.FaultType_CIPMotion: canned.FaultType.CIPMotionFault, canned.FaultType_Ethernet: canned.FaultType.EthernetFault,
			canned.FaultType_License: canned.FaultType.LicenseFault, canned.FaultType_Alarm: canned.FaultType.AlarmFault,
			canned.FaultType_OPCUA: canned.FaultType.OPCUAFault,
		}
		switch which {
		case 0: // types: every pair of bits
			for i := 0; i < 32; i++ {
				for j := 0; j < 32; j++ {
					w := base
					w.MajorType = 1<<i | 1<<j
					w.MinorType = 1<<j ^ 0xFFFFFFFF
					try(w)
					for bit, f := range preds {
						for _, t := range []canned.FaultType{w.MajorType, w.MinorType} {
							if f(t) != (t&bit != 0) {
								c.Fail("predicate", "the predicate of fault type %#x says %v for %#x", uint32(bit), f(t), uint32(t))
							}
						}
					}
				}
			}
		case 1:
			for _, v := range bounds(0xFFFF) {
				for _, x := range bounds(0xFFFF) {
					w := base
					w.MajorCount, w.MinorCount = uint16(v), uint16(x)
					try(w)
				}
			}
		case 2:
			for e := 0; e < 3; e++ {
				for i := 0; i < 64; i++ {
					w := base
					w.Events[e].Timestamp = 1 << i
					try(w)
				}
				for i := 0; i < 30; i++ {
					w := base
					w.Events[e].Detail[i] ^= 0xFF
					try(w)
				}
			}
		case 3:
			for e := 0; e < 3; e++ {
				for _, v := range bounds(0xFFFF) {
					for _, x := range bounds(0xFFFF) {
						w := base
						w.Events[e].FaultClass, w.Events[e].FaultCode = uint16(v), uint16(x)
						try(w)
					}
				}
			}
		case 4: // descriptions of every event of the table's types
			for cl := 0; cl < 64; cl++ {
				for code := 0; code < 4096; code++ {
					e := canned.FaultEvent{FaultClass: uint16(cl), FaultCode: uint16(code)}
					d := e.Description()
					n++
					if d.Type != cl || d.Code != code {
						c.Fail("description", "the description of fault T%02d:C%02d is that of T%02d:C%02d", cl, code, d.Type, d.Code)
					}
					var t, k int
					if at := strings.Index(d.Display, "Fault T"); at >= 0 {
						if _, err := fmt.Sscanf(d.Display[at:], "Fault T%d:C%d", &t, &k); err == nil && (t != cl || k != code) {
							c.Fail("description", "fault T%02d:C%02d displays as %q", cl, code, d.Display)
						}
					}
					if s := e.String(); (cl != 0 || code != 0) && s != d.Display || cl == 0 && code == 0 && s != "No Fault" {
						c.Fail("string", "fault T%02d:C%02d prints as %q", cl, code, s)
					}
				}
			}
		case 5: // a cut answer is no summary
			w := filler(16+3*42-4, 9)
			for l := 0; l < len(w); l++ {
				n++
				a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: w[:l]} }
				_, err := canned.GetFaults(a.r.cl)
				if l < 12+3*42 && err == nil {
					c.Fail("cut", "GetFaults accepts %d of %d bytes", l, 12+3*42)
				}
				a.take()
			}
		}
		c.Eval(n)
		c.Trans(n)
		c.Distinct("faults", which)
		c.State("faults", which)
	}})
	us = append(us, vk.Unit{Name: "forces", Run: func(c *vk.C) {
		a := newAsked(c, true)
		hi := c.Choose(16, "high bits")
		n := 0
		for lo := 0; lo < 4096; lo++ {
			n++
			v := uint16(hi<<12 | lo)
			rep := le.AppendUint16([]byte{1, 0, 9, 0, 0, 0}, v)
			a.rep = func(*plc.Req) plc.Reply { return plc.Reply{Data: rep} }
			f, err := canned.GetForces(a.r.cl)
			if err != nil {
				c.Fail("refused", "GetForces fails: %v", err)
			}
			if uint16(f) != v {
				c.Fail("forces", "GetForces returns %#x, the controller states %#x", uint16(f), v)
			}
			a.checkAsked(c, "GetForces", 0x03, []plc.Seg{{Kind: 'c', Num: 0x69}, {Kind: 'i', Num: 0}}, []byte{1, 0, 9, 0})
		}
		c.Eval(n)
		c.Trans(n)
		c.Distinct("forces", hi)
		c.State("forces", hi)
	}})
	us = append(us, vk.Unit{Name: "forces:exist and enabled", Run: func(c *vk.C) {
		differ := false
		for v := 0; v < 65536; v++ {
			f := canned.ForceStatus(v)
			if f.Exist() != f.Enabled() {
				differ = true
			}
		}
		c.Eval(65536)
		c.Trans(1)
		c.State("forces")
		if !differ {
			c.Fail("forces-same", "ForceStatus.Exist and ForceStatus.Enabled are equal for each of the 65536 force status words: forces that exist but are not enabled are not told from enabled ones")
		}
	}})
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "C14", Level: "model_checking",
		Rule:        "every combination of class, instance and attribute boundary numbers and a sweep of each number's whole 16 bit range; every reply size up to the connection; every attribute list up to length 4 (thorough 6) over 7 attributes and every list length until the request no longer fits; every refusal status; every service code, path length and data length of a generic message; every identity field, name length and state; every list of up to 4 services; fault and force words; every sequence of 3 (thorough 5) queries of 10 on one client; each against the reference controller, which checks the request and whose answer is the expected result",
		Units:       c14Units,
		Bounds:      map[string]any{"quick": "lists up to 4 of 7 attributes, 3 queries in a row of 10", "thorough": "lists up to 6, 5 queries in a row"},
		QuickBudget: 80 * time.Second, ThoroughBudget: 10 * time.Minute,
	})
}
