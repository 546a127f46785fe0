package plc

import (
	"fmt"
)

// NewSession starts a TCP connection to the controller.
func (p *PLC) NewSession() *Session {
	s := &Session{P: p}
	p.Sessions = append(p.Sessions, s)
	return s
}

// OpenConns counts the CIP connections that were opened and not closed.
func (p *PLC) OpenConns() int {
	n := 0
	for _, s := range p.Sessions {
		if s.Ended {
			continue
		}
		for _, c := range s.Conns {
			if !c.Closed {
				n++
			}
		}
	}
	return n
}

// FrameLen returns the length of the first complete frame of b, or 0.
func FrameLen(b []byte) int {
	if len(b) < 24 {
		return 0
	}
	n := 24 + int(le.Uint16(b[2:]))
	if len(b) < n {
		return 0
	}
	return n
}

// EncapFrame builds an encapsulation frame.
func EncapFrame(cmd uint16, session, status uint32, ctx []byte, payload []byte) []byte {
	b := le.AppendUint16(nil, cmd)
	b = le.AppendUint16(b, uint16(len(payload)))
	b = le.AppendUint32(b, session)
	b = le.AppendUint32(b, status)
	if len(ctx) != 8 {
		ctx = make([]byte, 8)
	}
	b = append(b, ctx...)
	b = le.AppendUint32(b, 0)
	return append(b, payload...)
}

// Items builds a CPF payload.
func Items(prefix bool, items ...Item) []byte {
	var b []byte
	if prefix {
		b = make([]byte, 6)
	}
	b = le.AppendUint16(b, uint16(len(items)))
	for _, it := range items {
		b = le.AppendUint16(b, it.ID)
		b = le.AppendUint16(b, uint16(len(it.Data)))
		b = append(b, it.Data...)
	}
	return b
}

// Item is one CPF item.
type Item struct {
	ID   uint16
	Data []byte
}

// ParseItems decodes a CPF payload strictly.
func ParseItems(b []byte) ([]Item, error) {
	if len(b) < 2 {
		return nil, fmt.Errorf("no item count")
	}
	n := int(le.Uint16(b))
	b = b[2:]
	var r []Item
	for i := 0; i < n; i++ {
		if len(b) < 4 {
			return nil, fmt.Errorf("item %d header is cut", i)
		}
		l := int(le.Uint16(b[2:]))
		if len(b) < 4+l {
			return nil, fmt.Errorf("item %d of %d bytes is cut", i, l)
		}
		r = append(r, Item{le.Uint16(b), append([]byte(nil), b[4:4+l]...)})
		b = b[4+l:]
	}
	if len(b) != 0 {
		return r, fmt.Errorf("%d bytes after the items", len(b))
	}
	return r, nil
}

// Handle answers one frame; nil means no reply.
func (s *Session) Handle(f []byte) []byte {
	p := s.P
	p.Frames++
	if p.MaxFrames > 0 && p.Frames > p.MaxFrames {
		p.Problem("more than %d requests: endless loop", p.MaxFrames)
		return nil
	}
	cmd := le.Uint16(f)
	sess := le.Uint32(f[4:])
	status := le.Uint32(f[8:])
	ctx := f[12:20]
	opts := le.Uint32(f[20:])
	body := f[24:]
	if status != 0 {
		p.Problem("request with encapsulation status %d", status)
	}
	if opts != 0 {
		p.Problem("request with options %#x", opts)
	}
	err := func(st uint32) []byte { return EncapFrame(cmd, sess, st, ctx, nil) }
	switch cmd {
	case 0x0004: // list services
		if p.ServiceItems != nil {
			return EncapFrame(cmd, sess, 0, ctx, Items(false, p.ServiceItems()...))
		}
		name := make([]byte, 16)
		copy(name, "Communications")
		d := le.AppendUint16(nil, 1)
		d = le.AppendUint16(d, 0x0120)
		return EncapFrame(cmd, sess, 0, ctx, Items(false, Item{0x100, append(d, name...)}))
	case 0x0063: // list identity
		if p.IdentityItems != nil {
			return EncapFrame(cmd, sess, 0, ctx, Items(false, p.IdentityItems()...))
		}
		return EncapFrame(cmd, sess, 0, ctx, Items(false, Item{0x0C, p.Identity()}))
	case 0x0065:
		if len(body) != 4 || le.Uint16(body) != 1 || le.Uint16(body[2:]) != 0 {
			p.Problem("register session payload % x", body)
			return err(3)
		}
		if s.Registered {
			p.Problem("session registered twice on one connection")
			return err(1)
		}
		s.Registered = true
		p.nextSession++
		s.Handle0 = p.nextSession
		return EncapFrame(cmd, s.handle(), 0, ctx, body)
	case 0x0066:
		return nil
	case 0x006F, 0x0070:
		if !s.Registered || sess != s.handle() {
			p.Problem("command %#x with session %#x, expected %#x", cmd, sess, s.handle())
			return err(0x64)
		}
		if len(body) < 6 {
			p.Problem("command %#x with %d bytes", cmd, len(body))
			return err(3)
		}
		if le.Uint32(body) != 0 {
			p.Problem("interface handle %#x", le.Uint32(body))
		}
		items, e := ParseItems(body[6:])
		if e != nil {
			p.Problem("command %#x: %v", cmd, e)
			return err(3)
		}
		if len(items) != 2 {
			p.Problem("command %#x with %d items", cmd, len(items))
			return err(3)
		}
		if cmd == 0x6F {
			if items[0].ID != 0 || len(items[0].Data) != 0 || items[1].ID != 0xB2 {
				p.Problem("unconnected items %#x(%d) %#x", items[0].ID, len(items[0].Data), items[1].ID)
				return err(3)
			}
			rep := s.unconnected(items[1].Data)
			return EncapFrame(cmd, sess, 0, ctx, Items(true, Item{0, nil}, Item{0xB2, rep}))
		}
		if items[0].ID != 0xA1 || len(items[0].Data) != 4 || items[1].ID != 0xB1 || len(items[1].Data) < 2 {
			p.Problem("connected items %#x(%d) %#x(%d)", items[0].ID, len(items[0].Data), items[1].ID, len(items[1].Data))
			return err(3)
		}
		id := le.Uint32(items[0].Data)
		var c *CIPConn
		for _, k := range s.Conns {
			if k.OT == id && !k.Closed {
				c = k
			}
		}
		if c == nil {
			p.Problem("connected request on unknown connection %#x", id)
			return nil // a controller drops it
		}
		d := items[1].Data
		if len(d) > c.Size {
			p.Problem("connected request of %d bytes on a connection of size %d", len(d), c.Size)
			return nil
		}
		seq := le.Uint16(d)
		if int(seq) == c.lastSeq {
			p.Problem("sequence count %d repeated: the controller repeats its last reply", seq)
			return c.last
		}
		c.lastSeq = int(seq)
		rep := append(le.AppendUint16(nil, seq), p.cip(s, d[2:], seq, len(d), c.Size-2)...)
		c.last = EncapFrame(cmd, sess, 0, ctx, Items(true, Item{0xA1, le.AppendUint32(nil, c.TO)}, Item{0xB1, rep}))
		return c.last
	}
	p.Problem("unknown command %#x", cmd)
	return err(1)
}

func (s *Session) handle() uint32 { return s.Handle0 }

// Identity is the identity item.
func (p *PLC) Identity() []byte {
	d := le.AppendUint16(nil, 1)
	d = append(d, 0, 2, 0xAF, 0x12, 10, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0)
	d = le.AppendUint16(d, 1)
	d = le.AppendUint16(d, 14)
	d = le.AppendUint16(d, 0x5E)
	d = append(d, p.Firmware, 11)
	d = le.AppendUint16(d, 0x3060)
	d = le.AppendUint32(d, 0xC0FFEE01)
	name := "1756-L71/B LOGIX5571"
	d = append(d, byte(len(name)))
	d = append(d, name...)
	return append(d, 3)
}

func (s *Session) unconnected(b []byte) []byte {
	p := s.P
	r, err := splitReq(b)
	if err != nil {
		p.Problem("unconnected: %v", err)
		return packReply(0, Reply{Status: 0x13})
	}
	p.Reqs = append(p.Reqs, r)
	if p.Override != nil {
		if rp := p.Override(&p.Reqs[len(p.Reqs)-1]); rp != nil {
			return packReply(r.Service, *rp)
		}
	}
	cm := len(r.Path) == 4 && r.Path[0] == 0x20 && r.Path[1] == 0x06 && r.Path[2] == 0x24 && r.Path[3] == 1
	if !cm {
		return packReply(r.Service, Reply{Status: 0x05})
	}
	switch r.Service {
	case 0x54, 0x5B:
		return packReply(r.Service, s.forwardOpen(r))
	case 0x4E:
		return packReply(r.Service, s.forwardClose(r))
	}
	return packReply(r.Service, Reply{Status: 0x08})
}

func (s *Session) checkPath(p []byte, words int) bool {
	if len(p) != 2*words {
		s.P.Problem("connection path of %d bytes, %d words announced", len(p), words)
		return false
	}
	segs, err := ParseEPath(p)
	if err != nil {
		s.P.Problem("connection path % x: %v", p, err)
		return false
	}
	if n := len(segs); n < 2 || segs[n-2] != (Seg{Kind: 'c', Num: 2}) || segs[n-1] != (Seg{Kind: 'i', Num: 1}) {
		s.P.Problem("connection path % x does not end at the message router", p)
		return false
	}
	return true
}

func (s *Session) forwardOpen(r Req) Reply {
	p := s.P
	d := r.Data
	large := r.Service == 0x5B
	fix := 36
	if large {
		fix = 40
	}
	if len(d) < fix {
		p.Problem("forward open of %d bytes", len(d))
		return Reply{Status: 0x13}
	}
	c := &CIPConn{Session: s, lastSeq: -1}
	c.TO = le.Uint32(d[6:])
	c.Serial = le.Uint16(d[10:])
	c.Vendor = le.Uint16(d[12:])
	c.OSerial = le.Uint32(d[14:])
	var ot, to, size uint32
	if large {
		ot, to = le.Uint32(d[26:]), le.Uint32(d[34:])
		size = ot & 0xFFFF
		if to&0xFFFF != size {
			p.Problem("forward open sizes differ: %d %d", size, to&0xFFFF)
		}
	} else {
		ot, to = uint32(le.Uint16(d[26:])), uint32(le.Uint16(d[32:]))
		size = ot & 0x1FF
		if to&0x1FF != size {
			p.Problem("forward open sizes differ: %d %d", size, to&0x1FF)
		}
	}
	o := Open{Large: large, Priority: d[0], Ticks: d[1], OTID: le.Uint32(d[2:]), TOID: c.TO, Serial: c.Serial, Vendor: c.Vendor, OSerial: c.OSerial,
		Multiplier: d[18], Reserved: [3]byte(d[19:22]), OTRPI: le.Uint32(d[22:]), Trigger: d[fix-2], Path: append([]byte(nil), d[fix:]...)}
	if large {
		o.TORPI = le.Uint32(d[30:])
		o.OTSize, o.TOSize = int(ot&0xFFFF), int(to&0xFFFF)
		o.OTType, o.TOType = int(ot>>29&3), int(to>>29&3)
		o.OTVariable, o.TOVariable = ot>>25&1 == 1, to>>25&1 == 1
		o.OTRest, o.TORest = ot&0x9DFF0000, to&0x9DFF0000
	} else {
		o.TORPI = le.Uint32(d[28:])
		o.OTSize, o.TOSize = int(ot&0x1FF), int(to&0x1FF)
		o.OTType, o.TOType = int(ot>>13&3), int(to>>13&3)
		o.OTVariable, o.TOVariable = ot>>9&1 == 1, to>>9&1 == 1
		o.OTRest, o.TORest = ot&0x9C00, to&0x9C00
	}
	p.Opens = append(p.Opens, o)
	if large && !p.AllowLarge {
		return Reply{Status: 0x08}
	}
	words := int(d[fix-1])
	if !s.checkPath(d[fix:], words) {
		return Reply{Status: 0x04}
	}
	if p.MaxConn > 0 && int(size) > p.MaxConn {
		return Reply{Status: 0x01, Ext: []uint16{0x0109}}
	}
	for _, k := range s.Conns {
		if !k.Closed && k.Serial == c.Serial && k.Vendor == c.Vendor && k.OSerial == c.OSerial {
			return Reply{Status: 0x01, Ext: []uint16{0x0100}}
		}
	}
	p.nextConn += 0x101
	c.OT = p.nextConn
	c.Size = int(size)
	p.Opens[len(p.Opens)-1].Granted = true
	s.Conns = append(s.Conns, c)
	out := le.AppendUint32(nil, c.OT)
	out = le.AppendUint32(out, c.TO)
	out = le.AppendUint16(out, c.Serial)
	out = le.AppendUint16(out, c.Vendor)
	out = le.AppendUint32(out, c.OSerial)
	out = append(out, d[22:26]...)
	out = append(out, d[22:26]...)
	return Reply{Data: append(out, 0, 0)}
}

func (s *Session) forwardClose(r Req) Reply {
	p := s.P
	d := r.Data
	if len(d) < 12 {
		p.Problem("forward close of %d bytes", len(d))
		return Reply{Status: 0x13}
	}
	p.Closes = append(p.Closes, Close{d[0], d[1], le.Uint16(d[2:]), le.Uint16(d[4:]), le.Uint32(d[6:]), append([]byte(nil), d[12:]...)})
	if !s.checkPath(d[12:], int(d[10])) {
		return Reply{Status: 0x04}
	}
	for _, k := range s.Conns {
		if !k.Closed && k.Serial == le.Uint16(d[2:]) && k.Vendor == le.Uint16(d[4:]) && k.OSerial == le.Uint32(d[6:]) {
			k.Closed = true
			out := append([]byte(nil), d[2:10]...)
			return Reply{Data: append(out, 0, 0)}
		}
	}
	p.Problem("forward close of a connection that is not open")
	return Reply{Status: 0x01, Ext: []uint16{0x0107}}
}
