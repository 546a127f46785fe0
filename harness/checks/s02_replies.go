package checks

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
)

// strictMap is a map provider that refuses to write "ro..." and to read "wo...".
type strictMap struct {
	gologix.MapTagProvider
	ios int
}

func (p *strictMap) TagRead(tag string, qty int16) (any, error) {
	if len(tag) >= 2 && tag[:2] == "wo" {
		return nil, errors.New("write only")
	}
	return p.MapTagProvider.TagRead(tag, qty)
}

func (p *strictMap) TagWrite(tag string, v any) error {
	if len(tag) >= 2 && tag[:2] == "ro" {
		return errors.New("read only")
	}
	return p.MapTagProvider.TagWrite(tag, v)
}

// peerConn is the peer's end of a connection to the server.
type peerConn interface {
	send(b []byte) // returns when the server has dealt with it
	take() []byte
	isClosed() bool
	drop(reset bool)
}

// peer is an originator that speaks in raw frames.
type peer struct {
	c       *vk.C
	k       peerConn
	session uint32
	ctx     byte
	seq     int
}

func (r *srvRig) peer() *peer { return &peer{c: r.c, k: r.dial(), seq: 100} }

func (p *peer) nextCtx() []byte {
	p.ctx++
	return []byte{p.ctx, 0xA5, 0, 0xFF, 7, 0x80, 1, ^p.ctx}
}

// frame is one decoded reply frame.
type rframe struct {
	cmd     uint16
	session uint32
	status  uint32
	ctx     []byte
	opts    uint32
	body    []byte
}

// frames splits a byte stream strictly.
func (p *peer) frames(b []byte) []rframe {
	var r []rframe
	for len(b) > 0 {
		l := plc.FrameLen(b)
		if l == 0 {
			p.c.Fail("reply-framing", "the server's reply stream ends inside a frame: % x", b)
		}
		r = append(r, rframe{le.Uint16(b), le.Uint32(b[4:]), le.Uint32(b[8:]), b[12:20], le.Uint32(b[20:]), b[24:l]})
		b = b[l:]
	}
	return r
}

// call sends a frame and returns the reply frames.
func (p *peer) call(f []byte) []rframe {
	p.k.send(f)
	return p.frames(p.k.take())
}

func (p *peer) register() {
	ctx := p.nextCtx()
	fs := p.call(plc.EncapFrame(0x65, 0, 0, ctx, []byte{1, 0, 0, 0}))
	if len(fs) != 1 || fs[0].cmd != 0x65 || fs[0].status != 0 || !bytes.Equal(fs[0].ctx, ctx) || fs[0].session == 0 || !bytes.Equal(fs[0].body, []byte{1, 0, 0, 0}) {
		p.c.Fail("register", "register session is answered with %+v", fs)
	}
	p.session = fs[0].session
}

// mreply is a decoded message router reply.
type mreply struct {
	svc, status byte
	ext         []byte
	data        []byte
}

func (m mreply) String() string {
	return fmt.Sprintf("service %#x status %#x ext % x data % x", m.svc, m.status, m.ext, m.data)
}

func parseMR(b []byte) (mreply, error) {
	if len(b) < 4 {
		return mreply{}, fmt.Errorf("message router reply of %d bytes: % x", len(b), b)
	}
	n := 2 * int(b[3])
	if b[1] != 0 || len(b) < 4+n {
		return mreply{}, fmt.Errorf("bad message router reply % x", b)
	}
	return mreply{b[0], b[2], b[4 : 4+n], b[4+n:]}, nil
}

// parseRR decodes an unconnected reply.
func parseRR(f rframe) (mreply, error) {
	if len(f.body) < 6 {
		return mreply{}, fmt.Errorf("SendRRData reply of %d bytes", len(f.body))
	}
	it, err := plc.ParseItems(f.body[6:])
	if err != nil {
		return mreply{}, err
	}
	if len(it) != 2 || it[0].ID != 0 || len(it[0].Data) != 0 || it[1].ID != 0xB2 {
		return mreply{}, fmt.Errorf("SendRRData reply items %v", it)
	}
	return parseMR(it[1].Data)
}

// parseUD decodes a connected reply.
func parseUD(f rframe) (conn uint32, seq int, m mreply, err error) {
	if len(f.body) < 6 {
		return 0, 0, m, fmt.Errorf("SendUnitData reply of %d bytes", len(f.body))
	}
	it, err := plc.ParseItems(f.body[6:])
	if err != nil {
		return 0, 0, m, err
	}
	if len(it) != 2 || it[0].ID != 0xA1 || len(it[0].Data) != 4 || it[1].ID != 0xB1 || len(it[1].Data) < 2 {
		return 0, 0, m, fmt.Errorf("SendUnitData reply items %v", it)
	}
	m, err = parseMR(it[1].Data[2:])
	return le.Uint32(it[0].Data), int(le.Uint16(it[1].Data)), m, err
}

// rr makes an unconnected request and fails on a bad reply.
func (p *peer) rr(req []byte) mreply {
	ctx := p.nextCtx()
	fs := p.call(rrFrame(p.session, ctx, req))
	if len(fs) != 1 {
		p.c.Fail("reply-count", "unconnected request % x has %d replies (connection closed: %v)", req, len(fs), p.k.isClosed())
	}
	if fs[0].cmd != 0x6F || fs[0].session != p.session || !bytes.Equal(fs[0].ctx, ctx) || fs[0].status != 0 {
		p.c.Fail("reply-echo", "unconnected request % x with session %#x context % x is answered with %+v", req, p.session, ctx, fs[0])
	}
	m, err := parseRR(fs[0])
	if err != nil {
		p.c.Fail("reply-format", "unconnected request % x: %v", req, err)
	}
	if m.svc != req[0]|0x80 {
		// the wrapper's reply carries the embedded service
		if req[0] != 0x52 || m.svc&0x80 == 0 {
			p.c.Fail("reply-service", "unconnected request % x: %v", req, m)
		}
	}
	return m
}

// pconn is an open connection of a peer.
type pconn struct {
	p      *peer
	f      fopen
	ot, to uint32
}

// open opens a connection and fails when it is refused.
func (p *peer) open(f fopen) *pconn {
	m := p.rr(f.req())
	if m.status != 0 || len(m.data) < 26 {
		p.c.Fail("open", "forward open %+v is answered with %v", f, m)
	}
	k := &pconn{p, f, le.Uint32(m.data), le.Uint32(m.data[4:])}
	if k.to != f.to && f.to != 0 {
		p.c.Fail("open-to", "forward open with T->O id %#x is answered with %#x", f.to, k.to)
	}
	otrpi := f.otrpi
	if otrpi == 0 {
		otrpi = f.rpi
	}
	if le.Uint32(m.data[16:]) != otrpi || le.Uint32(m.data[20:]) != f.rpi {
		p.c.Fail("open-interval", "forward open with intervals %d (O->T) and %d (T->O) is answered with % x", otrpi, f.rpi, m.data)
	}
	if le.Uint16(m.data[8:]) != f.serial || le.Uint16(m.data[10:]) != f.vendor || le.Uint32(m.data[12:]) != f.oserial {
		p.c.Fail("open-triad", "forward open %+v is answered with % x", f, m.data)
	}
	return k
}

// ud makes a connected request and fails on a bad reply.
func (k *pconn) ud(req []byte) mreply {
	p := k.p
	ctx := p.nextCtx()
	p.seq++
	fs := p.call(udFrame(p.session, ctx, k.ot, p.seq&0xFFFF, req))
	if len(fs) != 1 {
		p.c.Fail("reply-count", "connected request % x has %d replies (connection closed: %v)", req, len(fs), p.k.isClosed())
	}
	if fs[0].cmd != 0x70 || fs[0].session != p.session || !bytes.Equal(fs[0].ctx, ctx) || fs[0].status != 0 {
		p.c.Fail("reply-echo", "connected request % x with session %#x context % x is answered with %+v", req, p.session, ctx, fs[0])
	}
	conn, seq, m, err := parseUD(fs[0])
	if err != nil {
		p.c.Fail("reply-format", "connected request % x: %v", req, err)
	}
	if conn != k.to || seq != p.seq&0xFFFF {
		p.c.Fail("reply-address", "connected request on connection %#x (T->O %#x) with sequence %d is answered on connection %#x with sequence %d", k.ot, k.to, p.seq&0xFFFF, conn, seq)
	}
	if m.svc != req[0]|0x80 {
		p.c.Fail("reply-service", "connected request % x: %v", req, m)
	}
	return m
}

// ---------------------------------------------------------------- the check

// outcome of one request.
const (
	outOK    = iota // status 0
	outErr          // a CIP status other than 0
	outAny          // any status
	outEncap        // an encapsulation status other than 0, or a CIP error
	outNone         // no reply
)

// req2 is one kind of request of the catalogue.
type req2 struct {
	name string
	// raw makes an encapsulation frame; rr and ud make a request.
	raw func(p *peer, ctx []byte) []byte
	rr  []byte
	ud  []byte
	// wrapper allows that the reply is one of the wrapper: the request in it
	// does not get to its destination.
	wrapper bool
	// conn replaces the connection id.
	conn uint32
	out  int
	// subs are the expected sub-replies of a multi service request.
	subs    []int
	subReqs [][]byte
}

var s02Conn = fopen{to: 0x11223344, serial: 7, vendor: 0x1234, oserial: 99, rpi: 2000000, otrpi: 1500000, trigger: 0xA3, path: cat(route, cls(2, 1))}

func dintWrite(v uint32) []byte { return cat([]byte{0xC4, 0, 1, 0}, w32(v)) }

func s02Requests() []req2 {
	enc := func(cmd uint16, payload []byte) func(p *peer, ctx []byte) []byte {
		return func(p *peer, ctx []byte) []byte { return plc.EncapFrame(cmd, p.session, 0, ctx, payload) }
	}
	items := func(cmd uint16, it ...plc.Item) func(p *peer, ctx []byte) []byte {
		return func(p *peer, ctx []byte) []byte {
			return plc.EncapFrame(cmd, p.session, 0, ctx, plc.Items(true, it...))
		}
	}
	read := func(tag string, n int) []byte { return creq(0x4C, sym(tag), w16(n)) }
	frag := func(tag string, n int, off uint32) []byte { return creq(0x52, sym(tag), w16(n), w32(off)) }
	write := func(tag string, v uint32) []byte { return creq(0x4D, sym(tag), dintWrite(v)) }
	badStruct := creq(0x4D, sym("dint"), []byte{0xA0, 2, 0x34, 0x12, 1, 0, 1, 2, 3, 4})
	id := cls(1, 1)
	multi := func(name string, out int, reqs [][]byte, subs ...int) req2 {
		return req2{name: name, ud: multiReq(reqs...), out: out, subs: subs, subReqs: reqs}
	}
	r := []req2{
		{name: "nop", raw: enc(0, nil), out: outNone},
		{name: "nop with data", raw: enc(0, []byte("some data to ignore")), out: outNone},
		{name: "list services", raw: enc(4, nil), out: outOK},
		{name: "list identity", raw: enc(0x63, nil), out: outOK},
		{name: "list interfaces", raw: enc(0x64, nil), out: outAny},
		{name: "register again", raw: enc(0x65, []byte{1, 0, 0, 0}), out: outAny},
		{name: "register with 6 bytes", raw: enc(0x65, []byte{1, 0, 0, 0, 9, 9}), out: outAny},
		{name: "unknown command", raw: enc(0x99, nil), out: outEncap},
		{name: "unknown command with data", raw: enc(0x99, []byte{1, 2, 3, 4, 5, 6, 7}), out: outEncap},
		{name: "unknown command with a frame as data", raw: enc(0x72, plc.EncapFrame(4, 0, 0, nil, nil)), out: outEncap},
		{name: "rr without items", raw: items(0x6F), out: outEncap},
		{name: "rr with one item", raw: items(0x6F, plc.Item{ID: 0xB2, Data: creq(1, id)}), out: outEncap},
		{name: "rr with three items", raw: items(0x6F, plc.Item{}, plc.Item{ID: 0xB2, Data: creq(1, id)}, plc.Item{ID: 0x8000, Data: make([]byte, 16)}), out: outAny},
		{name: "rr with another item type", raw: items(0x6F, plc.Item{}, plc.Item{ID: 0x0C, Data: creq(1, id)}), out: outEncap},
		{name: "ud without items", raw: items(0x70), out: outEncap},
		{name: "ud with one item", raw: items(0x70, plc.Item{ID: 0xA1, Data: w32(1)}), out: outEncap},
		{name: "ud with an unconnected item", raw: items(0x70, plc.Item{}, plc.Item{ID: 0xB2, Data: creq(1, id)}), out: outEncap},

		{name: "open", rr: fopen{to: 0x55667788, serial: 8, vendor: 0x1234, oserial: 99, rpi: 1000, trigger: 0xA3, path: cat(route, cls(2, 1))}.req(), out: outOK},
		{name: "open large", rr: fopen{large: true, size: 4000, to: 0x55667799, serial: 9, vendor: 0x1234, oserial: 99, rpi: 1000, trigger: 0xA3, path: cat(route, cls(2, 1))}.req(), out: outOK},
		{name: "open large io", rr: fopen{large: true, size: 400, to: 0x556677AA, serial: 11, vendor: 0x1234, oserial: 99, rpi: 1000000, trigger: 1, path: cat(route, cls(4, 1))}.req(), out: outErr},
		{name: "open io of no route", rr: fopen{to: 0x556677AB, serial: 12, vendor: 0x1234, oserial: 99, rpi: 1000000, trigger: 1, path: cat([]byte{1, 9}, cls(4, 1))}.req(), out: outErr},
		{name: "open io without rpi", rr: fopen{to: 0x556677AC, serial: 13, vendor: 0x1234, oserial: 99, rpi: 0, trigger: 1, path: cat(route, cls(4, 1))}.req(), out: outErr},
		{name: "open without a path", rr: fopen{to: 0x55667700, serial: 10, vendor: 0x1234, oserial: 99, rpi: 1000, trigger: 0xA3}.req(), out: outAny},
		{name: "open cut", rr: s02Conn.req()[:30], out: outErr},
		{name: "close of nothing", rr: fopen{serial: 4711, vendor: 1, oserial: 2, path: cat(route, cls(2, 1))}.closeReq(), out: outErr},
		{name: "close cut", rr: s02Conn.closeReq()[:12], out: outErr},
		{name: "gaa identity", rr: creq(1, id), out: outOK},
		{name: "gaa program", rr: creq(1, cls(0x64, 1)), out: outOK},
		{name: "gaa other class", rr: creq(1, cls(0xF5, 1)), out: outErr},
		{name: "gaa other instance", rr: creq(1, cls(1, 2)), out: outErr},
		{name: "gaa without a path", rr: []byte{1, 0}, out: outErr},
		{name: "gaa cut", rr: []byte{1, 2, 0x20, 1}, out: outErr},
		{name: "gas identity", rr: creq(0x0E, cat(id, attrSeg(1))), out: outOK},
		{name: "gas name", rr: creq(0x0E, cat(id, attrSeg(7))), out: outOK},
		{name: "gas no such attribute", rr: creq(0x0E, cat(id, attrSeg(99))), out: outErr},
		{name: "gas other class", rr: creq(0x0E, cat(cls(0x47, 1), attrSeg(1))), out: outErr},
		{name: "gas short path", rr: creq(0x0E, id), out: outErr},
		{name: "gas cut", rr: []byte{0x0E, 3, 0x20, 1}, out: outErr},
		{name: "gas tag", rr: creq(0x0E, cat(cls(0xC8, 1), attrSeg(1))), out: outOK},
		{name: "gas no tag", rr: creq(0x0E, cat(cls(0xC8, 99), attrSeg(1))), out: outErr},
		{name: "sas identity", rr: creq(0x10, cat(id, attrSeg(1)), w16(1)), out: outErr},
		{name: "sas tag", rr: creq(0x10, cat(cls(0xC8, 1), attrSeg(1)), dintWrite(5)), out: outOK},
		{name: "sas tag without a value", rr: creq(0x10, cat(cls(0xC8, 1), attrSeg(1))), out: outErr},
		{name: "service with the reply bit", rr: creq(0xCB, id), out: outErr},
		{name: "read with the reply bit", rr: creq(0xCC, sym("dint"), w16(1)), out: outErr},
		{name: "unknown service", rr: creq(0x4B, id), out: outErr},
		{name: "no service", rr: []byte{}, out: outEncap},
		{name: "uc read", rr: ucsend(route, read("dint", 1)), out: outOK},
		{name: "uc read missing", rr: ucsend(route, read("none", 1)), out: outErr},
		{name: "uc read too many", rr: ucsend(route, read("arr", 9)), out: outErr},
		{name: "uc read elsewhere", rr: ucsend([]byte{1, 9}, read("dint", 1)), out: outErr, wrapper: true},
		{name: "uc read on a longer route", rr: ucsend(cat(route, []byte{1, 2}), read("dint", 1)), out: outErr, wrapper: true},
		{name: "uc read on another port", rr: ucsend([]byte{2, 0}, read("dint", 1)), out: outErr, wrapper: true},
		{name: "uc write on a longer route", rr: ucsend(cat(route, []byte{1, 2}), write("dint", 6)), out: outErr, wrapper: true},
		{name: "uc service with the reply bit", rr: ucsend(route, creq(0xCB, id)), out: outErr},
		{name: "uc write", rr: ucsend(route, write("dint", 6)), out: outOK},
		{name: "uc write refused", rr: ucsend(route, write("rodint", 6)), out: outErr},
		{name: "uc write struct", rr: ucsend(route, badStruct), out: outErr},
		{name: "uc write elsewhere", rr: ucsend([]byte{1, 9}, write("dint", 6)), out: outErr, wrapper: true},
		{name: "uc unknown service", rr: ucsend(route, creq(0x4B, id)), out: outErr},
		{name: "uc gas identity", rr: ucsend(route, creq(0x0E, cat(id, attrSeg(2)))), out: outOK},
		{name: "uc gaa identity", rr: ucsend(route, creq(1, id)), out: outOK},
		{name: "uc cut", rr: ucsend(route, read("dint", 1))[:12], out: outErr, wrapper: true},

		{name: "read", ud: read("dint", 1), out: outOK},
		{name: "read array", ud: read("arr", 3), out: outOK},
		{name: "read missing", ud: read("none", 1), out: outErr},
		{name: "read too many", ud: read("arr", 9), out: outErr},
		{name: "read refused", ud: read("wodint", 1), out: outErr},
		{name: "read beyond", ud: creq(0x4C, cat(sym("arr"), idx(8)), w16(1)), out: outErr},
		{name: "read without a count", ud: creq(0x4C, sym("dint")), out: outErr},
		{name: "read struct", ud: read("weird", 1), out: outErr},
		{name: "frag read", ud: frag("arr", 4, 0), out: outOK},
		{name: "frag read missing", ud: frag("none", 1, 0), out: outErr},
		{name: "frag read beyond", ud: frag("arr", 4, 400), out: outErr},
		{name: "read on no connection", ud: read("dint", 1), conn: 0xDEAD, out: outErr},
		{name: "write", ud: write("dint", 8), out: outOK},
		{name: "write refused", ud: write("rodint", 6), out: outErr},
		{name: "write struct", ud: badStruct, out: outErr},
		{name: "write nothing", ud: creq(0x4D, sym("dint"), []byte{0xC4, 0, 0, 0}), out: outErr},
		{name: "write cut", ud: creq(0x4D, sym("dint"), []byte{0xC4, 0, 1, 0, 1}), out: outErr},
		{name: "write of an unknown type", ud: creq(0x4D, sym("dint"), []byte{0x77, 0, 1, 0, 1, 2, 3, 4}), out: outErr},
		{name: "write on no connection", ud: write("dint", 8), conn: 0xDEAD, out: outErr},
		{name: "connected gaa", ud: creq(1, id), out: outOK},
		{name: "connected gaa program", ud: creq(1, cls(0x64, 1)), out: outOK},
		{name: "connected gaa other", ud: creq(1, cls(0x70, 1)), out: outErr},
		{name: "connected gaa cut", ud: []byte{1, 2, 0x20}, out: outErr},
		{name: "connected gas", ud: creq(0x0E, cat(id, attrSeg(1))), out: outOK},
		{name: "connected gas no attribute", ud: creq(0x0E, cat(id, attrSeg(99))), out: outErr},
		{name: "connected gas other class", ud: creq(0x0E, cat(cls(0x47, 1), attrSeg(1))), out: outErr},
		{name: "connected gas short path", ud: creq(0x0E, id), out: outErr},
		{name: "connected unknown service", ud: creq(0x33, id), out: outErr},
		{name: "connected service with the reply bit", ud: creq(0xB3, id), out: outErr},
		{name: "connected read with the reply bit", ud: creq(0xCC, sym("dint"), w16(1)), out: outErr},
		{name: "connected rmw", ud: creq(0x4E, sym("dint"), w16(4), w32(0xFFFFFFFF), w32(0xFFFFFFFF)), out: outErr},
		{name: "symbol list", ud: creq(0x55, []byte{0x20, 0x6B, 0x25, 0, 0, 0}, w16(2), w16(1), w16(2)), out: outOK},
		{name: "symbol list on no connection", ud: creq(0x55, []byte{0x20, 0x6B, 0x25, 0, 0, 0}, w16(2), w16(1), w16(2)), conn: 0xDEAD, out: outErr},
		multi("multi", outOK, [][]byte{read("dint", 1), write("dint", 9), frag("arr", 2, 0)}, outOK, outOK, outOK),
		multi("multi of one", outOK, [][]byte{read("arr", 4)}, outOK),
		multi("multi with a missing tag", outAny, [][]byte{read("dint", 1), read("none", 1), write("dint", 3)}, outOK, outErr, outOK),
		multi("multi with a refused write", outAny, [][]byte{write("rodint", 1), read("dint", 1)}, outErr, outOK),
		multi("multi with an unknown service", outAny, [][]byte{creq(0x33, id), read("dint", 1)}, outErr, outOK),
		multi("multi with a string", outOK, [][]byte{read("str", 1), read("dint", 1)}, outOK, outOK),
		multi("multi with a struct write", outAny, [][]byte{badStruct, read("dint", 1)}, outErr, outOK),
		multi("multi with an empty write", outAny, [][]byte{creq(0x4D, sym("dint"), []byte{0xC4, 0, 0, 0}), read("dint", 1)}, outErr, outOK),
		multi("multi of nothing", outAny, nil),
		{name: "multi with a bad offset", ud: creq(0x0A, cls(2, 1), w16(2), w16(6), w16(0xFFF0), read("dint", 1)), out: outAny},
		{name: "multi cut", ud: creq(0x0A, cls(2, 1), w16(3), w16(6)), out: outErr},
		{name: "multi on no connection", ud: multiReq(read("dint", 1)), conn: 0xDEAD, out: outErr},
		{name: "no connected service", ud: []byte{}, out: outEncap},
	}
	return r
}

func s02World(c *vk.C) *srvRig {
	p := &strictMap{}
	p.Data = map[string]any{
		"dint": int32(0x01020304), "rodint": int32(5), "wodint": int32(6),
		"adint": int32(77), "arr": []int32{1, 2, 3, 4}, "str": "hello", "weird": struct{ A []int }{},
	}
	r := newSrvRig(c, map[string]gologix.CIPEndpoint{string(route): p})
	r.srv.Attributes[6] = uint32(0xC0FFEE01)
	return r
}

// sentReq is a request on its way.
type sentReq struct {
	q     req2
	ctx   []byte
	seq   int
	frame []byte
}

func (k *pconn) make(q req2) sentReq {
	p := k.p
	s := sentReq{q: q, ctx: p.nextCtx()}
	switch {
	case q.raw != nil:
		s.frame = q.raw(p, s.ctx)
	case q.rr != nil:
		s.frame = rrFrame(p.session, s.ctx, q.rr)
	default:
		p.seq++
		s.seq = p.seq & 0xFFFF
		id := k.ot
		if q.conn != 0 {
			id = q.conn
		}
		s.frame = udFrame(p.session, s.ctx, id, s.seq, q.ud)
	}
	return s
}

// judge checks the reply to a request.
func (k *pconn) judge(s sentReq, f rframe) {
	p, c, q := k.p, k.p.c, s.q
	bad := func(key, format string, a ...any) {
		c.Fail(key+":"+q.name, "%s (frame % x): %s", q.name, s.frame, fmt.Sprintf(format, a...))
	}
	if f.cmd != le.Uint16(s.frame) {
		bad("command", "reply to command %#x", f.cmd)
	}
	if f.session != p.session && f.cmd != 0x65 {
		bad("session", "reply with session %#x, not %#x", f.session, p.session)
	}
	if !bytes.Equal(f.ctx, s.ctx) {
		bad("context", "reply with sender context % x, not % x", f.ctx, s.ctx)
	}
	if f.opts != 0 {
		bad("options", "reply with options %#x", f.opts)
	}
	if q.raw != nil {
		if q.out == outOK && f.status != 0 {
			bad("status", "encapsulation status %#x", f.status)
		}
		if q.out == outEncap && f.status == 0 {
			// a CIP error will do
			var m mreply
			var err error
			if f.cmd == 0x6F {
				m, err = parseRR(f)
			} else if f.cmd == 0x70 {
				_, _, m, err = parseUD(f)
			} else {
				bad("status", "reply without an error: % x", f.body)
			}
			if err != nil {
				bad("format", "%v", err)
			}
			if m.status == 0 {
				bad("status", "reply without an error: %v", m)
			}
		}
		return
	}
	if f.status != 0 {
		if q.out == outEncap || q.conn != 0 {
			return
		}
		bad("encap-status", "encapsulation status %#x", f.status)
	}
	var m mreply
	var err error
	svc := byte(0)
	if q.rr != nil {
		m, err = parseRR(f)
		if len(q.rr) > 0 {
			svc = q.rr[0]
			if svc == 0x52 && len(q.rr) > 10 && int(le.Uint16(q.rr[8:]))+10 <= len(q.rr) && (!q.wrapper || m.svc != 0xD2) {
				svc = q.rr[10]
			}
		}
	} else {
		var conn uint32
		var seq int
		conn, seq, m, err = parseUD(f)
		if err == nil {
			if conn != k.to && q.conn == 0 {
				bad("connection", "reply on connection %#x, not on %#x", conn, k.to)
			}
			if seq != s.seq {
				bad("sequence", "reply with sequence count %d, not %d", seq, s.seq)
			}
		}
		if len(q.ud) > 0 {
			svc = q.ud[0]
		}
	}
	if err != nil {
		bad("format", "%v", err)
	}
	if m.svc != svc|0x80 && svc != 0 {
		bad("service", "reply of service %#x", m.svc)
	}
	switch q.out {
	case outOK:
		if m.status != 0 {
			bad("refused", "status %#x", m.status)
		}
	case outErr, outEncap:
		if m.status == 0 {
			bad("accepted", "no error status: %v", m)
		}
	}
	if q.subs != nil && m.status != 0 && m.status != 0x1E {
		bad("multi-status", "status %#x", m.status)
	}
	if q.subs == nil {
		return
	}
	b := m.data
	n := len(q.subs)
	if len(b) < 2+2*n || int(le.Uint16(b)) != n {
		bad("multi-count", "multi service reply % x for %d requests", b, n)
	}
	for i := 0; i < n; i++ {
		from := int(le.Uint16(b[2+2*i:]))
		to := len(b)
		if i+1 < n {
			to = int(le.Uint16(b[4+2*i:]))
		}
		if from < 2+2*n || to > len(b) || from > to {
			bad("multi-offsets", "multi service reply % x: reply %d spans %d..%d", b, i, from, to)
		}
		sm, err := parseMR(b[from:to])
		if err != nil {
			bad("multi-format", "reply %d: %v", i, err)
		}
		if sm.svc != q.subReqs[i][0]|0x80 {
			bad("multi-service", "reply %d is %v", i, sm)
		}
		if (q.subs[i] == outOK) != (sm.status == 0) {
			bad("multi-sub-status", "reply %d is %v", i, sm)
		}
	}
}

// s02Run sends the requests in the given chunks and judges the replies.
func s02Run(c *vk.C, qs []req2, chunk func(frames [][]byte) [][]byte) {
	r := s02World(c)
	p := r.peer()
	p.register()
	k := p.open(s02Conn)
	var sent []sentReq
	var fs [][]byte
	for _, q := range qs {
		s := k.make(q)
		sent = append(sent, s)
		fs = append(fs, s.frame)
	}
	chunks := fs
	if chunk != nil {
		chunks = chunk(fs)
	}
	var out []rframe
	if chunk == nil {
		for i, f := range fs {
			got := p.call(f)
			want := 1
			if sent[i].q.out == outNone {
				want = 0
			}
			if len(got) != want {
				c.Fail("replies:"+sent[i].q.name, "%s (frame % x) is answered with %d replies, not %d (connection closed: %v)", sent[i].q.name, f, len(got), want, p.k.isClosed())
			}
			out = append(out, got...)
		}
	} else {
		for _, b := range chunks {
			p.k.send(b)
		}
		out = p.frames(p.k.take())
	}
	j := 0
	name := ""
	for _, s := range sent {
		name += s.q.name + ", "
		c.Trans(1)
		if s.q.out == outNone {
			continue
		}
		if j >= len(out) {
			c.Fail("replies:"+s.q.name, "%s (frame % x) is not answered (connection closed: %v)", s.q.name, s.frame, p.k.isClosed())
		}
		k.judge(s, out[j])
		j++
	}
	if j != len(out) {
		c.Fail("extra-reply:"+sent[len(sent)-1].q.name, "%d replies too many after %s", len(out)-j, name)
	}
	if p.k.isClosed() {
		c.Fail("session-lost:"+sent[len(sent)-1].q.name, "the server closed the session after %s", name)
	}
	m := k.ud(creq(0x4C, sym("arr"), w16(2)))
	if m.status != 0 || !bytes.Equal(m.data, []byte{0xC4, 0, 1, 0, 0, 0, 2, 0, 0, 0}) {
		c.Fail("session-unusable:"+sent[len(sent)-1].q.name, "after %s a read is answered with %v", name, m)
	}
	last := sent[len(sent)-1].q.name
	if len(out) > 0 {
		c.State(last, out[len(out)-1].status, out[len(out)-1].body)
	}
	c.Distinct(name)
	c.Validated()
}

func init() {
	vk.Register(&vk.Check{
		ID: "S02", Level: "model_checking",
		Rule:        "sequences over a catalogue of requests (every encapsulation command, unconnected and connected service, each supported, refused, unknown, cut, on unknown connections and routes, and packed in multi service requests) sent over one TCP connection to the real server, each frame apart, merged, and split at every byte; every reply is compared with the one the catalogue calls for, then the session must still answer a read; non-trivial: distinct sequences",
		Bounds:      map[string]any{"quick": "single requests with every split point; all pairs apart and merged", "thorough": "all triples; pairs with every split point"},
		Assumptions: []string{"a request on an unknown connection is answered with an error (its connection id is free)", "unregister session and requests outside a registered session are not covered"},
		QuickBudget: 200 * time.Second, ThoroughBudget: 800 * time.Second,
		Units: func(tier string) []vk.Unit {
			qs := s02Requests()
			var us []vk.Unit
			us = append(us, vk.Shard(vk.Unit{Name: "one request, every split", Run: func(c *vk.C) {
				q := vk.Pick(c, qs, "request")
				r := len(q.rr) + len(q.ud) + 60
				at := c.Choose(r, "split")
				s02Run(c, []req2{q}, func(fs [][]byte) [][]byte {
					f := fs[0]
					if at > len(f) {
						c.Stop()
					}
					if at == 0 {
						// byte by byte
						var cs [][]byte
						for i := range f {
							cs = append(cs, f[i:i+1])
						}
						return cs
					}
					return [][]byte{f[:at], f[at:]}
				})
			}}, 8, 1)...)
			us = append(us, vk.Unit{Name: "every service code", Run: func(c *vk.C) {
				q := req2{name: fmt.Sprintf("service %#x", c.Choose(256, "service")), out: outAny}
				svc := byte(0)
				fmt.Sscanf(q.name, "service 0x%x", &svc)
				path := [][]byte{cls(1, 1), cls(0x6B, 0), cls(0xC8, 1), sym("dint"), nil}[c.Choose(5, "path")]
				b := creq(svc, path, [][]byte{nil, w16(1), {1, 0, 0, 0, 0, 0}}[c.Choose(3, "data")])
				switch c.Choose(3, "way") {
				case 0:
					q.ud = b
				case 1:
					q.rr = b
				case 2:
					q.rr = ucsend(route, b)
				}
				s02Run(c, []req2{q}, nil)
			}}, vk.Unit{Name: "every command", Run: func(c *vk.C) {
				cmd := c.Choose(0x200, "command")
				if cmd == 0x66 || cmd == 0 {
					c.Stop()
				}
				body := [][]byte{nil, {1, 0, 0, 0}, make([]byte, 40)}[c.Choose(3, "body")]
				s02Run(c, []req2{{name: fmt.Sprintf("command %#x", cmd), out: outAny, raw: func(p *peer, ctx []byte) []byte {
					return plc.EncapFrame(uint16(cmd), p.session, 0, ctx, body)
				}}}, nil)
			}})
			us = append(us, vk.Shard(vk.Unit{Name: "two requests", Run: func(c *vk.C) {
				a, b := vk.Pick(c, qs, "request"), vk.Pick(c, qs, "request")
				if c.Bool("merged") {
					s02Run(c, []req2{a, b}, func(fs [][]byte) [][]byte { return [][]byte{cat(fs...)} })
				} else {
					s02Run(c, []req2{a, b}, nil)
				}
			}}, 16, 2)...)
			if tier == "thorough" {
				us = append(us, vk.Shard(vk.Unit{Name: "three requests", Run: func(c *vk.C) {
					s02Run(c, []req2{vk.Pick(c, qs, "request"), vk.Pick(c, qs, "request"), vk.Pick(c, qs, "request")}, nil)
				}}, 32, 2)...)
				us = append(us, vk.Shard(vk.Unit{Name: "two requests, every split", Run: func(c *vk.C) {
					a, b := vk.Pick(c, qs, "request"), vk.Pick(c, qs, "request")
					at := 1 + c.Choose(len(a.rr)+len(a.ud)+len(b.rr)+len(b.ud)+140, "split")
					s02Run(c, []req2{a, b}, func(fs [][]byte) [][]byte {
						f := cat(fs...)
						if at >= len(f) {
							c.Stop()
						}
						return [][]byte{f[:at], f[at:]}
					})
				}}, 32, 2)...)
			}
			return us
		},
	})
}
