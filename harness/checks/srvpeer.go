package checks

import (
	"io"
	"net"
	"os"
	"time"

	"verifharness/goid"
	"verifharness/plc"
)

// srvConn is the server's end of one TCP connection.
type srvConn struct {
	r      *srvRig
	in     []byte // to the server
	out    []byte // from the server
	idle   bool   // the server waits for more
	eof    bool   // the peer has closed
	reset  bool   // writes fail as well
	closed int    // by the server
	reader uint64 // the goroutine that reads
	ended  bool   // and has ended
}

// dial makes a connection and waits for the server to read from it.
func (r *srvRig) dial() *srvConn {
	k := &srvConn{r: r}
	r.mu.Lock()
	r.all = append(r.all, k)
	r.accept = append(r.accept, k)
	r.cond.Broadcast()
	k.wait()
	r.mu.Unlock()
	r.check()
	return k
}

// wait is called with the lock held.
func (k *srvConn) wait() {
	for !(k.idle && len(k.in) == 0 || k.closed > 0 && k.ended || k.r.panicked != nil || k.r.tcpErr != nil) {
		k.r.cond.Wait()
	}
}

// send gives bytes to the server and waits until it has handled them.
func (k *srvConn) send(b []byte) {
	r := k.r
	r.mu.Lock()
	if len(b) > 0 {
		k.in = append(k.in, b...)
		k.idle = false
		r.cond.Broadcast()
		k.wait()
	}
	r.mu.Unlock()
	r.check()
}

// drop closes the peer's end.
func (k *srvConn) drop(reset bool) {
	r := k.r
	r.mu.Lock()
	k.eof, k.reset = true, reset
	k.idle = false
	r.cond.Broadcast()
	for !(k.closed > 0 && k.ended) && r.panicked == nil && r.tcpErr == nil {
		r.cond.Wait()
	}
	r.mu.Unlock()
	r.check()
}

// take removes what the server has sent.
func (k *srvConn) take() []byte {
	k.r.mu.Lock()
	defer k.r.mu.Unlock()
	b := k.out
	k.out = nil
	return b
}

func (k *srvConn) isClosed() bool {
	k.r.mu.Lock()
	defer k.r.mu.Unlock()
	return k.closed > 0
}

func (k *srvConn) Read(b []byte) (int, error) {
	r := k.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(b) == 0 {
		return 0, nil
	}
	k.reader = goid.Get()
	if len(k.in) == 0 {
		k.idle = true
		r.cond.Broadcast()
	}
	for len(k.in) == 0 && !k.eof && k.closed == 0 {
		r.cond.Wait()
	}
	k.idle = false
	if k.closed > 0 {
		return 0, net.ErrClosed
	}
	if len(k.in) > 0 {
		n := copy(b, k.in)
		k.in = k.in[n:]
		return n, nil
	}
	return 0, io.EOF
}

func (k *srvConn) Write(b []byte) (int, error) {
	k.r.mu.Lock()
	defer k.r.mu.Unlock()
	if k.closed > 0 || k.reset {
		return 0, net.ErrClosed
	}
	k.out = append(k.out, b...)
	return len(b), nil
}

func (k *srvConn) Close() error {
	k.r.mu.Lock()
	defer k.r.mu.Unlock()
	k.closed++
	k.r.cond.Broadcast()
	if k.closed > 1 {
		return net.ErrClosed
	}
	return nil
}

func (k *srvConn) LocalAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 44818}
}
func (k *srvConn) RemoteAddr() net.Addr {
	return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 50000}
}
func (k *srvConn) SetDeadline(t time.Time) error      { return nil }
func (k *srvConn) SetReadDeadline(t time.Time) error  { return nil }
func (k *srvConn) SetWriteDeadline(t time.Time) error { return nil }

// clientConn is the client's end.
type clientConn struct{ k *srvConn }

func (c clientConn) Write(b []byte) (int, error) {
	if c.k.isClosed() {
		return 0, net.ErrClosed
	}
	c.k.send(b)
	return len(b), nil
}

func (c clientConn) Read(b []byte) (int, error) {
	r := c.k.r
	r.mu.Lock()
	defer r.mu.Unlock()
	switch {
	case len(b) == 0:
		return 0, nil
	case len(c.k.out) > 0:
		n := copy(b, c.k.out)
		c.k.out = c.k.out[n:]
		return n, nil
	case c.k.eof:
		return 0, net.ErrClosed
	case c.k.closed > 0:
		return 0, io.EOF
	}
	return 0, os.ErrDeadlineExceeded
}

func (c clientConn) Close() error {
	r := c.k.r
	r.mu.Lock()
	was := c.k.eof
	r.mu.Unlock()
	if was {
		return net.ErrClosed
	}
	c.k.drop(false)
	return nil
}
func (c clientConn) LocalAddr() net.Addr                { return c.k.RemoteAddr() }
func (c clientConn) RemoteAddr() net.Addr               { return c.k.LocalAddr() }
func (c clientConn) SetDeadline(t time.Time) error      { return nil }
func (c clientConn) SetReadDeadline(t time.Time) error  { return nil }
func (c clientConn) SetWriteDeadline(t time.Time) error { return nil }

// packet delivers a datagram and waits until it has been handled.
func (r *srvRig) packet(b []byte) {
	r.mu.Lock()
	r.packets = append(r.packets, b)
	r.udpIdle = false
	r.cond.Broadcast()
	for !(r.udpIdle && len(r.packets) == 0) && r.panicked == nil && r.udpErr == nil {
		r.cond.Wait()
	}
	r.mu.Unlock()
	r.check()
}

// ---------------------------------------------------------------- requests

func sym(name string) []byte {
	b := append([]byte{0x91, byte(len(name))}, name...)
	if len(b)%2 == 1 {
		b = append(b, 0)
	}
	return b
}

func idx(i int) []byte {
	switch {
	case i < 256:
		return []byte{0x28, byte(i)}
	case i < 65536:
		return []byte{0x29, 0, byte(i), byte(i >> 8)}
	}
	return []byte{0x2A, 0, byte(i), byte(i >> 8), byte(i >> 16), byte(i >> 24)}
}

func cls(class, inst int) []byte {
	var b []byte
	if class < 256 {
		b = append(b, 0x20, byte(class))
	} else {
		b = append(b, 0x21, 0, byte(class), byte(class>>8))
	}
	switch {
	case inst < 256:
		b = append(b, 0x24, byte(inst))
	case inst < 65536:
		b = append(b, 0x25, 0, byte(inst), byte(inst>>8))
	default:
		b = append(b, 0x26, 0, byte(inst), byte(inst>>8), byte(inst>>16), byte(inst>>24))
	}
	return b
}

func attrSeg(a int) []byte {
	if a < 256 {
		return []byte{0x30, byte(a)}
	}
	return []byte{0x31, 0, byte(a), byte(a >> 8)}
}

func cat(bs ...[]byte) []byte {
	var r []byte
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

func w16(v int) []byte { return []byte{byte(v), byte(v >> 8)} }
func w32(v uint32) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
}

// creq is a CIP request.
func creq(svc byte, path []byte, data ...[]byte) []byte {
	return append(append([]byte{svc, byte(len(path) / 2)}, path...), cat(data...)...)
}

// ucsend wraps a request for a route.
func ucsend(route []byte, req []byte) []byte {
	b := creq(0x52, cls(6, 1), []byte{0x0A, 0x0E}, w16(len(req)), req)
	if len(req)%2 == 1 {
		b = append(b, 0)
	}
	return append(append(b, byte(len(route)/2), 0), route...)
}

// multi packs requests.
func multiReq(reqs ...[]byte) []byte {
	b := creq(0x0A, cls(2, 1), w16(len(reqs)))
	off := 2 + 2*len(reqs)
	for _, q := range reqs {
		b = append(b, w16(off)...)
		off += len(q)
	}
	return append(b, cat(reqs...)...)
}

// fopen is what a forward open asks for.
type fopen struct {
	large   bool
	ot, to  uint32
	serial  uint16
	vendor  uint16
	oserial uint32
	rpi     uint32
	otrpi   uint32 // 0: as rpi
	trigger byte
	size    int
	path    []byte // the connection path
}

func (f fopen) req() []byte {
	if f.size == 0 {
		f.size = 500
	}
	svc := byte(0x54)
	if f.otrpi == 0 {
		f.otrpi = f.rpi
	}
	np := func() []byte { return w16(0x4200 | f.size) }
	if f.large {
		svc = 0x5B
		np = func() []byte { return w32(0x42000000 | uint32(f.size)) }
	}
	return creq(svc, cls(6, 1), []byte{0x0A, 0x0E}, w32(f.ot), w32(f.to), w16(int(f.serial)), w16(int(f.vendor)), w32(f.oserial),
		w32(3), w32(f.otrpi), np(), w32(f.rpi), np(), []byte{f.trigger, byte(len(f.path) / 2)}, f.path)
}

func (f fopen) closeReq() []byte {
	return creq(0x4E, cls(6, 1), []byte{0x0A, 0x0E}, w16(int(f.serial)), w16(int(f.vendor)), w32(f.oserial), []byte{byte(len(f.path) / 2), 0}, f.path)
}

// rrFrame is an unconnected request as a frame.
func rrFrame(session uint32, ctx []byte, req []byte) []byte {
	return plc.EncapFrame(0x6F, session, 0, ctx, plc.Items(true, plc.Item{ID: 0}, plc.Item{ID: 0xB2, Data: req}))
}

// udFrame is a connected request as a frame.
func udFrame(session uint32, ctx []byte, conn uint32, seq int, req []byte) []byte {
	return plc.EncapFrame(0x70, session, 0, ctx, plc.Items(true, plc.Item{ID: 0xA1, Data: w32(conn)}, plc.Item{ID: 0xB1, Data: append(w16(seq), req...)}))
}
