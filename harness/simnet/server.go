package simnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"time"

	"verifharness/plc"
	"verifharness/sched"
	"verifharness/vnet"
)

// Host is the network of a server under a controlled scheduler.
type Host struct {
	S *sched.S

	TCPErr, UDPErr         error // what listening returns
	TCP                    *Listener
	UDP                    *PacketSock
	Conns                  []*ServerConn
	Out                    []*Datagrams // the sockets the server has dialled
	DialErr                error
	OnSend                 func(d *Datagrams, b []byte) error
	Accepts, Reads         int
	AcceptErrs, PacketErrs []error // to be returned, one each time
}

// NewHost takes over the listening and datagram side of vnet.
func NewHost(s *sched.S) *Host {
	h := &Host{S: s}
	vnet.OnListen = func(network, address string) (net.Listener, error) {
		s.Point("listen")
		if h.TCPErr != nil {
			return nil, h.TCPErr
		}
		h.TCP = &Listener{h: h}
		return h.TCP, nil
	}
	vnet.OnListenPacket = func(network, address string) (net.PacketConn, error) {
		s.Point("listenpacket")
		if h.UDPErr != nil {
			return nil, h.UDPErr
		}
		h.UDP = &PacketSock{h: h}
		return h.UDP, nil
	}
	vnet.OnDial = func(network, address string, timeout time.Duration) (net.Conn, error) {
		s.Point("dial")
		if h.DialErr != nil {
			return nil, h.DialErr
		}
		d := &Datagrams{h: h, Network: network, Address: address}
		h.Out = append(h.Out, d)
		return d, nil
	}
	return h
}

// Release gives vnet back.
func (h *Host) Release() { vnet.OnListen, vnet.OnListenPacket, vnet.OnDial = nil, nil, nil }

// Listening tells whether the server waits on both of its sockets.
func (h *Host) Listening() bool { return h.TCP != nil && h.UDP != nil }

// Listener is the server's TCP listener.
type Listener struct {
	h      *Host
	queue  []*ServerConn
	Closed int
}

func (l *Listener) Addr() net.Addr { return addr("10.0.0.1:44818") }
func (l *Listener) Accept() (net.Conn, error) {
	h := l.h
	h.Accepts++
	h.S.Block("accept", func() bool { return len(l.queue) > 0 || len(h.AcceptErrs) > 0 || l.Closed > 0 })
	switch {
	case l.Closed > 0:
		return nil, net.ErrClosed
	case len(h.AcceptErrs) > 0:
		err := h.AcceptErrs[0]
		h.AcceptErrs = h.AcceptErrs[1:]
		return nil, err
	}
	k := l.queue[0]
	l.queue = l.queue[1:]
	return k, nil
}
func (l *Listener) Close() error {
	l.h.S.Point("close listener")
	if l.Closed++; l.Closed > 1 {
		return net.ErrClosed
	}
	return nil
}

// Shut is Close by the environment.
func (l *Listener) Shut() { l.Closed++ }

// PacketSock is the server's UDP socket.
type PacketSock struct {
	h      *Host
	queue  [][]byte
	Closed int
}

func (p *PacketSock) LocalAddr() net.Addr                { return addr("10.0.0.1:2222") }
func (p *PacketSock) SetDeadline(t time.Time) error      { return nil }
func (p *PacketSock) SetReadDeadline(t time.Time) error  { return nil }
func (p *PacketSock) SetWriteDeadline(t time.Time) error { return nil }
func (p *PacketSock) WriteTo(b []byte, a net.Addr) (int, error) {
	return len(b), nil
}
func (p *PacketSock) ReadFrom(b []byte) (int, net.Addr, error) {
	h := p.h
	h.Reads++
	h.S.Block("readfrom", func() bool { return len(p.queue) > 0 || len(h.PacketErrs) > 0 || p.Closed > 0 })
	switch {
	case p.Closed > 0:
		return 0, nil, net.ErrClosed
	case len(h.PacketErrs) > 0:
		err := h.PacketErrs[0]
		h.PacketErrs = h.PacketErrs[1:]
		return 0, nil, err
	}
	n := copy(b, p.queue[0])
	p.queue = p.queue[1:]
	return n, addr("10.0.0.2:2222"), nil
}
func (p *PacketSock) Close() error {
	p.h.S.Point("close packets")
	if p.Closed++; p.Closed > 1 {
		return net.ErrClosed
	}
	return nil
}

// Shut is Close by the environment.
func (p *PacketSock) Shut() { p.Closed++ }

// Deliver gives the server a datagram.
func (p *PacketSock) Deliver(b []byte) { p.queue = append(p.queue, append([]byte(nil), b...)) }

// Pending is the number of datagrams the server has not read yet.
func (p *PacketSock) Pending() int { return len(p.queue) }

// Datagram is one that the server has sent.
type Datagram struct {
	At   time.Time
	Data []byte
}

// Datagrams is a UDP socket of the server.
type Datagrams struct {
	h                *Host
	Network, Address string
	Sent             []Datagram
	Closed           int
}

func (d *Datagrams) Write(b []byte) (int, error) {
	d.h.S.Point("send")
	if d.Closed > 0 {
		return 0, net.ErrClosed
	}
	if d.h.OnSend != nil {
		if err := d.h.OnSend(d, b); err != nil {
			return 0, err
		}
	}
	d.Sent = append(d.Sent, Datagram{time.Now(), append([]byte(nil), b...)})
	return len(b), nil
}
func (d *Datagrams) Read(b []byte) (int, error) {
	d.h.S.Block("read datagram", func() bool { return d.Closed > 0 })
	return 0, net.ErrClosed
}
func (d *Datagrams) Close() error {
	d.h.S.Point("close send")
	if d.Closed++; d.Closed > 1 {
		return net.ErrClosed
	}
	return nil
}
func (d *Datagrams) LocalAddr() net.Addr                { return addr("10.0.0.1:33333") }
func (d *Datagrams) RemoteAddr() net.Addr               { return addr(d.Address) }
func (d *Datagrams) SetDeadline(t time.Time) error      { return nil }
func (d *Datagrams) SetReadDeadline(t time.Time) error  { return nil }
func (d *Datagrams) SetWriteDeadline(t time.Time) error { return nil }

// ServerConn is one TCP connection of the server; the methods in lower case of
// its net.Conn are the server's end, those of Peer the other one.
type ServerConn struct {
	h      *Host
	Name   string
	remote string
	in     []byte // to the server
	out    []byte // from the server
	idle   bool   // the server waits for more
	EOF    bool   // the peer has closed
	Reset  bool   // the server's writes fail
	Closed int    // by the server
}

// Dial makes a connection from remote; the caller is a task.
func (h *Host) Dial(remote string) *ServerConn {
	k := &ServerConn{h: h, Name: fmt.Sprintf("s%d", len(h.Conns)), remote: remote}
	h.Conns = append(h.Conns, k)
	h.TCP.queue = append(h.TCP.queue, k)
	return k
}

// Push gives the server bytes.
func (k *ServerConn) Push(b []byte) {
	k.idle = false
	k.in = append(k.in, b...)
}

// Send gives the server bytes and waits until it has answered, reads on or has
// closed the connection.
func (k *ServerConn) Send(b []byte) {
	k.h.S.Point("push " + k.Name)
	k.Push(b)
	k.h.S.Block("answer "+k.Name, k.Rest)
}

// Rest tells whether the server has nothing left to do for the connection.
func (k *ServerConn) Rest() bool { return k.idle && len(k.in) == 0 || k.Closed > 0 }

// Take removes what the server has sent.
func (k *ServerConn) Take() []byte {
	b := k.out
	k.out = nil
	return b
}

// Drop closes the peer's end.
func (k *ServerConn) Drop(reset bool) { k.EOF, k.Reset = true, reset }

func (k *ServerConn) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	k.idle = len(k.in) == 0
	k.h.S.Block("read "+k.Name, func() bool { return len(k.in) > 0 || k.EOF || k.Closed > 0 })
	k.idle = false
	switch {
	case k.Closed > 0:
		return 0, net.ErrClosed
	case len(k.in) > 0:
		n := copy(b, k.in)
		k.in = k.in[n:]
		return n, nil
	}
	return 0, io.EOF
}

func (k *ServerConn) Write(b []byte) (int, error) {
	k.h.S.Point("write " + k.Name)
	if k.Closed > 0 {
		return 0, net.ErrClosed
	}
	if k.Reset {
		return 0, errors.New("connection reset by peer")
	}
	k.out = append(k.out, b...)
	return len(b), nil
}

func (k *ServerConn) Close() error {
	k.h.S.Point("close " + k.Name)
	if k.Closed++; k.Closed > 1 {
		return net.ErrClosed
	}
	return nil
}
func (k *ServerConn) LocalAddr() net.Addr                { return addr("10.0.0.1:44818") }
func (k *ServerConn) RemoteAddr() net.Addr               { return addr(k.remote) }
func (k *ServerConn) SetDeadline(t time.Time) error      { return nil }
func (k *ServerConn) SetReadDeadline(t time.Time) error  { return nil }
func (k *ServerConn) SetWriteDeadline(t time.Time) error { return nil }

// Frames is the number of whole frames the server has sent.
func (k *ServerConn) Frames() int {
	n := 0
	for b := k.out; plc.FrameLen(b) > 0; b = b[plc.FrameLen(b):] {
		n++
	}
	return n
}
