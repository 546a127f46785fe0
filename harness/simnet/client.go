// Package simnet is the network between code under a controlled scheduler and
// its peer.
package simnet

import (
	"errors"
	"io"
	"net"
	"os"
	"time"

	"verifharness/plc"
	"verifharness/sched"
)

// Conn is a client's TCP connection to a reference controller.  The controller
// answers each request when the exploration schedules its event.
type Conn struct {
	S       *sched.S
	Sess    *plc.Session
	Name    string
	in      []byte
	reqs    [][]byte
	out     []byte
	Closed  int
	EOF     bool // the controller closed the connection
	Silent  bool // the controller never answers any more
	rd, wd  time.Time
	Served  int
	Frames  int
	OnFrame func(n int, frame, reply []byte) []byte
	// Before may answer a frame in the controller's place.
	Before func(n int, frame []byte) (reply []byte, handled bool)
	// CloseErr is what closing the connection returns.
	CloseErr error
	// Log records what was sent and when.
	Log []Sent
}

// Sent is one frame the client wrote.
type Sent struct {
	At    time.Time
	Frame []byte
}

// Dial makes a connection and registers the controller's event.
func Dial(s *sched.S, p *plc.PLC, name string) *Conn {
	c := &Conn{S: s, Sess: p.NewSession(), Name: name}
	s.Event("reply "+name, func() bool { return len(c.reqs) > 0 && !c.Silent && c.Closed == 0 }, c.serve)
	return c
}

func (c *Conn) serve() {
	f := c.reqs[0]
	c.reqs = c.reqs[1:]
	if c.Before != nil {
		if rep, ok := c.Before(c.Served, f); ok {
			c.Served++
			c.out = append(c.out, rep...)
			return
		}
	}
	rep := c.Sess.Handle(f)
	if c.OnFrame != nil {
		rep = c.OnFrame(c.Served, f, rep)
	}
	c.Served++
	c.out = append(c.out, rep...)
}

// Break closes the connection from the controller's side.
func (c *Conn) Break() {
	c.EOF = true
	c.Sess.Ended = true
	c.reqs = nil
}

func (c *Conn) Write(b []byte) (int, error) {
	c.S.Point("write " + c.Name)
	if c.Closed > 0 {
		return 0, net.ErrClosed
	}
	if c.EOF {
		return 0, errors.New("connection reset by peer")
	}
	c.in = append(c.in, b...)
	for {
		l := plc.FrameLen(c.in)
		if l == 0 {
			break
		}
		f := append([]byte(nil), c.in[:l]...)
		c.in = c.in[l:]
		c.Frames++
		c.Log = append(c.Log, Sent{time.Now(), f})
		c.reqs = append(c.reqs, f)
	}
	return len(b), nil
}

func (c *Conn) Read(b []byte) (int, error) {
	c.S.BlockUntil("read "+c.Name, c.rd, func() bool { return len(c.out) > 0 || c.EOF || c.Closed > 0 })
	switch {
	case c.Closed > 0:
		return 0, net.ErrClosed
	case len(c.out) > 0:
		n := copy(b, c.out)
		c.out = c.out[n:]
		return n, nil
	case c.EOF:
		return 0, io.EOF
	}
	return 0, os.ErrDeadlineExceeded
}

func (c *Conn) Close() error {
	c.S.Point("close " + c.Name)
	c.Closed++
	c.Sess.Ended = true
	if c.Closed > 1 {
		return net.ErrClosed
	}
	return c.CloseErr
}

// Pending is the number of requests not answered yet.
func (c *Conn) Pending() int { return len(c.reqs) }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr  { return addr("10.0.0.2:50000") }
func (c *Conn) RemoteAddr() net.Addr { return addr("10.0.0.1:44818") }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rd, c.wd = t, t
	return c.err()
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rd = t
	return c.err()
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.wd = t
	return c.err()
}
func (c *Conn) err() error {
	if c.Closed > 0 {
		return net.ErrClosed
	}
	return nil
}
