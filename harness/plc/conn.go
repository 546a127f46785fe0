package plc

import (
	"errors"
	"io"
	"net"
	"os"
	"time"
)

// Conn is a synchronous in-memory TCP connection to the controller: what the
// client writes is answered at once, what it reads comes in chunks of the
// size Chunk chooses, and reading with nothing pending is a timeout.
type Conn struct {
	S *Session
	// Chunk bounds the bytes of the next Read (nil: everything there is).
	Chunk func(avail int) int
	// WChunk bounds the bytes taken by the next Write (nil: all).
	WChunk func(n int) int
	// OnFrame may replace the reply bytes of frame number n (from 0).
	OnFrame func(n int, frame, reply []byte) []byte
	// FailWrite, FailRead make the nth call fail (nil: never).
	FailWrite, FailRead func(n int) error

	in, out  []byte
	frames   int
	writes   int
	reads    int
	Closed   int
	Deadline time.Time
	EOF      bool
	Unread   int // bytes never read before close
}

// Dial makes a connection.
func (p *PLC) Dial() *Conn { return &Conn{S: p.NewSession()} }

var errClosed = net.ErrClosed

func (c *Conn) Write(b []byte) (int, error) {
	if c.Closed > 0 {
		return 0, errClosed
	}
	c.writes++
	if c.FailWrite != nil {
		if err := c.FailWrite(c.writes - 1); err != nil {
			return 0, err
		}
	}
	n := len(b)
	if c.WChunk != nil {
		if k := c.WChunk(n); k < n {
			n = k
		}
	}
	c.in = append(c.in, b[:n]...)
	for {
		l := FrameLen(c.in)
		if l == 0 {
			break
		}
		f := append([]byte(nil), c.in[:l]...)
		c.in = c.in[l:]
		rep := c.S.Handle(f)
		if c.OnFrame != nil {
			rep = c.OnFrame(c.frames, f, rep)
		}
		c.frames++
		c.out = append(c.out, rep...)
	}
	if n < len(b) {
		return n, io.ErrShortWrite
	}
	return n, nil
}

func (c *Conn) Read(b []byte) (int, error) {
	if c.Closed > 0 {
		return 0, errClosed
	}
	c.reads++
	if c.FailRead != nil {
		if err := c.FailRead(c.reads - 1); err != nil {
			return 0, err
		}
	}
	if len(b) == 0 {
		return 0, nil
	}
	if len(c.out) == 0 {
		if c.EOF {
			return 0, io.EOF
		}
		return 0, os.ErrDeadlineExceeded
	}
	n := len(c.out)
	if c.Chunk != nil {
		if k := c.Chunk(n); k < n {
			n = k
		}
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, c.out[:n])
	c.out = c.out[n:]
	return n, nil
}

func (c *Conn) Close() error {
	c.Closed++
	if c.Closed > 1 {
		return errClosed
	}
	c.Unread = len(c.out)
	c.S.Ended = true
	return nil
}

// Pending is the number of reply bytes the client has not read.
func (c *Conn) Pending() int { return len(c.out) }

// Frames is the number of frames received.
func (c *Conn) Frames() int { return c.frames }

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func (c *Conn) LocalAddr() net.Addr           { return addr("10.0.0.2:50000") }
func (c *Conn) RemoteAddr() net.Addr          { return addr("10.0.0.1:44818") }
func (c *Conn) SetDeadline(t time.Time) error { return c.SetReadDeadline(t) }
func (c *Conn) SetReadDeadline(t time.Time) error {
	if c.Closed > 0 {
		return errClosed
	}
	c.Deadline = t
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	if c.Closed > 0 {
		return errClosed
	}
	return nil
}

var _ = errors.New
