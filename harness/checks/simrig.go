package checks

import (
	"fmt"
	"net"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/sched"
	"verifharness/simnet"
	"verifharness/vk"
	"verifharness/vnet"
)

// simRig is one client under a controlled scheduler, connected to one
// reference controller over a simulated network.
type simRig struct {
	s     *sched.S
	p     *plc.PLC
	cl    *gologix.Client
	conns []*simnet.Conn
	// onDial may refuse the nth dial.
	onDial func(n int) error
	// onConn sees each new connection.
	onConn func(n int, c *simnet.Conn)
	dials  int
}

func newSimRig(c *vk.C, s *sched.S, p *plc.PLC) *simRig {
	r := &simRig{s: s, p: p}
	vnet.OnDial = func(network, address string, timeout time.Duration) (net.Conn, error) {
		s.Point("dial")
		n := r.dials
		r.dials++
		if r.onDial != nil {
			if err := r.onDial(n); err != nil {
				return nil, err
			}
		}
		k := simnet.Dial(s, p, fmt.Sprintf("c%d", n))
		r.conns = append(r.conns, k)
		if r.onConn != nil {
			r.onConn(n, k)
		}
		return k, nil
	}
	c.Cleanup(func() { vnet.OnDial = nil })
	r.cl = gologix.NewClient("10.0.0.1")
	r.cl.SocketTimeout = time.Second
	return r
}

// setup runs f as a single task without alternatives.
func setup(s *sched.S, f func()) {
	no, solo := s.NoChoice, s.Solo
	s.NoChoice, s.Solo = true, true
	s.Go("setup", f)
	s.Run()
	s.NoChoice, s.Solo = no, solo
}

// openSockets counts the connections the client has not closed.
func (r *simRig) openSockets() int {
	n := 0
	for _, k := range r.conns {
		if k.Closed == 0 {
			n++
		}
	}
	return n
}
