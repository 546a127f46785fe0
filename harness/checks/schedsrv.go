package checks

import (
	"fmt"

	"github.com/danomagnum/gologix"
	"verifharness/sched"
	"verifharness/simnet"
	"verifharness/vk"
)

// schedRig is a running server under a controlled scheduler.
type schedRig struct {
	c        *vk.C
	s        *sched.S
	h        *simnet.Host
	srv      *gologix.Server
	served   bool
	serveErr error
}

// newSchedRig makes a server with a provider at each route; start runs it.
func newSchedRig(c *vk.C, s *sched.S, routes map[string]gologix.CIPEndpoint) *schedRig {
	r := &schedRig{c: c, s: s, h: simnet.NewHost(s)}
	c.Cleanup(r.h.Release)
	rt := gologix.NewRouter()
	for k, p := range routes {
		rt.Handle([]byte(k), p)
	}
	r.srv = gologix.NewServer(rt)
	s.AtEnd = r.end
	return r
}

// end ends what the server still does.
func (r *schedRig) end() {
	r.h.OnSend = nil
	setup(r.s, func() {
		for _, k := range r.h.Conns {
			k.Drop(false)
		}
		if r.h.Listening() {
			r.h.TCP.Shut()
			r.h.UDP.Shut()
		}
	})
	r.s.Settle()
}

// start runs the server, and a task of the set-up waits for it.
func (r *schedRig) start() {
	r.s.Spawn("serve", func() {
		err := r.srv.Serve()
		r.served, r.serveErr = true, err
	})
	setup(r.s, func() { r.s.Block("listening", r.h.Listening) })
}

// schedConn is a peer's end of a connection.
type schedConn struct{ *simnet.ServerConn }

func (k schedConn) send(b []byte)    { k.ServerConn.Send(b) }
func (k schedConn) take() []byte     { return k.ServerConn.Take() }
func (k schedConn) isClosed() bool   { return k.ServerConn.Closed > 0 }
func (k schedConn) drop(reset bool)  { k.ServerConn.Drop(reset) }
func (r *schedRig) peer(i int) *peer { return &peer{c: r.c, k: r.dial(i), seq: 100} }
func (r *schedRig) dial(i int) schedConn {
	return schedConn{r.h.Dial(fmt.Sprintf("10.0.0.%d:50000", 2+i))}
}
