package checks

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"reflect"
	"syscall"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/inst"
	"verifharness/plc"
	"verifharness/sched"
	"verifharness/simnet"
	"verifharness/vk"
	"verifharness/vsync"
)

// s09 is a server with a tag and an I/O provider, and what ran before it.
type s09 struct {
	*schedRig
	m    *gologix.MapTagProvider
	io   *inst.Provider
	base int64
	out  int
}

func newS09(c *vk.C, s *sched.S) *s09 {
	w := &s09{m: &gologix.MapTagProvider{Data: map[string]any{"a": int32(7)}}, io: inst.NewProvider(), base: vsync.Live.Load()}
	w.schedRig = newSchedRig(c, s, map[string]gologix.CIPEndpoint{string(s09Tags): w.m, string(s09IO): w.io.Endpoint()})
	return w
}

var s09Tags, s09IO = []byte{1, 0}, []byte{1, 2}

// do runs f to the end, lets everything come to rest and tells whether to go on.
func (w *s09) do(f func()) {
	setup(w.s, f)
	w.s.Settle()
	if w.s.Stuck() || w.c.Failed() {
		w.c.Stop()
	}
}

func (w *s09) wait(d time.Duration) {
	w.do(func() { w.s.BlockUntil("wait", time.Now().Add(d), func() bool { return false }) })
}

func (w *s09) fail(key, format string, a ...any) {
	w.c.Fail(key, "%s\nschedule: %s", fmt.Sprintf(format, a...), w.s.Trace())
}

// live is the number of goroutines that have been started since and still are.
func (w *s09) live() int { return int(vsync.Live.Load() - w.base) }

// table is the number of connections in the server's table, -1 if there is no
// such thing.
func (w *s09) table() int {
	f := reflect.ValueOf(w.srv).Elem().FieldByName("ConnMgr")
	if !f.IsValid() || f.Kind() != reflect.Struct {
		return -1
	}
	f = f.FieldByName("Connections")
	if !f.IsValid() || f.Kind() != reflect.Slice || !f.CanAddr() {
		return -1
	}
	return len(*(*[]*int)(f.Addr().UnsafePointer()))
}

// gone checks that Serve has returned and nothing is left.
func (w *s09) gone(what string) {
	w.c.State(what, w.s.Trace())
	switch {
	case !w.served:
		w.fail("serve", "%s: Serve has not returned", what)
	case w.serveErr == nil:
		w.fail("serve-error", "%s: Serve returns no error", what)
	case w.h.TCP != nil && w.h.TCP.Closed == 0:
		w.fail("listener", "%s: Serve returns %v and leaves its TCP listener open", what, w.serveErr)
	case w.h.UDP != nil && w.h.UDP.Closed == 0:
		w.fail("listener", "%s: Serve returns %v and leaves its UDP socket open", what, w.serveErr)
	}
}

// s09Listen has listening fail.
func s09Listen(c *vk.C) {
	tcp, udp := c.Bool("tcp fails"), c.Bool("udp fails")
	sched.Explore(c, &sched.S{}, func(s *sched.S) {
		w := newS09(c, s)
		if tcp {
			w.h.TCPErr = syscall.EADDRINUSE
		}
		if udp {
			w.h.UDPErr = syscall.EADDRINUSE
		}
		if tcp || udp {
			s.Go("serve", func() {
				w.serveErr = w.srv.Serve()
				w.served = true
			})
		} else {
			w.start()
			s.Settle()
			if w.served || w.live() != 2 {
				w.fail("serve", "Serve has returned (%v) although both sockets are there; %d goroutines", w.served, w.live())
			}
			w.h.TCP.Shut()
		}
		s.Run()
		s.Settle()
		if s.Stuck() || c.Failed() {
			return
		}
		w.gone("listening fails")
		if w.live() != 0 {
			w.fail("goroutines", "Serve has returned and %d goroutines are left", w.live())
		}
	})
	c.Validated()
	c.Distinct(tcp, udp)
}

// tempErr is a problem that goes away.
type tempErr struct{ s string }

func (e tempErr) Error() string   { return e.s }
func (e tempErr) Timeout() bool   { return false }
func (e tempErr) Temporary() bool { return true }

func opErr(err error) error { return &net.OpError{Op: "accept", Net: "tcp", Err: err} }

var s09Temporary = []struct {
	name string
	err  error
}{
	{"EMFILE", opErr(syscall.EMFILE)},
	{"ECONNABORTED", opErr(syscall.ECONNABORTED)},
	{"other", tempErr{"try again"}},
}

var s09Permanent = []struct {
	name string
	err  error
}{
	{"closed", opErr(net.ErrClosed)},
	{"EINVAL", opErr(syscall.EINVAL)},
	{"other", errors.New("it is broken")},
	{"EOF-like", fmt.Errorf("wrapped: %w", net.ErrClosed)},
}

// hello is a whole session of peer i.
func (w *s09) hello(i int) {
	w.do(func() {
		p := w.peer(i)
		p.register()
		k := p.open(fopen{to: 0xB000, serial: 3, vendor: 7, oserial: 77, rpi: 1000000, trigger: 0xA3, path: cat(s09Tags, cls(2, 1))})
		if m := k.ud(creq(0x4C, sym("a"), w16(1))); m.status != 0 || !bytes.Equal(m.data, []byte{0xC4, 0, 7, 0, 0, 0}) {
			w.fail("session", "a read is answered with %v", m)
		}
		p.k.drop(false)
	})
}

// s09Errors has the sockets fail for a while and then for good.
func s09Errors(c *vk.C) {
	tcp := c.Bool("tcp")
	n := vk.Pick(c, []int{0, 1, 2, 3, 50}, "temporary errors")
	temp := s09Temporary[0]
	if n > 0 {
		temp = vk.Pick(c, s09Temporary, "temporary")
	}
	before, between := c.Bool("a session before"), c.Bool("a session between")
	perm := vk.Pick(c, s09Permanent, "permanent")
	sched.Explore(c, &sched.S{}, func(s *sched.S) {
		w := newS09(c, s)
		w.start()
		if before {
			w.hello(0)
		}
		list := &w.h.PacketErrs
		calls := &w.h.Reads
		if tcp {
			list, calls = &w.h.AcceptErrs, &w.h.Accepts
		}
		begin, from := time.Now(), *calls
		w.do(func() {
			for range n {
				*list = append(*list, temp.err)
			}
		})
		w.do(func() { s.BlockUntil("over", time.Now().Add(time.Minute), func() bool { return len(*list) == 0 }) })
		if len(*list) > 0 {
			w.fail("temporary", "%d of %d temporary errors (%s) have not been taken after a minute", len(*list), n, temp.name)
		}
		if w.served {
			w.fail("temporary", "Serve returns %v after %d temporary errors (%s)", w.serveErr, n, temp.name)
		}
		// no more than one try in a millisecond
		if passed := time.Since(begin); n > 2 && time.Duration(*calls-from) > passed/time.Millisecond+2 {
			w.fail("spin", "%d calls in %v while the socket has problems (%s)", *calls-from, passed, temp.name)
		}
		w.wait(10 * time.Second)
		if between {
			w.hello(1)
		}
		w.do(func() { *list = append(*list, perm.err) })
		w.wait(time.Second)
		w.gone(fmt.Sprintf("%d temporary errors and %q", n, perm.name))
		if !errors.Is(w.serveErr, perm.err) && !bytes.Contains([]byte(w.serveErr.Error()), []byte(perm.err.Error())) {
			w.fail("serve-error", "the socket fails with %v and Serve returns %v", perm.err, w.serveErr)
		}
		if w.live() != 0 {
			w.fail("goroutines", "Serve has returned and %d goroutines are left", w.live())
		}
	})
	c.Validated()
	c.Distinct(tcp, n, temp.name, before, between, perm.name)
}

// s09Script is what a session does.
type s09Run struct {
	p     *peer
	conns []fopen
	ids   []uint32
}

type s09Step struct {
	name  string
	frame func(x *s09Run) []byte
	reply func(x *s09Run, m mreply)
}

func (x *s09Run) opens(f fopen) []byte {
	x.conns = append(x.conns, f)
	return rrFrame(x.p.session, x.p.nextCtx(), f.req())
}

func s09Opened(x *s09Run, m mreply) {
	if len(m.data) < 4 {
		x.p.c.Fail("open", "a forward open is answered with %v", m)
	}
	x.ids = append(x.ids, le.Uint32(m.data))
}

var s09Script = []s09Step{
	{"register", func(x *s09Run) []byte {
		return plc.EncapFrame(0x65, 0, 0, x.p.nextCtx(), []byte{1, 0, 0, 0})
	}, nil},
	{"unconnected read", func(x *s09Run) []byte {
		return rrFrame(x.p.session, x.p.nextCtx(), ucsend(s09Tags, creq(0x4C, sym("a"), w16(1))))
	}, nil},
	{"open class 3", func(x *s09Run) []byte {
		return x.opens(fopen{to: 0xC000, serial: 20, vendor: 9, oserial: 5, rpi: 1000000, trigger: 0xA3, path: cat(s09Tags, cls(2, 1))})
	}, s09Opened},
	{"connected read", func(x *s09Run) []byte {
		x.p.seq++
		return udFrame(x.p.session, x.p.nextCtx(), x.ids[0], x.p.seq, creq(0x4C, sym("a"), w16(1)))
	}, nil},
	{"open class 1", func(x *s09Run) []byte {
		return x.opens(fopen{to: 0xC001, serial: 21, vendor: 9, oserial: 5, rpi: 5000, otrpi: 3000, trigger: 1, path: cat(s09IO, cls(4, 1))})
	}, s09Opened},
	{"open class 1 again", func(x *s09Run) []byte {
		return x.opens(fopen{to: 0xC002, serial: 22, vendor: 9, oserial: 5, rpi: 7000, otrpi: 3000, trigger: 1, path: cat(s09IO, cls(4, 1))})
	}, s09Opened},
	{"close class 1", func(x *s09Run) []byte {
		return rrFrame(x.p.session, x.p.nextCtx(), x.conns[1].closeReq())
	}, nil},
	{"connected write", func(x *s09Run) []byte {
		x.p.seq++
		return udFrame(x.p.session, x.p.nextCtx(), x.ids[0], x.p.seq, creq(0x4D, sym("a"), w16(0xC4), w16(1), w32(7)))
	}, nil},
	{"close class 3", func(x *s09Run) []byte {
		return rrFrame(x.p.session, x.p.nextCtx(), x.conns[0].closeReq())
	}, nil},
	{"list identity", func(x *s09Run) []byte {
		return plc.EncapFrame(0x63, x.p.session, 0, x.p.nextCtx(), nil)
	}, nil},
}

// steps runs the first n steps of the script.
func (w *s09) steps(x *s09Run, n int) {
	for _, st := range s09Script[:n] {
		w.do(func() {
			fs := x.p.call(st.frame(x))
			if len(fs) != 1 {
				w.fail("script", "%s has %d replies", st.name, len(fs))
			}
			if st.name == "register" {
				x.p.session = fs[0].session
			}
			var m mreply
			var err error
			switch fs[0].cmd {
			case 0x6F:
				m, err = parseRR(fs[0])
			case 0x70:
				_, _, m, err = parseUD(fs[0])
			}
			if err != nil || m.status != 0 {
				w.fail("script", "%s is answered with %v, %v", st.name, m, err)
			}
			if st.reply != nil {
				st.reply(x, m)
			}
		})
	}
}

// bystander is a session with connections of both kinds that is to go on.
type s09Bystander struct {
	w       *s09
	p       *peer
	k3, k1  *pconn
	sock    *simnet.Datagrams
	opened  time.Time
	written int
}

func (w *s09) bystander(i int) *s09Bystander {
	b := &s09Bystander{w: w}
	w.do(func() {
		b.p = w.peer(i)
		b.p.register()
		b.k3 = b.p.open(fopen{to: 0xD000, serial: 30, vendor: 8, oserial: 6, rpi: 1000000, trigger: 0xA3, path: cat(s09Tags, cls(2, 1))})
		b.k1 = b.p.open(fopen{to: 0xD001, serial: 31, vendor: 8, oserial: 6, rpi: 4000, otrpi: 3000, trigger: 1, path: cat(s09IO, cls(4, 1))})
		b.opened = time.Now()
	})
	if len(w.h.Out) != 1 {
		w.fail("socket", "an I/O connection has been opened and the server has made %d sockets", len(w.h.Out))
	}
	b.sock = w.h.Out[0]
	return b
}

// works checks that the bystander's session goes on.
func (b *s09Bystander) works() {
	w := b.w
	w.do(func() {
		if m := b.k3.ud(creq(0x4C, sym("a"), w16(1))); m.status != 0 || !bytes.Equal(m.data, []byte{0xC4, 0, 7, 0, 0, 0}) {
			w.fail("other", "the other session's read is answered with %v", m)
		}
	})
	w.out++
	w.do(func() { w.h.UDP.Deliver(s06Data(b.k1.ot, w.out, s06OutVal(w.out).bytes())) })
	w.output()
	if n := int(time.Since(b.opened) / (4 * time.Millisecond)); len(b.sock.Sent) != n || b.sock.Closed != 0 {
		w.fail("other", "the other session's I/O connection has produced %d packets, not %d (closed %d times)", len(b.sock.Sent), n, b.sock.Closed)
	}
}

func (w *s09) output() {
	var o s06Out
	w.do(func() { o = s06Out(w.io.GetOutputData()) })
	if o != s06OutVal(w.out) {
		w.fail("output", "the output is %+v, not %+v", o, s06OutVal(w.out))
	}
}

// released checks that the server keeps nothing of a session.
func (w *s09) released(what string, x *s09Run, keep *simnet.Datagrams, kept, goroutines int) {
	if !x.p.k.isClosed() {
		w.fail("connection", "%s: the server does not close its end", what)
	}
	if n := w.live(); n != goroutines {
		w.fail("goroutines", "%s: %d goroutines are left, not %d", what, n, goroutines)
	}
	if n := w.table(); n != kept && n >= 0 {
		w.fail("table", "%s: %d connections are left, not %d", what, n, kept)
	}
	sent := map[*simnet.Datagrams]int{}
	for _, d := range w.h.Out {
		if d != keep && d.Closed != 1 {
			w.fail("socket", "%s: the socket of an I/O connection has been closed %d times", what, d.Closed)
		}
		sent[d] = len(d.Sent)
	}
	// its connections are not heard and not served any more
	for _, ot := range x.ids {
		w.do(func() { w.h.UDP.Deliver(s06Data(ot, 1, s06OutVal(99).bytes())) })
	}
	if w.h.UDP.Closed == 0 {
		w.output()
	}
	w.wait(16 * time.Millisecond)
	for _, d := range w.h.Out {
		if d != keep && len(d.Sent) != sent[d] {
			w.fail("traffic", "%s: %d packets are sent for a connection of the session", what, len(d.Sent)-sent[d])
		}
	}
}

// s09Drop ends a session at every byte of its script.
func s09Drop(step int) func(c *vk.C) {
	return func(c *vk.C) {
		x := &s09Run{}
		what := ""
		sched.Explore(c, &sched.S{}, func(s *sched.S) {
			w := newS09(c, s)
			w.start()
			b := w.bystander(0)
			w.do(func() { x.p = w.peer(1) })
			w.steps(x, step)
			w.wait(9 * time.Millisecond)
			k := x.p.k.(schedConn)
			f := s09Script[step].frame(x)
			how := vk.Pick(c, []string{"closes", "resets", "resets before the reply", "unregisters", "sends nonsense", "unregisters twice"}, "how")
			cut := len(f)
			switch how {
			case "closes", "resets":
				cut = c.Choose(len(f)+1, "cut")
			case "unregisters":
				f = plc.EncapFrame(0x66, x.p.session, 0, x.p.nextCtx(), nil)
				cut = len(f)
			case "unregisters twice":
				f = plc.EncapFrame(0x66, x.p.session, 0, x.p.nextCtx(), nil)
				f = cat(f, f)
				cut = len(f)
			case "sends nonsense":
				f = plc.EncapFrame(0xFFFF, x.p.session, 0, x.p.nextCtx(), []byte{1, 2, 3})
				cut = len(f)
			}
			what = fmt.Sprintf("before %q the peer %s after %d of %d bytes", s09Script[step].name, how, cut, len(f))
			w.do(func() {
				switch how {
				case "closes":
					k.Push(f[:cut])
					k.Drop(false)
				case "resets":
					if cut > 0 {
						k.send(f[:cut])
					}
					k.Drop(true)
				case "resets before the reply":
					k.Push(f)
					k.Drop(true)
				case "sends nonsense":
					k.send(f)
					k.Drop(false)
				default:
					k.Push(f)
				}
			})
			w.released(what, x, b.sock, 2, 4)
			b.works()
			b.p.k.drop(false)
			x.p, x.ids = b.p, append(x.ids, b.k1.ot, b.k3.ot)
			s.Settle()
			w.released("everybody has left", x, nil, 0, 2)
			w.h.UDP.Shut()
			w.wait(time.Second)
			w.gone("the UDP socket is closed")
			if w.live() != 0 {
				w.fail("goroutines", "Serve has returned and %d goroutines are left", w.live())
			}
		})
		c.Validated()
		c.Distinct(what)
	}
}

// s09Close closes the listeners at each point of a session, which can end
// after that.
func s09Close(c *vk.C) {
	n := c.Choose(len(s09Script)+1, "steps")
	how := c.Choose(4, "closed")
	again := c.Bool("serve again")
	sched.Explore(c, &sched.S{}, func(s *sched.S) {
		w := newS09(c, s)
		w.start()
		x := &s09Run{}
		w.do(func() { x.p = w.peer(1) })
		w.steps(x, n)
		w.do(func() {
			if how != 1 {
				w.h.TCP.Shut()
			}
			if how == 2 {
				s.Point("and")
			}
			if how != 0 {
				w.h.UDP.Shut()
			}
		})
		what := fmt.Sprintf("the sockets (%d) are closed after %d steps", how, n)
		w.wait(10 * time.Millisecond)
		w.gone(what)
		if w.h.Accepts+w.h.Reads > 6 {
			w.fail("spin", "%s: %d calls of Accept and %d of ReadFrom", what, w.h.Accepts, w.h.Reads)
		}
		x.p.k.drop(false)
		s.Settle()
		w.wait(10 * time.Millisecond)
		if !again {
			w.released(what, x, nil, 0, 0)
			return
		}
		if w.live() != 0 {
			w.fail("goroutines", "%s: %d goroutines are left", what, w.live())
		}
		w.served, w.serveErr = false, nil
		w.h.TCP, w.h.UDP = nil, nil
		w.start()
		w.hello(0)
		if w.served {
			w.fail("serve", "Serve is called again and returns %v", w.serveErr)
		}
		w.do(func() { w.h.TCP.Shut() })
		w.wait(time.Second)
		w.gone("closed again")
		if w.live() != 0 {
			w.fail("goroutines", "closed again: %d goroutines are left", w.live())
		}
	})
	c.Validated()
	c.Distinct(n, how, again)
}

// s09Race ends a session and closes the sockets while the server is at work.
func s09Race(preempt, from int) func(c *vk.C) {
	return func(c *vk.C) {
		reset := c.Bool("reset")
		shut := c.Choose(3, "closed")
		sched.Explore(c, &sched.S{Preempt: preempt}, func(s *sched.S) {
			w := newS09(c, s)
			w.start()
			x := &s09Run{}
			w.do(func() { x.p = w.peer(1) })
			w.steps(x, from)
			k := x.p.k.(schedConn)
			f := s09Script[from].frame(x)
			s.Go("peer", func() {
				s.Point("push")
				k.Push(f)
				s.Point("drop")
				k.Drop(reset)
			})
			if shut > 0 {
				s.Go("closer", func() {
					s.Point("close")
					if shut == 1 {
						w.h.TCP.Shut()
					} else {
						w.h.UDP.Shut()
					}
				})
			}
			s.Go("clock", func() { s.BlockUntil("run", time.Now().Add(6*time.Millisecond), func() bool { return false }) })
			s.Run()
			s.Settle()
			if s.Stuck() || c.Failed() {
				return
			}
			what := fmt.Sprintf("at %q", s09Script[from].name)
			left := 2
			if shut > 0 {
				w.gone(what)
				left = 0
			}
			w.released(what, x, nil, 0, left)
		})
		c.Validated()
		c.Distinct(from, reset, shut)
	}
}

// s09Many opens and loses many sessions.
func s09Many(c *vk.C) {
	reset := c.Bool("reset")
	sched.Explore(c, &sched.S{MaxSteps: 1 << 30}, func(s *sched.S) {
		w := newS09(c, s)
		w.start()
		for range 100 {
			x := &s09Run{}
			w.do(func() { x.p = w.peer(1) })
			w.steps(x, 1+c0(len(w.h.Conns), len(s09Script)))
			w.do(func() { x.p.k.drop(reset) })
			if w.live() != 2 {
				w.fail("goroutines", "%d goroutines are left after session %d", w.live(), len(w.h.Conns))
			}
			if n := w.table(); n > 0 {
				w.fail("table", "%d connections are left after session %d", n, len(w.h.Conns))
			}
			for _, d := range w.h.Out {
				if d.Closed != 1 {
					w.fail("socket", "the socket of an I/O connection has been closed %d times after session %d", d.Closed, len(w.h.Conns))
				}
			}
			s.Forget()
		}
	})
	c.Validated()
	c.Distinct(reset)
}

func c0(i, n int) int { return i % n }

func init() {
	vk.Register(&vk.Check{
		ID: "S09", Level: "model_checking",
		MaxProcs:    2,
		Rule:        "Each listening socket fails to open, fails for good, fails for a while (up to n times, between accepted peers) or is closed, in every combination and order; a peer leaves in each of six ways after every byte of every message of a session script; every schedule of a peer that leaves at each step against the closing of sockets and the server's own goroutines. Then Serve has returned or goes on as it should, and every connection, socket, goroutine and table entry of the session is gone. A case is non-trivial when its failure and point are distinct.",
		Bounds:      map[string]any{"preemptions": "0, thorough 1", "ways to leave": 6, "temporary failures": 50},
		Assumptions: []string{"switches at locks, channels, network and timers only, and the race monitor over those schedules: without a data race this covers every interleaving of the bounded schedules", "bounded time is simulated time"},
		Units: func(tier string) []vk.Unit {
			deep := tier == "thorough"
			pick := func(q, t int) int {
				if deep {
					return t
				}
				return q
			}
			us := []vk.Unit{
				{Name: "listen", Run: s09Listen},
				{Name: "errors", Run: s09Errors},
				{Name: "shut", Run: s09Close},
				{Name: "many", Run: s09Many},
			}
			for i, st := range s09Script {
				us = append(us, vk.Unit{Name: "drop at " + st.name, Run: s09Drop(i)})
			}
			for i, st := range s09Script {
				us = append(us, vk.Shard(vk.Unit{Name: "race at " + st.name, Run: s09Race(pick(0, 1), i)}, pick(1, 4), 10)...)
			}
			return us
		},
		QuickBudget:    10 * time.Minute,
		ThoroughBudget: 13 * time.Minute,
	})
}
