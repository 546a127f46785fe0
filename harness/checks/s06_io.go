package checks

import (
	"bytes"
	"errors"
	"fmt"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/inst"
	"verifharness/plc"
	"verifharness/sched"
	"verifharness/simnet"
	"verifharness/vk"
)

type s06In inst.In
type s06Out inst.Out

func s06InVal(k int) s06In   { return s06In(inst.InVal(k)) }
func s06OutVal(k int) s06Out { return s06Out(inst.OutVal(k)) }

// bytes returns the value on the wire. (By hand: no code that the race monitor
// watches is to touch the harness's data.)
func (v s06In) bytes() []byte {
	return cat(w32(uint32(v.A)), w32(uint32(v.B)), w16(int(v.C)), w16(int(v.D)))
}
func (v s06Out) bytes() []byte {
	return cat(w16(int(v.P)), w16(int(v.Q[0])), w16(int(v.Q[1])), w16(int(v.Q[2])), w32(v.R))
}

// s06Provider is an I/O provider of either kind.
type s06Provider interface {
	Endpoint() gologix.CIPEndpoint
	SetInputData(k int)
}

// s06Conn is one I/O connection.
type s06Conn struct {
	k        *pconn
	peer     int
	prov     int
	opened   time.Time
	rpi      time.Duration
	open     bool
	sock     *simnet.Datagrams
	expected int // packets until it was closed
	seen     int
	lost     int // packets that could not be sent
}

// s06 is a server with two I/O providers and two originators.
type s06 struct {
	*schedRig
	io    *inst.Provider
	ch    *inst.ChannelProvider
	ps    [2]s06Provider
	in    [2]int
	out   int
	peers [2]*peer
	conns []*s06Conn
	next  int
	log   []string
	fails int // sends that fail
	got   chan s06Out
}

var s06Routes = [][]byte{{1, 2}, {1, 3}}

func newS06(c *vk.C, s *sched.S) *s06 {
	w := &s06{next: 1}
	w.io = inst.NewProvider()
	w.ch = inst.NewChannelProvider()
	w.ps = [2]s06Provider{w.io, w.ch}
	w.schedRig = newSchedRig(c, s, map[string]gologix.CIPEndpoint{string(s06Routes[0]): w.io.Endpoint(), string(s06Routes[1]): w.ch.Endpoint()})
	w.h.OnSend = func(d *simnet.Datagrams, b []byte) error {
		if w.fails > 0 {
			w.fails--
			for _, k := range w.conns {
				if k.sock == d {
					k.lost++
				}
			}
			return errors.New("no buffer space available")
		}
		return nil
	}
	w.start()
	return w
}

func (w *s06) fail(key, format string, a ...any) {
	w.c.Fail(key, "after %v: %s\nschedule: %s", w.log, fmt.Sprintf(format, a...), w.s.Trace())
}

// act runs f to the end and lets everything come to rest.
func (w *s06) act(f func()) {
	setup(w.s, f)
	w.s.Settle()
	if w.s.Stuck() || w.c.Failed() {
		w.c.Stop()
	}
}

func (w *s06) peer(i int) *peer {
	if w.peers[i] == nil {
		w.act(func() {
			w.peers[i] = w.schedRig.peer(i)
			w.peers[i].register()
		})
	}
	return w.peers[i]
}

func (w *s06) open(peer, prov int, rpi time.Duration) *s06Conn {
	p := w.peer(peer)
	n := len(w.h.Out)
	id := len(w.conns)
	k := &s06Conn{peer: peer, prov: prov, rpi: rpi, open: true}
	w.act(func() {
		k.k = p.open(fopen{to: 0xA000 + uint32(id), serial: uint16(10 + id), vendor: 7, oserial: uint32(peer), rpi: uint32(rpi / time.Microsecond), otrpi: 3000, trigger: 1, path: cat(s06Routes[prov], cls(4, 1))})
		k.opened = time.Now()
	})
	if len(w.h.Out) != n+1 {
		w.fail("socket", "an I/O connection has been opened and the server has made %d sockets for it", len(w.h.Out)-n)
	}
	k.sock = w.h.Out[n]
	if want := fmt.Sprintf("10.0.0.%d:2222", 2+peer); k.sock.Network != "udp" || k.sock.Address != want {
		w.fail("destination", "the packets of an I/O connection opened from %s go to %s %s", want, k.sock.Network, k.sock.Address)
	}
	w.conns = append(w.conns, k)
	return k
}

// packet checks a produced packet.
func s06Packet(b []byte, to uint32) (seq uint32, data []byte, err error) {
	it, err := plc.ParseItems(b)
	if err != nil {
		return 0, nil, err
	}
	if len(it) != 2 || it[0].ID != 0x8002 || len(it[0].Data) != 8 || it[1].ID != 0xB1 || len(it[1].Data) < 2 {
		return 0, nil, fmt.Errorf("items %v", it)
	}
	if id := le.Uint32(it[0].Data); id != to {
		return 0, nil, fmt.Errorf("connection id %#x", id)
	}
	seq = le.Uint32(it[0].Data[4:])
	if s := le.Uint16(it[1].Data); s != uint16(seq) {
		return 0, nil, fmt.Errorf("sequence counts %d and %d", seq, s)
	}
	return seq, it[1].Data[2:], nil
}

// check compares what the connections have sent since the last time with what
// they should have.
func (w *s06) check() {
	now := time.Now()
	for _, k := range w.conns {
		if k.open {
			k.expected = int(now.Sub(k.opened) / k.rpi)
		}
		total := len(k.sock.Sent) + k.lost
		if total != k.expected {
			w.fail("traffic", "connection %#x (open %v, RPI %v, opened %v ago) has produced %d packets, not %d", k.k.to, k.open, k.rpi, now.Sub(k.opened), total, k.expected)
		}
		for i, d := range k.sock.Sent[k.seen:] {
			seq, data, err := s06Packet(d.Data, k.k.to)
			if err != nil {
				w.fail("packet", "connection %#x sends % x: %v", k.k.to, d.Data, err)
			}
			if want := uint32(k.expected - (len(k.sock.Sent) - k.seen) + i + 1); seq != want && k.lost == 0 {
				w.fail("sequence", "packet %d of connection %#x has sequence count %d", want, k.k.to, seq)
			}
			if want := s06InVal(w.in[k.prov]).bytes(); !bytes.Equal(data, want) {
				w.fail("input", "connection %#x sends % x, the input is % x", k.k.to, data, want)
			}
		}
		for i := 1; i < len(k.sock.Sent); i++ {
			a, b := k.sock.Sent[i-1].Data, k.sock.Sent[i].Data
			if x, y := le.Uint32(a[10:]), le.Uint32(b[10:]); x >= y {
				w.fail("sequence", "connection %#x sends sequence count %d after %d", k.k.to, y, x)
			}
		}
		k.seen = len(k.sock.Sent)
		if (k.sock.Closed > 0) == k.open {
			w.fail("release", "the socket of connection %#x (open %v) has been closed %d times", k.k.to, k.open, k.sock.Closed)
		}
	}
	var out s06Out
	w.act(func() { out = s06Out(w.io.GetOutputData()) })
	if out != s06OutVal(w.out) {
		w.fail("output", "the output is %+v, not %+v", out, s06OutVal(w.out))
	}
}

// ioData is an O->T packet of connection ot.
func s06Data(ot uint32, seq int, data []byte) []byte { return ioPacket(ot, uint32(seq), data) }

func (w *s06) wait(d time.Duration) {
	w.act(func() { w.s.BlockUntil("wait", time.Now().Add(d), func() bool { return false }) })
}

func (w *s06) shut(k *s06Conn) {
	if k.open {
		k.expected = int(time.Now().Sub(k.opened) / k.rpi)
	}
	k.open = false
}

// step is one action.
func (w *s06) step(c *vk.C) {
	type action struct {
		name string
		do   func()
	}
	var as []action
	add := func(name string, do func()) { as = append(as, action{name, do}) }
	add("9 ms pass", func() { w.wait(9 * time.Millisecond) })
	live := 0
	for _, k := range w.conns {
		if k.open {
			live++
		}
	}
	if live < 3 {
		for i := range w.peers {
			for j := range w.ps {
				add(fmt.Sprintf("%d opens provider %d", i, j), func() { w.open(i, j, []time.Duration{4, 6}[j]*time.Millisecond) })
			}
		}
	}
	for i := range w.ps {
		add(fmt.Sprintf("input %d", i), func() {
			w.next++
			w.in[i] = w.next
			w.act(func() { w.ps[i].SetInputData(w.next) })
		})
	}
	for i, k := range w.conns {
		if k.open || i == len(w.conns)-1 {
			add(fmt.Sprintf("output on %d", i), func() {
				w.next++
				if k.open && k.prov == 0 {
					w.out = w.next
				}
				w.act(func() {
					w.h.UDP.Deliver(s06Data(k.k.ot, w.next, s06OutVal(w.next).bytes()))
				})
			})
		}
		if k.open {
			add(fmt.Sprintf("short output on %d", i), func() {
				w.act(func() {
					b := s06OutVal(99).bytes()
					w.h.UDP.Deliver(s06Data(k.k.ot, 99, b[:len(b)-1]))
				})
			})
			add(fmt.Sprintf("close %d", i), func() {
				w.act(func() {
					if m := w.peers[k.peer].rr(k.k.f.closeReq()); m.status != 0 {
						w.fail("close", "a forward close is answered with %v", m)
					}
				})
				w.shut(k)
			})
		}
	}
	for i, p := range w.peers {
		if p == nil {
			continue
		}
		for j, how := range []string{"drops", "resets", "unregisters"} {
			add(fmt.Sprintf("%d %s", i, how), func() {
				for _, k := range w.conns {
					if k.peer == i {
						w.shut(k)
					}
				}
				w.act(func() {
					if j == 2 {
						p.k.send(plc.EncapFrame(0x66, p.session, 0, p.nextCtx(), nil))
					} else {
						p.k.drop(j == 1)
					}
				})
				if !p.k.isClosed() {
					w.fail("session", "session %d %s and the server does not close it", i, how)
				}
				w.peers[i] = nil
			})
		}
	}
	if live > 0 {
		add("a send fails", func() {
			w.fails++
			w.wait(9 * time.Millisecond)
			w.fails = 0
		})
	}
	a := vk.Pick(c, as, "action")
	w.log = append(w.log, a.name)
	a.do()
	w.check()
	c.State(w.log[len(w.log)-1], w.in, w.out, live)
}

func s06History(depth int) func(c *vk.C) {
	return func(c *vk.C) {
		sched.Explore(c, &sched.S{}, func(s *sched.S) {
			w := newS06(c, s)
			for range depth {
				w.step(c)
			}
			w.log = append(w.log, "20 ms pass")
			w.wait(20 * time.Millisecond)
			w.check()
			c.Distinct(fmt.Sprint(w.log))
		})
		c.Validated()
	}
}

// s06Wrap runs a connection until its 16 bit sequence count has wrapped.
func s06Wrap(c *vk.C) {
	prov := c.Choose(2, "provider")
	sched.Explore(c, &sched.S{MaxSteps: 1 << 30}, func(s *sched.S) {
		w := newS06(c, s)
		w.open(0, prov, time.Millisecond)
		for i := 0; i < 66; i++ {
			w.next++
			w.in[prov] = w.next
			w.act(func() { w.ps[prov].SetInputData(w.next) })
			w.wait(time.Second)
			w.check()
			s.Forget()
		}
	})
	c.Validated()
}

// s06RPI opens connections with many packet intervals.
func s06RPI(c *vk.C) {
	prov := c.Choose(2, "provider")
	rpi := vk.Pick(c, []time.Duration{1, 2, 3, 100, 999, 1000, 1001, 2500, 10000, 65535, 65536, 100000, 999999, 1000000, 60000000, 4294967295}, "RPI") * time.Microsecond
	sched.Explore(c, &sched.S{Idle: 24 * time.Hour}, func(s *sched.S) {
		w := newS06(c, s)
		k := w.open(0, prov, rpi)
		for range 5 {
			w.wait(rpi)
			w.check()
		}
		w.act(func() { w.peers[0].k.drop(false) })
		w.shut(k)
		w.wait(3 * rpi)
		w.check()
	})
	c.Validated()
	c.Distinct(prov, rpi)
}

type (
	s06One   struct{ A byte }
	s06Seven struct {
		A [3]int16
		B byte
	}
	s06Large struct{ A [250]uint16 }
)

// s06Sized is a provider with assemblies of one size.
func s06Sized[T any](fill func(k byte) T, raw func(v T) []byte) func(c *vk.C) {
	return func(c *vk.C) {
		channel := c.Bool("channel")
		size := len(raw(fill(0)))
		from := c.Choose(size+6, "length")
		sched.Explore(c, &sched.S{}, func(s *sched.S) {
			in, out := fill(1), fill(2)
			var p gologix.CIPEndpoint
			var ch <-chan T
			io := &gologix.IOProvider[T, T]{In: &in, Out: &out}
			cp := &gologix.IOChannelProvider[T, T]{}
			p = io
			if channel {
				p = cp
				setup(s, func() {
					ch = cp.GetOutputDataChannel()
					cp.SetInputData(fill(1))
				})
			}
			r := newSchedRig(c, s, map[string]gologix.CIPEndpoint{string(s06Routes[0]): p})
			r.start()
			var k *pconn
			setup(s, func() {
				q := r.peer(0)
				q.register()
				k = q.open(fopen{to: 0xA000, serial: 10, vendor: 7, oserial: 1, rpi: 10000, trigger: 1, size: 500, path: cat(s06Routes[0], cls(4, 1))})
			})
			s.Settle()
			var got []T
			if channel {
				s.Spawn("consumer", func() {
					s.Point("receive")
					for v := range ch {
						got = append(got, v)
					}
				})
				s.Settle()
			}
			data := raw(fill(3))
			data = append(data, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE)[:from]
			setup(s, func() {
				r.h.UDP.Deliver(s06Data(k.ot, 1, data))
				s.BlockUntil("wait", time.Now().Add(15*time.Millisecond), func() bool { return false })
			})
			s.Settle()
			if c.Failed() || s.Stuck() {
				return
			}
			// the input
			sent := r.h.Out[0].Sent
			if len(sent) != 1 {
				c.Fail("traffic", "%d packets after 1.5 RPI", len(sent))
			}
			_, b, err := s06Packet(sent[0].Data, k.to)
			if err != nil || !bytes.Equal(b, raw(fill(1))) {
				c.Fail("input", "an input of %d bytes is sent as % x: %v", size, b, err)
			}
			// the output
			want := fill(2)
			if from >= size {
				want = fill(3)
			}
			if !channel {
				var have T
				setup(s, func() { have = io.GetOutputData() })
				if !bytes.Equal(raw(have), raw(want)) {
					c.Fail("output", "a packet of %d bytes for an output of %d bytes changes it from % x to % x", from, size, raw(fill(2)), raw(have))
				}
				return
			}
			n := 0
			if from >= size {
				n = 1
			}
			if len(got) != n || n == 1 && !bytes.Equal(raw(got[0]), raw(want)) {
				c.Fail("output", "a packet of %d bytes for an output of %d bytes is received as %v", from, size, got)
			}
		})
		c.Validated()
		c.Distinct(channel, size, from)
	}
}

// s06Concurrent is the application at work while packets come and go: it sets
// the input (0), reads the output (1) or does both.
func s06Concurrent(what, preempt int) func(c *vk.C) {
	return func(c *vk.C) {
		hows := 2
		if what == 0 {
			hows = 3 // the provider with channels
		}
		how := c.Choose(hows, "application")
		sched.Explore(c, &sched.S{Preempt: preempt}, func(s *sched.S) {
			w := newS06(c, s)
			prov := how / 2
			a := w.open(0, prov, 4*time.Millisecond)
			b := w.open(1, prov, 8*time.Millisecond)
			begun, ended := 0, 0 // inputs set
			type mark struct{ begun, ended int }
			var at [][]mark = make([][]mark, 2)
			w.h.OnSend = func(d *simnet.Datagrams, p []byte) error {
				i := 0
				if d == b.sock {
					i = 1
				}
				at[i] = append(at[i], mark{begun, 0})
				return nil
			}
			// the input is set twice, and what a tick that comes later sends is not older
			ends := []time.Time{time.Now()}
			s.Go("application", func() {
				for k := 1; k <= 2 && what != 1; k++ {
					s.BlockUntil("pause", time.Now().Add(4*time.Millisecond), func() bool { return false })
					begun = k
					switch how {
					case 0, 2:
						w.ps[prov].SetInputData(k)
					default:
						w.io.SetByPointer(k, func() { s.Point("between") })
					}
					ended = k
					ends = append(ends, time.Now())
				}
			})
			// outputs come in one after the other
			var seen []s06Out
			n := 0
			s.Event("packet", func() bool { return n < 2 && what != 0 && w.h.UDP.Pending() == 0 }, func() {
				n++
				k := a
				if n == 2 {
					k = b
				}
				w.h.UDP.Deliver(s06Data(k.k.ot, n, s06OutVal(n).bytes()))
			})
			s.Go("reader", func() {
				for range 2 {
					if what == 0 {
						return
					}
					s.Point("read")
					if how == 0 {
						seen = append(seen, s06Out(w.io.GetOutputData()))
						continue
					}
					seen = append(seen, s06Out(w.io.GetByPointer()))
				}
			})
			s.Go("clock", func() {
				s.BlockUntil("run", time.Now().Add([]time.Duration{9, 2, 9}[what]*time.Millisecond), func() bool { return false })
			})
			s.Run()
			if s.Stuck() || c.Failed() {
				return
			}
			w.act(func() { seen = append(seen, s06Out(w.io.GetOutputData())) })
			last := 0
			for i, o := range seen {
				k := int(o.P)
				if k > 2 || o != s06OutVal(k) || k < last {
					s.Fail("output", "read %d of the output sees %+v after value %d", i, o, last)
					return
				}
				last = k
			}
			if what != 0 && last != 2 || what != 1 && ended != 2 {
				s.Fail("output", "at the end the output is value %d", last)
			}
			for i, k := range []*s06Conn{a, b} {
				prev := uint32(0)
				for j, d := range k.sock.Sent {
					seq, data, err := s06Packet(d.Data, k.k.to)
					if err != nil || seq <= prev || len(data) != 12 {
						s.Fail("packet", "connection %d sends % x after sequence count %d: %v", i, d.Data, prev, err)
						return
					}
					prev = seq
					v := int(int32(le.Uint32(data)))
					if !bytes.Equal(data, s06InVal(v).bytes()) || v > at[i][j].begun {
						s.Fail("input", "connection %d sends % x, which the input has never been", i, data)
						return
					}
					// the tick this packet belongs to
					tick := k.opened.Add(d.At.Sub(k.opened) / k.rpi * k.rpi)
					for e := v + 1; e < len(ends); e++ {
						if ends[e].Before(tick) {
							s.Fail("input", "connection %d sends input %d for the tick at %v, when input %d had been set %v before", i, v, tick, e, tick.Sub(ends[e]))
							return
						}
					}
				}
				if len(k.sock.Sent) == 0 && what != 1 {
					s.Fail("traffic", "connection %d has sent nothing", i)
					return
				}
			}
		})
		c.Validated()
		c.Distinct(how, what)
	}
}

// s06Close closes or drops a connection while both of two produce.
func s06Close(preempt, jumps int) func(c *vk.C) {
	return func(c *vk.C) {
		how := c.Choose(2, "how")
		sched.Explore(c, &sched.S{Preempt: preempt, Jumps: jumps}, func(s *sched.S) {
			w := newS06(c, s)
			a := w.open(0, 0, 4*time.Millisecond)
			b := w.open(1, 1, 4*time.Millisecond)
			var at time.Time
			n := -1
			s.Go("closer", func() {
				s.BlockUntil("pause", time.Now().Add(4*time.Millisecond), func() bool { return false })
				if how == 0 {
					if m := w.peers[0].rr(a.k.f.closeReq()); m.status != 0 {
						c.Fail("close", "a forward close is answered with %v", m)
					}
				} else {
					w.peers[0].k.drop(false)
					s.Block("closed", func() bool { return w.peers[0].k.isClosed() })
				}
				at, n = time.Now(), len(a.sock.Sent)
			})
			s.Go("clock", func() {
				s.BlockUntil("run", time.Now().Add(30*time.Millisecond), func() bool { return n >= 0 && time.Since(at) > 12*time.Millisecond })
			})
			s.Run()
			s.Settle()
			if s.Stuck() || c.Failed() {
				return
			}
			// a packet on its way may still leave
			if m := len(a.sock.Sent); m > n+1 || m > 0 && a.sock.Sent[m-1].At.After(at) {
				s.Fail("traffic", "the connection was closed at %v after %d packets and has sent %d, the last at %v", at, n, m, a.sock.Sent[m-1].At)
			}
			if a.sock.Closed != 1 {
				s.Fail("release", "the socket of the closed connection has been closed %d times", a.sock.Closed)
			}
			if want := int(time.Since(b.opened) / b.rpi); len(b.sock.Sent) < want-1-4*jumps || b.sock.Closed != 0 {
				s.Fail("traffic", "the other connection has sent %d packets in %v", len(b.sock.Sent), time.Since(b.opened))
			}
		})
		c.Validated()
		c.Distinct(how)
	}
}

// s06Channels has consumers that come, wait or are busy.
func s06Channels(preempt int) func(c *vk.C) {
	return func(c *vk.C) {
		n := 1 + c.Choose(3, "consumers")
		busy := make([]bool, n)
		for i := range busy {
			busy[i] = c.Bool("busy")
		}
		late := c.Bool("one more comes")
		sched.Explore(c, &sched.S{Preempt: preempt}, func(s *sched.S) {
			w := newS06(c, s)
			k := w.open(0, 1, time.Second)
			got := make([][]s06Out, n)
			for i := range busy {
				var ch <-chan inst.Out
				w.act(func() { ch = w.ch.GetOutputDataChannel() })
				if busy[i] {
					continue
				}
				s.Spawn(fmt.Sprintf("consumer%d", i), func() {
					s.Point("receive")
					for v := range ch {
						got[i] = append(got[i], s06Out(v))
					}
				})
			}
			s.Settle()
			done := false
			s.Go("sender", func() {
				for v := 1; v <= 2; v++ {
					w.h.UDP.Deliver(s06Data(k.k.ot, v, s06OutVal(v).bytes()))
					s.BlockUntil("pause", time.Now().Add(time.Millisecond), func() bool { return false })
				}
				done = true
			})
			if late {
				s.Go("late", func() {
					s.Point("come")
					w.ch.GetOutputDataChannel()
				})
			}
			s.Run()
			s.Settle()
			if s.Stuck() || c.Failed() || !done {
				return
			}
			for i := range got {
				if busy[i] {
					continue
				}
				if len(got[i]) != 2 || got[i][0] != s06OutVal(1) || got[i][1] != s06OutVal(2) {
					s.Fail("channel", "of %d consumers (busy: %v) number %d, which waits, receives %+v", n, busy, i, got[i])
				}
			}
		})
		c.Validated()
		c.Distinct(fmt.Sprint(busy), late)
	}
}

func init() {
	vk.Register(&vk.Check{
		ID: "S06", Level: "model_checking",
		MaxProcs:    2,
		Rule:        "Every history of up to four (thorough five) actions on two I/O connections and a tag connection (open, output packet, change of inputs, tick, close, loss of the session), with the inputs, outputs, packets and sequence counts compared with a model after each; every length of output packet for structures of several sizes; every interval; a wrap of the sequence count; every schedule of ticks, output packets, changes of the inputs, readers of output channels, and closes up to the preemption bound, under the race monitor. A case is non-trivial when its history or schedule is distinct.",
		Bounds:      map[string]any{"history": "4, thorough 5", "preemptions": "input 2 (thorough 3), output 2, both 0, close 2, channels 2 (3)"},
		Assumptions: []string{"switches at locks, channels, network and timers only, and the race monitor over those schedules: without a data race this covers every interleaving of the bounded schedules", "time is simulated: a tick happens when nothing else can, except where it is a choice of the schedule"},
		Units: func(tier string) []vk.Unit {
			deep := tier == "thorough"
			pick := func(q, t int) int {
				if deep {
					return t
				}
				return q
			}
			us := []vk.Unit{
				{Name: "wrap", Run: s06Wrap},
				{Name: "RPI", Run: s06RPI},
				{Name: "sized struct", Run: s06Sized(func(k byte) s06In { return s06InVal(int(k)) }, func(v s06In) []byte { return v.bytes() })},
				{Name: "sized 1", Run: s06Sized(func(k byte) s06One { return s06One{k} }, func(v s06One) []byte { return []byte{v.A} })},
				{Name: "sized 7", Run: s06Sized(func(k byte) s06Seven { return s06Seven{[3]int16{int16(k), -int16(k), int16(k) << 8}, k} }, func(v s06Seven) []byte {
					return cat(w16(int(v.A[0])), w16(int(v.A[1])), w16(int(v.A[2])), []byte{v.B})
				})},
				{Name: "sized 500", Run: s06Sized(func(k byte) s06Large {
					var v s06Large
					for i := range v.A {
						v.A[i] = uint16(i)*7 + uint16(k)
					}
					return v
				}, func(v s06Large) (b []byte) {
					for _, x := range v.A {
						b = append(b, w16(int(x))...)
					}
					return b
				})},
				{Name: "channels", Run: s06Channels(pick(2, 3))},
			}
			us = append(us, vk.Shard(vk.Unit{Name: fmt.Sprintf("history of %d", pick(4, 5)), Run: s06History(pick(4, 5))}, 16, 3)...)
			us = append(us, vk.Shard(vk.Unit{Name: "concurrent input", Run: s06Concurrent(0, pick(2, 3))}, 8, 12)...)
			us = append(us, vk.Shard(vk.Unit{Name: "concurrent output", Run: s06Concurrent(1, 2)}, 8, 12)...)
			us = append(us, vk.Shard(vk.Unit{Name: "concurrent", Run: s06Concurrent(2, 0)}, 8, 12)...)
			us = append(us, vk.Shard(vk.Unit{Name: "close", Run: s06Close(2, pick(0, 1))}, 8, 12)...)
			return us
		},
		QuickBudget:    10 * time.Minute,
		ThoroughBudget: 13 * time.Minute,
	})
}
