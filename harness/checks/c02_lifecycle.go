package checks

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"verifharness/plc"
	"verifharness/sched"
	"verifharness/simnet"
	"verifharness/vk"
)

// C02: connecting and disconnecting always leave a clean, reusable client.

type c02cfg struct {
	auto    bool
	large   bool   // the controller supports large connections
	size    uint16 // connection size of the client (0: default)
	depth   int
	faults  int
	ops     []string
	socket0 bool // SocketTimeout 0
}

func (g c02cfg) String() string {
	return fmt.Sprintf("auto=%v large=%v size=%d", g.auto, g.large, g.size)
}

// Faults of one exchange; the first is none.
var c02faults = []string{"ok", "close", "silence", "refuse", "session error", "cut", "close before"}

// lifeRig is a client whose every exchange may fail.
type lifeRig struct {
	*simRig
	c      *vk.C
	left   int // faults left
	op     int // faults in this operation
	broken bool
	cur    *lifeConn
}

type lifeConn struct {
	registered, opened bool
}

func cmdOf(f []byte) uint16 { return le.Uint16(f) }

// svcOf is the service of an unconnected request.
func svcOf(f []byte) byte {
	if cmdOf(f) == 0x6F && len(f) > 40 {
		return f[40]
	}
	return 0
}

func cipError(f []byte, st byte) []byte {
	return plc.EncapFrame(cmdOf(f), le.Uint32(f[4:]), 0, f[12:20], plc.Items(true, plc.Item{}, plc.Item{ID: 0xB2, Data: []byte{svcOf(f) | 0x80, 0, st, 1, 0x13, 1}}))
}

func (l *lifeRig) hook(k *simnet.Conn) {
	lc := &lifeConn{}
	l.cur = lc
	k.Before = func(n int, f []byte) ([]byte, bool) {
		switch l.fault("exchange", c02faults) {
		case "close":
			k.Sess.Handle(f)
			k.Break()
			return nil, true
		case "close before":
			k.Break()
			return nil, true
		case "silence":
			k.Sess.Handle(f)
			k.Silent = true
			return nil, true
		case "session error":
			return plc.EncapFrame(cmdOf(f), 0, 1, f[12:20], nil), true
		case "refuse":
			if svcOf(f) != 0 {
				return cipError(f, 1), true
			}
			if cmdOf(f) == 0x65 {
				k.Sess.Handle(f) // even if a handle comes with it
				return plc.EncapFrame(0x65, k.Sess.Handle0, 2, f[12:20], f[24:28]), true
			}
			return plc.EncapFrame(cmdOf(f), 0, 0x64, f[12:20], nil), true
		case "cut":
			r := k.Sess.Handle(f)
			k.Break()
			if len(r) > 10 {
				r = r[:10]
			}
			return r, true
		}
		switch {
		case cmdOf(f) == 0x65:
			lc.registered = true
		case svcOf(f) == 0x54, svcOf(f) == 0x5B && l.p.AllowLarge:
			lc.opened = true
		}
		return nil, false
	}
}

func (l *lifeRig) fault(what string, names []string) string {
	if l.left <= 0 || l.s.NoChoice {
		return names[0]
	}
	n := l.c.Choose(len(names), what)
	if n > 0 {
		l.left--
		l.op++
	}
	return names[n]
}

func newLifeRig(c *vk.C, s *sched.S, g c02cfg) *lifeRig {
	p := opsPLC(2)
	p.AllowLarge = g.large
	l := &lifeRig{c: c, left: g.faults}
	l.simRig = newSimRig(c, s, p)
	l.cl.AutoConnect = g.auto
	if g.size != 0 {
		l.cl.ConnectionSize = g.size
	}
	if g.socket0 {
		l.cl.SocketTimeout = 0
	}
	l.onDial = func(n int) error {
		if l.fault("dial", []string{"ok", "refused"}) != "ok" {
			return errors.New("connection refused")
		}
		return nil
	}
	l.onConn = func(n int, k *simnet.Conn) { l.hook(k) }
	return l
}

var c02ops = []string{"Connect", "Disconnect", "Read", "break", "DebugCloseConn", "Write"}

// step runs one operation and judges it.
func (l *lifeRig) step(op string) {
	s := l.s
	was := l.cl.Connected()
	l.op = 0
	dials := l.dials
	broken := l.broken
	t0 := time.Now()
	read := func() (bool, error) {
		name := op
		if name != "Read" && name != "Write" {
			name = "Read"
		}
		o := opByName(name).run(l.cl, l.p, 0)
		if o.wrong != "" {
			s.Fail("wrong:"+op, "%s", o.wrong)
		}
		if o.touched != "" {
			s.Fail("touched:"+op, "%s", o.touched)
		}
		return o.err == nil, o.err
	}
	var err error
	switch op {
	case "Connect":
		err = l.cl.Connect()
		good := l.dials > dials && l.cur != nil && l.cur.registered && l.cur.opened && l.dialOK()
		switch {
		case was && err == nil:
			s.Fail("twice", "Connect on a connected client reports success")
		case was && l.dials > dials:
			s.Fail("twice", "Connect on a connected client dials")
		case was && !l.cl.Connected():
			s.Fail("twice", "Connect on a connected client disconnects it")
		case !was && (err == nil) != l.cl.Connected():
			s.Fail("status", "Connect returns %v but Connected is %v", err, l.cl.Connected())
		case !was && err == nil && !good:
			s.Fail("unearned", "Connect reports success although the handshake did not complete")
		case !was && err != nil && l.op == 0:
			s.Fail("connect", "Connect fails although nothing went wrong: %v", err)
		}
		if err == nil {
			l.broken = false
		}
	case "Disconnect":
		err = l.cl.Disconnect()
		switch {
		case l.cl.Connected():
			s.Fail("status", "Connected after Disconnect (%v)", err)
		case !was && err == nil:
			s.Fail("offline", "Disconnect of a client that is not connected reports success")
		case was && l.op == 0 && !broken && err != nil:
			s.Fail("disconnect", "Disconnect fails although nothing went wrong: %v", err)
		case was && (l.op > 0 || broken) && err == nil:
			s.Fail("disconnect silent", "Disconnect returns no error although the connection could not be closed in order")
		case was && l.op == 0 && !broken && l.p.OpenConns() != 0:
			s.Fail("left open", "the controller still has %d connections after Disconnect", l.p.OpenConns())
		}
	case "Read", "Write":
		var ok bool
		ok, err = read()
		switch {
		case !l.cl.AutoConnect && !was && ok:
			s.Fail("offline", "%s without connection reports success", op)
		case !l.cl.AutoConnect && l.dials > dials:
			s.Fail("dials", "%s dials although AutoConnect is off", op)
		case ok && !l.cl.Connected():
			s.Fail("status", "%s succeeds but Connected is false", op)
		case !ok && l.op == 0 && !broken && (was || l.cl.AutoConnect):
			s.Fail("use", "%s fails although nothing went wrong: %v", op, err)
		case was && l.cl.Connected() && l.sessFailed(broken):
			s.Fail("status", "Connected although the exchange broke (%v)", err)
		}
		if l.dials > dials && l.cl.Connected() {
			l.broken = false
		}
	case "break":
		for _, k := range l.conns {
			if k.Closed == 0 {
				k.Break()
				l.broken = true
			}
		}
	case "DebugCloseConn":
		l.cl.DebugCloseConn()
		if was {
			l.broken = true
		}
	}
	if d := time.Since(t0); d > 6*l.timeout() {
		s.Fail("slow:"+op, "%s takes %v with a socket timeout of %v", op, d, l.cl.SocketTimeout)
	}
	want := 0
	if l.cl.Connected() {
		want = 1
	} else {
		l.broken = false
	}
	if n := l.openSockets(); n > want {
		s.Fail("leak:"+op, "%d network connections are open after %s (error %v), connected is %v", n, op, err, l.cl.Connected())
	} else if n < want && !l.broken {
		s.Fail("socket:"+op, "Connected after %s although the network connection is closed", op)
	}
	for _, k := range l.conns {
		if k.Silent && k.Closed == 0 {
			l.broken = true
		}
	}
}

func (l *lifeRig) timeout() time.Duration {
	if l.cl.SocketTimeout == 0 {
		return time.Second
	}
	return l.cl.SocketTimeout
}

func (l *lifeRig) dialOK() bool { return len(l.conns) > 0 && l.conns[len(l.conns)-1].Closed == 0 }

// sessFailed: the connection in use was lost during this operation.
func (l *lifeRig) sessFailed(before bool) bool {
	k := l.conns[len(l.conns)-1]
	return k.EOF || k.Silent
}

// finish demands that a client whose controller is healthy again works.
func (l *lifeRig) finish() {
	s := l.s
	s.NoChoice = true
	l.left = 0
	if l.cl.Connected() {
		l.cl.Disconnect()
	}
	if l.cl.Connected() {
		s.Fail("status", "Connected after Disconnect")
	}
	if n := l.openSockets(); n != 0 {
		s.Fail("leak", "%d network connections are open in the end", n)
	}
	bad := len(l.p.Problems)
	if err := l.cl.Connect(); err != nil {
		s.Fail("again", "a later Connect to a healthy controller fails: %v", err)
		return
	}
	for _, n := range []string{"Read", "Write"} {
		if o := opByName(n).run(l.cl, l.p, 1); o.err != nil || o.wrong != "" {
			s.Fail("again", "a later %s on a healthy controller: %v %s", n, o.err, o.wrong)
		}
	}
	if err := l.cl.Disconnect(); err != nil {
		s.Fail("again", "a later Disconnect fails: %v", err)
	}
	if l.openSockets() != 0 || l.p.OpenConns() != 0 || l.cl.Connected() {
		s.Fail("again", "after a later Disconnect %d network and %d controller connections are open", l.openSockets(), l.p.OpenConns())
	}
	if len(l.p.Problems) > bad {
		s.Fail("protocol:"+problemKind(l.p.Problems[bad]), "the controller was sent %s", strings.Join(l.p.Problems[bad:], "; "))
	}
}

// historyUnit runs every sequence of operations with every placement of faults.
func historyUnit(g c02cfg) vk.Unit {
	return vk.Unit{Name: "history " + g.String(), Run: func(c *vk.C) {
		s := &sched.S{Solo: true}
		var log []string
		sched.Explore(c, s, func(s *sched.S) {
			l := newLifeRig(c, s, g)
			s.Go("user", func() {
				for i := 0; i < g.depth; i++ {
					n := c.Choose(len(g.ops)+1, "op")
					if n == len(g.ops) {
						break
					}
					op := g.ops[n]
					l.step(op)
					c.Trans(1)
					log = append(log, fmt.Sprintf("%s(%d faults)->%v", op, l.op, l.cl.Connected()))
					if c.Failed() {
						return
					}
				}
				l.finish()
			})
			s.Run()
		})
		c.Validated()
		c.State(s.Trace())
		c.Distinct(g, strings.Join(log, ","))
		c.Sample(func() string { return strings.Join(log, ", ") })
	}}
}

// neverUnit uses a client that never connected.
func neverUnit() vk.Unit {
	return vk.Unit{Name: "never connected", Run: func(c *vk.C) {
		i := c.Choose(len(clientOps)+3, "op")
		zero := c.Bool("zero Client")
		s := &sched.S{Solo: true}
		sched.Explore(c, s, func(s *sched.S) {
			r := newSimRig(c, s, opsPLC(1))
			r.cl.AutoConnect = false
			if zero {
				r.cl.KnownTags = nil
				r.cl.KnownTypes = nil
				r.cl.KnownPrograms = nil
				r.cl.SocketTimeout = 0
			}
			s.Go("user", func() {
				name := ""
				var err error
				switch {
				case i < len(clientOps):
					name = clientOps[i].name
					o := clientOps[i].run(r.cl, r.p, 0)
					err = o.err
					if o.touched != "" {
						s.Fail("touched:"+name, "%s", o.touched)
					}
				case i == len(clientOps):
					name = "Disconnect"
					err = r.cl.Disconnect()
				case i == len(clientOps)+1:
					name, err = "DebugCloseConn", errors.New("ok")
					r.cl.DebugCloseConn()
				default:
					name, err = "Connected", errors.New("ok")
					if r.cl.Connected() {
						s.Fail("status", "Connected although never connected")
					}
				}
				c.Distinct(name, zero)
				if err == nil {
					s.Fail("offline:"+name, "%s on a client that is not connected reports success", name)
				}
				if r.dials > 0 {
					s.Fail("dials:"+name, "%s dials although AutoConnect is off", name)
				}
			})
			s.Run()
		})
		c.Trans(1)
		c.Validated()
	}}
}

// lifeConcurrentUnit runs lifecycle calls at once.
func lifeConcurrentUnit(names []string, connected bool, g c02cfg, m c01mode) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("%s connected=%v auto=%v %s", m.name, connected, g.auto, strings.Join(names, " | ")), Run: func(c *vk.C) {
		s := &sched.S{Preempt: m.preempt, Jumps: m.jumps}
		var log []string
		sched.Explore(c, s, func(s *sched.S) {
			l := newLifeRig(c, s, g)
			if connected {
				setup(s, func() {
					if err := l.cl.Connect(); err != nil {
						s.Fail("connect", "Connect fails: %v", err)
					}
				})
			}
			if m.brk {
				broken := false
				s.Event("break", func() bool { return !broken && !s.NoChoice && l.openSockets() > 0 }, func() {
					broken = true
					for _, k := range l.conns {
						k.Break()
					}
				})
			}
			oks := map[string]int{}
			for i, n := range names {
				s.Go(fmt.Sprintf("%s%d", n, i), func() {
					var err error
					switch n {
					case "Connect":
						err = l.cl.Connect()
					case "Disconnect":
						err = l.cl.Disconnect()
					case "DebugCloseConn":
						l.cl.DebugCloseConn()
					case "Connected":
						l.cl.Connected()
					default:
						o := opByName(n).run(l.cl, l.p, i%2)
						err = o.err
						if o.wrong != "" {
							s.Fail("wrong:"+n, "%s reports success: %s", n, o.wrong)
						}
						if o.touched != "" {
							s.Fail("touched:"+n, "%s fails (%v) but changes %s", n, o.err, o.touched)
						}
					}
					if err == nil {
						oks[n]++
					}
					log = append(log, fmt.Sprintf("%s%d err=%v", n, i, err != nil))
				})
			}
			s.Run()
			if c.Failed() || s.Stuck() {
				return
			}
			setup(s, func() {
				want := 0
				if l.cl.Connected() {
					want = 1
				}
				if n := l.openSockets(); n > want {
					s.Fail("leak", "%d network connections are open in the end, connected is %v: %s", n, l.cl.Connected(), strings.Join(log, ", "))
				}
				quiet := s.Jumps == m.jumps && !m.brk && g.faults == 0
				if quiet && !connected && oks["Connect"] > 1 && oks["Disconnect"] == 0 {
					s.Fail("twice", "%d concurrent calls of Connect report success", oks["Connect"])
				}
				if quiet && connected && oks["Disconnect"] > 1 && oks["Connect"] == 0 && !g.auto {
					s.Fail("twice", "%d concurrent calls of Disconnect report success", oks["Disconnect"])
				}
				if quiet && !connected && oks["Connect"] == 0 && oks["Disconnect"] == 0 && strings.Contains(strings.Join(names, " "), "Connect") && !g.auto && !strings.Contains(strings.Join(names, " "), "Debug") {
					s.Fail("none", "no concurrent call of Connect succeeds: %s", strings.Join(log, ", "))
				}
				l.finish()
			})
		})
		c.Validated()
		c.State(s.Trace())
		c.Distinct(strings.Join(log, ","), s.Preempt, s.Jumps, g.String())
	}}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func c02Units(tier string) []vk.Unit {
	th := tier == "thorough"
	var us []vk.Unit
	us = append(us, neverUnit())
	depth, faults := 4, 2
	for _, auto := range []bool{false, true} {
		for _, large := range []bool{true, false} {
			g := c02cfg{auto: auto, large: large, depth: depth, faults: faults, ops: c02ops}
			if th && large {
				g.depth = 5
			} else if th {
				g.faults = 3
			}
			us = append(us, vk.Shard(historyUnit(g), 8, 4)...)
		}
		us = append(us, vk.Shard(historyUnit(c02cfg{auto: auto, large: true, size: 500, depth: depth, faults: faults, ops: c02ops[:4]}), 8, 4)...)
	}
	us = append(us, historyUnit(c02cfg{auto: true, large: true, depth: 3, faults: 1, ops: c02ops, socket0: true}))
	long := c02cfg{large: true, depth: depth + 3 + b2i(th), faults: 1, ops: []string{"Connect", "Disconnect", "Read"}}
	us = append(us, vk.Shard(historyUnit(long), 8, 4)...)
	pre := 2
	if th {
		pre = 3
	}
	modes := []c01mode{{name: "free", preempt: pre}, {name: "timeout", preempt: 1, jumps: 1}, {name: "break", preempt: 1, brk: true}}
	for _, m := range modes {
		for _, auto := range []bool{false, true} {
			for _, con := range []bool{false, true} {
				for _, ns := range [][]string{
					{"Connect", "Connect"}, {"Connect", "Disconnect"}, {"Disconnect", "Disconnect"},
					{"Connect", "Read"}, {"Disconnect", "Read"}, {"Read", "DebugCloseConn"}, {"Disconnect", "DebugCloseConn"},
					{"Connect", "DebugCloseConn"}, {"Read", "Read"}, {"Connect", "Connected"},
					{"Disconnect", "GetAttrList"}, {"Disconnect", "Write"},
				} {
					us = append(us, lifeConcurrentUnit(ns, con, c02cfg{auto: auto, large: true}, m))
				}
				if m.jumps == 0 {
					mm := m
					mm.preempt = 1
					if th {
						mm.preempt = 2
					}
					for _, ns := range [][]string{{"Connect", "Disconnect", "Read"}, {"Connect", "Connect", "Disconnect"}} {
						mm.name = m.name + " 3"
						us = append(us, vk.Shard(lifeConcurrentUnit(ns, con, c02cfg{auto: auto, large: true}, mm), 8, 6)...)
					}
				}
			}
		}
	}
	for _, ns := range [][]string{{"Connect", "Read"}, {"Disconnect", "Read"}, {"Connect", "Disconnect"}} {
		for _, auto := range []bool{false, true} {
			us = append(us, vk.Shard(lifeConcurrentUnit(ns, true, c02cfg{auto: auto, large: true, faults: 1}, c01mode{name: "fault", preempt: 1}), 8, 4)...)
		}
	}
	return us
}

func init() {
	vk.Register(&vk.Check{ID: "C02", Level: "model_checking",
		Rule:        "one execution = one history of lifecycle calls with one placement of network faults, or one schedule of concurrent lifecycle calls; non-trivial when the sequence of outcomes differs",
		Units:       c02Units,
		MaxProcs:    1,
		Bounds:      map[string]any{"history": "4 operations, 2 faults (thorough 5 with 2 or 4 with 3)", "goroutines": 3, "preemptions": "2 (thorough 3)"},
		Assumptions: []string{"goroutines switch only at lock, network and timer operations", "the controller answers each request at most once, in order", "time advances only when nothing else can happen, except for one explored time-out"},
		QuickBudget: 4 * time.Minute, ThoroughBudget: 13 * time.Minute})
}
