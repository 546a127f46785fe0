package checks

import (
	"fmt"
	"runtime"
	"strings"
	"time"

	"verifharness/plc"
	"verifharness/sched"
	"verifharness/vk"
)

// C13: keep-alive starts, stops and restarts safely in every order.

const (
	kaFreq = 10 * time.Second
	kaWait = 25 * time.Second
)

type kaCfg struct {
	auto, start, pollTags bool
	depth                 int
	ops                   []string
	preempt               int
}

func (g kaCfg) String() string {
	return fmt.Sprintf("AutoConnect=%v AutoStart=%v PollTags=%v preemptions=%d", g.auto, g.start, g.pollTags, g.preempt)
}

type kaRig struct {
	*simRig
	start     bool      // KeepAliveAutoStart as the application set it
	active    bool      // a worker is to be running
	uncertain bool      // whether it is depends on the schedule
	stopped   time.Time // since when none may begin to poll
	broken    bool
	changes   int
	preempt   int
}

func newKaRig(c *vk.C, s *sched.S, g kaCfg) *kaRig {
	k := &kaRig{simRig: newSimRig(c, s, opsPLC(1)), preempt: g.preempt, start: g.start}
	k.cl.AutoConnect = g.auto
	k.cl.KeepAliveAutoStart = g.start
	k.cl.KeepAliveFrequency = kaFreq
	k.cl.KeepAlivePollTags = g.pollTags
	return k
}

// unsure: which of several allowed states the client is in depends on the schedule.
func (k *kaRig) unsure() bool {
	if k.s.Preempt != k.preempt {
		k.uncertain = true
	}
	return k.uncertain
}

// polls counts the keep-alive requests sent in (from, to].
func (k *kaRig) polls(from, to time.Time) int {
	n := 0
	for _, x := range k.conns {
		for _, l := range x.Log {
			if cmdOf(l.Frame) == 0x70 && len(l.Frame) > 50 && l.Frame[46] == 3 && (l.Frame[49] == 0xAC || l.Frame[50] == 0xAC) && l.At.After(from) && !l.At.After(to) {
				n++
			}
		}
	}
	return n
}

func (k *kaRig) frames() int {
	n := 0
	for _, x := range k.conns {
		n += x.Frames
	}
	return n
}

func sleep(s *sched.S, d time.Duration) {
	s.BlockUntil("sleep", time.Now().Add(d), func() bool { return false })
}

// wait lets time pass and judges the traffic.
func (k *kaRig) wait() {
	s := k.s
	t0, dials, frames := time.Now(), k.dials, k.frames()
	con := k.cl.Connected()
	sleep(s, kaWait)
	n := k.polls(t0, time.Now())
	if k.dials > dials {
		s.Fail("reconnect", "a connection is opened although nobody asked for one")
	}
	switch {
	case k.unsure():
		if n > 3 {
			s.Fail("workers", "%d keep-alive requests in %v with a frequency of %v: more than one worker", n, kaWait, kaFreq)
		}
	case !con:
		if k.frames() > frames {
			s.Fail("offline traffic", "%d requests are sent although the client is not connected", k.frames()-frames)
		}
	case !k.active:
		if n > 0 {
			s.Fail("cancelled", "%d keep-alive requests after keep-alive was stopped", n)
		}
	case k.broken:
		if k.cl.Connected() {
			s.Fail("unnoticed", "keep-alive does not notice a lost connection")
		}
		k.active, k.broken = false, false
	default:
		if !k.cl.Connected() {
			s.Fail("lost", "a healthy connection is lost with keep-alive running")
		}
		if n < 2 {
			s.Fail("idle", "%d keep-alive requests in %v with a frequency of %v", n, kaWait, kaFreq)
		}
		if n > 3 {
			s.Fail("workers", "%d keep-alive requests in %v with a frequency of %v: more than one worker", n, kaWait, kaFreq)
		}
	}
}

func (k *kaRig) step(op string) {
	s := k.s
	was := k.cl.Connected()
	switch op {
	case "Connect":
		if err := k.cl.Connect(); err == nil {
			k.active, k.broken = k.start, false
		} else if !was && !k.unsure() {
			s.Fail("connect", "Connect fails: %v", err)
		}
	case "Read":
		o := opByName("Read").run(k.cl, k.p, 0)
		if o.wrong != "" {
			s.Fail("wrong", "%s", o.wrong)
		}
		if k.cl.Connected() && !was {
			k.active, k.broken = k.start, false
		}
		if !k.cl.Connected() {
			k.active, k.broken = false, false
		}
	case "Disconnect":
		k.cl.Disconnect()
		if !k.unsure() && k.cl.Connected() {
			s.Fail("disconnect", "Connected after Disconnect")
		}
		k.active, k.broken = false, false
	case "Cancel", "Cancel forced":
		err := k.cl.KeepAliveCancel(op != "Cancel")
		if refuse := k.start && op == "Cancel"; refuse != (err != nil) {
			s.Fail("cancel", "%s with AutoStart=%v returns %v", op, k.start, err)
		}
		if err == nil {
			k.active = false
		}
	case "KeepAlive":
		go k.cl.KeepAlive()
		sleep(s, time.Millisecond)
		if k.start && was {
			k.active = true
		}
		if k.broken && k.active {
			// the first request already finds out
			k.uncertain = true
		}
	case "AutoStart":
		k.start = !k.start
		k.cl.KeepAliveAutoStart = k.start
	case "break":
		for _, x := range k.conns {
			if x.Closed == 0 {
				x.Break()
				k.broken = true
			}
		}
	case "change":
		k.changes++
		k.p.Attrs["172.1.3"] = []byte{5, 6, 7, byte(8 + k.changes)}
	case "tick": // until the instant a worker started now polls
		sleep(s, kaFreq)
	case "wait":
		k.wait()
	}
	if k.cl.KeepAliveAutoStart != k.start {
		s.Fail("setting", "after %s KeepAliveAutoStart is %v, the application set %v", op, k.cl.KeepAliveAutoStart, k.start)
	}
	con := k.cl.Connected()
	if n := k.openSockets(); !k.unsure() && con != (n > 0) {
		s.Fail("socket", "after %s connected is %v with %d open network connections", op, con, n)
	}
}

// finish stops everything: nothing may be left, and it must work again.
func (k *kaRig) finish(goroutines int) {
	s := k.s
	s.NoChoice, s.Solo = true, true
	// let what is under way end
	sleep(s, 2*k.cl.SocketTimeout)
	k.preempt, k.uncertain = s.Preempt, false
	if k.cl.Connected() {
		k.cl.Disconnect()
	}
	k.cl.KeepAliveCancel(true)
	sleep(s, time.Millisecond)
	k.active, k.broken = false, false
	k.wait()
	if n := runtime.NumGoroutine(); n > goroutines {
		s.Fail("goroutines", "%d goroutines are left running", n-goroutines)
	}
	if n := k.openSockets(); n != 0 {
		s.Fail("leak", "%d network connections are left open", n)
	}
	k.start, k.cl.KeepAliveAutoStart = true, true
	k.step("Connect")
	k.step("wait")
	k.step("Cancel forced")
	sleep(s, time.Millisecond)
	if n := runtime.NumGoroutine(); n > goroutines {
		s.Fail("goroutines", "%d goroutines are left running after KeepAliveCancel", n-goroutines)
	}
	k.step("wait")
	if !k.cl.Connected() {
		s.Fail("cancel disconnects", "cancelling keep-alive ends the connection")
	}
	k.step("KeepAlive")
	k.step("wait")
	k.step("Disconnect")
	k.step("wait")
	if n := runtime.NumGoroutine(); n > goroutines {
		s.Fail("goroutines", "%d goroutines are left running after Disconnect", n-goroutines)
	}
	for _, q := range k.p.Problems {
		if strings.Contains(q, "repeated") {
			s.Fail("sequence", "the controller was sent %s", q)
		}
	}
}

var kaOps = []string{"Connect", "Disconnect", "Cancel forced", "KeepAlive", "wait", "break", "tick", "Read", "Cancel", "AutoStart"}

func kaHistory(g kaCfg) vk.Unit {
	return vk.Unit{Name: "history " + g.String(), Run: func(c *vk.C) {
		s := &sched.S{Preempt: g.preempt}
		var log []string
		sched.Explore(c, s, func(s *sched.S) {
			k := newKaRig(c, s, g)
			s.Go("user", func() {
				base := runtime.NumGoroutine()
				for i := 0; i < g.depth; i++ {
					n := c.Choose(len(g.ops)+1, "op")
					if n == len(g.ops) {
						break
					}
					if g.ops[n] == "tick" {
						k.uncertain = true
					}
					k.step(g.ops[n])
					log = append(log, g.ops[n])
					if c.Failed() {
						return
					}
				}
				k.finish(base)
			})
			s.Run()
		})
		c.Validated()
		c.State(s.Trace())
		c.Distinct(g, strings.Join(log, ","), s.Preempt)
		c.Sample(func() string { return strings.Join(log, ", ") })
	}}
}

// kaConcurrent runs lifecycle calls at once, at the moment of a poll.
func kaConcurrent(names []string, connected bool, g kaCfg) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("concurrent connected=%v %s: %s", connected, g, strings.Join(names, " | ")), Run: func(c *vk.C) {
		s := &sched.S{Preempt: g.preempt}
		sched.Explore(c, s, func(s *sched.S) {
			k := newKaRig(c, s, g)
			base := 0
			k.uncertain = true
			no := s.NoChoice
			s.NoChoice = true
			s.Go("setup", func() {
				base = runtime.NumGoroutine()
				if connected {
					k.step("Connect")
					sleep(s, kaFreq-time.Millisecond)
				}
			})
			s.Run()
			s.NoChoice = no
			for i, n := range names {
				s.Go(fmt.Sprintf("%s%d", n, i), func() {
					sleep(s, time.Millisecond)
					k.step(n)
				})
			}
			s.Run()
			if c.Failed() || s.Stuck() {
				return
			}
			s.NoChoice = true
			s.Go("finish", func() {
				k.step("wait")
				k.finish(base)
			})
			s.Run()
		})
		c.Trans(1)
		c.Validated()
		c.State(s.Trace())
		c.Distinct(strings.Join(names, ","), connected, g, s.Preempt, s.Trace())
	}}
}

// kaConfig uses settings a program may leave out.
func kaConfig() vk.Unit {
	return vk.Unit{Name: "configuration", Run: func(c *vk.C) {
		freq := vk.Pick(c, []time.Duration{0, -time.Second, 50 * time.Millisecond, 999 * time.Millisecond, time.Second, 1500 * time.Millisecond, 5 * time.Second, kaFreq, 49 * time.Second}, "frequency")
		props := c.Choose(3, "properties")
		silent := c.Bool("controller without the properties")
		timeout := vk.Pick(c, []time.Duration{0, time.Second}, "timeout")
		s := &sched.S{MaxSteps: 1 << 20}
		sched.Explore(c, s, func(s *sched.S) {
			k := newKaRig(c, s, kaCfg{start: true})
			k.cl.KeepAliveFrequency = freq
			k.cl.SocketTimeout = timeout
			if props == 1 {
				k.cl.KeepAliveProps = nil
			} else if props == 2 {
				k.cl.KeepAliveProps = k.cl.KeepAliveProps[:1]
			}
			if silent {
				for a := range k.p.Attrs {
					if strings.HasPrefix(a, "172.") {
						delete(k.p.Attrs, a)
					}
				}
			}
			s.Go("user", func() {
				base := runtime.NumGoroutine()
				if err := k.cl.Connect(); err != nil {
					s.Fail("connect", "Connect fails: %v", err)
				}
				from := time.Now()
				sleep(s, 100*time.Second)
				if freq > 0 && props == 0 && !silent {
					n, want := k.polls(from, time.Now()), int(100*time.Second/freq)
					if n < want*9/10-1 || n > want+2 {
						s.Fail("interval", "%d keep-alive requests in 100 s with a frequency of %v", n, freq)
					}
				}
				o := opByName("Read").run(k.cl, k.p, 0)
				if !silent && (o.err != nil || o.wrong != "") {
					s.Fail("use", "Read with keep-alive running: %v %s", o.err, o.wrong)
				}
				k.cl.KeepAliveCancel(true)
				k.cl.KeepAliveCancel(true)
				k.cl.Disconnect()
				sleep(s, time.Millisecond)
				if n := runtime.NumGoroutine(); n > base {
					s.Fail("goroutines", "%d goroutines are left running", n-base)
				}
			})
			s.Run()
		})
		c.Trans(1)
		c.Validated()
		c.Distinct(freq, props, silent, timeout)
	}}
}

// kaChanges has a controller whose properties change, and change back, between
// the polls: each change is followed by one listing, and nothing else is.
func kaChanges(depth int) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("changes %d", depth), Run: func(c *vk.C) {
		poll := c.Bool("KeepAlivePollTags")
		s := &sched.S{MaxSteps: 1 << 20}
		sched.Explore(c, s, func(s *sched.S) {
			k := newKaRig(c, s, kaCfg{start: true, pollTags: poll})
			attrs := []string{"1", "2", "3", "4", "10"}
			now := make([]int, len(attrs))
			orig := make([][]byte, len(attrs))
			for i, a := range attrs {
				orig[i] = k.p.Attrs["172.1."+a]
			}
			s.Go("user", func() {
				if err := k.cl.Connect(); err != nil {
					s.Fail("connect", "Connect fails: %v", err)
				}
				log := []string{}
				tags := 0
				sleep(s, 3*time.Second) // not at the instant of a poll
				for i := 0; i < depth; i++ {
					sleep(s, kaFreq*3/2)
					was := append([]int{}, now...)
					if x := c.Choose(1+2*len(attrs), "property"); x > 0 {
						a, v := (x-1)/2, (x-1)%2
						now[a] = v
						b := append([]byte{}, orig[a]...)
						b[len(b)-1] ^= byte(v << 4)
						k.p.Attrs["172.1."+attrs[a]] = b
						log = append(log, fmt.Sprintf("property %s := %d", attrs[a], v))
					} else {
						log = append(log, "nothing")
					}
					changed := fmt.Sprint(was) != fmt.Sprint(now)
					if changed {
						tags++
						k.p.AddTag(&plc.Tag{Name: fmt.Sprintf("Fresh%d", tags), Type: 0xC4, Instance: uint32(900 + tags)})
					}
					from := time.Now()
					sleep(s, kaFreq*5/2)
					lists := 0
					for _, x := range k.conns {
						for _, l := range x.Log {
							if cmdOf(l.Frame) == 0x70 && len(l.Frame) > 52 && l.Frame[46] == 0x55 && l.Frame[48] == 0x20 && l.At.After(from) {
								lists++
							}
						}
					}
					switch known := k.cl.KnownTags[strings.ToLower(fmt.Sprintf("Fresh%d", tags))].Name != ""; {
					case changed && poll && (lists == 0 || !known):
						s.Fail("change unnoticed", "after %v: %d listings, the tag made with the change known: %v", log, lists, known)
					case lists > 0 && !(changed && poll):
						s.Fail("listing", "after %v: %d listings with KeepAlivePollTags=%v", log, lists, poll)
					}
					if !k.cl.Connected() {
						s.Fail("lost", "after %v the connection is lost", log)
					}
					if s.Stuck() {
						return
					}
				}
				k.cl.Disconnect()
			})
			s.Run()
			c.State(poll, fmt.Sprint(now))
		})
		c.Trans(1)
		c.Validated()
		c.Distinct(poll)
	}}
}

func c13Units(tier string) []vk.Unit {
	th := tier == "thorough"
	us := []vk.Unit{kaConfig()}
	us = append(us, vk.Shard(kaChanges(3+b2i(th)), 4, 3)...)
	depth, pre := 4, 2
	if th {
		depth, pre = 5, 3
	}
	for _, auto := range []bool{false, true} {
		for _, start := range []bool{false, true} {
			us = append(us, vk.Shard(kaHistory(kaCfg{auto: auto, start: start, depth: depth, ops: kaOps}), 8, 2)...)
		}
		us = append(us, vk.Shard(kaHistory(kaCfg{auto: auto, start: true, depth: depth - 1, ops: kaOps[:8], preempt: 1}), 8, 2)...)
	}
	us = append(us, vk.Shard(kaHistory(kaCfg{start: true, pollTags: true, depth: depth, ops: []string{"Connect", "Disconnect", "Cancel forced", "change", "wait", "break"}}), 8, 2)...)
	for _, auto := range []bool{false, true} {
		for _, con := range []bool{false, true} {
			p := pre
			if !th && !(auto && con) {
				p = 1
			}
			for _, ns := range [][]string{
				{"Cancel forced", "Cancel forced"}, {"Disconnect", "Cancel forced"}, {"Disconnect", "Disconnect"}, {"Disconnect", "KeepAlive"},
				{"KeepAlive", "KeepAlive"}, {"Connect", "Cancel forced"}, {"Connect", "KeepAlive"}, {"Connect", "Disconnect"},
				{"Cancel forced", "KeepAlive"}, {"Disconnect", "Read"}, {"break", "Disconnect"}, {"break", "Cancel forced"},
			} {
				us = append(us, vk.Shard(kaConcurrent(ns, con, kaCfg{auto: auto, start: true, preempt: p}), 2, 4)...)
			}
			for _, ns := range [][]string{{"Disconnect", "Connect", "Cancel forced"}, {"Disconnect", "Connect", "KeepAlive"}} {
				us = append(us, vk.Shard(kaConcurrent(ns, con, kaCfg{auto: auto, start: true, preempt: p - 1 + b2i(p == 1)}), 4, 4)...)
			}
		}
	}
	return us
}

func init() {
	vk.Register(&vk.Check{ID: "C13", Level: "model_checking",
		Rule:        "one execution = one history of lifecycle calls, waiting and connection loss with one schedule of the keep-alive workers, or one schedule of concurrent lifecycle calls at the moment of a poll; non-trivial when the history or the schedule differs",
		Units:       c13Units,
		MaxProcs:    1,
		Bounds:      map[string]any{"history": "4 operations (thorough 5)", "goroutines": "3 and their workers", "preemptions": "2 (thorough 3)"},
		Assumptions: []string{"goroutines switch only at start, lock, network and timer operations", "the controller answers each request at most once, in order", "a poll already under way may complete when keep-alive is cancelled"},
		QuickBudget: 4 * time.Minute, ThoroughBudget: 13 * time.Minute})
}
