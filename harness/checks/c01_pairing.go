package checks

import (
	"fmt"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/sched"
	"verifharness/simnet"
	"verifharness/vk"
)

// C01: whoever shares the client, every success is the answer to its own request.

// healthyUnit runs every operation alone, so that the rest can rely on them.
func healthyUnit() vk.Unit {
	return vk.Unit{Name: "healthy", Run: func(c *vk.C) {
		op := &clientOps[c.Choose(len(clientOps), "op")]
		id := c.Choose(3, "id")
		r := newRig(c, opsPLC(3))
		r.connect(c)
		o := op.run(r.cl, r.p, id)
		c.Trans(1)
		c.Validated()
		c.Distinct(op.name, id)
		if o.err != nil || o.wrong != "" || o.touched != "" {
			c.Fail("healthy:"+op.name, "%s on a healthy connection: err=%v %s %s", op.name, o.err, o.wrong, o.touched)
		}
		r.problems(c, op.name)
	}}
}

type c01mode struct {
	name    string
	preempt int
	jumps   int
	auto    bool
	brk     bool // the controller may close the connection
}

// concurrentUnit runs the operations at once on one client.
func concurrentUnit(names []string, m c01mode) vk.Unit {
	return vk.Unit{Name: m.name + " " + strings.Join(names, " | "), Run: func(c *vk.C) {
		s := &sched.S{Preempt: m.preempt, Jumps: m.jumps}
		var log []string
		sched.Explore(c, s, func(s *sched.S) {
			r := newSimRig(c, s, opsPLC(len(names)+1))
			r.cl.AutoConnect = m.auto
			setup(s, func() {
				if err := r.cl.Connect(); err != nil {
					s.Fail("connect", "Connect fails: %v", err)
				}
			})
			if m.brk {
				broken := false
				s.Event("break", func() bool { return !broken && s.Steps() > 0 && !s.NoChoice }, func() {
					broken = true
					for _, k := range r.conns {
						k.Break()
					}
				})
			}
			fault := func() bool { return s.Jumps < m.jumps || m.brk }
			for i, n := range names {
				op := opByName(n)
				s.Go(fmt.Sprintf("%s%d", n, i), func() {
					o := op.run(r.cl, r.p, i)
					log = append(log, fmt.Sprintf("%s%d err=%v", n, i, o.err != nil))
					if o.wrong != "" {
						s.Fail("mixup:"+op.name, "%s number %d reports success: %s", op.name, i, o.wrong)
					}
					if o.touched != "" {
						s.Fail("touched:"+op.name, "%s number %d fails (%v) but changes %s", op.name, i, o.err, o.touched)
					}
					if o.err != nil && !fault() {
						s.Fail("fails:"+op.name, "%s number %d fails although nothing went wrong: %v", op.name, i, o.err)
					}
				})
			}
			s.Run()
			if c.Failed() || s.Stuck() {
				return
			}
			// a new operation gets its own answer, too
			setup(s, func() {
				if !r.cl.Connected() && !r.cl.AutoConnect {
					if err := r.cl.Connect(); err != nil {
						s.Fail("reconnect", "connecting again fails: %v", err)
						return
					}
				}
				for k := 0; k < 2; k++ {
					o := opByName("Read").run(r.cl, r.p, len(names))
					if o.wrong != "" {
						s.Fail("stale", "a later Read reports success: %s", o.wrong)
					}
					// the first one may have to find out that the connection broke
					if o.err != nil && (k > 0 || !m.brk) {
						s.Fail("unusable", "a later Read fails: %v", o.err)
					}
					if o.err != nil && !r.cl.AutoConnect {
						r.cl.Connect()
					}
				}
			})
			if s.Jumps == m.jumps && !m.brk && len(r.p.Problems) > 0 {
				s.Fail("protocol:"+problemKind(r.p.Problems[0]), "the controller was sent %s", strings.Join(r.p.Problems, "; "))
			}
			for _, q := range r.p.Problems {
				if strings.Contains(q, "repeated") {
					s.Fail("sequence", "the controller was sent %s", q)
				}
			}
		})
		c.Validated()
		c.State(s.Trace())
		c.Distinct(strings.Join(log, ","), s.Preempt, s.Jumps)
	}}
}

// wrongReplyUnit delivers something else than the answer to one request.
func wrongReplyUnit(name string) vk.Unit {
	return vk.Unit{Name: "foreign reply " + name, Run: func(c *vk.C) {
		op := opByName(name)
		at := c.Choose(7, "request")
		how := c.Choose(5, "how")
		r := newRig(c, opsPLC(2))
		var old [][]byte
		r.connect(c)
		base := r.conn.Frames()
		applied := false
		r.conn.OnFrame = func(n int, frame, reply []byte) []byte {
			defer func() { old = append(old, append([]byte(nil), reply...)) }()
			if n-base != at || len(reply) == 0 {
				return reply
			}
			switch how {
			case 0: // the answer to the request before
				if len(old) == 0 {
					return reply
				}
				applied = true
				return old[len(old)-1]
			case 1: // twice
				applied = true
				return append(append([]byte(nil), reply...), reply...)
			case 2: // an older answer, then this one
				if len(old) == 0 {
					return reply
				}
				applied = true
				return append(append([]byte(nil), old[len(old)-1]...), reply...)
			case 3: // the answer to another operation's request, then this one
				other := append([]byte(nil), reply...)
				if len(other) < 46 || le.Uint16(other) != 0x70 {
					return reply
				}
				applied = true
				le.PutUint16(other[44:], le.Uint16(other[44:])-1)
				return append(other, reply...)
			}
			// this one, and again with the next
			applied = true
			prev := append([]byte(nil), reply...)
			r.conn.OnFrame = func(n2 int, f2, r2 []byte) []byte {
				r.conn.OnFrame = nil
				return append(prev, r2...)
			}
			return reply
		}
		// one operation before and one after the operation under test
		pre := opByName("Read").run(r.cl, r.p, 1)
		o := op.run(r.cl, r.p, 0)
		c.Trans(2)
		if pre.wrong != "" || o.wrong != "" {
			c.Fail("foreign:"+name, "%s reports success with the reply to another request: %s%s", name, pre.wrong, o.wrong)
		}
		if !applied {
			c.Stop()
		}
		for i := 0; i < 3; i++ {
			if !r.cl.Connected() && i > 0 {
				r.cl.Connect()
			}
			q := opByName("Read").run(r.cl, r.p, i%2)
			if q.wrong != "" {
				c.Fail("foreign-later:"+name, "after a foreign reply during %s, Read reports success: %s", name, q.wrong)
			}
			if i == 2 && q.err != nil {
				c.Fail("unusable", "after a foreign reply during %s the client stays unusable: %v", name, q.err)
			}
		}
		c.Validated()
		c.Distinct(name, at, how)
	}}
}

// sequenceUnit checks the sequence counts of every order of operation kinds
// with the counters of the package and of the client in every relative
// position near a collision.
func sequenceUnit(depth, width int) vk.Unit {
	kinds := []string{"Read", "GetAttrList", "GenericCIPMessage", "ReadMap", "Write", "GetAttrSingle", "ListSubTags", "ListMembers", "ReadList", "Read slice", "ListAllPrograms", "DataTableBuffer"}
	return vk.Unit{Name: "sequence counts", Run: func(c *vk.C) {
		delta := c.Choose(2*width+1, "counter distance") - width
		s := &sched.S{NoChoice: true}
		sched.Explore(c, s, func(s *sched.S) {
			r := newSimRig(c, s, opsPLC(1))
			var seqs []uint16
			watch := func(k *simnet.Conn) []uint16 {
				seqs = nil
				for _, f := range k.Log {
					if le.Uint16(f.Frame) == 0x70 {
						seqs = append(seqs, le.Uint16(f.Frame[44:]))
					}
				}
				return seqs
			}
			s.Go("walk", func() {
				// learn where the package counter is
				if err := r.cl.Connect(); err != nil {
					s.Fail("connect", "Connect fails: %v", err)
					return
				}
				opByName("Read").run(r.cl, r.p, 0)
				cur := watch(r.conns[0])
				r.cl.Disconnect()
				// the client's own counter starts from the clock: choose the moment
				next := cur[len(cur)-1] + 1
				now := uint16(time.Now().UnixMilli())
				wait := uint16(int(next) + delta - 3 - int(now))
				time.Sleep(time.Duration(wait) * time.Millisecond)
				cl2 := gologix.NewClient("10.0.0.1")
				cl2.SocketTimeout = time.Second
				if err := cl2.Connect(); err != nil {
					s.Fail("connect", "Connect fails: %v", err)
					return
				}
				var done []string
				for i := 0; i < depth; i++ {
					op := opByName(vk.Pick(c, kinds, "op"))
					done = append(done, op.name)
					o := op.run(cl2, r.p, 0)
					if o.err != nil || o.wrong != "" {
						s.Fail("sequence-result:"+op.name, "after %v: err=%v %s (%v)", done, o.err, o.wrong, r.p.Problems)
						return
					}
				}
				q := watch(r.conns[1])
				for i := 1; i < len(q); i++ {
					if q[i] == q[i-1] {
						s.Fail("sequence", "operations %v send sequence count %d twice in a row", done, q[i])
						return
					}
				}
				c.Distinct(strings.Join(done, ","), delta)
			})
		})
		c.Validated()
	}}
}

func c01Units(tier string) []vk.Unit {
	th := tier == "thorough"
	ops := []string{"Read", "Read slice", "ReadMap", "GetAttrSingle", "GetAttrList", "GenericCIPMessage", "Write", "ListIdentity"}
	us := []vk.Unit{healthyUnit()}
	pre := 2
	if th {
		pre = 3
	}
	modes := []c01mode{
		{"free", pre, 0, true, false},
		{"timeout auto", 1, 1, true, false},
		{"timeout manual", 1, 1, false, false},
		{"break auto", 1, 0, true, true},
	}
	if th {
		modes = append(modes, c01mode{"two timeouts", 1, 2, true, false}, c01mode{"break manual", 1, 0, false, true}, c01mode{"timeout and break", 1, 1, true, true})
	}
	for _, m := range modes {
		for i, a := range ops {
			for j, b := range ops {
				if j < i || (!th && j != i && j != (i+1)%len(ops) && i != 0) {
					continue
				}
				us = append(us, concurrentUnit([]string{a, b}, m))
			}
		}
	}
	tri := modes[:2]
	if th {
		tri = modes[:3]
	}
	for _, m := range tri {
		m.preempt = 1
		m.name += " 3"
		us = append(us, vk.Shard(concurrentUnit([]string{"Read", "Read", "Read"}, m), 16, 8)...)
		us = append(us, vk.Shard(concurrentUnit([]string{"Read", "GetAttrList", "Write"}, m), 16, 8)...)
	}
	for _, o := range clientOps {
		us = append(us, wrongReplyUnit(o.name))
	}
	d, w := 3, 3
	if th {
		d, w = 4, 4
	}
	us = append(us, vk.Shard(sequenceUnit(d, w), 16, 3)...)
	return us
}

func init() {
	vk.Register(&vk.Check{ID: "C01", Level: "model_checking",
		Rule:        "one execution = one schedule of concurrent operations on one client (switches, network deliveries, time steps), or one foreign reply delivered at one request, or one order of operation kinds at one distance of the counters; non-trivial when the operations' outcome differs or the fault was applied",
		Units:       c01Units,
		MaxProcs:    1,
		Bounds:      map[string]any{"goroutines": 3, "preemptions": "2 (thorough 3)", "timeouts": "1 (thorough 2)"},
		Assumptions: []string{"goroutines switch only at lock, network and timer operations (shared memory is not interleaved more finely)", "the controller answers each request at most once, in order", "the reference controller stands for real ones"},
		QuickBudget: 4 * time.Minute, ThoroughBudget: 13 * time.Minute})
}
