package checks

import (
	"fmt"
	"reflect"
	"slices"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/sched"
	"verifharness/vk"
)

// s05Op is one operation on a map provider.
type s05Op struct {
	name string
	do   func(p gologix.CIPEndpoint) string // the outcome; it shares nothing with the provider
}

// s05Res is what an operation has returned, and when it ran.
type s05Res struct {
	out        string
	start, end int
}

func s05Data() map[string]any {
	return map[string]any{"a": []int32{1, 2, 3, 4}, "s": int32(5), "t": []string{"p", "q", "r"}, "Mixed": float32(1.5)}
}

// frozen renders a value, then overwrites what it refers to.
func frozen(v any, err error) string {
	if err != nil {
		return "error"
	}
	s := fmt.Sprintf("%T %v", v, v)
	scribble(v)
	return s
}

func scribble(v any) {
	if s := reflect.ValueOf(v); s.Kind() == reflect.Slice {
		for i := 0; i < s.Len(); i++ {
			s.Index(i).SetZero()
		}
	}
}

func s05Read(tag string, n int16) s05Op {
	return s05Op{fmt.Sprintf("read %s %d", tag, n), func(p gologix.CIPEndpoint) string { return frozen(p.TagRead(tag, n)) }}
}

// s05Write takes a function, as each write has its own value.
func s05Write(tag string, v func() any) s05Op {
	return s05Op{fmt.Sprintf("write %s %v", tag, v()), func(p gologix.CIPEndpoint) string {
		x := v()
		err := p.TagWrite(tag, x)
		scribble(x)
		if err != nil {
			return "error"
		}
		return "ok"
	}}
}

func s05List() s05Op {
	return s05Op{"list", func(p gologix.CIPEndpoint) string {
		l := p.(gologix.TagLister).TagList()
		var s []string
		for _, t := range l {
			s = append(s, fmt.Sprint(t))
		}
		slices.Sort(s)
		return strings.Join(s, " ")
	}}
}

func s05Ops() []s05Op {
	return []s05Op{
		s05Read("a", 4), s05Read("A[1]", 2), s05Read("s", 1), s05Read("t", 3), s05Read("mixed", 1), s05Read("new", 2), s05Read("new", 1),
		s05Write("a", func() any { return []any{int32(11), int32(12), int32(13), int32(14)} }),
		s05Write("a[0]", func() any { return []any{int32(21), int32(22), int32(23)} }),
		s05Write("a[2]", func() any { return int32(33) }),
		s05Write("a", func() any { return []int32{41, 42, 43, 44, 45} }),
		s05Write("s", func() any { return int32(6) }),
		s05Write("t[1]", func() any { return []any{"x", "y"} }),
		s05Write("t", func() any { return []string{"one"} }),
		s05Write("mixed", func() any { return float32(2.5) }),
		s05Write("new", func() any { return []any{int16(1), int16(2)} }),
		s05Write("new", func() any { return uint8(9) }),
		s05List(),
	}
}

// final is everything a provider holds.
func (p s05Provider) final() string {
	var s []string
	for k, v := range p.m.Data {
		s = append(s, fmt.Sprintf("%s=%T%v", k, v, v))
	}
	slices.Sort(s)
	return strings.Join(s, " ")
}

type s05Provider struct{ m *gologix.MapTagProvider }

// s05Order is what the operations return when they follow one another in an order.
type s05Order struct {
	order []int // operation numbers
	outs  []string
	final string
}

// s05Orders is every order that keeps each task's own, and what run makes of it.
func s05Orders(lens []int, run func(order []int) (outs []string, final string)) []s05Order {
	var all []s05Order
	n := 0
	base := make([]int, len(lens))
	for i, l := range lens {
		base[i] = n
		n += l
	}
	at := make([]int, len(lens))
	var rec func(order []int)
	rec = func(order []int) {
		if len(order) == n {
			o := s05Order{order: slices.Clone(order)}
			o.outs, o.final = run(o.order)
			all = append(all, o)
			return
		}
		for i := range lens {
			if at[i] < lens[i] {
				at[i]++
				rec(append(order, base[i]+at[i]-1))
				at[i]--
			}
		}
	}
	rec(nil)
	return all
}

// s05Judge fails when no order explains the results.
func s05Judge(s *sched.S, orders []s05Order, names []string, res []s05Res, final string) {
next:
	for _, o := range orders {
		if o.final != final {
			continue
		}
		for i, k := range o.order {
			if o.outs[k] != res[k].out {
				continue next
			}
			for _, l := range o.order[:i] {
				if res[k].end < res[l].start { // k had ended before l began
					continue next
				}
			}
		}
		return
	}
	var b strings.Builder
	for i, r := range res {
		fmt.Fprintf(&b, "\n  %s (steps %d to %d): %s", names[i], r.start, r.end, r.out)
	}
	s.Fail("not linearizable", "no order of the operations explains the outcomes:%s\n  at the end: %s", b.String(), final)
}

// s05Direct is the application's own use of a provider.
func s05Direct(tasks func(c *vk.C) [][]s05Op, preempt int, nilMap bool) func(c *vk.C) {
	return func(c *vk.C) {
		ts := tasks(c)
		init := s05Data
		if nilMap {
			init = func() map[string]any { return nil }
		}
		var ops []s05Op
		var names []string
		var lens []int
		for _, t := range ts {
			lens = append(lens, len(t))
			for _, o := range t {
				ops = append(ops, o)
				names = append(names, o.name)
			}
		}
		orders := s05Cache(fmt.Sprint("direct", nilMap, lens, names), func() []s05Order {
			return s05Orders(lens, func(order []int) ([]string, string) {
				p := &gologix.MapTagProvider{Data: init()}
				outs := make([]string, len(order))
				for _, k := range order {
					outs[k] = ops[k].do(p)
				}
				return outs, s05Provider{p}.final()
			})
		})
		m := &gologix.MapTagProvider{Data: init()}
		var ep gologix.CIPEndpoint = m
		res := make([]s05Res, len(ops))
		sched.Explore(c, &sched.S{Preempt: preempt}, func(s *sched.S) {
			at := 0
			for i, t := range ts {
				k := at
				at += len(t)
				s.Go(fmt.Sprintf("t%d", i), func() {
					for j, op := range t {
						s.Point("call")
						res[k+j].start = s.Steps()
						res[k+j].out = op.do(ep)
						res[k+j].end = s.Steps()
					}
				})
			}
			s.Run()
			if s.Stuck() || c.Failed() {
				return
			}
			final := ""
			setup(s, func() {
				m.Mutex.Lock()
				final = s05Provider{m}.final()
				m.Mutex.Unlock()
			})
			s05Judge(s, orders, names, res, final)
			c.State(final, s.Trace())
		})
		c.Validated()
		c.Distinct(fmt.Sprint(names), fmt.Sprint(res))
	}
}

var s05Known = map[string][]s05Order{}

// s05Cache keeps the orders of the operations last asked for.
func s05Cache(key string, f func() []s05Order) []s05Order {
	o, ok := s05Known[key]
	if !ok {
		if len(s05Known) > 1000 {
			clear(s05Known)
		}
		o = f()
		s05Known[key] = o
	}
	return o
}

// s05Wire is a request made by a session.
type s05Wire struct {
	name string
	ud   []byte // connected
	rr   []byte // unconnected
	// parts are the requests of a multi service request.
	parts [][]byte
}

func s05Wires() []s05Wire {
	read := func(p []byte, n int) []byte { return creq(0x4C, p, w16(n)) }
	frag := func(p []byte, n int) []byte { return creq(0x52, p, w16(n), w32(0)) }
	write := func(p []byte, vs ...uint32) []byte {
		d := [][]byte{{0xC4, 0}, w16(len(vs))}
		for _, v := range vs {
			d = append(d, w32(v))
		}
		return creq(0x4D, p, d...)
	}
	a, s := sym("a"), sym("s")
	multi := func(name string, parts ...[]byte) s05Wire {
		return s05Wire{name: name, ud: multiReq(parts...), parts: parts}
	}
	return []s05Wire{
		{name: "read a", ud: read(a, 4)},
		{name: "frag read a", ud: frag(a, 4)},
		{name: "uc read a[1]", rr: ucsend(route, read(cat(a, idx(1)), 2))},
		{name: "write a", ud: write(a, 11, 12, 13, 14)},
		{name: "write a[1]", ud: write(cat(a, idx(1)), 21, 22)},
		{name: "uc write a", rr: ucsend(route, write(a, 31, 32, 33, 34))},
		multi("multi", write(cat(a, idx(3)), 44), read(a, 4), write(s, 45)),
		{name: "read s", ud: read(s, 1)},
		{name: "new", ud: write(sym("n"), 51, 52)},
		{name: "list", ud: creq(0x55, []byte{0x20, 0x6B, 0x25, 0, 0, 0}, w16(2), w16(1), w16(2))},
	}
}

// s05Req is one operation of a session: a request, or a part of a multi service one.
type s05Req struct {
	uc  bool
	req []byte
}

func (w s05Wire) reqs() []s05Req {
	switch {
	case w.parts != nil:
		var r []s05Req
		for _, p := range w.parts {
			r = append(r, s05Req{false, p})
		}
		return r
	case w.rr != nil:
		return []s05Req{{true, w.rr}}
	}
	return []s05Req{{false, w.ud}}
}

func s05Open(i int) fopen {
	return fopen{to: 0x600D + uint32(i), serial: uint16(1 + i), vendor: 1, oserial: 1, rpi: 2000000, trigger: 0xA3, path: cat(route, cls(2, 1))}
}

// s05Session is what sessions, or sessions and the application, do at once.
func s05Session(n, preempt int, app bool) func(c *vk.C) {
	return func(c *vk.C) {
		ws := s05Wires()
		var pick []s05Wire
		var names []string
		var lens []int
		var reqs []s05Req
		from := 0
		for i := 0; i < n; i++ {
			k := from + c.Choose(len(ws)-from, "request")
			pick = append(pick, ws[k])
			from = k // sessions are alike
			q := ws[k].reqs()
			lens = append(lens, len(q))
			reqs = append(reqs, q...)
			for range q {
				names = append(names, ws[k].name)
			}
		}
		var appOp s05Op
		if app {
			ops := s05Ops()
			appOp = ops[c.Choose(len(ops), "application")]
			names = append(names, "application: "+appOp.name)
			lens = append(lens, 1)
		}
		orders := s05Cache(fmt.Sprint("session", app, lens, names), func() []s05Order {
			return s05Orders(lens, func(order []int) ([]string, string) {
				m := &gologix.MapTagProvider{Data: s05Data()}
				r := newSrvRig(c, map[string]gologix.CIPEndpoint{string(route): m})
				defer r.end()
				p := r.peer()
				p.register()
				k := p.open(s05Open(0))
				outs := make([]string, len(order))
				for _, o := range order {
					switch {
					case o == len(reqs):
						outs[o] = appOp.do(m)
					case reqs[o].uc:
						outs[o] = p.rr(reqs[o].req).String()
					default:
						outs[o] = k.ud(reqs[o].req).String()
					}
				}
				return outs, s05Provider{m}.final()
			})
		})
		sched.Explore(c, &sched.S{Preempt: preempt}, func(s *sched.S) {
			m := &gologix.MapTagProvider{Data: s05Data()}
			r := newSchedRig(c, s, map[string]gologix.CIPEndpoint{string(route): m})
			r.start()
			ps := make([]*peer, n)
			ks := make([]*pconn, n)
			for i := range ps {
				setup(s, func() {
					ps[i] = r.peer(i)
					ps[i].register()
					ks[i] = ps[i].open(s05Open(i))
				})
			}
			if c.Failed() {
				return
			}
			res := make([]s05Res, len(names))
			at := 0
			for i, w := range pick {
				base := at
				at += lens[i]
				s.Go(fmt.Sprintf("peer%d", i), func() {
					start := s.Steps()
					var m mreply
					if w.rr != nil {
						m = ps[i].rr(w.rr)
					} else {
						m = ks[i].ud(w.ud)
					}
					end := s.Steps()
					outs := []mreply{m}
					if w.parts != nil {
						var err error
						if outs, err = splitMulti(m); err != nil || len(outs) != len(w.parts) {
							c.Fail("multi", "%d requests are answered with %v: %v", len(w.parts), m, err)
						}
					}
					for j, o := range outs {
						res[base+j] = s05Res{o.String(), start, end}
					}
				})
			}
			if app {
				var ep gologix.CIPEndpoint = m
				s.Go("application", func() {
					s.Point("call")
					res[at].start = s.Steps()
					res[at].out = appOp.do(ep)
					res[at].end = s.Steps()
				})
			}
			s.Run()
			if s.Stuck() || c.Failed() {
				return
			}
			final := ""
			setup(s, func() {
				m.Mutex.Lock()
				final = s05Provider{m}.final()
				m.Mutex.Unlock()
			})
			s05Judge(s, orders, names, res, final)
			c.State(final, s.Trace())
		})
		c.Validated()
		c.Distinct(fmt.Sprint(names))
	}
}

func init() {
	pairs := func(nilMap bool) func(c *vk.C) [][]s05Op {
		return func(c *vk.C) [][]s05Op {
			ops := s05Ops()
			i := c.Choose(len(ops), "op")
			return [][]s05Op{{ops[i]}, {ops[i+c.Choose(len(ops)-i, "op")]}}
		}
	}
	triples := func(c *vk.C) [][]s05Op {
		ops := s05Ops()
		i := c.Choose(len(ops), "op")
		j := i + c.Choose(len(ops)-i, "op")
		return [][]s05Op{{ops[i]}, {ops[j]}, {ops[j+c.Choose(len(ops)-j, "op")]}}
	}
	seqs := func(c *vk.C) [][]s05Op {
		ops := s05Ops()
		i := c.Choose(len(ops), "op")
		k := i + c.Choose(len(ops)-i, "op")
		return [][]s05Op{{ops[i], ops[c.Choose(len(ops), "then")]}, {ops[k], ops[c.Choose(len(ops), "then")]}}
	}
	vk.Register(&vk.Check{
		ID: "S05", Level: "model_checking",
		MaxProcs:    2,
		Rule:        "Every pair and triple of concurrent operations, and every two sequences of two, out of reads and writes of whole tags, elements and ranges of a map provider, by the application and as requests of sessions of the real server: every schedule up to the preemption bound. The results and the final data must be those of some order that respects real time, values handed out must not change later, and no data race may occur. A case is non-trivial when its operations and their results are distinct.",
		Bounds:      map[string]any{"preemptions": "pairs 4, triples 1 (thorough 3), two each 0 (2), sessions 1-2 (2-3)", "concurrent operations": 4, "sessions": "2 (thorough 3)"},
		Assumptions: []string{"switches at locks, channels, network and timers only, and the race monitor over those schedules: without a data race this covers every interleaving of the bounded schedules"},
		Units: func(tier string) []vk.Unit {
			deep := tier == "thorough"
			pick := func(q, t int) int {
				if deep {
					return t
				}
				return q
			}
			us := []vk.Unit{
				{Name: "pairs", Run: s05Direct(pairs(false), 4, false)},
				{Name: "pairs of an empty provider", Run: s05Direct(pairs(true), 4, true)},
			}
			us = append(us, vk.Shard(vk.Unit{Name: "triples", Run: s05Direct(triples, pick(1, 3), false)}, 8, 2)...)
			us = append(us, vk.Shard(vk.Unit{Name: "two each", Run: s05Direct(seqs, pick(0, 2), false)}, 8, 2)...)
			us = append(us, vk.Shard(vk.Unit{Name: "two sessions", Run: s05Session(2, pick(1, 2), false)}, 8, 2)...)
			us = append(us, vk.Shard(vk.Unit{Name: "session and application", Run: s05Session(1, pick(2, 3), true)}, 8, 2)...)
			if deep {
				us = append(us, vk.Shard(vk.Unit{Name: "three sessions", Run: s05Session(3, 1, false)}, 16, 3)...)
			}
			return us
		},
		QuickBudget:    10 * time.Minute,
		ThoroughBudget: 13 * time.Minute,
	})
}

// splitMulti is the replies in a reply to a multi service request.
func splitMulti(m mreply) ([]mreply, error) {
	if len(m.data) < 2 {
		return nil, fmt.Errorf("%d bytes", len(m.data))
	}
	n := int(le.Uint16(m.data))
	if len(m.data) < 2+2*n {
		return nil, fmt.Errorf("%d bytes for %d replies", len(m.data), n)
	}
	var r []mreply
	for i := range n {
		from, to := int(le.Uint16(m.data[2+2*i:])), len(m.data)
		if i+1 < n {
			to = int(le.Uint16(m.data[4+2*i:]))
		}
		if from > to || to > len(m.data) {
			return nil, fmt.Errorf("offsets %d and %d of %d bytes", from, to, len(m.data))
		}
		q, err := parseMR(m.data[from:to])
		if err != nil {
			return nil, err
		}
		r = append(r, q)
	}
	return r, nil
}
