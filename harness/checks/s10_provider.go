package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/vk"
)

// S10: what a provider is asked for and what becomes of its answer.

// s10Call is one call of a provider.
type s10Call struct {
	who   string
	write bool
	tag   string
	qty   int16
	value any
}

func (c s10Call) String() string {
	if c.write {
		return fmt.Sprintf("%s.TagWrite(%q, %T %v)", c.who, c.tag, c.value, c.value)
	}
	return fmt.Sprintf("%s.TagRead(%q, %d)", c.who, c.tag, c.qty)
}

// s10Provider records what it is asked for and answers as it is told.
type s10Provider struct {
	r    *s10
	name string
}

func (p *s10Provider) IORead() ([]byte, error)               { return nil, errors.New("no io") }
func (p *s10Provider) IOWrite(items []gologix.CIPItem) error { return errors.New("no io") }

func (p *s10Provider) TagRead(tag string, qty int16) (any, error) {
	p.r.calls = append(p.r.calls, s10Call{who: p.name, tag: tag, qty: qty})
	return p.r.answer, p.r.err
}

func (p *s10Provider) TagWrite(tag string, value any) error {
	p.r.calls = append(p.r.calls, s10Call{who: p.name, write: true, tag: tag, value: value})
	return p.r.err
}

// s10 is a server with two such providers.
type s10 struct {
	*srvRig
	calls  []s10Call
	answer any
	err    error
	ps     []*peer
	ks     []*pconn
}

var s10Routes = [][]byte{{1, 0}, {1, 5}}

func newS10(c *vk.C) *s10 {
	s := &s10{}
	m := map[string]gologix.CIPEndpoint{}
	for i, r := range s10Routes {
		m[string(r)] = &s10Provider{s, fmt.Sprint("p", i)}
	}
	s.srvRig = newSrvRig(c, m)
	for i, r := range s10Routes {
		p := s.peer()
		p.register()
		f := s02Conn
		f.to, f.serial, f.path = uint32(0x100+i), uint16(3+i), cat(r, cls(2, 1))
		s.ps = append(s.ps, p)
		s.ks = append(s.ks, p.open(f))
	}
	return s
}

// s10Ways are the ways to make a request of a kind.
type s10Way struct {
	name string
	svc  byte
	do   func(s *s10, at int, req []byte) mreply
	head []byte // between the quantity and the data
	most int    // the data that fits a request
}

func s10ud(s *s10, at int, req []byte) mreply { return s.ks[at].ud(req) }
func s10uc(s *s10, at int, req []byte) mreply { return s.ps[at].rr(ucsend(s10Routes[at], req)) }

func s10multi(n, at int) func(s *s10, at int, req []byte) mreply {
	return func(s *s10, conn int, req []byte) mreply {
		other := creq(0x4B, cls(1, 1)) // not supported
		var reqs [][]byte
		for i := 0; i < n; i++ {
			reqs = append(reqs, other)
		}
		reqs[at] = req
		m := s.ks[conn].ud(multiReq(reqs...))
		subs := (&s01{srvRig: s.srvRig}).subs(m, n)
		for i, sm := range subs {
			if i != at && sm.status == 0 {
				s.c.Fail("multi-neighbour", "an unsupported request in a multi service packet succeeds: %v", sm)
			}
		}
		if sm := subs[at]; sm.svc != req[0]|0x80 {
			s.c.Fail("multi-service", "request % x in a multi service packet is answered with %v", req, sm)
		}
		return subs[at]
	}
}

var s10Reads = []s10Way{
	{name: "read", svc: 0x4C, do: s10ud},
	{name: "fragmented read", svc: 0x52, do: s10ud, head: []byte{0, 0, 0, 0}},
	{name: "unconnected read", svc: 0x4C, do: s10uc},
	{name: "read alone in a packet", svc: 0x4C, do: s10multi(1, 0)},
	{name: "read last in a packet", svc: 0x4C, do: s10multi(2, 1)},
	{name: "fragmented read first in a packet", svc: 0x52, do: s10multi(2, 0), head: []byte{0, 0, 0, 0}},
}

var s10Writes = []s10Way{
	{name: "write", svc: 0x4D, do: s10ud},
	{name: "unconnected write", svc: 0x4D, do: s10uc},
	{name: "write alone in a packet", svc: 0x4D, do: s10multi(1, 0)},
	{name: "write last in a packet", svc: 0x4D, do: s10multi(3, 2)},
	{name: "fragmented write first in a packet", svc: 0x53, do: s10multi(2, 0), head: []byte{0, 0, 0, 0}},
}

// s10Path is a path to a tag, and how the tag is called.
type s10Path struct {
	b    []byte
	name string
}

// s10Index is an index segment of a size in bytes.
func s10Index(v uint32, size int) []byte {
	switch size {
	case 1:
		return []byte{0x28, byte(v)}
	case 2:
		return cat([]byte{0x29, 0}, w16(int(v)))
	}
	return cat([]byte{0x2A, 0}, w32(v))
}

// s10Names are the parts of a name.
var s10Names = []string{"a", "Ab", "Counter_1", "Program:MainProgram", "x" + strings.Repeat("_long_name", 4), "DATA"}

// s10ChoosePath chooses a path of up to segs names with up to subs subscripts.
func s10ChoosePath(c *vk.C, segs, subs int, values []uint32) s10Path {
	var p s10Path
	n := 1 + c.Choose(segs, "choice")
	for i := 0; i < n; i++ {
		name := vk.Pick(c, s10Names, "choice")
		p.b = append(p.b, sym(name)...)
		if i > 0 {
			p.name += "."
		}
		p.name += name
		k := c.Choose(subs+1, "choice")
		for j := 0; j < k; j++ {
			v := vk.Pick(c, values, "choice")
			sizes := []int{4}
			if v < 1<<16 {
				sizes = append(sizes, 2)
			}
			if v < 1<<8 {
				sizes = append(sizes, 1)
			}
			p.b = append(p.b, s10Index(v, vk.Pick(c, sizes, "choice"))...)
			if j == 0 {
				p.name += fmt.Sprintf("[%d]", v)
			} else {
				p.name = strings.TrimSuffix(p.name, "]") + fmt.Sprintf(",%d]", v)
			}
		}
	}
	return p
}

// asked compares the calls of the providers with what they should be.
func (s *s10) asked(what string, want ...s10Call) {
	ok := len(s.calls) == len(want)
	for i := 0; ok && i < len(want); i++ {
		g, w := s.calls[i], want[i]
		ok = g.who == w.who && g.write == w.write && g.tag == w.tag && g.qty == w.qty && sameValue(g.value, w.value)
	}
	if !ok {
		s.c.Fail("asked", "%s: the providers are asked for %v, they should be for %v", what, s.calls, want)
	}
	s.calls = nil
}

// sameValue compares scalars and lists, floats by bits.
func sameValue(a, b any) bool {
	x, ok := a.([]any)
	y, ok2 := b.([]any)
	if ok != ok2 {
		return false
	}
	if !ok {
		return same(a, b)
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if !same(x[i], y[i]) {
			return false
		}
	}
	return true
}

func (s *s10) who(at int) string { return fmt.Sprint("p", at) }

// read makes a read that should be answered with these bytes.
func (s *s10) read(w s10Way, at int, p s10Path, qty int, k *kind, v [][]byte) {
	req := creq(w.svc, p.b, w16(qty), w.head)
	m := w.do(s, at, req)
	what := fmt.Sprintf("%s of %d of %s at route %v", w.name, qty, p.name, s10Routes[at])
	s.asked(what, s10Call{who: s.who(at), tag: p.name, qty: int16(qty)})
	if m.status != 0 {
		s.c.Fail("refused", "%s: the answer %T %v is turned into %v", what, s.answer, s.answer, m)
	}
	if data, ok := k.typeMatches(m.data); !ok || !bytes.Equal(data, bytes.Join(v, nil)) {
		s.c.Fail("answer", "%s: the answer %T %v is sent as\n% x, it is the %ss\n% x", what, s.answer, s.answer, m.data, k.name, bytes.Join(v, nil))
	}
	s.c.Trans(1)
}

// write makes a write that should succeed.
func (s *s10) write(w s10Way, at int, p s10Path, k *kind, v [][]byte) {
	req := creq(w.svc, p.b, k.wireType(), w16(len(v)), w.head, bytes.Join(v, nil))
	m := w.do(s, at, req)
	what := fmt.Sprintf("%s of %d %ss to %s at route %v", w.name, len(v), k.name, p.name, s10Routes[at])
	s.asked(what, s10Call{who: s.who(at), write: true, tag: p.name, value: s10Value(k, v)})
	if m.status != 0 || len(m.data) != 0 {
		s.c.Fail("write-refused", "%s: the provider accepts it and the reply is %v", what, m)
	}
	s.c.Trans(1)
}

func s10Value(k *kind, v [][]byte) any {
	if len(v) == 1 {
		return k.val(v[0])
	}
	var r []any
	for _, b := range v {
		r = append(r, k.val(b))
	}
	return r
}

// refuse makes a request that should get an error and reach no provider.
func (s *s10) refuse(what string, w s10Way, at int, req []byte, want ...s10Call) {
	m := w.do(s, at, req)
	what = fmt.Sprintf("%s (%s, % x)", what, w.name, req)
	s.asked(what, want...)
	if m.status == 0 {
		s.c.Fail("accepted", "%s: answered with %v, it should be refused", what, m)
	}
	if len(m.data) != 0 {
		s.c.Fail("refused-data", "%s: refused with data: %v", what, m)
	}
	s.c.Trans(1)
}

// works checks that both sessions still work.
func (s *s10) works() {
	s.err = nil
	s.answer = int32(-2)
	for at := range s10Routes {
		s.read(s10Reads[0], at, s10Path{sym("ok"), "ok"}, 1, kindByName("DINT"), [][]byte{{0xFE, 0xFF, 0xFF, 0xFF}})
	}
}

func s10Units(tier string) []vk.Unit {
	thorough := tier == "thorough"
	var us []vk.Unit

	// every path, by every way
	segs, subs := 2, 3
	values := []uint32{0, 5, 255, 256, 65535, 65536, 1<<32 - 1}
	if thorough {
		values = []uint32{0, 9, 255, 256, 65535, 65536, 1 << 31, 1<<32 - 1}
	}
	path := func(segs, subs int, values []uint32) func(c *vk.C) {
		return func(c *vk.C) {
			p := s10ChoosePath(c, segs, subs, values)
			s := newS10(c)
			k := kindByName("INT")
			for i, w := range s10Reads {
				s.answer = int16(77 + i)
				s.read(w, i%2, p, 1, k, [][]byte{{byte(77 + i), 0}})
			}
			for i, w := range s10Writes {
				s.write(w, i%2, p, k, [][]byte{{byte(i), 1}})
			}
			c.Distinct(p.name)
		}
	}
	us = append(us, vk.Shard(vk.Unit{Name: "paths of a name", Run: path(1, subs, values)}, 4, 3)...)
	if thorough {
		us = append(us, vk.Shard(vk.Unit{Name: "paths of members", Run: path(segs, 2, []uint32{0, 255, 256, 1 << 16})}, 8, 4)...)
		us = append(us, vk.Shard(vk.Unit{Name: "paths of three members", Run: path(3, 1, []uint32{1, 300})}, 8, 5)...)
	} else {
		us = append(us, vk.Shard(vk.Unit{Name: "paths of members", Run: path(segs, 2, []uint32{0, 255, 1 << 16})}, 8, 4)...)
	}

	// the number of elements
	us = append(us, vk.Shard(vk.Unit{Name: "element counts", Run: func(c *vk.C) {
		hi := c.Choose(256, "choice")
		w := s10Reads[c.Choose(len(s10Reads), "choice")]
		s := newS10(c)
		p := s10Path{cat(sym("arr"), idx(3)), "arr[3]"}
		k := kindByName("DINT")
		for lo := 0; lo < 256; lo++ {
			if !thorough && lo > 1 && lo < 254 && hi > 1 && hi != 127 && hi != 128 {
				continue
			}
			n := hi<<8 | lo
			s.answer = []int32{int32(n), -1}
			if n > 32767 {
				s.refuse(fmt.Sprint("read of ", n), w, lo%2, creq(w.svc, p.b, w16(n), w.head))
				continue
			}
			s.read(w, lo%2, p, n, k, [][]byte{w32(uint32(n)), {0xFF, 0xFF, 0xFF, 0xFF}})
		}
		s.works()
	}}, 4, 1)...)

	// every answer
	lens := []int{1, 2, 3, 7}
	for _, k := range kinds {
		us = append(us, vk.Unit{Name: "answers of " + k.name, Run: func(c *vk.C) {
			w := s10Reads[c.Choose(len(s10Reads), "choice")]
			s := newS10(c)
			p := s10Path{sym("tag"), "tag"}
			for i := range k.pats {
				v := [][]byte{k.pats[i]}
				s.answer = k.val(v[0])
				s.read(w, i%2, p, 1, k, v)
			}
			ls := append([]int{0}, lens...)
			if n := 480 / k.size; n > 7 {
				ls = append(ls, n)
			}
			for _, n := range ls {
				for i := range k.pats {
					if !thorough && i > 6 {
						break
					}
					v := k.pick(i, n)
					s.answer = k.slice(v)
					s.read(w, i%2, p, max(n, 1), k, v)
				}
			}
			s.works()
		}})
		us = append(us, vk.Unit{Name: "values of " + k.name, Run: func(c *vk.C) {
			w := s10Writes[c.Choose(len(s10Writes), "choice")]
			s := newS10(c)
			p := s10Path{cat(sym("tag"), idx(2), sym("m")), "tag[2].m"}
			for i := range k.pats {
				s.write(w, i%2, p, k, [][]byte{k.pats[i]})
			}
			ls := lens
			if n := 480 / k.size; n > 7 {
				ls = append(append([]int{}, ls...), n)
			}
			for _, n := range ls {
				for i := range k.pats {
					if !thorough && i > 6 {
						break
					}
					s.write(w, i%2, p, k, k.pick(i, n))
				}
			}
			// data that ends before the last element
			v := k.pick(0, 3)
			data := bytes.Join(v, nil)
			for cut := 0; cut < len(data); cut++ {
				if k.name == "STRING" && cut >= len(data)-6 {
					break // the padding may be left out
				}
				s.refuse(fmt.Sprintf("write of 3 %ss with %d of %d bytes", k.name, cut, len(data)), w, cut%2, creq(w.svc, p.b, k.wireType(), w16(3), w.head, data[:cut]))
			}
			s.refuse("write of no elements", w, 0, creq(w.svc, p.b, k.wireType(), w16(0), w.head))
			s.works()
		}})
	}

	// the provider's errors
	errs := []error{
		errors.New("no such tag"),
		io.EOF,
		io.ErrUnexpectedEOF,
		fmt.Errorf("reading the backend: %w", io.ErrUnexpectedEOF),
		net.ErrClosed,
		&net.OpError{Op: "read", Err: net.ErrClosed},
		timeoutErr{},
	}
	us = append(us, vk.Unit{Name: "errors of a provider", Run: func(c *vk.C) {
		s := newS10(c)
		p := s10Path{sym("tag"), "tag"}
		n := 1 + c.Choose(3, "choice")
		for i := 0; i < n; i++ {
			e := vk.Pick(c, errs, "choice")
			j := c.Choose(len(s10Reads)+len(s10Writes), "choice")
			at := c.Choose(2, "choice")
			s.err = e
			s.answer = int32(5)
			if j < len(s10Reads) {
				w := s10Reads[j]
				s.refuse(fmt.Sprintf("read the provider answers with %v", e), w, at, creq(w.svc, p.b, w16(1), w.head), s10Call{who: s.who(at), tag: "tag", qty: 1})
			} else {
				w := s10Writes[j-len(s10Reads)]
				s.refuse(fmt.Sprintf("write the provider answers with %v", e), w, at, creq(w.svc, p.b, w16(0xC3), w16(1), w.head, w16(9)), s10Call{who: s.who(at), write: true, tag: "tag", value: int16(9)})
			}
			if !thorough && n == 3 {
				break
			}
		}
		s.works()
	}})

	// paths that name nothing
	bad := map[string][]byte{
		"no path":               {},
		"only an index":         idx(1),
		"an index before":       cat(idx(1), sym("a")),
		"an empty name":         {0x91, 0},
		"another segment":       cat(sym("a"), []byte{0x30, 1}),
		"another segment first": cat([]byte{0x30, 1}, sym("a")),
		"a port":                cat([]byte{1, 0}, sym("a")),
		"a name cut":            {0x91, 5, 'a', 'b'},
		"a member cut":          cat(sym("a"), []byte{0x91, 3, 'x', 'y'}),
		"an index cut":          cat(sym("a"), []byte{0x29, 0}),
		"a long index cut":      cat(sym("a"), []byte{0x2A, 0, 1, 2}),
		"a symbol instance":     cls(0x6B, 1),
		"another class":         cls(1, 1),
	}
	var names []string
	for n := range bad {
		names = append(names, n)
	}
	sort.Strings(names)
	us = append(us, vk.Unit{Name: "paths of nothing", Run: func(c *vk.C) {
		n := vk.Pick(c, names, "choice")
		s := newS10(c)
		s.answer = int32(5)
		for i, w := range s10Reads {
			s.refuse("read of "+n, w, i%2, creq(w.svc, bad[n], w16(1), w.head))
		}
		for i, w := range s10Writes {
			s.refuse("write to "+n, w, i%2, creq(w.svc, bad[n], w16(0xC3), w16(1), w.head, w16(9)))
		}
		s.works()
	}})
	return us
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

var _ net.Error = timeoutErr{}

func init() {
	vk.Register(&vk.Check{
		ID: "S10", Level: "model_checking",
		Rule:        "every path of up to 2 names (thorough 3) of 6 with up to 3 subscripts of boundary values in every encoding, by each of 6 ways to read and 5 to write; every element count 0..65535 (quick: the boundaries of each high byte); every pattern and list length of every type as an answer and as a written value, and every cut of the written data; every sequence of up to 3 errors of a provider; every malformed path; on two routes, with providers that record what they are asked",
		Units:       s10Units,
		Bounds:      map[string]any{"quick": "paths of 2 names", "thorough": "paths of 3 names, every element count"},
		QuickBudget: 80 * time.Second, ThoroughBudget: 10 * time.Minute,
	})
}
