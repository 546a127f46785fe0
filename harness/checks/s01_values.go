package checks

import (
	"bytes"
	"fmt"
	"maps"
	"math"
	"math/big"
	"reflect"
	"slices"
	"sort"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
)

// s01Tag is the reference model's view of one tag: its type and the wire form
// of its elements.
type s01Tag struct {
	k   *kind
	arr bool
	v   [][]byte
}

func (t *s01Tag) clone() *s01Tag {
	u := *t
	u.v = append([][]byte(nil), t.v...)
	return &u
}

// s01 is a server with its model.
type s01 struct {
	*srvRig
	p      *gologix.MapTagProvider
	tags   map[string]*s01Tag // by lower case name
	names  map[string]string  // lower case name to the name in the provider
	wr, rd *pconn             // a session that writes and one that reads
	cl     *gologix.Client
	log    []string
}

// goVal is the Go value of a tag in the provider.
func (t *s01Tag) goVal() any {
	if !t.arr {
		return t.k.val(t.v[0])
	}
	return t.k.slice(t.v)
}

// slice makes a typed slice.
func (k *kind) slice(v [][]byte) any {
	s := reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(k.zero)), len(v), len(v))
	for i := range v {
		s.Index(i).Set(reflect.ValueOf(k.val(v[i])))
	}
	return s.Interface()
}

func newS01(c *vk.C, tags map[string]*s01Tag) *s01 {
	s := &s01{p: &gologix.MapTagProvider{Data: map[string]any{}}, tags: map[string]*s01Tag{}, names: map[string]string{}}
	for n, t := range tags {
		s.p.Data[n] = t.goVal()
		s.tags[strings.ToLower(n)] = t.clone()
		s.names[strings.ToLower(n)] = n
	}
	s.srvRig = newSrvRig(c, map[string]gologix.CIPEndpoint{string(route): s.p})
	a, b := s.peer(), s.peer()
	a.register()
	b.register()
	s.wr = a.open(s02Conn)
	f := s02Conn
	f.to, f.serial = 0x99, 3
	s.rd = b.open(f)
	return s
}

// client is a connected client.
func (s *s01) client() *gologix.Client {
	if s.cl == nil {
		s.cl = gologix.NewClient("10.0.0.1")
		s.cl.SocketTimeout = time.Second
		s.cl.KeepAliveAutoStart = false
		if err := s.cl.Connect(); err != nil {
			s.c.Fail("connect", "a client can't connect to the server: %v", err)
		}
	}
	return s.cl
}

// s01At is what a request addresses: n elements from an index, or from the
// beginning when there is none.
type s01At struct {
	name string
	idx  int // -1 for none
	n    int
}

func (a s01At) String() string {
	if a.idx < 0 {
		return fmt.Sprintf("%s{%d}", a.name, a.n)
	}
	return fmt.Sprintf("%s[%d]{%d}", a.name, a.idx, a.n)
}

func (a s01At) tag() string {
	if a.idx < 0 {
		return a.name
	}
	return fmt.Sprintf("%s[%d]", a.name, a.idx)
}

// path is the request path.  The parts of a name are segments of their own.
func (a s01At) path() []byte {
	var b []byte
	for _, part := range strings.Split(a.name, ".") {
		part, sub, _ := strings.Cut(part, "[")
		b = append(b, sym(part)...)
		if sub != "" {
			n := 0
			fmt.Sscan(strings.TrimSuffix(sub, "]"), &n)
			b = append(b, idx(n)...)
		}
	}
	if a.idx >= 0 {
		b = append(b, idx(a.idx)...)
	}
	return b
}

// wireType is the type segment of a kind in a write request.
func (k *kind) wireType() []byte {
	if k.name == "STRING" {
		return []byte{0xA0, 2, 0xCE, 0x0F}
	}
	return w16(int(k.code))
}

// typeMatches tells whether a reply's type segment stands for the same Go type.
func (k *kind) typeMatches(b []byte) (rest []byte, ok bool) {
	if k.name == "STRING" {
		if !bytes.HasPrefix(b, []byte{0xA0, 2, 0xCE, 0x0F}) {
			return nil, false
		}
		return b[4:], true
	}
	if len(b) < 2 || b[1] != 0 {
		return nil, false
	}
	for _, o := range kinds {
		if byte(o.code) == b[0] && o.name != "STRING" && reflect.TypeOf(o.zero) == reflect.TypeOf(k.zero) {
			return b[2:], true
		}
	}
	return nil, false
}

// instance is the number of a tag in the custom class 0xC8.
func (s *s01) instance(name string) int {
	var l []string
	for _, n := range s.names {
		l = append(l, n)
	}
	sort.Strings(l)
	for i, n := range l {
		if strings.EqualFold(n, name) {
			return i + 1
		}
	}
	return 0
}

// ---------------------------------------------------------------- the model

// convert is what becomes of a value of kind k in an array of kind to.
func (k *kind) convert(b []byte, to *kind) ([]byte, bool) {
	from, target := reflect.TypeOf(k.zero), reflect.TypeOf(to.zero)
	if from == target {
		return b, true
	}
	class := func(t reflect.Type) int {
		switch t.Kind() {
		case reflect.Bool:
			return 0
		case reflect.String:
			return 1
		}
		return 2
	}
	if class(from) != 2 || class(target) != 2 {
		return nil, false
	}
	// the exact value
	x := new(big.Float).SetPrec(200)
	switch v := k.val(b).(type) {
	case float32, float64:
		f := reflect.ValueOf(v).Float()
		if math.IsNaN(f) || math.IsInf(f, 0) || (f == 0 && math.Signbit(f)) {
			switch to.zero.(type) {
			case float32:
				return le.AppendUint32(nil, math.Float32bits(float32(f))), true
			case float64:
				return le.AppendUint64(nil, math.Float64bits(f)), true
			}
			if f == 0 {
				// minus zero is zero
				return make([]byte, to.size), true
			}
			return nil, false
		}
		x.SetFloat64(f)
	default:
		rv := reflect.ValueOf(v)
		if rv.CanInt() {
			x.SetInt64(rv.Int())
		} else {
			x.SetUint64(rv.Uint())
		}
	}
	switch to.zero.(type) {
	case float32:
		f, _ := x.Float32()
		if math.IsInf(float64(f), 0) {
			return nil, false
		}
		if _, isf := k.zero.(float64); !isf && new(big.Float).SetFloat64(float64(f)).Cmp(x) != 0 {
			return nil, false
		}
		return le.AppendUint32(nil, math.Float32bits(f)), true
	case float64:
		f, acc := x.Float64()
		if acc != big.Exact {
			return nil, false
		}
		return le.AppendUint64(nil, math.Float64bits(f)), true
	}
	if !x.IsInt() {
		return nil, false
	}
	i, _ := x.Int(nil)
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(8*to.size))
	if target.Kind() >= reflect.Int && target.Kind() <= reflect.Int64 {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if i.Cmp(lo) < 0 || i.Cmp(hi) >= 0 {
		return nil, false
	}
	if i.Sign() < 0 {
		i.Add(i, new(big.Int).Lsh(big.NewInt(1), uint(8*to.size)))
	}
	out := make([]byte, 8)
	le.PutUint64(out, i.Uint64())
	return out[:to.size], true
}

// write applies a write to the model and tells whether it is to be accepted.
// whole is a write of a typed slice by the application, which replaces.
func (s *s01) write(a s01At, k *kind, v [][]byte, whole bool) bool {
	key := strings.ToLower(a.name)
	t, ok := s.tags[key]
	if !ok {
		if a.idx >= 0 {
			return false
		}
		s.tags[key] = &s01Tag{k, len(v) > 1 || whole, v}
		s.names[key] = key
		return true
	}
	if a.idx >= 0 && (!t.arr || a.idx+len(v) > len(t.v)) {
		return false
	}
	if a.idx < 0 && (whole || !t.arr) {
		*t = s01Tag{k, len(v) > 1 || whole, v}
		return true
	}
	var conv [][]byte
	for _, b := range v {
		w, ok := k.convert(b, t.k)
		if !ok {
			return false
		}
		conv = append(conv, w)
	}
	at := max(a.idx, 0)
	for len(t.v) < at+len(conv) {
		t.v = append(t.v, nil)
	}
	copy(t.v[at:], conv)
	return true
}

// read is what a read returns, nil when it is refused.
func (s *s01) read(a s01At) (*kind, [][]byte) {
	t, ok := s.tags[strings.ToLower(a.name)]
	if !ok || (a.idx >= 0 && !t.arr) {
		return nil, nil
	}
	at := max(a.idx, 0)
	if at >= len(t.v) || at+a.n > len(t.v) {
		return nil, nil
	}
	return t.k, t.v[at : at+a.n]
}

// ---------------------------------------------------------------- writing

// s01Write is one way to write.  It says whether the server accepted it; skip
// is for what can't be expressed that way.
type s01Write struct {
	name string
	do   func(s *s01, a s01At, k *kind, v [][]byte) (ok, skip bool)
}

func s01Payload(k *kind, v [][]byte) []byte {
	return cat(k.wireType(), w16(len(v)), bytes.Join(v, nil))
}

// primary tells whether the kind is the one the client writes its Go type as.
func (k *kind) primary() bool {
	t, _ := gologix.GoVarToCIPType(k.zero)
	return uint16(t) == k.code || (k.name == "ULINT")
}

var s01Writes = []s01Write{
	{"connected", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		return s.wr.ud(creq(0x4D, a.path(), s01Payload(k, v))).status == 0, false
	}},
	{"unconnected", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		return s.wr.p.rr(ucsend(route, creq(0x4D, a.path(), s01Payload(k, v)))).status == 0, false
	}},
	{"multi", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		m := s.wr.ud(multiReq(creq(0x4C, sym("by"), w16(1)), creq(0x4D, a.path(), s01Payload(k, v))))
		subs := s.subs(m, 2)
		s.compare("by-read in a multi service write", subs[0], s01At{"by", -1, 1})
		return subs[1].status == 0, false
	}},
	{"fragmented", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		m := s.wr.ud(multiReq(creq(0x53, a.path(), k.wireType(), w16(len(v)), w32(0), bytes.Join(v, nil))))
		return s.subs(m, 1)[0].status == 0, false
	}},
	{"attribute", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		n := s.instance(a.name)
		if a.idx >= 0 || len(v) != 1 || n == 0 {
			return false, true
		}
		return s.wr.p.rr(creq(0x10, cat(cls(0xC8, n), attrSeg(1)), s01Payload(k, v))).status == 0, false
	}},
	{"wrapped attribute", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		n := s.instance(a.name)
		if a.idx >= 0 || len(v) != 1 || n == 0 {
			return false, true
		}
		return s.wr.p.rr(ucsend(route, creq(0x10, cat(cls(0xC8, n), attrSeg(1)), s01Payload(k, v)))).status == 0, false
	}},
	{"client", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		if !k.primary() || len(v)*k.size > 3800 {
			return false, true
		}
		var x any = k.slice(v)
		if len(v) == 1 {
			x = k.val(v[0])
		}
		return s.client().Write(a.tag(), x) == nil, false
	}},
	{"client map", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		if !k.primary() || len(v)*k.size > 3800 {
			return false, true
		}
		var x any = k.slice(v)
		if len(v) == 1 {
			x = k.val(v[0])
		}
		return s.client().WriteMap(map[string]any{a.tag(): x}) == nil, false
	}},
	{"application", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		var x any = k.slice(v)
		if len(v) == 1 {
			x = k.val(v[0])
		}
		return s.p.TagWrite(a.tag(), x) == nil, false
	}},
	{"application slice", func(s *s01, a s01At, k *kind, v [][]byte) (bool, bool) {
		if len(v) != 1 {
			return false, true
		}
		return s.p.TagWrite(a.tag(), k.slice(v)) == nil, false
	}},
}

// subs splits a multi service reply.
func (s *s01) subs(m mreply, n int) []mreply {
	b := m.data
	if len(b) < 2+2*n || int(le.Uint16(b)) != n {
		s.c.Fail("multi", "multi service reply %v for %d requests", m, n)
	}
	var r []mreply
	for i := 0; i < n; i++ {
		from, to := int(le.Uint16(b[2+2*i:])), len(b)
		if i+1 < n {
			to = int(le.Uint16(b[4+2*i:]))
		}
		if from > to || to > len(b) {
			s.c.Fail("multi", "multi service reply %v", m)
		}
		sm, err := parseMR(b[from:to])
		if err != nil {
			s.c.Fail("multi", "multi service reply %v: %v", m, err)
		}
		r = append(r, sm)
	}
	return r
}

// ---------------------------------------------------------------- reading

// compare checks a raw reply to a read.
func (s *s01) compare(how string, m mreply, a s01At) {
	k, want := s.read(a)
	if k == nil {
		if m.status == 0 {
			s.c.Fail("accepted:"+how, "after %v a %s of %v is answered with %v, it should be refused", s.log, how, a, m)
		}
		return
	}
	if m.status != 0 {
		s.c.Fail("refused:"+how, "after %v a %s of %v is refused with %v", s.log, how, a, m)
	}
	data, ok := k.typeMatches(m.data)
	if !ok || !bytes.Equal(data, bytes.Join(want, nil)) {
		s.c.Fail("value:"+how, "after %v a %s of %v is answered with\n% x, the %ss written are\n% x", s.log, how, a, m.data, k.name, bytes.Join(want, nil))
	}
}

// s01Reads are the ways to read.
func (s *s01) reads(a s01At) {
	c := s.c
	req := creq(0x4C, a.path(), w16(a.n))
	s.compare("read", s.rd.ud(req), a)
	s.compare("unconnected read", s.rd.p.rr(ucsend(route, req)), a)
	by := s01At{"by", -1, 1}
	subs := s.subs(s.rd.ud(multiReq(creq(0x4C, by.path(), w16(1)), req, creq(0x52, a.path(), w16(a.n), w32(0)))), 3)
	s.compare("neighbour of a read", subs[0], by)
	s.compare("read in a multi service packet", subs[1], a)
	s.compare("fragmented read in a multi service packet", subs[2], a)
	s.compare("fragmented read", s.rd.ud(creq(0x52, a.path(), w16(a.n), w32(0))), a)
	k, want := s.read(a)
	// from an offset
	if k != nil && a.n > 1 {
		m := s.rd.ud(creq(0x52, a.path(), w16(a.n), w32(uint32(k.size))))
		data, ok := k.typeMatches(m.data)
		if m.status != 0 || !ok || !bytes.Equal(data, bytes.Join(want[1:], nil)) {
			c.Fail("value:offset", "after %v a fragmented read of %v from offset %d is answered with %v, the rest is % x", s.log, a, k.size, m, bytes.Join(want[1:], nil))
		}
	}
	if n := s.instance(a.name); n > 0 && a.idx < 0 && a.n == 1 {
		s.compare("attribute read", s.rd.p.rr(creq(0x0E, cat(cls(0xC8, n), attrSeg(1)))), a)
		s.compare("wrapped attribute read", s.rd.p.rr(ucsend(route, creq(0x0E, cat(cls(0xC8, n), attrSeg(1))))), a)
	}
	// the application
	got, err := s.p.TagRead(a.tag(), int16(a.n))
	s.compareGo("TagRead", a, got, err)
	c.Trans(8)
}

// compareGo checks the result of a read in Go.
func (s *s01) compareGo(how string, a s01At, got any, err error) {
	k, want := s.read(a)
	if k == nil {
		if err == nil {
			s.c.Fail("accepted:"+how, "after %v %s of %v returns %v, it should be refused", s.log, how, a, got)
		}
		return
	}
	if err != nil {
		s.c.Fail("refused:"+how, "after %v %s of %v returns %v", s.log, how, a, err)
	}
	var l []any
	if rv := reflect.ValueOf(got); rv.Kind() == reflect.Slice {
		l = elems(got)
	} else {
		l = []any{got}
	}
	ok := len(l) == len(want)
	for i := 0; ok && i < len(l); i++ {
		ok = same(l[i], k.val(want[i]))
	}
	if !ok {
		s.c.Fail("value:"+how, "after %v %s of %v returns %T %v, not %v", s.log, how, a, got, got, k.slice(want))
	}
}

// clientReads reads with the client in each of its ways.
func (s *s01) clientReads(a s01At) {
	k, want := s.read(a)
	cl := s.client()
	if k == nil {
		var x int32
		if err := cl.Read(a.tag(), &x); err == nil && a.n == 1 {
			s.c.Fail("accepted:Client.Read", "after %v Client.Read of %v returns %v, it should fail", s.log, a, x)
		}
		return
	}
	if a.n == 1 {
		p := k.newPtr()
		err := cl.Read(a.tag(), p)
		s.compareGo("Client.Read", a, deref(p), err)
	}
	if k.name != "BOOL" {
		p := k.newSlice(a.n)
		err := cl.Read(a.tag(), p)
		s.compareGo("Client.Read of a slice", a, p, err)
	}
	if k.name != "BOOL" || a.n == 1 {
		if k.name != "STRING" {
			v, err := cl.Read_single(a.tag(), k.cip, uint16(a.n))
			s.compareGo("Client.Read_single", a, v, err)
		}
		if a.n*k.size > 60000 {
			return // one reply has to hold it
		}
		l, err := cl.ReadList([]string{"by", a.tag()}, []any{int32(0), k.zero}, []int{1, a.n})
		if err == nil && len(l) == 2 {
			s.compareGo("Client.ReadList", a, l[1], nil)
			s.compareGo("Client.ReadList of a neighbour", s01At{"by", -1, 1}, l[0], nil)
		} else {
			s.compareGo("Client.ReadList", a, nil, fmt.Errorf("%v, %d values", err, len(l)))
		}
	}
	_ = want
	s.c.Trans(4)
}

// all compares every tag of the model with the provider.
func (s *s01) all() {
	s.p.Mutex.Lock()
	data := s.p.Data
	s.p.Mutex.Unlock()
	if len(data) != len(s.tags) {
		s.c.Fail("tags", "after %v the provider has %d tags, not %d: %v", s.log, len(data), len(s.tags), data)
	}
	var names []string
	for n := range s.tags {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		s.compareGo("the provider's data", s01At{n, -1, len(s.tags[n].v)}, data[s.names[n]], nil)
		if got := reflect.ValueOf(data[s.names[n]]).Kind() == reflect.Slice; got != s.tags[n].arr {
			s.c.Fail("shape", "after %v the provider has %T in %s", s.log, data[s.names[n]], n)
		}
	}
}

// write performs one write with one form, and checks the outcome.
func (s *s01) perform(w s01Write, a s01At, k *kind, v [][]byte) bool {
	before := map[string]*s01Tag{}
	for n, t := range s.tags {
		before[n] = t.clone()
	}
	names := map[string]string{}
	for k, v := range s.names {
		names[k] = v
	}
	whole := strings.HasPrefix(w.name, "application") && (len(v) > 1 || w.name == "application slice")
	// the instance of a tag that is made now has to be known before
	got, skip := w.do(s, a, k, v)
	s.check()
	if skip {
		return false
	}
	want := s.write(a, k, v, whole)
	s.log = append(s.log, fmt.Sprintf("%s write of %d %s to %v (% x)", w.name, len(v), k.name, a, v[0]))
	if !want {
		s.tags, s.names = before, names
	}
	if got != want {
		verb := map[bool]string{true: "accepted", false: "refused"}
		s.c.Fail(verb[got]+":"+w.name, "%v: the last one is %s", s.log, verb[got])
	}
	s.all()
	s.c.Trans(1)
	for _, k := range slices.Sorted(maps.Keys(s.tags)) {
		s.c.State(k, fmt.Sprint(*s.tags[k]))
	}
	s.c.Validated()
	return true
}

// pick are n elements.
func (k *kind) pick(seed, n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, k.pats[(seed+i*3)%len(k.pats)])
	}
	return r
}

// s01Targets are what is written and read of an array of l elements.
func s01Targets(l int) []s01At {
	r := []s01At{{"sc", -1, 1}, {"Ar", -1, 1}, {"ar", -1, l}, {"ar", l - 1, 1}, {"AR", l, 1}, {"sc", 0, 1}, {"new", -1, 1}, {"new", 0, 1}, {"s.m", -1, 1}}
	if l > 1 {
		r = append(r, s01At{"t[1].m", l - 1, 1}, s01At{"t[1].m", -1, l}, s01At{"t[2].m", 0, 1}, s01At{"ar", 0, 1}, s01At{"ar", -1, l - 1}, s01At{"ar", 1, l - 1}, s01At{"ar", 1, l}, s01At{"nw", -1, l})
	}
	if l > 3 {
		r = append(r, s01At{"ar", 2, 2})
	}
	if l > 256 {
		r = append(r, s01At{"ar", 255, 2}, s01At{"ar", 256, 1}, s01At{"ar", 65536 + 2, 1})
	}
	return r
}

// s01Seq is every sequence of depth writes, each followed by reads of what it
// addressed and of everything else.
func s01Seq(k *kind, l, depth int, client bool) vk.Unit {
	return vk.Unit{Name: fmt.Sprintf("%s %d x%d", k.name, l, depth), Run: func(c *vk.C) {
		s := newS01(c, map[string]*s01Tag{
			"sc": {k, false, k.pick(1, 1)}, "Ar": {k, true, k.pick(2, l)}, "s.m": {k, false, k.pick(4, 1)}, "T[1].m": {k, true, k.pick(6, l)},
			"by": {kindByName("DINT"), false, [][]byte{{1, 2, 3, 0xF4}}},
			"ba": {kindByName("INT"), true, [][]byte{{1, 2}, {3, 4}}},
		})
		targets := s01Targets(l)
		for d := 0; d < depth; d++ {
			w := vk.Pick(c, s01Writes, "choice")
			a := vk.Pick(c, targets, "choice")
			k2 := k
			v := k2.pick(5+7*d, a.n)
			if !s.perform(w, a, k2, v) {
				return
			}
			s.reads(a)
			if client {
				s.clientReads(a)
			}
		}
		for _, a := range targets {
			s.reads(a)
		}
		s.reads(s01At{"ba", -1, 2})
		s.reads(s01At{"ba", 1, 1})
		if client {
			for _, a := range targets {
				if a.n > 0 {
					s.clientReads(a)
				}
			}
		}
		c.Distinct(fmt.Sprint(s.log))
	}}
}

// s01Patterns writes and reads every pattern of a kind in every way.
func s01Patterns(k *kind) vk.Unit {
	return vk.Unit{Name: k.name + " patterns", Run: func(c *vk.C) {
		s := newS01(c, map[string]*s01Tag{"sc": {k, false, k.pick(1, 1)}, "ar": {k, true, k.pick(2, 3)}, "by": {kindByName("DINT"), false, [][]byte{{1, 2, 3, 0xF4}}}})
		w := vk.Pick(c, s01Writes, "choice")
		a := vk.Pick(c, []s01At{{"sc", -1, 1}, {"ar", 1, 1}, {"new", -1, 1}}, "choice")
		for i := range k.pats {
			if !s.perform(w, a, k, k.pats[i:i+1]) {
				return
			}
			s.reads(a)
			if i%8 == 0 {
				s.clientReads(a)
			}
			s.log = nil
		}
		c.Distinct(w.name + a.String())
	}}
}

// s01Convert writes values of one kind to tags of another.
func s01Convert(from, to *kind) vk.Unit {
	return vk.Unit{Name: from.name + " to " + to.name, Run: func(c *vk.C) {
		s := newS01(c, map[string]*s01Tag{"ar": {to, true, to.pick(2, 3)}, "sc": {to, false, to.pick(3, 1)}, "by": {kindByName("DINT"), false, [][]byte{{1, 2, 3, 0xF4}}}})
		w := vk.Pick(c, s01Writes, "choice")
		a := vk.Pick(c, []s01At{{"ar", -1, 1}, {"ar", 1, 1}, {"ar", 1, 2}, {"ar", -1, 3}, {"sc", -1, 1}}, "choice")
		if a.n == 3 && w.name == "application" {
			return // replaces the array
		}
		for i := range from.pats {
			if from.size == 1 && len(from.pats) > 2 && !bytes.Contains([]byte{0, 1, 2, 3, 15, 126, 127, 128, 129, 254, 255}, from.pats[i]) {
				continue
			}
			if from.name == "STRING" && i > 3 {
				break
			}
			v := [][]byte{from.pats[i]}
			if a.n > 1 {
				// one that surely fits in front
				one := make([]byte, from.size)
				if from.name == "STRING" {
					one = plc.StringData("x")
				}
				v = [][]byte{one, from.pats[i]}
				if a.n == 3 {
					v = append(v, one)
				}
			}
			if !s.perform(w, a, from, v) {
				return
			}
			s.reads(a)
			if a.name == "sc" {
				s.tags["sc"] = &s01Tag{to, false, to.pick(3, 1)}
				s.p.TagWrite("sc", s.tags["sc"].goVal())
			}
			s.log = nil
		}
		c.Distinct(w.name + a.String())
	}}
}

// s01Large moves more than fits a reply.
func s01Large() vk.Unit {
	return vk.Unit{Name: "large", Run: func(c *vk.C) {
		k := kindByName(vk.Pick(c, []string{"DINT", "SINT", "LREAL", "STRING"}, "choice"))
		bytesTotal := vk.Pick(c, []int{63900, 64000, 64100, 65000, 66000, 130000, 200000}, "choice")
		n := bytesTotal / k.size
		if n > 32000 {
			c.Stop()
		}
		s := newS01(c, map[string]*s01Tag{"ar": {k, true, k.pick(2, n)}, "by": {kindByName("DINT"), false, [][]byte{{1, 2, 3, 0xF4}}}})
		want := bytes.Join(s.tags["ar"].v, nil)
		at := s01At{"ar", -1, n}
		var data []byte
		for i := 0; len(data) < len(want); i++ {
			m := s.rd.ud(creq(0x52, at.path(), w16(n), w32(uint32(len(data)))))
			b, ok := k.typeMatches(m.data)
			if !ok || (m.status != 0 && m.status != 6) || len(b) == 0 || (m.status == 0) != (len(data)+len(b) == len(want)) {
				c.Fail("fragments", "fragmented read of %d bytes: after %d bytes comes status %#x and %d bytes", len(want), len(data), m.status, len(m.data))
			}
			data = append(data, b...)
			c.Trans(1)
		}
		if !bytes.Equal(data, want) {
			c.Fail("fragments", "fragmented read of %d bytes of %s is wrong", len(want), k.name)
		}
		if k.name != "STRING" {
			s.clientReads(at)
		}
		c.Distinct(fmt.Sprint(k.name, n))
	}}
}

// s01Long writes and reads many elements in one unconnected request.
func s01Long() vk.Unit {
	return vk.Unit{Name: "long requests", Run: func(c *vk.C) {
		k := kindByName(vk.Pick(c, []string{"SINT", "INT", "DINT", "STRING", "LREAL"}, "choice"))
		n := vk.Pick(c, []int{1, 127, 128, 129, 255, 256, 257, 370, 511, 512, 513, 700, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 12000, 16383, 16384, 16385, 32000, 32700, 32767, 32768, 40000, 60000, 65535}, "choice")
		at := vk.Pick(c, []int{-1, 0, 1, 255, 256, 300}, "choice")
		way := vk.Pick(c, s01Writes, "choice")
		if n*k.size > 63900 || strings.HasPrefix(way.name, "client") || strings.HasSuffix(way.name, "attribute") || way.name == "application slice" {
			c.Stop()
		}
		l := n + max(at, 0) + 2
		s := newS01(c, map[string]*s01Tag{"ar": {k, true, k.pick(2, l)}, "by": {kindByName("DINT"), false, [][]byte{{1, 2, 3, 0xF4}}}})
		a := s01At{"ar", at, n}
		v := k.pick(11, n)
		if n <= math.MaxInt16 {
			if at < 0 && way.name == "application" {
				c.Stop() // replaces the array
			}
			if !s.perform(way, a, k, v) {
				return
			}
			s.compare("read", s.rd.ud(creq(0x4C, a.path(), w16(n))), a)
			s.compare("unconnected read", s.rd.p.rr(ucsend(route, creq(0x4C, a.path(), w16(n)))), a)
		} else {
			// more than a provider can be asked for: an error, or the values
			if m := s.rd.ud(creq(0x4C, a.path(), w16(n))); m.status == 0 {
				s.compare("read", m, a)
			}
			if !s.perform(way, a, k, v) {
				return
			}
		}
		s.compare("read of the first", s.rd.ud(creq(0x4C, sym("ar"), w16(1))), s01At{"ar", -1, 1})
		s.compare("read of the last", s.rd.ud(creq(0x4C, cat(sym("ar"), idx(l-1)), w16(1))), s01At{"ar", l - 1, 1})
		c.Distinct(k.name, n, at, way.name)
	}}
}

// s01Many is multi service packets of many requests.
func s01Many() vk.Unit {
	return vk.Unit{Name: "many requests in one packet", Run: func(c *vk.C) {
		n := vk.Pick(c, []int{1, 2, 16, 127, 128, 129, 200, 254, 255, 256, 257, 300, 512, 700, 1000}, "choice")
		mix := c.Choose(3, "choice")
		k := kindByName("DINT")
		s := newS01(c, map[string]*s01Tag{"ar": {k, true, k.pick(2, n)}, "by": {kindByName("DINT"), false, [][]byte{{1, 2, 3, 0xF4}}}})
		var reqs [][]byte
		for i := 0; i < n; i++ {
			a := s01At{"ar", i, 1}
			if mix == 2 || mix == 1 && i%3 == 0 {
				v := k.pick(5+i, 1)
				reqs = append(reqs, creq(0x4D, a.path(), s01Payload(k, v)))
				s.write(a, k, v, false)
				continue
			}
			reqs = append(reqs, creq(0x4C, a.path(), w16(1)))
		}
		m := s.rd.ud(multiReq(reqs...))
		for i, sub := range s.subs(m, n) {
			if reqs[i][0] == 0x4C {
				s.compare(fmt.Sprintf("read %d of %d in one packet", i, n), sub, s01At{"ar", i, 1})
			} else if sub.status != 0 || sub.svc != 0xCD {
				c.Fail("refused:many", "write %d of %d in one packet is answered with %v", i, n, sub)
			}
			c.Trans(1)
		}
		s.all()
		c.Distinct(n, mix)
	}}
}

// s01Foreign writes structures the server does not know: refused, no change.
func s01Foreign() vk.Unit {
	return vk.Unit{Name: "structures of another type", Run: func(c *vk.C) {
		k := kindByName(vk.Pick(c, []string{"STRING", "SINT", "DINT"}, "choice"))
		s := newS01(c, map[string]*s01Tag{"sc": {k, false, k.pick(1, 1)}, "ar": {k, true, k.pick(2, 5)}, "by": {kindByName("DINT"), false, [][]byte{{1, 2, 3, 0xF4}}}})
		a := vk.Pick(c, []s01At{{"sc", -1, 1}, {"ar", -1, 1}, {"ar", -1, 2}, {"ar", 1, 1}, {"ar", 1, 2}, {"ar", -1, 5}, {"nw", -1, 1}, {"nw", -1, 2}, {"sc", -1, 0}, {"ar", 2, 0}}, "choice")
		typ := vk.Pick(c, [][]byte{{0xA0, 2, 0xCF, 0x0F}, {0xA0, 2, 0xCE, 0x0E}, {0xA0, 2, 0, 0}, {0xA0, 2, 0x83, 0x0F}, {0xA0, 2, 0x0F, 0xCE}, {0xA0, 0}, {0xA0, 1, 0xCE}, {0xA0, 4, 0x83, 0x0F, 0xCE, 0x0F}, {0x77, 0}, {0, 0}}, "choice")
		body := vk.Pick(c, []int{0, 1, 88, 12}, "choice")
		b := make([]byte, body*a.n)
		for i := 0; i < a.n && body == 88; i++ {
			copy(b[i*88:], plc.StringData("changed"))
		}
		req := creq(0x4D, a.path(), typ, w16(a.n), b)
		var m mreply
		switch c.Choose(4, "choice") {
		case 0:
			m = s.wr.ud(req)
		case 1:
			m = s.wr.p.rr(ucsend(route, req))
		case 2:
			m = s.subs(s.wr.ud(multiReq(creq(0x4C, sym("by"), w16(1)), req)), 2)[1]
		case 3:
			m = s.subs(s.wr.ud(multiReq(creq(0x53, a.path(), typ, w16(a.n), w32(0), b))), 1)[0]
		}
		s.check()
		if m.status == 0 {
			c.Fail("accepted:foreign", "a write of %d elements of type % x (%d bytes) to %v is accepted: %v", a.n, typ, len(b), a, m)
		}
		s.all()
		c.Trans(1)
		c.Distinct(fmt.Sprintf("% x", req))
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID: "S01", Level: "model_checking",
		Rule: "Every sequence of up to two writes (of three on one-element tags in the thorough tier), each by any of ten ways (connected, unconnected, multi service and fragmented write, the attribute bridge directly or wrapped, two client calls, the application) to any of up to 18 targets (whole tags, elements, ranges, beyond the end, new names, other case), for every data type and array lengths including those whose count bytes look like path segments. After every write the provider's data equals a reference model, and every way to read (seven requests, TagRead, three client calls) returns the written values. Requests of many elements, packets of many requests, and writes of unknown structures. All bit patterns of every type, and every pair of written type and array type with boundary values. A case is non-trivial when it has a distinct sequence of writes that could all be expressed.",
		Units: func(tier string) []vk.Unit {
			var us []vk.Unit
			for _, k := range kinds {
				some := k.name == "DINT" || k.name == "STRING" || k.name == "BYTE" || k.name == "BOOL"
				for _, l := range []int{1, 2, 5} {
					d := 1
					if some || tier == "thorough" {
						d = 2
					}
					if tier == "thorough" && k.name == "DINT" && l == 1 {
						d = 3
					}
					u := s01Seq(k, l, d, l == 2)
					if d == 3 {
						us = append(us, vk.Shard(u, 4, 2)...)
					} else {
						us = append(us, u)
					}
				}
				for _, l := range []int{40, 41, 42, 145, 300} {
					us = append(us, s01Seq(k, l, 1, true))
				}
				us = append(us, s01Patterns(k))
				for _, to := range kinds {
					if to != k {
						us = append(us, s01Convert(k, to))
					}
				}
			}
			return append(us, s01Large(), s01Long(), s01Many(), s01Foreign())
		},
		Bounds:      map[string]any{"writes": "2, thorough also 3 on tags of one element", "kinds": len(kinds), "lengths": []int{1, 2, 5, 40, 41, 42, 145, 300}, "write_forms": len(s01Writes)},
		Assumptions: []string{"one session writes and another reads, one request at a time (S05 decides concurrency)", "a write of more elements than an array has and a change of a scalar into an array by a request are not enumerated"},
		QuickBudget: 150 * time.Second, ThoroughBudget: 12 * time.Minute,
	})
}
