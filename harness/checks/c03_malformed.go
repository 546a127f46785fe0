package checks

import (
	"bytes"
	"fmt"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
)

// C03: malformed or truncated replies never crash, hang or bloat the client.
// C04 (c04_status.go) uses the same rig.

// moreOps are further operations for the reply checks.
var moreOps = []cop{
	{"Connect", nil, false},
	{"Disconnect", nil, false},
	{"Read any", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		var v any = 17
		err := cl.Read(fmt.Sprintf("D%d", id), &v)
		return cmpRead(err, v, int32(1000+8*id), 17)
	}, true},
	{"Read bools", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, before := make([]bool, 64), make([]bool, 64)
		v[0], before[0] = true, true
		err := cl.Read(fmt.Sprintf("DW%d[3]", id), v)
		want := make([]bool, 64)
		for i := range want {
			want[i] = wantArray(id, 5)[3+i/32]>>(i%32)&1 != 0
		}
		return cmpRead(err, v, want, before)
	}, true},
	{"Read strings", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		p.FragBytes = 0
		v, before := []string{"x", "y"}, []string{"x", "y"}
		err := cl.Read(fmt.Sprintf("SA%d[1]", id), v)
		return cmpRead(err, v, []string{fmt.Sprintf("el-1-%d", id), fmt.Sprintf("el-2-%d", id)}, before)
	}, true},
	{"Read structs", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, before := []opStruct{{A: -1}, {A: -2}}, []opStruct{{A: -1}, {A: -2}}
		err := cl.Read(fmt.Sprintf("UA%d[0]", id), v)
		return cmpRead(err, v, []opStruct{opStructVal(id), opStructVal(id + 1)}, before)
	}, true},
	{"ReadMulti structs", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		p.FragBytes = 0
		type T struct {
			U  opStruct `gologix:"U{0}"`
			SA []string `gologix:"SA{0}[1]"`
			F  float32  `gologix:"R{0}"`
		}
		mk := func() T { return T{opStruct{A: -1}, []string{"x", "y"}, -1} }
		v := mk()
		err := cl.ReadMulti(&v, id)
		return cmpRead(err, v, T{opStructVal(id), []string{fmt.Sprintf("el-1-%d", id), fmt.Sprintf("el-2-%d", id)}, float32(id) + 0.25}, mk())
	}, true},
	{"Write struct", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		t := fmt.Sprintf("WU%d", id)
		before := append([]byte(nil), p.Tags[strings.ToLower(t)].Data...)
		v := OpType(opStructVal(id + 4))
		err := cl.Write(t, v)
		var b bytes.Buffer
		gologix.Pack(&b, v)
		return cmpWrite(err, p, t, before, b.Bytes())
	}, true},
	{"WriteMap 3", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		m := map[string]any{}
		var w [3]string
		for i, k := range []string{"W%d", "WA%d[1]", "WS%d"} {
			w[i] = fmt.Sprintf(k, id)
		}
		m[w[0]], m[w[1]], m[w[2]] = int32(6100+id), []int16{7, 8}, fmt.Sprintf("map-%d", id)
		err := cl.WriteMap(m)
		d := func(n string) []byte { return p.Tags[fmt.Sprintf(n, id)].Data }
		if err == nil && (le.Uint32(d("w%d")) != uint32(6100+id) || d("wa%d")[2] != 7 || d("wa%d")[4] != 8 || !bytes.Equal(d("ws%d"), plc.StringData(fmt.Sprintf("map-%d", id)))) {
			return outcome{wrong: "WriteMap did not write all its tags"}
		}
		return outcome{err: err}
	}, true},
	{"GetTemplateInstanceAttr", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.GetTemplateInstanceAttr(0x123)
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, []int{int(v.MemberCount), int(v.SizeBytes), int(v.Handle)}, []int{4, 16, int(p.Tags["u0"].UDT.Handle)}, nil)
	}, false},
	{"ReadPacked", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := gologix.ReadPacked[opStruct](cl, fmt.Sprintf("U%d", id))
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, v, opStructVal(id), opStruct{})
	}, true},
	{"DataTableBuffer typed", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		b, err := cl.NewDataTableBuffer()
		if err != nil {
			return outcome{err: err}
		}
		g := gologix.NewTagGroup(gologix.TagDef{Name: "A{0}[1]", Type: gologix.CIPTypeDINT, Elements: 2}, gologix.TagDef{Name: "R{0}", Type: gologix.CIPTypeREAL})
		if err := b.AddTagGroup(g, id); err != nil {
			return outcome{wrong: "AddTagGroup: " + err.Error()}
		}
		res, err := b.ReadAllTyped()
		if err != nil {
			return outcome{err: err}
		}
		w := wantArray(id, 3)
		o := cmpRead(nil, res.Raw(), map[string]any{fmt.Sprintf("A%d[1]", id): []any{w[1], w[2]}, fmt.Sprintf("R%d", id): float32(id) + 0.25}, nil)
		if o.wrong != "" {
			return o
		}
		return outcome{err: b.Close()}
	}, true},
}

// OpType has the name of the controller's type.
type OpType opStruct

// replyPLC is opsPLC with more tags.
func replyPLC() *plc.PLC {
	p := opsPLC(1)
	u := p.Tags["u0"].UDT
	sa := p.AddTag(&plc.Tag{Name: "SA0", UDT: plc.StringUDT, Dims: []int{4}, Instance: 800})
	for i := 0; i < 4; i++ {
		copy(sa.Data[88*i:], plc.StringData(fmt.Sprintf("el-%d-0", i)))
	}
	ua := p.AddTag(&plc.Tag{Name: "UA0", UDT: u, Dims: []int{2}, Instance: 803})
	for i := 0; i < 2; i++ {
		var b bytes.Buffer
		gologix.Pack(&b, opStructVal(i))
		copy(ua.Data[16*i:], b.Bytes())
	}
	u.RealHandle()
	dw := p.AddTag(&plc.Tag{Name: "DW0", Type: 0xD3, Dims: []int{8}, Instance: 806})
	for i := 0; i < 8; i++ {
		le.PutUint32(dw.Data[4*i:], uint32(100000+i))
	}
	return p
}

// replyRig runs one operation whose replies can be changed.
type replyRig struct {
	*rig
	frames int // of the operation
	armed  bool
	alter  func(k int, frame, reply []byte) []byte
	limit  int
}

type endless struct{}

func newReplyRig(c *vk.C) *replyRig {
	r := &replyRig{rig: newRig(c, replyPLC()), limit: 200}
	r.setup = func(k *plc.Conn) {
		k.OnFrame = func(n int, frame, reply []byte) []byte {
			if !r.armed {
				return reply
			}
			i := r.frames
			r.frames++
			if i >= r.limit {
				panic(endless{})
			}
			if r.alter != nil {
				return r.alter(i, frame, reply)
			}
			return reply
		}
	}
	return r
}

// run does the operation with the alterations armed.
func (r *replyRig) run(c *vk.C, op *cop) (o outcome, ended bool) {
	if op.name != "Connect" {
		r.connect(c)
	}
	if strings.HasPrefix(op.name, "DataTable") {
		c.Count("table", 1)
	}
	r.armed = true
	defer func() {
		r.armed = false
		if e := recover(); e != nil {
			if _, ok := e.(endless); ok {
				return
			}
			c.Repanic(e, string(debug.Stack()))
		}
	}()
	switch op.name {
	case "Connect":
		o.err = r.cl.Connect()
	case "Disconnect":
		o.err = r.cl.Disconnect()
	default:
		o = op.run(r.cl, r.p, 0)
	}
	return o, true
}

// healthy checks that the client works with a controller that does.
func (r *replyRig) healthy(c *vk.C, what string, tries int) {
	var err error
	for i := 0; i < tries; i++ {
		if o := opByName("GetAttrSingle").run(r.cl, r.p, 0); o.err == nil {
			if o.wrong != "" {
				c.Fail("afterwards-wrong:"+what, "the next operation returns a wrong result: %s", o.wrong)
			}
			return
		} else {
			err = o.err
		}
	}
	c.Fail("afterwards:"+what, "the client does not recover, operation %d afterwards: %v", tries, err)
}

func replyOps() []cop { return append(append([]cop(nil), clientOps...), moreOps...) }

// nominal learns the replies of the operation.
func nominal(c *vk.C, op *cop, prep func(*replyRig)) [][]byte {
	r := newReplyRig(c)
	if prep != nil {
		prep(r)
	}
	var reps [][]byte
	r.alter = func(k int, frame, reply []byte) []byte {
		reps = append(reps, append([]byte(nil), reply...))
		return reply
	}
	o, ended := r.run(c, op)
	if !ended || o.err != nil || o.wrong != "" {
		c.Fail("nominal:"+op.name, "%s against a healthy controller: %v %s", op.name, o.err, o.wrong)
	}
	return reps
}

// setLens makes the frame's lengths those of its contents: the encapsulation
// length, and the length of the last item.
func setLens(f []byte, item bool) []byte {
	if len(f) >= 4 {
		le.PutUint16(f[2:], uint16(len(f)-24))
	}
	if !item {
		return f
	}
	if off := lastItem(f); off > 0 {
		le.PutUint16(f[off-2:], uint16(len(f)-off))
	}
	return f
}

// lastItem is the offset of the last item's data (0: none).
func lastItem(f []byte) int {
	if len(f) < 24 {
		return 0
	}
	off := 24
	switch cmdOf(f) {
	case 0x6F, 0x70:
		off = 30
	case 0x65:
		return 0
	}
	if len(f) < off+2 {
		return 0
	}
	n := int(le.Uint16(f[off:]))
	off += 2
	at := 0
	for i := 0; i < n; i++ {
		if len(f) < off+4 {
			return 0
		}
		l := int(le.Uint16(f[off+2:]))
		at = off + 4
		off = at + l
	}
	if at > len(f) {
		return 0
	}
	return at
}

// typed operations return what the reply holds or fail; a shortened reply never
// makes them succeed with something else.
func typedOp(name string) bool {
	return strings.HasPrefix(name, "Read") || strings.HasPrefix(name, "DataTable") || strings.HasPrefix(name, "Get")
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

const allocLimit = 2 << 20

type mutation struct {
	name string
	// n positions in a reply of this length; v alternatives at each.
	n     func(l int) int
	v     int
	apply func(f []byte, pos, v int) []byte
	cut   bool // the reply is only shortened
}

func mutations(tier string) []mutation {
	idx := func(l int) int { return l }
	// the values that matter most: boundaries, lengths, a template of itself
	bytesVals := []func(b byte) byte{
		func(b byte) byte { return 0 }, func(b byte) byte { return 0xFF }, func(b byte) byte { return b + 1 }, func(b byte) byte { return b - 1 },
		func(b byte) byte { return b ^ 0x80 }, func(b byte) byte { return 6 }, func(b byte) byte { return 0x7F }, func(b byte) byte { return b ^ 1 },
	}
	nb := 256
	if tier == "pair" {
		nb = len(bytesVals)
	}
	ms := []mutation{
		{"cut", idx, 2, func(f []byte, pos, v int) []byte { return f[:pos] }, true},
		{"cut, length adjusted", func(l int) int { return max(l-24, 0) }, 2, func(f []byte, pos, v int) []byte { return setLens(f[:24+pos], v == 1) }, true},
		{"extra bytes", func(int) int { return 5 }, 4, func(f []byte, pos, v int) []byte {
			n := []int{1, 2, 4, 64, 600}[pos]
			x := bytes.Repeat([]byte{[]byte{0, 0xFF}[v%2]}, n)
			return setLens(append(f, x...), v/2 == 1)
		}, false},
		{"duplicate", func(int) int { return 1 }, 1, func(f []byte, pos, v int) []byte { return append(f, f...) }, false},
		{"byte", idx, nb, func(f []byte, pos, v int) []byte {
			if nb == 256 {
				f[pos] ^= byte(v)
			} else {
				f[pos] = bytesVals[v](f[pos])
			}
			return f
		}, false},
		{"16 bits", func(l int) int { return l - 1 }, 9, func(f []byte, pos, v int) []byte {
			x := le.Uint16(f[pos:])
			le.PutUint16(f[pos:], []uint16{0, 0xFFFF, 0x8000, 0x7FFF, x + 1, uint16(len(f)), uint16(len(f) - pos), 0x0100, 0x8123}[v])
			return f
		}, false},
		{"32 bits", func(l int) int { return l - 3 }, 4, func(f []byte, pos, v int) []byte {
			le.PutUint32(f[pos:], []uint32{0xFFFFFFFF, 0x80000000, 0x7FFFFFFF, 0x01000000}[v])
			return f
		}, false},
	}
	return ms
}

func malformedUnit(op cop, tier string, pair bool) vk.Unit {
	var reps [][]byte
	if pair {
		tier = "pair"
	}
	muts := mutations(tier)
	name := op.name
	if pair {
		name += ", two changes"
	}
	return vk.Unit{Name: name, Run: func(c *vk.C) {
		if reps == nil {
			reps = nominal(c, &op, nil)
		}
		type change struct {
			k, pos, v int
			m         *mutation
		}
		var chs []change
		k := c.Choose(len(reps), "reply")
		if pair {
			// two fields of one reply, each with the values that matter
			ln := len(reps[k])
			first := 0
			for i := 0; i < 2; i++ {
				m := &muts[5-i] // 16 bits, then a byte
				pos := first + c.Choose(max(ln-1-first, 1), "position")
				if pos >= ln-1 {
					c.Stop()
				}
				chs = append(chs, change{k, pos, c.Choose(min(m.v, 8), "value"), m})
				first = pos + 2 - i
				if first >= ln-1 {
					break
				}
			}
		} else {
			m := &muts[c.Choose(len(muts), "kind")]
			n := m.n(len(reps[k]))
			if n <= 0 {
				c.Stop()
			}
			pos := c.Choose(n, "position")
			chs = append(chs, change{k, pos, c.Choose(m.v, "value"), m})
		}
		every := !pair && len(reps) > 1 && c.Bool("every later reply") || !pair && len(reps) == 1 && chs[0].m.name == "byte" && c.Bool("every reply")
		eof := chs[0].m.cut && chs[0].v == 1 && chs[0].m.name == "cut"
		r := newReplyRig(c)
		received := 0
		changed := 0
		r.alter = func(i int, frame, reply []byte) []byte {
			for _, ch := range chs {
				if i == ch.k || every && i > ch.k {
					if ch.pos < ch.m.n(len(reply)) {
						reply = ch.m.apply(append([]byte(nil), reply...), ch.pos, ch.v)
						changed++
						if eof {
							r.conn.EOF = true
						}
					}
				}
			}
			received += len(reply)
			return reply
		}
		what := op.name
		before := allocated()
		o, ended := r.run(c, &op)
		used := allocated() - before
		c.Trans(r.frames)
		c.Distinct(op.name, k, chs[0].m.name, chs[0].pos, chs[0].v, len(chs))
		c.State(op.name, o.err == nil, r.frames)
		if changed == 0 {
			c.Stop()
		}
		c.Validated()
		desc := func() string {
			s := ""
			for _, ch := range chs {
				s += fmt.Sprintf("%s of reply %d at %d value %d; ", ch.m.name, ch.k, ch.pos, ch.v)
			}
			if every {
				s += "and every later reply"
			}
			return s
		}
		c.Sample(func() string { return fmt.Sprintf("%s with %s: %v", op.name, desc(), o.err) })
		if !ended {
			c.Fail("endless:"+what, "%s with %s: still sending after %d requests", op.name, desc(), r.limit)
		}
		if used > allocLimit+100*uint64(received) {
			c.Fail("memory:"+what, "%s with %s: %d bytes received, %d bytes allocated", op.name, desc(), received, used)
		}
		if o.wrong != "" && chs[0].m.cut && !every && typedOp(op.name) && !strings.HasPrefix(o.wrong, "result is cut") && !(strings.HasPrefix(op.name, "GetAttrList") || op.name == "GenericCIPMessage") {
			c.Fail("cut-success:"+what, "%s with %s succeeds: %s", op.name, desc(), o.wrong)
		}
		r.alter = nil
		r.healthy(c, what, 3)
	}}
}

func init() {
	vk.Register(&vk.Check{
		ID:    "C03",
		Level: "model_checking",
		Rule:  "one case is one client operation against a controller one of whose replies (or every reply from one on) is changed in one place: cut at every length with and without adjusted length fields and with the connection closed or silent afterwards, every byte, every 16 and 32 bit field set to each boundary value, extra bytes, a duplicate. Each case is non-trivial: the real client parses the changed reply, then must still work with a healthy controller.",
		Units: func(tier string) []vk.Unit {
			var us []vk.Unit
			for _, op := range replyOps() {
				u := malformedUnit(op, tier, false)
				us = append(us, vk.Shard(u, 4, 3)...)
				if tier == "thorough" {
					us = append(us, vk.Shard(malformedUnit(op, tier, true), 8, 3)...)
				}
			}
			return us
		},
		Bounds: map[string]any{
			"operations":    "every exported operation of Client, Connect and Disconnect included",
			"changes":       "one place per reply (quick), also two fields at once (thorough); in one reply or in every reply from it on",
			"byte values":   "all 256 at every position (8 when two fields change)",
			"memory":        "2 MB + 100 x the bytes received",
			"endless":       "200 requests per operation",
			"reply payload": "that of the reference controller's population (about 20 tags, 2 programs, 1 template)",
		},
		Assumptions: []string{"a read with no data pending is a socket timeout (the socket timeout itself is C02's)"},
		MaxProcs:    1,
		QuickBudget: 200 * time.Second, ThoroughBudget: 13 * time.Minute,
		HangAfter: 60 * time.Second,
	})
}
