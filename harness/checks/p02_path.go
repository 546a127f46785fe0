package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/vk"
)

// reference encodings, written from the CIP specification (Vol 1, C-1.4):
// logical segments are 0x20 class, 0x24 instance, 0x28 member/element, 0x30
// attribute; +0 8-bit, +1 16-bit (pad byte), +2 32-bit (pad byte).
func refLogical(base byte, v uint64) []byte {
	switch {
	case v < 256:
		return []byte{base, byte(v)}
	case v < 65536:
		b := []byte{base + 1, 0, 0, 0}
		binary.LittleEndian.PutUint16(b[2:], uint16(v))
		return b
	default:
		b := []byte{base + 2, 0, 0, 0, 0, 0}
		binary.LittleEndian.PutUint32(b[2:], uint32(v))
		return b
	}
}

func refSymbol(name string) []byte {
	b := append([]byte{0x91, byte(len(name))}, name...)
	if len(name)%2 == 1 {
		b = append(b, 0)
	}
	return b
}

// boundary32 lists the values where an encoding of a 32-bit number can change.
func boundary32(dense int) []uint64 {
	var r []uint64
	for i := 0; i < dense; i++ {
		r = append(r, uint64(i))
	}
	for s := 1; s <= 32; s++ {
		for d := -2; d <= 2; d++ {
			v := int64(1)<<s + int64(d)
			if v >= int64(dense) && v <= 0xFFFFFFFF {
				r = append(r, uint64(v))
			}
		}
	}
	for _, v := range []uint64{0x00010203, 0x01020304, 0x80000000, 0xFFFEFDFC, 0x12345678} {
		r = append(r, v)
	}
	return r
}

type lenBytes interface {
	Bytes() []byte
	Len() int
}

func checkSeg(c *vk.C, kind string, v uint64, s lenBytes, want []byte) bool {
	got := s.Bytes()
	if !bytes.Equal(got, want) {
		c.Report("encode:"+kind+segClass(v), "%s %d encodes to % x, want % x", kind, v, got, want)
		return false
	}
	if s.Len() != len(got) {
		c.Report("len:"+kind+segClass(v), "%s %d: Len()=%d but %d bytes are produced", kind, v, s.Len(), len(got))
		return false
	}
	return true
}

func segClass(v uint64) string {
	switch {
	case v < 256:
		return ":8bit"
	case v < 65536:
		return ":16bit"
	}
	return ":32bit"
}

func p02Units(tier string) []vk.Unit {
	var us []vk.Unit
	const block = 8192
	// every 16-bit value of the 16-bit segments
	for b := 0; b < 65536; b += block {
		lo := b
		us = append(us, vk.Unit{Name: fmt.Sprintf("class/attribute %d..%d", lo, lo+block-1), Run: func(c *vk.C) {
			for v := lo; v < lo+block; v++ {
				x := uint64(v)
				cl := gologix.CIPClass(v)
				at := gologix.CIPAttribute(v)
				if !checkSeg(c, "class", x, cl, refLogical(0x20, x)) || !checkSeg(c, "attribute", x, at, refLogical(0x30, x)) {
					return
				}
				// decoding is the inverse, and consumes exactly the segment
				r := bytes.NewReader(append(cl.Bytes(), 0xEE))
				var cl2 gologix.CIPClass
				if err := cl2.Read(r); err != nil || cl2 != cl || r.Len() != 1 {
					c.Fail("decode:class"+segClass(x), "class %d decodes to %d err=%v with %d bytes left", v, cl2, err, r.Len())
				}
				r = bytes.NewReader(append(at.Bytes(), 0xEE))
				var at2 gologix.CIPAttribute
				if err := at2.Read(r); err != nil || at2 != at || r.Len() != 1 {
					c.Fail("decode:attribute"+segClass(x), "attribute %d decodes to %d err=%v with %d bytes left", v, at2, err, r.Len())
				}
				for cut := 0; cut < cl.Len(); cut++ {
					var t gologix.CIPClass
					if err := t.Read(bytes.NewReader(cl.Bytes()[:cut])); err == nil {
						c.Fail("decode-short:class", "class %d decodes from %d of %d bytes", v, cut, cl.Len())
					}
				}
				for cut := 0; cut < at.Len(); cut++ {
					var t gologix.CIPAttribute
					if err := t.Read(bytes.NewReader(at.Bytes()[:cut])); err == nil {
						c.Fail("decode-short:attribute", "attribute %d decodes from %d of %d bytes", v, cut, at.Len())
					}
				}
			}
			c.Eval(2*block - 1)
			c.Trans(2 * block)
			c.Distinct("ca", lo)
		}})
	}
	dense := 70000
	vals := boundary32(dense)
	for b := 0; b < len(vals); b += block {
		hi := min(b+block, len(vals))
		part := vals[b:hi]
		us = append(us, vk.Unit{Name: fmt.Sprintf("instance/element block %d", b/block), Run: func(c *vk.C) {
			for _, v := range part {
				in := gologix.CIPInstance(v)
				el := gologix.CIPElement(v)
				if !checkSeg(c, "instance", v, in, refLogical(0x24, v)) || !checkSeg(c, "element", v, el, refLogical(0x28, v)) {
					return
				}
				r := bytes.NewReader(append(in.Bytes(), 0xEE))
				var in2 gologix.CIPInstance
				if err := in2.Read(r); err != nil || in2 != in || r.Len() != 1 {
					c.Fail("decode:instance"+segClass(v), "instance %d decodes to %d err=%v with %d bytes left", v, in2, err, r.Len())
				}
				for cut := 0; cut < in.Len(); cut++ {
					var t gologix.CIPInstance
					if err := t.Read(bytes.NewReader(in.Bytes()[:cut])); err == nil {
						c.Fail("decode-short:instance", "instance %d decodes from %d of %d bytes", v, cut, in.Len())
					}
				}
			}
			c.Eval(2*len(part) - 1)
			c.Trans(2 * len(part))
			c.Distinct("ie", part[0])
		}})
	}
	us = append(us, vk.Unit{Name: "address/port", Run: func(c *vk.C) {
		v := c.Choose(256, "value")
		checkSeg(c, "address", uint64(v), gologix.CIPAddress(v), []byte{byte(v)})
		checkSeg(c, "port", uint64(v), gologix.CIPPort{PortNo: byte(v)}, []byte{byte(v)})
		if v != 0 {
			checkSeg(c, "port-ext", uint64(v), gologix.CIPPort{PortNo: 0x11, ExtensionLen: byte(v)}, []byte{0x11, byte(v)})
		}
		c.Distinct(v)
		c.Trans(3)
	}})
	// every segment-type byte the decoders may meet
	us = append(us, vk.Unit{Name: "decode foreign segment types", Run: func(c *vk.C) {
		t := c.Choose(256, "type")
		data := []byte{byte(t), 0, 1, 2, 3, 4}
		var cl gologix.CIPClass
		if err := cl.Read(bytes.NewReader(data)); (err == nil) != (t == 0x20 || t == 0x21) {
			c.Fail("decode-type:class", "class decoder on segment type %#x: err=%v", t, err)
		}
		var in gologix.CIPInstance
		if err := in.Read(bytes.NewReader(data)); (err == nil) != (t == 0x24 || t == 0x25 || t == 0x26) {
			c.Fail("decode-type:instance", "instance decoder on segment type %#x: err=%v", t, err)
		}
		var at gologix.CIPAttribute
		if err := at.Read(bytes.NewReader(data)); (err == nil) != (t == 0x30 || t == 0x31) {
			c.Fail("decode-type:attribute", "attribute decoder on segment type %#x: err=%v", t, err)
		}
		c.Distinct(t)
		c.Trans(3)
	}})
	// symbolic names of every length the one-byte length field can carry, and beyond
	us = append(us, vk.Unit{Name: "symbolic lengths", Run: func(c *vk.C) {
		n := c.Choose(300, "len")
		if n == 0 {
			c.Stop()
		}
		var sb strings.Builder
		for i := 0; i < n; i++ {
			sb.WriteByte("abcdefghijklmnopqrstuvwxyz_"[i%27])
		}
		pb := gologix.NewPathBuilder().Symbolic(sb.String())
		if n > 255 {
			if pb.Err == nil {
				c.Fail("symbolic-overlong", "a %d character symbol does not fit the one byte length, but no error is reported; bytes start % x", n, pb.Bytes()[:4])
			}
		} else if pb.Err != nil || !bytes.Equal(pb.Bytes(), refSymbol(sb.String())) {
			c.Fail("symbolic", "symbol of %d characters: err=%v bytes % x", n, pb.Err, pb.Bytes())
		}
		c.Distinct(n)
		c.Trans(1)
	}})
	// builder sequences
	type op struct {
		name string
		do   func(*gologix.PathBuilder) *gologix.PathBuilder
		want []byte
		bad  bool
	}
	ops := []op{
		{"Class(2)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Class(2) }, refLogical(0x20, 2), false},
		{"Class(0x1AC)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Class(0x1AC) }, refLogical(0x20, 0x1AC), false},
		{"Instance(1)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Instance(1) }, refLogical(0x24, 1), false},
		{"Instance(0x10000)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Instance(0x10000) }, refLogical(0x24, 0x10000), false},
		{"Attribute(7)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Attribute(7) }, refLogical(0x30, 7), false},
		{"Attribute(0x100)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Attribute(0x100) }, refLogical(0x30, 0x100), false},
		{"Symbolic(odd)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Symbolic("odd") }, refSymbol("odd"), false},
		{"Symbolic(even)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Symbolic("even") }, refSymbol("even"), false},
		{"Element(5)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Element(5) }, refLogical(0x28, 5), false},
		{"Element(300)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Element(300) }, refLogical(0x28, 300), false},
		{"Element(65535)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Element(65535) }, refLogical(0x28, 65535), false},
		{"Element(70000)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Element(70000) }, refLogical(0x28, 70000), false},
		{"Port(2)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Port(2) }, []byte{2}, false},
		{"Address(9)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Address(9) }, []byte{9}, false},
		{"Slot(3)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Slot(3) }, []byte{3}, false},
		{"Custom", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Custom([]byte{0x34, 4, 0xFF}) }, []byte{0x34, 4, 0xFF}, false},
		{"Custom()", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Custom(nil) }, nil, false},
		{"Parse(1,0)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Parse("1,0") }, []byte{1, 0}, false},
		{"Parse(bad)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Parse("1,zz") }, nil, true},
		{"Parse(300)", func(p *gologix.PathBuilder) *gologix.PathBuilder { return p.Parse("1,300") }, nil, true},
	}
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	for i := range ops {
		first := i
		us = append(us, vk.Unit{Name: "builder " + ops[first].name, Run: func(c *vk.C) {
			pb := gologix.NewPathBuilder()
			var want []byte
			bad := false
			names := ""
			for d := 0; d < depth; d++ {
				o := ops[first]
				if d > 0 {
					k := c.Choose(len(ops)+1, "op")
					if k == len(ops) {
						break
					}
					o = ops[k]
				}
				names += "." + o.name
				ret := o.do(pb)
				if ret != pb {
					c.Fail("builder-identity", "%s did not return the builder it was called on", names)
				}
				if !bad {
					if o.bad {
						bad = true
					} else {
						want = append(want, o.want...)
					}
				}
				c.Trans(1)
				c.State(want, bad)
				if (pb.Err != nil) != bad {
					c.Fail("builder-err", "after %s: Err=%v, expected error: %v", names, pb.Err, bad)
				}
				if !bytes.Equal(pb.Bytes(), want) {
					c.Fail("builder-bytes", "after %s: % x, want % x", names, pb.Bytes(), want)
				}
			}
			c.Validated()
			c.Distinct(names)
			c.Sample(func() string { return names })
		}})
	}
	// textual routes
	toks := []string{"0", "1", "2", "15", "255", "256", "-1", "x", "", "10.0.0.1", "192.168.1.1", "1.2", " 3 ", "[4]", "1e1", "0x1"}
	n := 4
	if tier == "thorough" {
		n = 5
	}
	for i := range toks {
		first := i
		us = append(us, vk.Unit{Name: "route starting " + strconv.Quote(toks[first]), Run: func(c *vk.C) {
			parts := []string{toks[first]}
			for len(parts) < n {
				k := c.Choose(len(toks)+1, "token")
				if k == len(toks) {
					break
				}
				parts = append(parts, toks[k])
			}
			text := strings.Join(parts, ",")
			c.Distinct(text)
			c.Trans(1)
			c.Sample(func() string { return strconv.Quote(text) })
			want, ok := refRoute(text)
			got, err := gologix.ParsePath(text)
			if !ok {
				if err == nil {
					c.Fail("route-accepts:"+routeShape(parts), "route %q is not valid but encodes to % x", text, got.Bytes())
				}
				return
			}
			if err != nil {
				c.Fail("route-rejects:"+routeShape(parts), "route %q: %v", text, err)
			}
			if !bytes.Equal(got.Bytes(), want) {
				c.Fail("route-bytes:"+routeShape(parts), "route %q encodes to % x, want % x", text, got.Bytes(), want)
			}
			if got2, err2 := gologix.NewPathBuilder().Parse(text), error(nil); err2 != nil || !bytes.Equal(got2.Bytes(), want) {
				c.Fail("route-builder", "PathBuilder.Parse(%q) gives % x, want % x", text, got2.Bytes(), want)
			}
		}})
	}
	return us
}

// routeShape classifies a route for reporting: which kinds of token it has.
func routeShape(parts []string) string {
	var r []string
	for _, p := range parts {
		switch {
		case strings.Contains(p, "."):
			r = append(r, "ip"+strconv.Itoa(len(p)%2))
		case p == "":
			r = append(r, "empty")
		default:
			if _, err := strconv.Atoi(strings.Trim(p, " []")); err != nil {
				r = append(r, "junk")
			} else {
				r = append(r, "n")
			}
		}
	}
	return strings.Join(r, ",")
}

// refRoute: numbers 0..255 are one byte each; a dotted address is an extended
// link address (bit 4 of the port byte before it), length, text, padded even.
func refRoute(text string) ([]byte, bool) {
	if text == "" {
		return nil, true
	}
	var out []byte
	prevNum := false
	for _, p := range strings.Split(text, ",") {
		p = strings.NewReplacer(" ", "", "[", "", "]", "").Replace(p)
		if strings.Contains(p, ".") {
			if !prevNum {
				return nil, false
			}
			out[len(out)-1] |= 0x10
			out = append(out, byte(len(p)))
			out = append(out, p...)
			if len(p)%2 == 1 {
				out = append(out, 0)
			}
			prevNum = false
			continue
		}
		if p == "" {
			return nil, false
		}
		v := 0
		for _, ch := range p {
			if ch < '0' || ch > '9' {
				return nil, false
			}
			v = v*10 + int(ch-'0')
			if v > 255 {
				return nil, false
			}
		}
		out = append(out, byte(v))
		prevNum = true
	}
	return out, true
}

func init() {
	vk.Register(&vk.Check{
		ID: "P02", Level: "model_checking",
		Rule:        "every 16-bit class/attribute value, every instance/element value below 70000 plus all 32-bit boundary values, every segment type byte, every symbol length 1..299, every builder call sequence up to the depth, every route of up to n tokens; a case is one value, call sequence or route text, compared with a reference encoder written from the CIP specification",
		Units:       p02Units,
		QuickBudget: 120 * time.Second, ThoroughBudget: 20 * time.Minute,
		Bounds: map[string]any{"builder_depth": "3 quick, 4 thorough, 20 operations", "route_tokens": "4 quick, 5 thorough, alphabet of 16"},
	})
}
