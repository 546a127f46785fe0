package checks

import (
	"fmt"
	"strconv"
	"strings"
	"time"

	"verifharness/plc"
	"verifharness/vk"
)

// C08: a tag path addresses exactly the element it names, or is rejected.

func isIdent(s string) bool {
	if s == "" {
		return false
	}
	for i, ch := range s {
		switch {
		case ch >= 'a' && ch <= 'z', ch >= 'A' && ch <= 'Z', ch == '_', ch == ':':
		case ch >= '0' && ch <= '9':
			if i == 0 {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// refPath parses a tag path by the documented grammar: identifiers with
// optional subscripts separated by dots, and a final bit number.
func refPath(s string) (segs []plc.Seg, bit int, ok bool) {
	bit = -1
	parts := strings.Split(s, ".")
	for i, p := range parts {
		if i > 0 && i == len(parts)-1 && p != "" && strings.Trim(p, "0123456789") == "" {
			n, err := strconv.Atoi(p)
			if err != nil || n > 63 {
				return nil, -1, false
			}
			return segs, n, true
		}
		name, rest, has := strings.Cut(p, "[")
		if !isIdent(name) {
			return nil, -1, false
		}
		if len(name) > 255 {
			return nil, -1, false
		}
		segs = append(segs, plc.Seg{Kind: 's', Sym: strings.ToLower(name)})
		if !has {
			continue
		}
		if !strings.HasSuffix(rest, "]") {
			return nil, -1, false
		}
		for _, f := range strings.Split(strings.TrimSuffix(rest, "]"), ",") {
			f = strings.Trim(f, " \t")
			if f == "" || strings.Trim(f, "0123456789") != "" {
				return nil, -1, false
			}
			n, err := strconv.ParseUint(f, 10, 32)
			if err != nil {
				return nil, -1, false
			}
			segs = append(segs, plc.Seg{Kind: 'e', Num: uint32(n)})
		}
	}
	return segs, -1, true
}

// resolvable: some controller could have an element of this path.
func resolvable(path []byte) (string, bool) {
	segs, err := plc.ParseEPath(path)
	if err != nil || len(segs) == 0 {
		return "", false
	}
	for _, s := range segs {
		if s.Kind == 's' && !isIdent(s.Sym) {
			return "", false
		}
	}
	return plc.SegString(segs), true
}

// captured runs one read of text and returns the path the controller saw.
type pathProbe struct {
	r    *rig
	path []byte
	n    int
}

func newPathProbe(c *vk.C, listed bool) *pathProbe {
	pp := &pathProbe{}
	p := plc.New()
	if listed {
		p.Firmware = 32
		p.AddTag(&plc.Tag{Name: "a", Type: 0xC4, Dims: []int{400}, Instance: 5})
		p.AddTag(&plc.Tag{Name: "B", Type: 0xC4, Instance: 300})
		p.Programs = []plc.Program{{Name: "p", Instance: 77}}
		p.AddTag(&plc.Tag{Name: "a", Type: 0xC4, Program: "p", Instance: 9})
	}
	pp.r = newRig(c, p)
	pp.r.connect(c)
	if listed {
		if err := pp.r.cl.ListAllTags(0); err != nil {
			c.Fail("listall", "ListAllTags: %v", err)
		}
	}
	p.Override = func(q *plc.Req) *plc.Reply {
		if q.Service == 0x4C {
			pp.path = append([]byte(nil), q.Path...)
			pp.n++
			return &plc.Reply{Data: []byte{0xC4, 0, 0xFF, 0xFF, 0xFF, 0xFF}}
		}
		return nil
	}
	return pp
}

// probe reads text; sent is false when the client refused it.
func (pp *pathProbe) probe(text string) (path []byte, sent bool, err error) {
	n := pp.n
	var v int32
	var b bool
	_, bit, _ := refPath(text)
	if bit >= 0 {
		err = pp.r.cl.Read(text, &b)
	} else {
		err = pp.r.cl.Read(text, &v)
	}
	return pp.path, pp.n > n, err
}

// swapInst rewrites instance addressing of the listed tags to names.
func (pp *pathProbe) named(path []byte) []byte {
	segs, err := plc.ParseEPath(path)
	if err != nil {
		return path
	}
	var out []plc.Seg
	prog := ""
	for i := 0; i < len(segs); i++ {
		s := segs[i]
		if s.Kind == 'c' && i+1 < len(segs) && segs[i+1].Kind == 'i' {
			in := segs[i+1].Num
			found := false
			if s.Num == 0x68 {
				for _, pr := range pp.r.p.Programs {
					if pr.Instance == in {
						prog = pr.Name
						out = append(out, plc.Seg{Kind: 's', Sym: "program:" + strings.ToLower(pr.Name)})
						found = true
					}
				}
			}
			if s.Num == 0x6B {
				for _, t := range pp.r.p.Tags {
					if t.Instance == in && t.Program == prog {
						out = append(out, plc.Seg{Kind: 's', Sym: strings.ToLower(t.Name)})
						found = true
					}
				}
			}
			if found {
				i++
				continue
			}
		}
		if s.Kind == 's' && strings.HasPrefix(strings.ToLower(s.Sym), "program:") {
			prog = s.Sym[8:]
		}
		out = append(out, s)
	}
	return encodeSegs(out)
}

func encodeSegs(segs []plc.Seg) []byte {
	var b []byte
	for _, s := range segs {
		switch s.Kind {
		case 's':
			b = append(b, 0x91, byte(len(s.Sym)))
			b = append(b, s.Sym...)
			if len(s.Sym)%2 == 1 {
				b = append(b, 0)
			}
		case 'e', 'c', 'i':
			base := map[byte]byte{'e': 0x28, 'c': 0x20, 'i': 0x24}[s.Kind]
			switch {
			case s.Num < 256:
				b = append(b, base, byte(s.Num))
			case s.Num < 65536:
				b = append(b, base|1, 0)
				b = le.AppendUint16(b, uint16(s.Num))
			default:
				b = append(b, base|2, 0)
				b = le.AppendUint32(b, s.Num)
			}
		}
	}
	return b
}

// judge checks one probe of text.
func (pp *pathProbe) judge(c *vk.C, text, when string, path []byte, sent bool, err error) {
	want, bit, ok := refPath(text)
	c.Trans(1)
	if ok && len(encodeSegs(want)) > 510 {
		ok = false
	}
	if !ok {
		if sent {
			if s, yes := resolvable(path); yes && !strings.EqualFold(s, text) {
				c.Fail("wrong-element", "%q is not a tag path, yet reading it (%s) addresses %s (path % x)", text, when, s, path)
			}
		}
		return
	}
	if !sent {
		c.Fail("refused", "%q is a valid tag path but reading it (%s) is refused: %v", text, when, err)
	}
	c.Validated()
	if got := pp.named(path); string(got) != string(encodeSegs(want)) {
		s, _ := resolvable(got)
		c.Fail("path", "%q (%s) is sent as % x (%s), want % x (%s)", text, when, path, s, encodeSegs(want), plc.SegString(want))
	}
	if err != nil && bit < 32 {
		c.Fail("read-error", "%q (%s) reads with error %v", text, when, err)
	}
}

func (pp *pathProbe) full(c *vk.C, text string) {
	path, sent, err := pp.probe(text)
	pp.judge(c, text, "first", path, sent, err)
	path, sent, err = pp.probe(text)
	pp.judge(c, text, "repeated", path, sent, err)
	up := strings.ToUpper(text)
	if up != text {
		path, sent, err = pp.probe(up)
		pp.judge(c, up, "after its lower case spelling", path, sent, err)
	}
	for _, q := range pp.r.p.Problems {
		if _, _, ok := refPath(text); ok {
			c.Fail("protocol:"+problemKind(q), "reading %q the controller was sent %s", text, q)
		}
	}
	c.Distinct(text)
	c.State(text)
}

func tokenTextUnit(name string, toks []string, depth int, listed bool) []vk.Unit {
	var us []vk.Unit
	for _, first := range toks {
		first := first
		us = append(us, vk.Unit{Name: fmt.Sprintf("%s starting %q", name, first), Run: func(c *vk.C) {
			text := first
			for i := 1; i < depth; i++ {
				k := c.Choose(len(toks)+1, "token")
				if k == len(toks) {
					break
				}
				text += toks[k]
			}
			newPathProbe(c, listed).full(c, text)
		}})
	}
	return us
}

func c08Units(tier string) []vk.Unit {
	d1, d2 := 5, 4
	if tier == "thorough" {
		d1, d2 = 6, 5
	}
	toks := []string{"a", "B", "_", ".", "[", "]", ",", "0", "7", "31", " ", "-", ":", "3"}
	parts := []string{"a", "b", "Program:p.", "Program:", ".b", ".5", ".63", ".64", ".-1", ".+2", ".007", ".", "[0]", "[1,2]", "[ 3]", "[4 ]", "[5 , 6]", "[1,2,3]", "[,]", "[1,]", "[]", "[-1]", "[x]", "[1 2]", "[", "]", "[255]", "[256]", "[65535]", "[65536]", "[4294967295]", "[4294967296]", "[99999999999999999999]", " "}
	if tier != "thorough" {
		d2 = 4
	}
	var us []vk.Unit
	us = append(us, tokenTextUnit("tokens", toks, d1, false)...)
	us = append(us, tokenTextUnit("parts", parts, d2, false)...)
	us = append(us, tokenTextUnit("listed parts", parts, d2-1, true)...)
	us = append(us, vk.Unit{Name: "long names", Run: func(c *vk.C) {
		n := 1 + c.Choose(300, "length")
		m := c.Choose(5, "second part") // 0: none
		text := strings.Repeat("n", n)
		switch m {
		case 1:
			text += "." + strings.Repeat("m", n)
		case 2:
			text += "[7]." + strings.Repeat("m", n) + ".x"
		case 3:
			text += "." + strings.Repeat("m", 255) + ".x[3]"
		case 4:
			text += "." + strings.Repeat("m", 240) + "[70000,1,2]"
		}
		newPathProbe(c, false).full(c, text)
	}}, vk.Unit{Name: "deep paths", Run: func(c *vk.C) {
		n := 1 + c.Choose(140, "parts")
		part := []string{".ab", ".abc", "[1].q", "[300].qq"}[c.Choose(4, "part")]
		newPathProbe(c, false).full(c, "t"+strings.Repeat(part, n))
	}}, vk.Unit{Name: "mixed order", Run: func(c *vk.C) {
		// What a text addresses must not depend on what was used before.
		texts := []string{"a", "a[0]", "a[1]", "a.5", "A.5", "a.b", "B", "b", "Program:p.a", "program:P.A", "a[1].5", "a[1]"}
		pp := newPathProbe(c, c.Bool("listed"))
		seq := ""
		for i := 0; i < 3; i++ {
			t := vk.Pick(c, texts, "text")
			seq += "|" + t
			path, sent, err := pp.probe(t)
			pp.judge(c, t, fmt.Sprintf("as read number %d", i+1), path, sent, err)
		}
		c.Distinct("mixed", seq)
	}})
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "C08", Level: "model_checking",
		Rule:        "every text of up to n tokens over two alphabets (characters, and path parts valid and invalid), every name length 1..300, every path depth 1..140, every order of three reads over related texts; each read cold, repeated and in upper case, with and without a listed tag database; the path bytes the controller receives are decoded and compared with an independent parse of the text; a case is one text",
		Units:       c08Units,
		Bounds:      map[string]any{"quick": "5 tokens of 14 characters, 4 of 34 parts", "thorough": "6 tokens, 5 parts"},
		Assumptions: []string{"a controller resolves only symbols made of letters, digits, '_' and ':'", "texts are ASCII"},
		QuickBudget: 250 * time.Second, ThoroughBudget: 840 * time.Second,
	})
}
