package checks

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/danomagnum/gologix/l5x"
	"verifharness/vk"
)

// L01: the check writes an exported project itself, from values it knows, so
// the expected result never comes from the text the loader reads.

// l5num is one data type with the range of its values.
type l5num struct {
	name   string
	bits   int
	signed bool
	goval  func(bits uint64) any
}

var l5nums = []l5num{
	{"SINT", 8, true, func(u uint64) any { return int8(u) }},
	{"INT", 16, true, func(u uint64) any { return int16(u) }},
	{"DINT", 32, true, func(u uint64) any { return int32(u) }},
	{"LINT", 64, true, func(u uint64) any { return int64(u) }},
	{"BYTE", 8, false, func(u uint64) any { return uint8(u) }},
	{"WORD", 16, false, func(u uint64) any { return uint16(u) }},
	{"DWORD", 32, false, func(u uint64) any { return uint32(u) }},
	{"LWORD", 64, false, func(u uint64) any { return u }},
	{"USINT", 8, false, func(u uint64) any { return uint8(u) }},
	{"UINT", 16, false, func(u uint64) any { return uint16(u) }},
	{"UDINT", 32, false, func(u uint64) any { return uint32(u) }},
	{"ULINT", 64, false, func(u uint64) any { return u }},
}

// l5groups writes the digits in groups, the way exported values show them.
func l5groups(digits string, n int) string {
	if n == 0 {
		return digits
	}
	var parts []string
	for len(digits) > n {
		parts = append([]string{digits[len(digits)-n:]}, parts...)
		digits = digits[:len(digits)-n]
	}
	return strings.Join(append([]string{digits}, parts...), "_")
}

const l5radixes = 5

var l5radixName = []string{"Decimal", "Hex", "Binary", "Octal", "ASCII"}

// l5text is the text of the value (given by its bits) in a radix.
func l5text(t l5num, bits uint64, radix int) string {
	switch radix {
	case 1:
		return "16#" + l5groups(fmt.Sprintf("%0*x", t.bits/4, bits), 4)
	case 2:
		return "2#" + l5groups(fmt.Sprintf("%0*b", t.bits, bits), 4)
	case 3:
		return "8#" + l5groups(fmt.Sprintf("%0*o", (t.bits+2)/3, bits), 3)
	case 4:
		var b strings.Builder
		for i := t.bits - 8; i >= 0; i -= 8 {
			b.WriteString(l5esc(byte(bits>>i), false))
		}
		return "'" + b.String() + "'"
	}
	if t.signed {
		return strconv.FormatInt(int64(bits<<(64-t.bits))>>(64-t.bits), 10)
	}
	return strconv.FormatUint(bits, 10)
}

// l5esc is the exported form of one character of a string.
func l5esc(b byte, hex bool) string {
	if !hex {
		switch b {
		case '$':
			return "$$"
		case '\'':
			return "$'"
		case '\n':
			return "$l"
		case '\f':
			return "$p"
		case '\r':
			return "$r"
		case '\t':
			return "$t"
		}
		if b >= 0x20 && b < 0x7F {
			return string(rune(b))
		}
	}
	return fmt.Sprintf("$%02X", b)
}

// l5bits are the values of a type where a conversion can go wrong.
func l5bits(bits int) []uint64 {
	mask := uint64(math.MaxUint64) >> (64 - bits)
	var r []uint64
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if v &= mask; !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	for _, v := range []uint64{0, 1, 2, 9, 10, 0x0102030405060708, 0xF1F2F3F4F5F6F7F8, 0x4142434445464748, 0x2724272427242724, 0x0A0D090C0A0D090C, 0x0027000000240000} {
		add(v)
	}
	for s := 3; s < bits; s++ {
		add(1<<s - 1)
		add(1 << s)
	}
	add(mask)
	add(mask - 1)
	add(mask>>1 - 1)
	add(mask>>1 + 2)
	return r
}

// l5case is one text of one data type: a value, or no value at all.
type l5case struct {
	typ, radix, text string
	want             any // nil: an error
	key              string
}

func l5bad(t l5num) []string {
	mask := uint64(math.MaxUint64) >> (64 - t.bits)
	over := []string{"18446744073709551616", "-9223372036854775809", "99999999999999999999999"}
	if t.bits < 64 {
		over = append(over, strconv.FormatUint(mask+1, 10), strconv.FormatUint(2*mask+3, 10),
			fmt.Sprintf("16#%x", mask+1), fmt.Sprintf("2#%b", mask+1), fmt.Sprintf("8#%o", mask+1))
	} else {
		over = append(over, "16#1_0000_0000_0000_0000", "2#1"+strings.Repeat("0", 64), "8#2"+strings.Repeat("0", 21))
	}
	if t.signed {
		over = append(over, strconv.FormatUint(mask>>1+1, 10), strconv.FormatUint(mask, 10))
		if t.bits < 64 {
			over = append(over, strconv.FormatInt(-int64(mask>>1)-2, 10))
		}
	} else {
		over = append(over, "-1", "-128")
	}
	return append(over, "", "x", "1x", "x1", "12.5", "1e3", "--1", "-", "0x10", "ff", "1#1", "16#", "2#", "8#", "16#g", "16#1g", "2#2", "2#12", "8#8", "8#19",
		"true", "'", "''", "'a", "'$", "'$'", "'$0'", "'$0g'", "'"+strings.Repeat("a", t.bits/8-1)+"'", "'"+strings.Repeat("a", t.bits/8+1)+"'",
		"'"+strings.Repeat("a", t.bits/8-1)+"$'", "'"+strings.Repeat("a", t.bits/8-1)+"$4'")
}

func l5cases() []l5case {
	var r []l5case
	for _, t := range l5nums {
		for _, v := range l5bits(t.bits) {
			for x := 0; x < l5radixes; x++ {
				r = append(r, l5case{t.name, l5radixName[x], l5text(t, v, x), t.goval(v), ""})
				if x == 1 || x == 2 { // leading zeros and separators may be left out
					r = append(r, l5case{t.name, l5radixName[x], map[int]string{1: "16#", 2: "2#"}[x] + strconv.FormatUint(v, map[int]int{1: 16, 2: 2}[x]), t.goval(v), ""})
				}
			}
		}
		for _, s := range l5bad(t) {
			r = append(r, l5case{t.name, "Decimal", s, nil, ""})
		}
	}
	for _, t := range []string{"BOOL", "BIT"} {
		for _, b := range []string{"0", "1"} {
			r = append(r, l5case{t, "Decimal", b, b == "1", ""}, l5case{t, "Binary", "2#" + b, b == "1", ""})
		}
		for _, s := range []string{"", "2", "-1", "10", "x", "2#2", "2#10", "16#2", "16#", "1.0"} {
			r = append(r, l5case{t, "Decimal", s, nil, ""})
		}
	}
	for _, t := range []string{"REAL", "LREAL"} {
		bits := map[string]int{"REAL": 32, "LREAL": 64}[t]
		vals := []float64{0, 1, -1, 0.1, 0.5, 1.0 / 3, -2.25, 16777216, 16777217, 1234567.875, 1e10, -1e-10, 1e38, -1e38, math.SmallestNonzeroFloat32, math.MaxFloat32, -math.MaxFloat32, math.Pi}
		if bits == 64 {
			vals = append(vals, 1e39, 1e308, math.MaxFloat64, math.SmallestNonzeroFloat64, 9007199254740993)
		}
		for _, v := range vals {
			if bits == 32 {
				v = float64(float32(v))
			}
			for _, f := range []byte{'f', 'e', 'g'} {
				s := strconv.FormatFloat(v, f, -1, bits)
				if f == 'e' { // 1.5e+03 is written 1.50000000e+003
					m, e, _ := strings.Cut(s, "e")
					if !strings.Contains(m, ".") {
						m += ".0"
					}
					sign := e[:1]
					s = m + "e" + sign + fmt.Sprintf("%03s", e[1:])
				}
				r = append(r, l5case{t, "Float", s, v, ""})
			}
		}
		r = append(r, l5case{t, "Float", "1.$", math.Inf(1), ""}, l5case{t, "Float", "-1.$", math.Inf(-1), ""},
			l5case{t, "Float", "1.#QNAN", math.NaN(), ""}, l5case{t, "Float", "-1.#QNAN", math.NaN(), ""})
		bad := []string{"", "x", "1.5x", "1..5", "1.5.0", "e5", "1e", "-", "1,5", "1.$$", "1.#", "$", "1e400", "-1e400"}
		if bits == 32 {
			bad = append(bad, "1e39", "-1e39", "3.5e38")
		}
		for _, s := range bad {
			r = append(r, l5case{t, "Float", s, nil, ""})
		}
	}
	for _, t := range []string{"", "NOSUCH", "dint", "TIMER", "DINT[3]"} {
		r = append(r, l5case{t, "Decimal", "1", nil, ""}, l5case{t, "Decimal", "", nil, ""})
	}
	for i := range r {
		k := "value:"
		if r[i].want == nil {
			k = "malformed:"
		}
		r[i].key = k + r[i].typ + ":" + r[i].radix
	}
	return r
}

// l5same compares a loaded value with the expected one. A float may come back
// in either width, as long as it is the value of the type.
func l5same(typ string, got, want any) bool {
	switch w := want.(type) {
	case float64:
		var g float64
		switch x := got.(type) {
		case float64:
			g = x
		case float32:
			g = float64(x)
		default:
			return false
		}
		if math.IsNaN(w) || math.IsNaN(g) {
			return math.IsNaN(w) && math.IsNaN(g)
		}
		if typ == "REAL" {
			return float32(g) == float32(w)
		}
		return g == w
	}
	return reflect.DeepEqual(got, want)
}

func l5attr(s string) string {
	var b bytes.Buffer
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// l5load parses a project and loads it, the way a user does.
func l5load(doc string) (map[string]any, error) {
	var content l5x.RSLogix5000Content
	if err := xml.Unmarshal([]byte(doc), &content); err != nil {
		panic(fmt.Sprintf("the check wrote bad XML: %v\n%s", err, doc))
	}
	return l5x.LoadTags(content)
}

func l5project(controller string, programs ...string) string {
	var b strings.Builder
	b.WriteString(`<?xml version="1.0" encoding="UTF-8" standalone="yes"?>` + "\n<RSLogix5000Content SchemaRevision=\"1.0\">\n<Controller Use=\"Target\" Name=\"plc\">\n")
	b.WriteString(controller)
	if len(programs) > 0 {
		b.WriteString("<Programs>\n")
		for i, p := range programs {
			fmt.Fprintf(&b, "<Program Name=\"Prog%d\">\n%s</Program>\n", i, p)
		}
		b.WriteString("</Programs>\n")
	}
	return b.String() + "</Controller>\n</RSLogix5000Content>\n"
}

func l5tag(name, typ, data string) string {
	return fmt.Sprintf("<Tag Name=%q TagType=\"Base\" DataType=\"%s\">\n<Data>\n00 00 00 00\n</Data>\n<Data Format=\"Decorated\">\n%s</Data>\n</Tag>\n", name, l5attr(typ), data)
}

func l5dv(elem, name, typ, radix, text string) string {
	n := ""
	if name != "" {
		n = fmt.Sprintf(" Name=%q", name)
	}
	return fmt.Sprintf("<%s%s DataType=\"%s\" Radix=%q Value=\"%s\"/>\n", elem, n, l5attr(typ), radix, l5attr(text))
}

// l5array has the value at one index and other values everywhere else.
func l5array(elem, name, typ, radix string, dims []int, at int, text, other string) string {
	n := ""
	if name != "" {
		n = fmt.Sprintf(" Name=%q", name)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "<%s%s DataType=\"%s\" Dimensions=%q Radix=%q>\n", elem, n, l5attr(typ), strings.Trim(strings.ReplaceAll(fmt.Sprint(dims), " ", ","), "[]"), radix)
	total := 1
	for _, d := range dims {
		total *= d
	}
	for i := 0; i < total; i++ {
		s := other
		if i == at {
			s = text
		}
		fmt.Fprintf(&b, "<Element Index=%q Value=\"%s\"/>\n", l5index(dims, i), l5attr(s))
	}
	fmt.Fprintf(&b, "</%s>\n", elem)
	return b.String()
}

func l5index(dims []int, i int) string {
	x := make([]string, len(dims))
	for d := len(dims) - 1; d >= 0; d-- {
		x[d] = strconv.Itoa(i % dims[d])
		i /= dims[d]
	}
	return "[" + strings.Join(x, ",") + "]"
}

// l5place puts one value in one place of a project; path leads to it in the result.
type l5place struct {
	name  string
	build func(k l5case, other string) string
	path  []any // map key or index
}

func l5places() []l5place {
	mk := func(tag string) string { return "<Tags>\n" + l5other("before") + tag + l5other("after") + "</Tags>\n" }
	ps := []l5place{
		{"controller tag", func(k l5case, o string) string {
			return l5project(mk(l5tag("t", k.typ, l5dv("DataValue", "", k.typ, k.radix, k.text))))
		}, []any{"t"}},
		{"program tag", func(k l5case, o string) string {
			return l5project("", "<Tags>\n</Tags>\n", mk(l5tag("t", k.typ, l5dv("DataValue", "", k.typ, k.radix, k.text))), mk(""))
		}, []any{"program:Prog1", "t"}},
		{"member", func(k l5case, o string) string {
			return l5project(mk(l5tag("t", "UDT", "<Structure DataType=\"UDT\">\n"+l5dv("DataValueMember", "a", "DINT", "Decimal", "5")+l5dv("DataValueMember", "m", k.typ, k.radix, k.text)+l5dv("DataValueMember", "b", "DINT", "Decimal", "6")+"</Structure>\n")))
		}, []any{"t", "m"}},
		{"member of a member of a program tag", func(k l5case, o string) string {
			return l5project(mk(""), mk(l5tag("t", "UDT", "<Structure DataType=\"UDT\">\n"+l5dv("DataValueMember", "m", "DINT", "Decimal", "5")+
				"<StructureMember Name=\"s\" DataType=\"U2\">\n<StructureMember Name=\"s\" DataType=\"U3\">\n"+l5dv("DataValueMember", "m", k.typ, k.radix, k.text)+"</StructureMember>\n</StructureMember>\n</Structure>\n")))
		}, []any{"t", "s", "s", "m"}},
		{"member of an array element", func(k l5case, o string) string {
			return l5project(mk(l5tag("t", "UDT", "<Array DataType=\"UDT\" Dimensions=\"2\">\n<Element Index=\"[0]\">\n<Structure DataType=\"UDT\">\n"+l5dv("DataValueMember", "m", k.typ, k.radix, o)+"</Structure>\n</Element>\n<Element Index=\"[1]\">\n<Structure DataType=\"UDT\">\n"+l5dv("DataValueMember", "m", k.typ, k.radix, k.text)+"</Structure>\n</Element>\n</Array>\n")))
		}, []any{"t", 1, "m"}},
		{"array of an array of structures", func(k l5case, o string) string {
			return l5project(mk(l5tag("t", "UDT", "<Structure DataType=\"UDT\">\n<ArrayMember Name=\"s\" DataType=\"U2\" Dimensions=\"1\">\n<Element Index=\"[0]\">\n<Structure DataType=\"U2\">\n"+
				l5array("ArrayMember", "a", k.typ, k.radix, []int{2}, 1, k.text, o)+"</Structure>\n</Element>\n</ArrayMember>\n</Structure>\n")))
		}, []any{"t", "s", 0, "a", 1}},
	}
	for _, dims := range [][]int{{3}, {2, 2}, {2, 1, 2}} {
		for at, total := 0, dims[0]*dims[len(dims)-1]/map[bool]int{true: dims[0], false: 1}[len(dims) == 1]; at < total; at++ {
			ps = append(ps,
				l5place{fmt.Sprintf("element %d of %v", at, dims), func(k l5case, o string) string {
					return l5project(mk(l5tag("t", k.typ, l5array("Array", "", k.typ, k.radix, dims, at, k.text, o))))
				}, []any{"t", at}},
				l5place{fmt.Sprintf("element %d of member %v", at, dims), func(k l5case, o string) string {
					return l5project("", mk(l5tag("t", "UDT", "<Structure DataType=\"UDT\">\n"+l5array("ArrayMember", "a", k.typ, k.radix, dims, at, k.text, o)+"</Structure>\n")))
				}, []any{"t", "a", at}})
		}
	}
	for i := range ps {
		if strings.Contains(ps[i].build(l5case{typ: "DINT", radix: "Decimal", text: "1"}, "0"), "<Programs>") && ps[i].path[0] == "t" {
			ps[i].path = append([]any{"program:Prog0"}, ps[i].path...)
		}
	}
	return ps
}

func l5other(name string) string {
	return l5tag(name, "INT", l5dv("DataValue", "", "INT", "Decimal", "77"))
}

func l5get(v any, path []any) (any, bool) {
	for _, p := range path {
		switch k := p.(type) {
		case string:
			m, ok := v.(map[string]any)
			if !ok {
				return nil, false
			}
			if v, ok = m[k]; !ok {
				return nil, false
			}
		case int:
			a, ok := v.([]any)
			if !ok || k >= len(a) {
				return nil, false
			}
			v = a[k]
		}
	}
	return v, true
}

// l5strings enumerates every string up to a length over the characters with a
// special form, in every form.
func l5stringChoice(c *vk.C, max int) (plain, text string) {
	n := c.Choose(max+1, "length")
	alphabet := []byte{'a', '0', 'N', 'l', ' ', '$', '\'', '\n', '\r', '\t', '\f', 0, 0x7F, 0x80, 0xE9, 0xFF, '<', '&', '"', ']', '4'}
	var p, t strings.Builder
	for i := 0; i < n; i++ {
		b := vk.Pick(c, alphabet, "character")
		p.WriteByte(b)
		short := l5esc(b, false)
		if long := l5esc(b, true); long != short && c.Bool("hex") {
			t.WriteString(long)
		} else if strings.HasPrefix(short, "$") && strings.ToUpper(short) != short && c.Bool("upper case") {
			t.WriteString(strings.ToUpper(short))
		} else {
			t.WriteString(short)
		}
	}
	return p.String(), t.String()
}

// l5tree writes every shape of tag data up to a number of nodes.
type l5tree struct {
	c    *vk.C
	left int
	next int32
}

func (t *l5tree) leaf() (string, int32) {
	t.next++
	return strconv.Itoa(int(t.next)), t.next
}

func (t *l5tree) structure() (string, map[string]any) {
	var vals, structs, arrays strings.Builder
	m := map[string]any{}
	for i := 0; t.left > 0 && i < 3; i++ {
		kind := t.c.Choose(5, "member")
		if kind == 0 {
			break
		}
		t.left--
		name := fmt.Sprintf("m%d", i)
		switch kind {
		case 1:
			s, v := t.leaf()
			vals.WriteString(l5dv("DataValueMember", name, "DINT", "Decimal", s))
			m[name] = v
		case 2:
			vals.WriteString("<DataValueMember Name=\"" + name + "\" DataType=\"STRING\" Radix=\"ASCII\">\n<![CDATA['x$N" + name + "']]>\n</DataValueMember>\n")
			m[name] = "x\n" + name
		case 3:
			s, v := t.structure()
			structs.WriteString("<StructureMember Name=\"" + name + "\" DataType=\"U\">\n" + s + "</StructureMember>\n")
			m[name] = v
		case 4:
			s, v := t.array("ArrayMember", " Name=\""+name+"\"")
			arrays.WriteString(s)
			m[name] = v
		}
	}
	return vals.String() + structs.String() + arrays.String(), m
}

func (t *l5tree) array(elem, name string) (string, []any) {
	n := 1 + t.c.Choose(2, "elements")
	ofStructs := t.left > 0 && t.c.Bool("of structures")
	a := []any{}
	var b strings.Builder
	typ := "DINT"
	if ofStructs {
		typ = "U"
	}
	fmt.Fprintf(&b, "<%s%s DataType=%q Dimensions=\"%d\">\n", elem, name, typ, n)
	for i := 0; i < n; i++ {
		if ofStructs {
			s, v := t.structure()
			fmt.Fprintf(&b, "<Element Index=\"[%d]\">\n<Structure DataType=\"U\">\n%s</Structure>\n</Element>\n", i, s)
			a = append(a, v)
			continue
		}
		s, v := t.leaf()
		fmt.Fprintf(&b, "<Element Index=\"[%d]\" Value=%q/>\n", i, s)
		a = append(a, v)
	}
	fmt.Fprintf(&b, "</%s>\n", elem)
	return b.String(), a
}

func (t *l5tree) tag(name string, m map[string]any) string {
	kinds := 6
	if t.left < 1 {
		kinds = 3
	}
	t.left--
	switch t.c.Choose(kinds, "tag kind") {
	case 0:
		s, v := t.leaf()
		m[name] = v
		return l5tag(name, "DINT", l5dv("DataValue", "", "DINT", "Decimal", s))
	case 1: // nothing to load
		return "<Tag Name=\"" + name + "\" TagType=\"Alias\" AliasFor=\"other\"/>\n"
	case 2:
		return "<Tag Name=\"" + name + "\" TagType=\"Base\" DataType=\"MESSAGE\">\n<Data Format=\"Message\">\n<MessageParameters MessageType=\"Unconfigured\"/>\n</Data>\n</Tag>\n"
	case 3:
		m[name] = "s'" + name
		return "<Tag Name=\"" + name + "\" TagType=\"Base\" DataType=\"STRING\">\n<Data>\n00\n</Data>\n<Data Format=\"String\" Length=\"4\">\n<![CDATA['s$'" + name + "']]>\n</Data>\n</Tag>\n"
	case 4:
		s, v := t.structure()
		m[name] = v
		return l5tag(name, "U", "<Structure DataType=\"U\">\n"+s+"</Structure>\n")
	default:
		s, v := t.array("Array", "")
		m[name] = v
		return l5tag(name, "DINT", s)
	}
}

func (t *l5tree) tags(prefix string, m map[string]any) string {
	n := t.c.Choose(4, "tags")
	if n == 3 {
		return "" // no collection at all
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(t.tag(fmt.Sprintf("%s%d", prefix, i), m))
	}
	return "<Tags>\n" + b.String() + "</Tags>\n"
}

func l5check(c *vk.C, what string, k l5case, got any, ok bool, err error) {
	c.Trans(1)
	switch {
	case k.want == nil && err == nil:
		c.Fail(k.key, "%s: %s %q is no value, but is loaded as %T %v", what, k.typ, k.text, got, got)
	case k.want == nil:
	case err != nil:
		c.Fail(k.key, "%s: %s %q (%s): %v", what, k.typ, k.text, k.radix, err)
	case !ok:
		c.Fail(k.key+":missing", "%s: %s %q (%s) is not in the result", what, k.typ, k.text, k.radix)
	case !l5same(k.typ, got, k.want):
		c.Fail(k.key, "%s: %s %q (%s) is loaded as %T %v, want %T %v", what, k.typ, k.text, k.radix, got, got, k.want, k.want)
	}
}

func l01Units(tier string) []vk.Unit {
	var us []vk.Unit
	// 1. the conversion: every value of the 8- and 16-bit types in every radix
	for _, t := range l5nums {
		if t.bits > 16 {
			continue
		}
		us = append(us, vk.Unit{Name: "every value of " + t.name, Run: func(c *vk.C) {
			for v := uint64(0); v < 1<<t.bits; v++ {
				for x := 0; x < l5radixes; x++ {
					s := l5text(t, v, x)
					got, err := l5x.L5xTypeToGoType(t.name, s)
					l5check(c, "conversion", l5case{t.name, l5radixName[x], s, t.goval(v), "value:" + t.name + ":" + l5radixName[x]}, got, true, err)
				}
				c.State(v)
			}
			c.Count("values", 1<<t.bits)
			// every decimal number around the range is either a value or an error
			lim := int64(1) << t.bits
			for n := -lim; n < 2*lim; n++ {
				in := n >= 0 && n < lim
				if t.signed {
					in = n >= -lim/2 && n < lim/2
				}
				if in {
					continue
				}
				s := strconv.FormatInt(n, 10)
				got, err := l5x.L5xTypeToGoType(t.name, s)
				l5check(c, "conversion", l5case{t.name, "Decimal", s, nil, "range:" + t.name}, got, true, err)
			}
		}})
	}
	// 2. every text in every place of a project
	cases := l5cases()
	for _, p := range l5places() {
		us = append(us, vk.Unit{Name: p.name, Run: func(c *vk.C) {
			k := vk.Pick(c, cases, "text")
			other := "0"
			if strings.HasPrefix(p.name, "member of an array") && k.typ == "STRING" {
				other = ""
			}
			got, err := l5load(p.build(k, other))
			v, ok := l5get(got, p.path)
			l5check(c, p.name, k, v, ok, err)
			if err == nil && k.want != nil {
				// the neighbours are there with their own values
				sc := got
				if pp, isProg := p.path[0].(string); isProg && strings.HasPrefix(pp, "program:") {
					sc, _ = got[pp].(map[string]any)
				}
				if sc["before"] != int16(77) || sc["after"] != int16(77) {
					c.Fail("neighbours", "%s: the tags around it are loaded as %v and %v, want 77", p.name, sc["before"], sc["after"])
				}
			}
			c.State(p.name, fmt.Sprint(v), err == nil)
			c.Distinct(k.typ + k.radix + k.text)
		}})
	}
	// 3. strings: as a tag and as a member of a string structure
	n := 2
	if tier == "thorough" {
		n = 3
	}
	for _, place := range []string{"controller tag", "program tag", "member", "element member"} {
		us = append(us, vk.Shard(vk.Unit{Name: "strings: " + place, Run: func(c *vk.C) {
			plain, text := l5stringChoice(c, n)
			data := "<Data>\n00\n</Data>\n<Data Format=\"String\" Length=\"" + strconv.Itoa(len(plain)) + "\">\n<![CDATA['" + text + "']]>\n</Data>\n"
			tag := "<Tag Name=\"t\" TagType=\"Base\" DataType=\"STRING\">\n" + data + "</Tag>\n"
			str := "\n<DataValueMember Name=\"LEN\" DataType=\"DINT\" Radix=\"Decimal\" Value=\"" + strconv.Itoa(len(plain)) + "\"/>\n<DataValueMember Name=\"DATA\" DataType=\"STRING\" Radix=\"ASCII\">\n<![CDATA['" + text + "']]>\n</DataValueMember>\n"
			var doc string
			var want any = plain
			ws := map[string]any{"LEN": int32(len(plain)), "DATA": plain}
			switch place {
			case "controller tag":
				doc = l5project("<Tags>\n" + tag + "</Tags>\n")
			case "program tag":
				doc = l5project("", "<Tags>\n"+tag+"</Tags>\n")
			case "member":
				doc = l5project("<Tags>\n" + l5tag("t", "UDT", "<Structure DataType=\"UDT\">\n<StructureMember Name=\"s\" DataType=\"STRING\">"+str+"</StructureMember>\n</Structure>\n") + "</Tags>\n")
				want = map[string]any{"s": ws}
			default:
				doc = l5project("", "<Tags>\n"+l5tag("t", "STRING", "<Array DataType=\"STRING\" Dimensions=\"1\">\n<Element Index=\"[0]\">\n<Structure DataType=\"STRING\">"+str+"</Structure>\n</Element>\n</Array>\n")+"</Tags>\n")
				want = []any{ws}
			}
			got, err := l5load(doc)
			c.Trans(1)
			if err != nil {
				c.Fail("string:"+place, "string '%s' as %s: %v", text, place, err)
			}
			if place == "program tag" || place == "element member" {
				got, _ = got["program:Prog0"].(map[string]any)
			}
			if !reflect.DeepEqual(got["t"], want) {
				c.Fail("string:"+place, "string '%s' as %s is loaded as %q, want %q", text, place, got["t"], want)
			}
			c.State(place, text)
		}}, 2, 2)...)
	}
	us = append(us, vk.Unit{Name: "strings: bad escapes", Run: func(c *vk.C) {
		bad := vk.Pick(c, []string{"$", "$4", "$4g", "$g4", "$X", "a$", "ab$4", "$$$", "$-1", "$+1"}, "text")
		var doc string
		if c.Bool("member") {
			doc = l5project("<Tags>\n" + l5tag("t", "STRING", "<Structure DataType=\"STRING\">\n<DataValueMember Name=\"DATA\" DataType=\"STRING\" Radix=\"ASCII\">\n<![CDATA['"+bad+"']]>\n</DataValueMember>\n</Structure>\n") + "</Tags>\n")
		} else {
			doc = l5project("<Tags>\n<Tag Name=\"t\" TagType=\"Base\" DataType=\"STRING\">\n<Data Format=\"String\" Length=\"4\">\n<![CDATA['" + bad + "']]>\n</Data>\n</Tag>\n</Tags>\n")
		}
		got, err := l5load(doc)
		c.Trans(1)
		if err == nil {
			c.Fail("string:bad escape", "the string '%s' is loaded as %q", bad, got["t"])
		}
		c.State(bad, doc)
	}})
	// 4. every project up to a size: every tag is there, and nothing else
	size := 3
	if tier == "thorough" {
		size = 4
	}
	us = append(us, vk.Shard(vk.Unit{Name: fmt.Sprintf("projects of %d nodes", size), Run: func(c *vk.C) {
		t := &l5tree{c: c, left: size}
		want := map[string]any{}
		controller := t.tags("c", want)
		var programs []string
		for i, n := 0, c.Choose(3, "programs"); i < n; i++ {
			m := map[string]any{}
			programs = append(programs, t.tags("p", m))
			want[fmt.Sprintf("program:Prog%d", i)] = m
		}
		got, err := l5load(l5project(controller, programs...))
		c.Trans(1)
		if err != nil {
			c.Fail("project", "loading %v: %v", want, err)
		}
		if !reflect.DeepEqual(got, want) {
			c.Fail("project", "a project with %v is loaded as %v", want, got)
		}
		c.State(fmt.Sprint(want))
		c.Distinct(fmt.Sprint(want))
	}}, 8, 3)...)
	us = append(us, vk.Unit{Name: "nothing to load", Run: func(c *vk.C) {
		c.Trans(1)
		if got, err := l5x.LoadTags(nil); err == nil && len(got) != 0 {
			c.Fail("empty", "no file is loaded as %v", got)
		}
		if got, err := l5load("<RSLogix5000Content/>"); err == nil && len(got) != 0 {
			c.Fail("empty", "a file without a controller is loaded as %v", got)
		}
	}})
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "L01", Level: "model_checking",
		Rule:        "every value of the 8- and 16-bit types in every radix and every decimal number around their ranges; every text (boundary values of every type in every radix, texts that are no value) in every place of a project; every string up to a length over the characters with a special form, in each of its forms; every project up to a number of nodes. The check writes the project from values it chose and compares what is loaded",
		Units:       l01Units,
		MaxProcs:    8,
		QuickBudget: 100 * time.Second, ThoroughBudget: 13 * time.Minute,
		Bounds:      map[string]any{"string_length": "2 quick, 3 thorough, 21 characters", "project_nodes": "3 quick, 4 thorough", "array_dimensions": "1 to 3"},
		Assumptions: []string{"exported text forms are those of the Logix 5000 import/export reference manual (1756-RM084)", "date and time radixes are outside the check (the loader reports them as errors)"},
	})
}
