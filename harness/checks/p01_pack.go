package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"reflect"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/vk"
)

// ---- reference layout -------------------------------------------------------
// Fields in order.  Neighbouring bools and bool arrays share bytes, least
// significant bit first; a field tagged pack:"nopack" does not take part.  Any
// other field starts at a multiple of its own alignment (scalars: their size;
// arrays: their element's; structures: the largest of their members').  Gaps
// are zero.  Nothing is added after the last member.

func refAlign(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Array:
		return refAlign(t.Elem())
	case reflect.Struct:
		a := 1
		for i := 0; i < t.NumField(); i++ {
			a = max(a, refAlign(t.Field(i).Type))
		}
		return a
	}
	return int(t.Size())
}

type refPacker struct {
	b    []byte
	bit  int
	base int
}

func (p *refPacker) bool(v bool) {
	if p.bit == 0 {
		p.b = append(p.b, 0)
	}
	if v {
		p.b[len(p.b)-1] |= 1 << p.bit
	}
	p.bit = (p.bit + 1) % 8
}

func (p *refPacker) align(a int) {
	p.bit = 0
	for (len(p.b)-p.base)%a != 0 {
		p.b = append(p.b, 0)
	}
}

func (p *refPacker) scalar(v reflect.Value) {
	le := binary.LittleEndian
	switch v.Kind() {
	case reflect.Bool:
		x := byte(0)
		if v.Bool() {
			x = 1
		}
		p.b = append(p.b, x)
	case reflect.Int8:
		p.b = append(p.b, byte(v.Int()))
	case reflect.Uint8:
		p.b = append(p.b, byte(v.Uint()))
	case reflect.Int16:
		p.b = le.AppendUint16(p.b, uint16(v.Int()))
	case reflect.Uint16:
		p.b = le.AppendUint16(p.b, uint16(v.Uint()))
	case reflect.Int32:
		p.b = le.AppendUint32(p.b, uint32(v.Int()))
	case reflect.Uint32:
		p.b = le.AppendUint32(p.b, uint32(v.Uint()))
	case reflect.Int64:
		p.b = le.AppendUint64(p.b, uint64(v.Int()))
	case reflect.Uint64:
		p.b = le.AppendUint64(p.b, v.Uint())
	case reflect.Float32:
		p.b = le.AppendUint32(p.b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		p.b = le.AppendUint64(p.b, math.Float64bits(v.Float()))
	default:
		panic("refPacker: " + v.Kind().String())
	}
}

func (p *refPacker) value(v reflect.Value, packBits bool) {
	switch v.Kind() {
	case reflect.Bool:
		if packBits {
			p.bool(v.Bool())
			return
		}
		p.align(1)
		p.scalar(v)
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Bool && packBits {
			for i := 0; i < v.Len(); i++ {
				p.bool(v.Index(i).Bool())
			}
			return
		}
		p.align(refAlign(v.Type()))
		for i := 0; i < v.Len(); i++ {
			p.value(v.Index(i), packBits && v.Index(i).Kind() != reflect.Bool)
		}
	case reflect.Struct:
		p.align(refAlign(v.Type()))
		base := p.base
		p.base = len(p.b)
		for i := 0; i < v.NumField(); i++ {
			p.value(v.Field(i), v.Type().Field(i).Tag.Get("pack") != "nopack")
		}
		p.bit = 0
		p.base = base
	default:
		p.align(refAlign(v.Type()))
		p.scalar(v)
	}
}

// refPack is the reference encoding of a structure.
func refPack(v any) []byte {
	p := &refPacker{}
	p.value(reflect.ValueOf(v), true)
	return p.b
}

// fill gives every scalar of v a distinct value; pattern selects which.
func fill(v reflect.Value, pattern int, ctr *int) {
	next := func() uint64 {
		*ctr++
		x := uint64(*ctr)
		switch pattern {
		case 0: // every byte of every scalar is different and non-zero
			return x * 0x1F2E3D4C5B6A7989
		case 1:
			return ^uint64(0)
		default: // sign bit only, alternating
			if x%2 == 0 {
				return 1
			}
			return 0x8080808080808080
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		*ctr++
		switch pattern {
		case 0:
			v.SetBool(*ctr%3 == 0 || *ctr%4 == 1)
		case 1:
			v.SetBool(true)
		default:
			v.SetBool(*ctr%2 == 0)
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(next()) << (64 - 8*v.Type().Size()) >> (64 - 8*v.Type().Size()))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(next() << (64 - 8*v.Type().Size()) >> (64 - 8*v.Type().Size()))
	case reflect.Float32:
		v.SetFloat(float64(math.Float32frombits(uint32(next())&^0x40000000 | 0x20000000)))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(next()&^0x4000000000000000 | 0x2000000000000000))
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			fill(v.Index(i), pattern, ctr)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fill(v.Field(i), pattern, ctr)
		}
	}
}

// chunkReader hands out at most n bytes per Read.
type chunkReader struct {
	b []byte
	n int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := min(r.n, len(p), len(r.b))
	copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

type fieldAlt struct {
	name string
	t    reflect.Type
	tag  reflect.StructTag
}

func structOf(fs []fieldAlt) reflect.Type {
	sf := make([]reflect.StructField, len(fs))
	for i, f := range fs {
		sf[i] = reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: f.t, Tag: f.tag}
	}
	return reflect.StructOf(sf)
}

func names(fs []fieldAlt) string {
	var r []string
	for _, f := range fs {
		r = append(r, f.name)
	}
	return strings.Join(r, ";")
}

func scalarAlts() []fieldAlt {
	np := reflect.StructTag(`pack:"nopack"`)
	return []fieldAlt{
		{"bool", reflect.TypeFor[bool](), ""},
		{"bool/nopack", reflect.TypeFor[bool](), np},
		{"sint", reflect.TypeFor[int8](), ""},
		{"int", reflect.TypeFor[int16](), ""},
		{"dint", reflect.TypeFor[int32](), ""},
		{"lint", reflect.TypeFor[int64](), ""},
		{"real", reflect.TypeFor[float32](), ""},
		{"lreal", reflect.TypeFor[float64](), ""},
		{"byte", reflect.TypeFor[uint8](), ""},
		{"uint", reflect.TypeFor[uint16](), ""},
	}
}

func arrayAlts() []fieldAlt {
	np := reflect.StructTag(`pack:"nopack"`)
	return []fieldAlt{
		{"[3]bool", reflect.TypeFor[[3]bool](), ""},
		{"[8]bool", reflect.TypeFor[[8]bool](), ""},
		{"[9]bool", reflect.TypeFor[[9]bool](), ""},
		{"[2]bool/nopack", reflect.TypeFor[[2]bool](), np},
		{"[3]sint", reflect.TypeFor[[3]int8](), ""},
		{"[2]int", reflect.TypeFor[[2]int16](), ""},
		{"[2]udint", reflect.TypeFor[[2]uint32](), ""},
		{"[1]lreal", reflect.TypeFor[[1]float64](), ""},
	}
}

// nestedAlts: every structure of one or two fields of a reduced alphabet, and
// arrays of some of them.
func nestedAlts(full bool) []fieldAlt {
	base := []fieldAlt{scalarAlts()[0], scalarAlts()[2], scalarAlts()[3], scalarAlts()[4], scalarAlts()[5], arrayAlts()[2]}
	var r []fieldAlt
	for _, a := range base {
		fs := []fieldAlt{a}
		r = append(r, fieldAlt{"{" + names(fs) + "}", structOf(fs), ""})
		for _, b := range base {
			fs := []fieldAlt{a, b}
			t := structOf(fs)
			r = append(r, fieldAlt{"{" + names(fs) + "}", t, ""})
			if full || (a.name != b.name) {
				r = append(r, fieldAlt{"[2]{" + names(fs) + "}", reflect.ArrayOf(2, t), ""})
			}
		}
	}
	// two levels deep
	in := structOf([]fieldAlt{base[1], base[3]})
	mid := []fieldAlt{base[1], {"{sint;dint}", in, ""}, base[0]}
	r = append(r, fieldAlt{"{sint;{sint;dint};bool}", structOf(mid), ""})
	mid2 := []fieldAlt{base[2], {"[2]{sint;dint}", reflect.ArrayOf(2, in), ""}}
	r = append(r, fieldAlt{"{int;[2]{sint;dint}}", structOf(mid2), ""})
	return r
}

func shapeOf(fs []fieldAlt) string {
	k := "scalars"
	for _, f := range fs {
		switch {
		case strings.HasPrefix(f.name, "[2]{") || strings.Contains(f.name, "[2]{"):
			return "struct array"
		case strings.HasPrefix(f.name, "{"):
			k = "nested"
		case strings.HasPrefix(f.name, "[") && k == "scalars":
			k = "arrays"
		}
	}
	return k
}

func checkPack(c *vk.C, fs []fieldAlt, pattern int) {
	t := structOf(fs)
	v := reflect.New(t)
	ctr := 0
	fill(v.Elem(), pattern, &ctr)
	val := v.Elem().Interface()
	want := refPack(val)
	desc := names(fs)
	kind := shapeOf(fs)
	var buf bytes.Buffer
	n, err := gologix.Pack(&buf, val)
	c.Trans(1)
	if err != nil {
		c.Fail("pack-error:"+kind, "%s: Pack fails: %v", desc, err)
	}
	if n != buf.Len() {
		c.Fail("pack-count:"+kind, "%s: Pack returns %d but wrote %d bytes", desc, n, buf.Len())
	}
	if !bytes.Equal(buf.Bytes(), want) {
		c.Fail("pack-layout:"+kind, "%s: Pack(%+v)\n got % x\nwant % x", desc, val, buf.Bytes(), want)
	}
	// decoding, however the reader hands out the bytes
	tail := []byte{0xA5, 0x5A, 0xA5, 0x5A, 0xA5, 0x5A, 0xA5, 0x5A}
	for _, chunk := range []int{len(want) + len(tail), 1, 2, 3, 5} {
		out := reflect.New(t)
		if chunk == 5 { // what was there before does not matter
			ctr := 3
			fill(out.Elem(), (pattern+1)%3, &ctr)
		}
		r := &chunkReader{append(append([]byte(nil), want...), tail...), max(chunk, 1)}
		n, err := gologix.Unpack(r, out.Interface())
		c.Trans(1)
		if err != nil {
			c.Fail("unpack-error:"+kind, "%s: Unpack (reader gives %d bytes at a time) fails: %v", desc, chunk, err)
		}
		if n != len(want) || len(r.b) != len(tail) {
			c.Fail("unpack-count:"+kind, "%s: Unpack returns %d and consumed %d bytes of a %d byte structure (reader gives %d at a time)", desc, n, len(want)+len(tail)-len(r.b), len(want), chunk)
		}
		if !reflect.DeepEqual(out.Elem().Interface(), val) {
			c.Fail("unpack-value:"+kind, "%s: Unpack(Pack(x)) (reader gives %d bytes at a time)\n got %+v\nwant %+v", desc, chunk, out.Elem().Interface(), val)
		}
	}
	// every truncation is an error
	for cut := 0; cut < len(want); cut++ {
		out := reflect.New(t)
		_, err := gologix.Unpack(bytes.NewReader(want[:cut]), out.Interface())
		c.Trans(1)
		if err == nil {
			c.Fail("unpack-short:"+kind, "%s: Unpack of %d of %d bytes succeeds", desc, cut, len(want))
		}
	}
	// slices of the structure: every element starts aligned
	al := refAlign(t)
	sl := reflect.MakeSlice(reflect.SliceOf(t), 3, 3)
	ctr = 7
	fill(sl, pattern, &ctr)
	var enc []byte
	for i := 0; i < 3; i++ {
		enc = append(enc, refPack(sl.Index(i).Interface())...)
		for len(enc)%al != 0 {
			enc = append(enc, 0)
		}
	}
	for _, chunk := range []int{len(enc), 1, 3} {
		out := reflect.MakeSlice(sl.Type(), 3, 3)
		n, err := gologix.Unpack(&chunkReader{append([]byte(nil), enc...), max(1, chunk)}, out.Interface())
		c.Trans(1)
		if err != nil {
			c.Fail("unpack-slice-error:"+kind, "slice of %s: Unpack (reader gives %d bytes at a time) fails: %v", desc, chunk, err)
		}
		if n != len(enc) {
			c.Fail("unpack-slice-count:"+kind, "slice of %s: Unpack returns %d of %d", desc, n, len(enc))
		}
		if !reflect.DeepEqual(out.Interface(), sl.Interface()) {
			c.Fail("unpack-slice-value:"+kind, "slice of %s (reader gives %d at a time):\n got %+v\nwant %+v", desc, chunk, out.Interface(), sl.Interface())
		}
	}
	c.State(want)
	c.Validated()
	c.Distinct(desc, pattern)
	c.Sample(func() string { return fmt.Sprintf("%s pattern %d -> % x", desc, pattern, want) })
}

func p01Units(tier string) []vk.Unit {
	var us []vk.Unit
	flat := append(scalarAlts(), arrayAlts()...)
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	for i := range flat {
		first := flat[i]
		us = append(us, vk.Unit{Name: "flat starting " + first.name, Run: func(c *vk.C) {
			pattern := c.Choose(3, "pattern")
			fs := []fieldAlt{first}
			for len(fs) < depth {
				k := c.Choose(len(flat)+1, "field")
				if k == len(flat) {
					break
				}
				fs = append(fs, flat[k])
			}
			checkPack(c, fs, pattern)
		}})
	}
	nested := nestedAlts(tier == "thorough")
	around := append([]fieldAlt{{"", nil, ""}}, flat...)
	for i := range nested {
		nst := nested[i]
		us = append(us, vk.Unit{Name: "nested " + nst.name, Run: func(c *vk.C) {
			pattern := c.Choose(3, "pattern")
			var fs []fieldAlt
			if a := vk.Pick(c, around, "before"); a.t != nil {
				fs = append(fs, a)
			}
			fs = append(fs, nst)
			if a := vk.Pick(c, around, "after"); a.t != nil {
				fs = append(fs, a)
				if tier == "thorough" {
					if b := vk.Pick(c, around, "last"); b.t != nil {
						fs = append(fs, b)
					}
				}
			}
			checkPack(c, fs, pattern)
		}})
	}
	// long runs of bools: every length across several byte boundaries, with a
	// scalar of every size behind
	us = append(us, vk.Unit{Name: "bool runs", Run: func(c *vk.C) {
		n := 1 + c.Choose(34, "bools")
		after := vk.Pick(c, scalarAlts(), "after")
		split := c.Choose(3, "as")
		pattern := c.Choose(3, "pattern")
		var fs []fieldAlt
		switch split {
		case 0:
			for i := 0; i < n; i++ {
				fs = append(fs, scalarAlts()[0])
			}
		case 1:
			fs = append(fs, fieldAlt{fmt.Sprintf("[%d]bool", n), reflect.ArrayOf(n, reflect.TypeFor[bool]()), ""})
		default:
			fs = append(fs, scalarAlts()[0], fieldAlt{fmt.Sprintf("[%d]bool", n), reflect.ArrayOf(n, reflect.TypeFor[bool]()), ""}, scalarAlts()[0])
		}
		fs = append(fs, after, scalarAlts()[0])
		checkPack(c, fs, pattern)
	}})
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "P01", Level: "model_checking",
		Rule:        "every structure type of up to n fields over an alphabet of 18 field kinds (scalars, packed and unpacked bools, scalar and bool arrays), every nested structure/array of structures of two fields between every pair of neighbours, bool runs of 1..34; three value patterns; each is packed, compared with a reference layout, unpacked through readers handing out 1,2,3,5 or all bytes, and unpacked from every truncation; a case is one structure type and value pattern",
		Units:       p01Units,
		QuickBudget: 200 * time.Second, ThoroughBudget: 40 * time.Minute,
		Bounds:      map[string]any{"fields": "3 quick, 4 thorough"},
		Assumptions: []string{"the reference layout is the one the package's own documentation and tests state: natural alignment, no padding after the last member"},
	})
}
