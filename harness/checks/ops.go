package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
)

// The operations of the client, each able to tell whether what it returned is
// what the reference controller of opsPLC holds.

// outcome is what one operation did.
type outcome struct {
	err     error
	wrong   string // it reported success with this wrong result
	touched string // it reported an error but changed this
}

type cop struct {
	name string
	run  func(cl *gologix.Client, p *plc.PLC, id int) outcome
	// connected: needs a CIP connection; offline behaviour is reconnect.
	auto bool // reconnects automatically
}

type opStruct struct {
	A int32
	B int16
	C [3]int16
	D float32
}

func opStructVal(id int) opStruct {
	return opStruct{int32(7000 + id), int16(70 + id), [3]int16{int16(id + 1), int16(id + 2), int16(id + 3)}, float32(id) + 0.5}
}

// opsPLC is a controller with its own tags for each of n ids.
func opsPLC(n int) *plc.PLC {
	p := plc.New()
	p.FragBytes = 100
	p.Programs = []plc.Program{{Name: "Main", Instance: 7}, {Name: "Aux", Instance: 9}}
	u := &plc.UDT{Name: "OpType", Template: 0x123, Handle: 0x4455, Size: 16, Suffix: ";nEBECEA", Members: []plc.Member{
		{Name: "A", Type: 0xC4, Size: 4, Off: 0, Bit: -1},
		{Name: "B", Type: 0xC3, Size: 2, Off: 4, Bit: -1},
		{Name: "C", Type: 0xC3, Size: 2, Off: 6, Dim: 3, Bit: -1},
		{Name: "D", Type: 0xCA, Size: 4, Off: 12, Bit: -1}}}
	inst := uint32(40)
	add := func(t *plc.Tag) *plc.Tag {
		inst += 3
		t.Instance = inst
		return p.AddTag(t)
	}
	for id := 0; id < n; id++ {
		nm := func(s string) string { return fmt.Sprintf("%s%d", s, id) }
		d := add(&plc.Tag{Name: nm("D"), Type: 0xC4})
		le.PutUint32(d.Data, uint32(1000+8*id))
		r := add(&plc.Tag{Name: nm("R"), Type: 0xCA})
		le.PutUint32(r.Data, f32(float32(id)+0.25))
		a := add(&plc.Tag{Name: nm("A"), Type: 0xC4, Dims: []int{40}})
		for i := 0; i < 40; i++ {
			le.PutUint32(a.Data[4*i:], uint32(100000*(id+1)+i))
		}
		s := add(&plc.Tag{Name: nm("S"), UDT: plc.StringUDT})
		copy(s.Data, plc.StringData(fmt.Sprintf("text-%d", id)))
		add(&plc.Tag{Name: nm("W"), Type: 0xC4})
		add(&plc.Tag{Name: nm("WA"), Type: 0xC3, Dims: []int{6}})
		add(&plc.Tag{Name: nm("WS"), UDT: plc.StringUDT})
		add(&plc.Tag{Name: nm("WU"), UDT: u})
		ut := add(&plc.Tag{Name: nm("U"), UDT: u})
		v := opStructVal(id)
		var buf bytes.Buffer
		gologix.Pack(&buf, v)
		copy(ut.Data, buf.Bytes())
		pt := add(&plc.Tag{Name: nm("P"), Type: 0xC3, Program: "Main"})
		le.PutUint16(pt.Data, uint16(300+id))
		p.Attrs[fmt.Sprintf("200.%d.1", id+1)] = le.AppendUint32(nil, uint32(9000+id))
		p.Attrs[fmt.Sprintf("200.%d.2", id+1)] = le.AppendUint16(nil, uint16(90+id))
		p.Attrs[fmt.Sprintf("456.%d.7", id+300)] = le.AppendUint32(nil, uint32(1))
		p.Attrs[fmt.Sprintf("200.%d.263", id+300)] = le.AppendUint32(nil, uint32(2))
		p.Attrs[fmt.Sprintf("456.%d.263", id+44)] = le.AppendUint32(nil, uint32(3))
		p.Attrs[fmt.Sprintf("456.%d.263", id+300)] = le.AppendUint32(nil, uint32(9500+id))
	}
	for i, v := range [][]byte{{1, 2}, {3, 4}, {5, 6, 7, 8}, {9, 10, 11, 12}} {
		p.Attrs[fmt.Sprintf("172.1.%d", i+1)] = v
	}
	p.Attrs["172.1.10"] = []byte{13, 14, 15, 16}
	return p
}

func wantArray(id, n int) []int32 {
	r := make([]int32, n)
	for i := range r {
		r[i] = int32(100000*(id+1) + i)
	}
	return r
}

// cmpRead makes an outcome from a destination before and after.
func cmpRead(err error, got, want, before any) outcome {
	if err != nil {
		o := outcome{err: err}
		if !reflect.DeepEqual(got, before) {
			o.touched = fmt.Sprintf("the destination is %v, it was %v", got, before)
		}
		return o
	}
	if !reflect.DeepEqual(got, want) {
		return outcome{wrong: fmt.Sprintf("got %v, expected %v", got, want)}
	}
	return outcome{}
}

// cmpWrite makes an outcome of a write: on success the tag holds want, on
// failure it holds want or what it held.
func cmpWrite(err error, p *plc.PLC, tag string, before, want []byte) outcome {
	d := p.Tags[strings.ToLower(tag)].Data
	if err != nil {
		o := outcome{err: err}
		if !bytes.Equal(d, before) && !bytes.Equal(d, want) {
			o.touched = fmt.Sprintf("%s holds % x", tag, d)
		}
		return o
	}
	if !bytes.Equal(d, want) {
		return outcome{wrong: fmt.Sprintf("%s holds % x, written % x", tag, d, want)}
	}
	return outcome{}
}

func opByName(n string) *cop {
	for i := range clientOps {
		if clientOps[i].name == n {
			return &clientOps[i]
		}
	}
	panic("op " + n)
}

type tag3 struct{ d, s, a string }

var clientOps = []cop{
	{"Read", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v := int32(-5)
		err := cl.Read(fmt.Sprintf("D%d", id), &v)
		return cmpRead(err, v, int32(1000+8*id), int32(-5))
	}, true},
	{"Read slice", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v := make([]int32, 40)
		before := make([]int32, 40)
		err := cl.Read(fmt.Sprintf("A%d[0]", id), v)
		return cmpRead(err, v, wantArray(id, 40), before)
	}, true},
	{"Read string", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v := "before"
		err := cl.Read(fmt.Sprintf("S%d", id), &v)
		return cmpRead(err, v, fmt.Sprintf("text-%d", id), "before")
	}, true},
	{"Read struct", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		before := opStruct{A: -1, B: -2, C: [3]int16{-3, -4, -5}, D: -6}
		v := before
		err := cl.Read(fmt.Sprintf("U%d", id), &v)
		return cmpRead(err, v, opStructVal(id), before)
	}, true},
	{"Read bit", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		// bits 3, 5.. of 1000+8*id; the destination starts as the opposite
		want := (1000+8*id)>>3&1 != 0
		v := !want
		err := cl.Read(fmt.Sprintf("D%d.3", id), &v)
		return cmpRead(err, v, want, !want)
	}, true},
	{"Read program", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v := int16(-5)
		err := cl.Read(fmt.Sprintf("Program:Main.P%d", id), &v)
		return cmpRead(err, v, int16(300+id), int16(-5))
	}, true},
	{"Read_single", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.Read_single(fmt.Sprintf("A%d[2]", id), gologix.CIPTypeDINT, 3)
		w := wantArray(id, 5)
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, v, []any{w[2], w[3], w[4]}, nil)
	}, true},
	{"Read_single string", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.Read_single(fmt.Sprintf("S%d", id), gologix.CIPTypeSTRING, 1)
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, v, []byte(fmt.Sprintf("text-%d", id)), nil)
	}, true},
	{"ReadMulti", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		type T struct {
			D int32   `gologix:"D{0}"`
			S string  `gologix:"S{0}"`
			A []int32 `gologix:"A{0}[1]"`
			B bool    `gologix:"D{0}.3"`
			X int32
		}
		before := T{-1, "x", []int32{-2, -3, -4}, false, 99}
		v := T{-1, "x", []int32{-2, -3, -4}, false, 99}
		err := cl.ReadMulti(&v, id)
		return cmpRead(err, v, T{int32(1000 + 8*id), fmt.Sprintf("text-%d", id), wantArray(id, 4)[1:], (1000+8*id)>>3&1 != 0, 99}, before)
	}, true},
	{"ReadMap", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		k := func(s string) string { return fmt.Sprintf(s, id) }
		v := map[string]any{k("D%d"): int32(-1), k("R%d"): float32(-1), k("S%d"): "x", k("U%d"): opStruct{A: -1}}
		before := map[string]any{k("D%d"): int32(-1), k("R%d"): float32(-1), k("S%d"): "x", k("U%d"): opStruct{A: -1}}
		err := cl.ReadMap(v)
		return cmpRead(err, v, map[string]any{k("D%d"): int32(1000 + 8*id), k("R%d"): float32(id) + 0.25, k("S%d"): k("text-%d"), k("U%d"): opStructVal(id)}, before)
	}, true},
	{"ReadList", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		k := func(s string) string { return fmt.Sprintf(s, id) }
		v, err := cl.ReadList([]string{k("R%d"), k("A%d[1]"), k("D%d")}, []any{float32(0), []int32{0, 0}, int32(0)}, []int{1, 2, 1})
		if err != nil {
			return outcome{err: err}
		}
		w := wantArray(id, 3)
		return cmpRead(nil, v, []any{float32(id) + 0.25, []any{w[1], w[2]}, int32(1000 + 8*id)}, nil)
	}, true},
	{"ReadTagGroup", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		g := gologix.NewTagGroup(gologix.TagDef{Name: "D{0}", Type: gologix.CIPTypeDINT}, gologix.TagDef{Name: "A{0}[1]", Type: gologix.CIPTypeDINT, Elements: 2})
		res, err := cl.ReadTagGroup(g, id)
		if err != nil {
			return outcome{err: err}
		}
		w := wantArray(id, 3)
		return cmpRead(nil, res.Raw(), map[string]any{fmt.Sprintf("D%d", id): int32(1000 + 8*id), fmt.Sprintf("A%d[1]", id): []any{w[1], w[2]}}, nil)
	}, true},
	{"Write", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		t := fmt.Sprintf("W%d", id)
		before := append([]byte(nil), p.Tags[strings.ToLower(t)].Data...)
		err := cl.Write(t, int32(5000+id))
		return cmpWrite(err, p, t, before, le.AppendUint32(nil, uint32(5000+id)))
	}, true},
	{"Write slice", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		t := fmt.Sprintf("WA%d", id)
		before := append([]byte(nil), p.Tags[strings.ToLower(t)].Data...)
		err := cl.Write(t+"[1]", []int16{11, 12, int16(20 + id)})
		want := append([]byte(nil), before...)
		copy(want[2:], []byte{11, 0, 12, 0, byte(20 + id), 0})
		return cmpWrite(err, p, t, before, want)
	}, true},
	{"Write string", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		t := fmt.Sprintf("WS%d", id)
		before := append([]byte(nil), p.Tags[strings.ToLower(t)].Data...)
		err := cl.Write(t, fmt.Sprintf("new-%d", id))
		return cmpWrite(err, p, t, before, plc.StringData(fmt.Sprintf("new-%d", id)))
	}, true},
	{"WriteMap", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		t := fmt.Sprintf("W%d", id)
		before := append([]byte(nil), p.Tags[strings.ToLower(t)].Data...)
		err := cl.WriteMap(map[string]any{t: int32(6000 + id)})
		return cmpWrite(err, p, t, before, le.AppendUint32(nil, uint32(6000+id)))
	}, true},
	{"WriteMulti", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		t := fmt.Sprintf("W%d", id)
		before := append([]byte(nil), p.Tags[strings.ToLower(t)].Data...)
		err := cl.WriteMulti(taggedStruct([]string{t}, []any{int32(6500 + id)}))
		return cmpWrite(err, p, t, before, le.AppendUint32(nil, uint32(6500+id)))
	}, true},
	{"GetAttrSingle", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		it, err := cl.GetAttrSingle(gologix.CIPClass(200), gologix.CIPInstance(id+1), 1)
		if err != nil {
			return outcome{err: err}
		}
		v, err := it.Uint32()
		if err != nil {
			return outcome{wrong: "result is cut: " + err.Error()}
		}
		return cmpRead(nil, v, uint32(9000+id), nil)
	}, true},
	{"GetAttrSingle wide", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		it, err := cl.GetAttrSingle(gologix.CIPClass(456), gologix.CIPInstance(id+300), 263)
		if err != nil {
			return outcome{err: err}
		}
		v, err := it.Uint32()
		if err != nil {
			return outcome{wrong: "result is cut: " + err.Error()}
		}
		return cmpRead(nil, v, uint32(9500+id), nil)
	}, true},
	{"GetAttrList wide", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		it, err := cl.GetAttrList(gologix.CIPClass(456), gologix.CIPInstance(id+300), 263)
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, it.Rest(), le.AppendUint32([]byte{7, 1, 0, 0}, uint32(9500+id)), nil)
	}, false},
	{"GetAttrList", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		it, err := cl.GetAttrList(gologix.CIPClass(200), gologix.CIPInstance(id+1), 1, 2)
		if err != nil {
			return outcome{err: err}
		}
		want := []byte{1, 0, 0, 0}
		want = le.AppendUint32(want, uint32(9000+id))
		want = append(want, 2, 0, 0, 0)
		want = le.AppendUint16(want, uint16(90+id))
		return cmpRead(nil, it.Rest(), want, nil)
	}, false},
	{"GetControllerPropList", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.GetControllerPropList()
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, []uint32{uint32(v.Attr1), uint32(v.Attr2), v.Attr3, v.Attr4, v.Attr5}, []uint32{0x0201, 0x0403, 0x08070605, 0x0C0B0A09, 0x100F0E0D}, nil)
	}, false},
	{"GenericCIPMessage", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		path, err := gologix.Serialize(gologix.CIPClass(200), gologix.CIPInstance(id+1), gologix.CIPAttribute(1))
		if err != nil {
			return outcome{err: err}
		}
		it, err := cl.GenericCIPMessage(gologix.CIPService_GetAttributeSingle, path.Bytes(), nil)
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, it.Rest(), le.AppendUint32(nil, uint32(9000+id)), nil)
	}, false},
	{"ListIdentity", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.ListIdentity()
		if err != nil {
			return outcome{err: err}
		}
		return cmpRead(nil, fmt.Sprint(v.ProductName, v.SerialNumber, v.State, v.ProductCode), fmt.Sprint("1756-L71/B LOGIX5571", uint32(0xC0FFEE01), 3, 0x5E), nil)
	}, false},
	{"ListServices", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.ListServices()
		if err != nil {
			return outcome{err: err}
		}
		if len(v) == 0 {
			return outcome{wrong: "no services"}
		}
		return cmpRead(nil, fmt.Sprintf("%d %s %d", len(v), v[0].Name, v[0].EncapProtocolVersion), "1 Communications 1", nil)
	}, false},
	{"ListAllPrograms", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		err := cl.ListAllPrograms()
		if err != nil {
			return outcome{err: err}
		}
		got := ""
		for _, n := range []string{"Main", "Aux"} {
			if k := cl.KnownPrograms[n]; k != nil {
				got += fmt.Sprintf("%s=%d ", k.Name, k.ID)
			}
		}
		return cmpRead(nil, got, "Main=7 Aux=9 ", nil)
	}, false},
	{"ListSubTags", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.ListSubTags(&gologix.KnownProgram{Name: "Main", ID: 7}, 1)
		if err != nil {
			return outcome{err: err}
		}
		want := 0
		for _, t := range p.Tags {
			if t.Program == "Main" {
				want++
			}
		}
		return cmpRead(nil, len(v), want, nil)
	}, false},
	{"ListMembers", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		v, err := cl.ListMembers(0x123)
		if err != nil {
			return outcome{err: err}
		}
		s := ""
		for _, m := range v.Members {
			s += fmt.Sprintf("%s@%d ", m.Name, m.Info.Offset)
		}
		return cmpRead(nil, s, "A@0 B@4 C@6 D@12 ", nil)
	}, false},
	{"ListAllTags", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		cl.KnownTags = map[string]gologix.KnownTag{}
		err := cl.ListAllTags(0)
		if err != nil {
			return outcome{err: err}
		}
		for _, n := range []string{"d", "a", "s", "u"} {
			k := fmt.Sprintf("%s%d", n, id)
			t := p.Tags[k]
			kt, ok := cl.KnownTags[k]
			if !ok || uint32(kt.Instance) != t.Instance {
				return outcome{wrong: fmt.Sprintf("tag %s is listed as %+v", k, kt)}
			}
		}
		return outcome{}
	}, false},
	{"DataTableBuffer", func(cl *gologix.Client, p *plc.PLC, id int) outcome {
		b, err := cl.NewDataTableBuffer()
		if err != nil {
			return outcome{err: err}
		}
		x := int32(-1)
		d, s := fmt.Sprintf("D%d", id), fmt.Sprintf("S%d", id)
		if err := b.AddTagRef(d, &x); err != nil {
			return outcome{wrong: "AddTagRef: " + err.Error()}
		}
		if err := b.AddTag(s, gologix.CIPTypeSTRING); err != nil {
			return outcome{wrong: "AddTag: " + err.Error()}
		}
		v, err := b.ReadAll()
		if err == nil {
			if o := cmpRead(nil, v, map[string]any{d: int32(1000 + 8*id), s: fmt.Sprintf("text-%d", id)}, nil); o.wrong != "" {
				return o
			}
			if x != int32(1000+8*id) {
				return outcome{wrong: fmt.Sprintf("AddTagRef variable is %d", x)}
			}
			if err = b.RemoveTag(d); err == nil {
				v, err = b.ReadAll()
				if err == nil {
					if o := cmpRead(nil, v, map[string]any{s: fmt.Sprintf("text-%d", id)}, nil); o.wrong != "" {
						return o
					}
					err = b.Close()
				}
			}
		} else if x != -1 {
			return outcome{err: err, touched: "the AddTagRef variable"}
		}
		return outcome{err: err}
	}, true},
}
