// Package plc is a reference controller: a strict, independent implementation
// of the part of EtherNet/IP and CIP a gologix client talks to.  It records
// everything it is sent, refuses anything malformed, and answers exactly what
// its tag database holds, so it serves as the oracle of the client checks.
package plc

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"sort"
	"strings"
)

var le = binary.LittleEndian

// Member is one member of a structure.
type Member struct {
	Name string
	Type uint16 // atomic type code, or 0x8000|template
	Size int    // size of one element
	Off  int
	Dim  int // 0: not an array
	Bit  int // -1: not a bit
	UDT  *UDT
}

// UDT is a structure definition.
type UDT struct {
	Name     string
	Template uint16
	Handle   uint16
	Size     int
	Members  []Member
	// Suffix follows the name in the template (";nEB..."), "" for none.
	Suffix string
}

// Tag is one symbol.
type Tag struct {
	Name     string // as stored, original case
	Program  string // "" for controller scope
	Instance uint32
	Type     uint16 // atomic code, or 0x8000|template
	Size     int    // one element
	Dims     []int
	UDT      *UDT
	Data     []byte
	ReadOnly bool
	// Hidden tags are not listed.
	Hidden bool
}

func (t *Tag) count() int {
	n := 1
	for _, d := range t.Dims {
		n *= d
	}
	return n
}

// Program is one program instance.
type Program struct {
	Name     string
	Instance uint32
}

// Req is one CIP request as seen by the controller.
type Req struct {
	Service byte
	Path    []byte
	Data    []byte
	Seq     uint16
	Conn    bool // connected
	ItemLen int  // length of the connected data item
	Multi   []Req
}

func (r Req) String() string {
	return fmt.Sprintf("svc=%#02x path=% x data=% x", r.Service, r.Path, r.Data)
}

// Reply is the answer to one CIP request.
type Reply struct {
	Status byte
	Ext    []uint16
	Data   []byte
}

// PLC is the controller.
type PLC struct {
	Tags     map[string]*Tag // lower case full name
	Programs []Program
	UDTs     map[uint16]*UDT
	Attrs    map[string][]byte // "class.instance.attr"
	Firmware byte

	// AllowLarge: large forward open is supported.
	AllowLarge bool
	// MaxConn limits the connection size it grants (0: no limit).
	MaxConn int
	// FragBytes limits the data bytes of one read reply (0: what fits).
	FragBytes int
	// PageRecords limits the records of one instance list reply, of symbols or
	// of programs (0: what fits).
	PageRecords int
	// ProgramList answers the program list service; false: not supported.
	ProgramList bool
	// TemplateBytes limits one template read reply (0: what fits).
	TemplateBytes int

	// Override may replace the answer to a request (nil: normal).
	Override func(r *Req) *Reply
	// Extra handles requests the controller does not know.
	Extra func(s *Session, r *Req, class uint16, inst uint32) *Reply

	// ServiceItems and IdentityItems replace the answers to the list services
	// and list identity commands.
	ServiceItems, IdentityItems func() []Item

	// Opens and Closes are the forward open and close requests in order, granted
	// or not.
	Opens  []Open
	Closes []Close

	// Partials counts read replies that were cut.
	Partials int
	// Problems are protocol errors of the client.
	Problems []string
	// Reqs are the CIP requests in order of arrival.
	Reqs []Req
	// Frames counts the encapsulation frames received.
	Frames int
	// MaxFrames makes further requests a problem (endless loop detection).
	MaxFrames int

	// Buffers are the data table buffers by instance.
	Buffers map[uint32]*Buffer
	nextBuf uint32

	nextSession uint32
	nextConn    uint32
	Sessions    []*Session
}

// Open is one forward open request as the controller understands it.
type Open struct {
	Large                  bool
	Priority, Ticks        byte
	OTID, TOID             uint32
	Serial, Vendor         uint16
	OSerial                uint32
	Multiplier             byte
	Reserved               [3]byte
	OTRPI, TORPI           uint32 // microseconds
	OTSize, TOSize         int
	OTType, TOType         int // 2: point to point
	OTVariable, TOVariable bool
	OTRest, TORest         uint32 // owner, priority and reserved bits
	Trigger                byte
	Path                   []byte
	Granted                bool
}

// Close is one forward close request.
type Close struct {
	Priority, Ticks byte
	Serial, Vendor  uint16
	OSerial         uint32
	Path            []byte
}

// CIPConn is one open CIP connection.
type CIPConn struct {
	OT, TO  uint32
	Serial  uint16
	Vendor  uint16
	OSerial uint32
	Size    int
	lastSeq int
	last    []byte
	Session *Session
	Closed  bool
}

// Session is one TCP connection to the controller.
type Session struct {
	P          *PLC
	Handle0    uint32
	Registered bool
	Conns      []*CIPConn
	Ended      bool
}

// New returns an empty controller.
func New() *PLC {
	return &PLC{Tags: map[string]*Tag{}, UDTs: map[uint16]*UDT{}, Attrs: map[string][]byte{}, Firmware: 20, AllowLarge: true,
		ProgramList: true, nextSession: 0x11110000, nextConn: 0x22220000, MaxFrames: 5000}
}

// Problem records a protocol error of the client.
func (p *PLC) Problem(f string, a ...any) {
	if len(p.Problems) < 20 {
		p.Problems = append(p.Problems, fmt.Sprintf(f, a...))
	}
}

// AddTag adds a tag and allocates its data.
func (p *PLC) AddTag(t *Tag) *Tag {
	if t.Size == 0 {
		t.Size = AtomSize(t.Type)
		if t.UDT != nil {
			t.Size = t.UDT.Size
			t.Type = 0x8000 | t.UDT.Template
		}
	}
	if t.UDT != nil {
		p.AddUDT(t.UDT)
	}
	if t.Data == nil {
		t.Data = make([]byte, t.Size*t.count())
	}
	p.Tags[strings.ToLower(t.Full())] = t
	return t
}

// AddUDT registers a structure and its nested structures.
func (p *PLC) AddUDT(u *UDT) {
	p.UDTs[u.Template] = u
	for _, m := range u.Members {
		if m.UDT != nil {
			p.AddUDT(m.UDT)
		}
	}
}

// Full is the path of the tag.
func (t *Tag) Full() string {
	if t.Program != "" {
		return "Program:" + t.Program + "." + t.Name
	}
	return t.Name
}

// StringUDT is the standard 88 byte string.
var StringUDT = &UDT{Name: "STRING", Template: 0xFCE, Handle: 0x0FCE, Size: 88, Members: []Member{
	{Name: "LEN", Type: 0xC4, Size: 4, Off: 0, Bit: -1},
	{Name: "DATA", Type: 0xC2, Size: 1, Off: 4, Dim: 82, Bit: -1},
}}

// StringData lays out a string value.
func StringData(s string) []byte {
	b := make([]byte, 88)
	le.PutUint32(b, uint32(len(s)))
	copy(b[4:], s)
	return b
}

// AtomSize is the size of an atomic type.
func AtomSize(t uint16) int {
	switch t {
	case 0xC1, 0xC2, 0xC6, 0xD1:
		return 1
	case 0xC3, 0xC7, 0xD2:
		return 2
	case 0xC4, 0xC8, 0xCA, 0xD3:
		return 4
	case 0xC5, 0xC9, 0xCB, 0xD4:
		return 8
	}
	return 0
}

// Seg is one decoded path segment.
type Seg struct {
	Kind byte // 's' symbol, 'c' class, 'i' instance, 'e' element, 'a' attribute, 'm' member, 'p' port
	Sym  string
	Num  uint32
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// ParseEPath decodes a padded EPATH strictly.
func ParseEPath(b []byte) ([]Seg, error) {
	var r []Seg
	if len(b)%2 != 0 {
		return nil, fmt.Errorf("odd path length %d", len(b))
	}
	for i := 0; i < len(b); {
		need := func(n int) bool { return i+n <= len(b) }
		t := b[i]
		switch {
		case t == 0x91:
			if !need(2) {
				return nil, fmt.Errorf("short symbol segment")
			}
			n := int(b[i+1])
			if n == 0 {
				return nil, fmt.Errorf("empty symbol segment")
			}
			pad := n & 1
			if !need(2 + n + pad) {
				return nil, fmt.Errorf("symbol segment of %d bytes overruns the path", n)
			}
			if pad == 1 && b[i+2+n] != 0 {
				return nil, fmt.Errorf("symbol pad byte is %#x", b[i+2+n])
			}
			r = append(r, Seg{Kind: 's', Sym: string(b[i+2 : i+2+n])})
			i += 2 + n + pad
		case t&0xE0 == 0x20:
			k := "cmie"
			var kind byte
			switch t & 0x1C {
			case 0x00:
				kind = 'c'
			case 0x04:
				kind = 'i'
			case 0x08:
				kind = 'e'
			case 0x10:
				kind = 'a'
			default:
				return nil, fmt.Errorf("unknown logical segment %#x", t)
			}
			_ = k
			switch t & 3 {
			case 0:
				if !need(2) {
					return nil, fmt.Errorf("short segment %#x", t)
				}
				r = append(r, Seg{Kind: kind, Num: uint32(b[i+1])})
				i += 2
			case 1:
				if !need(4) {
					return nil, fmt.Errorf("short segment %#x", t)
				}
				if b[i+1] != 0 {
					return nil, fmt.Errorf("pad of segment %#x is %#x", t, b[i+1])
				}
				r = append(r, Seg{Kind: kind, Num: uint32(le.Uint16(b[i+2:]))})
				i += 4
			case 2:
				if !need(6) {
					return nil, fmt.Errorf("short segment %#x", t)
				}
				if b[i+1] != 0 {
					return nil, fmt.Errorf("pad of segment %#x is %#x", t, b[i+1])
				}
				r = append(r, Seg{Kind: kind, Num: le.Uint32(b[i+2:])})
				i += 6
			default:
				return nil, fmt.Errorf("reserved segment %#x", t)
			}
		case t&0xE0 == 0x00 && t != 0:
			port := uint32(t & 0x0F)
			long, at := t&0x10 != 0, i+1
			n := 1
			if long {
				if !need(2) {
					return nil, fmt.Errorf("short port segment")
				}
				n = int(b[at])
				at++
			}
			if port == 0xF {
				if at+2 > len(b) {
					return nil, fmt.Errorf("short port segment")
				}
				port = uint32(le.Uint16(b[at:]))
				at += 2
			}
			if at+n+n&1*btoi(long) > len(b) || n == 0 {
				return nil, fmt.Errorf("port segment address of %d bytes", n)
			}
			if !long {
				r = append(r, Seg{Kind: 'p', Num: port<<8 | uint32(b[at])})
			} else {
				r = append(r, Seg{Kind: 'p', Num: port, Sym: string(b[at : at+n])})
				if n&1 == 1 && b[at+n] != 0 {
					return nil, fmt.Errorf("pad of port segment is %#x", b[at+n])
				}
				n += n & 1
			}
			i = at + n
		default:
			return nil, fmt.Errorf("unknown segment %#x", t)
		}
	}
	return r, nil
}

// SegString writes a decoded path the way a user writes a tag.
func SegString(segs []Seg) string {
	var sb strings.Builder
	inIdx := false
	for _, s := range segs {
		if s.Kind == 'e' {
			if inIdx {
				fmt.Fprintf(&sb, ",%d", s.Num)
			} else {
				fmt.Fprintf(&sb, "[%d", s.Num)
			}
			inIdx = true
			continue
		}
		if inIdx {
			sb.WriteString("]")
			inIdx = false
		}
		switch s.Kind {
		case 's':
			if sb.Len() > 0 {
				sb.WriteString(".")
			}
			sb.WriteString(s.Sym)
		default:
			fmt.Fprintf(&sb, "<%c%d>", s.Kind, s.Num)
		}
	}
	if inIdx {
		sb.WriteString("]")
	}
	return sb.String()
}

// target is a resolved tag path.
type target struct {
	tag   *Tag
	typ   uint16
	size  int
	udt   *UDT
	off   int // byte offset in tag data
	avail int // elements available from here
	bit   int
}

// resolve finds what a tag path addresses.
func (p *PLC) resolve(segs []Seg) (*target, byte) {
	const unknown = 0x05
	i := 0
	name := ""
	var tag *Tag
	prog := ""
	take := func() bool { i++; return i < len(segs) }
	if len(segs) == 0 {
		return nil, unknown
	}
	if segs[0].Kind == 's' {
		if strings.HasPrefix(strings.ToLower(segs[0].Sym), "program:") {
			prog = strings.ToLower(segs[0].Sym)
			if !take() {
				return nil, unknown
			}
		}
	} else if segs[0].Kind == 'c' && segs[0].Num == 0x68 {
		if !take() || segs[i].Kind != 'i' {
			return nil, unknown
		}
		for _, pr := range p.Programs {
			if pr.Instance == segs[i].Num {
				prog = strings.ToLower("program:" + pr.Name)
			}
		}
		if prog == "" || !take() {
			return nil, unknown
		}
	}
	if segs[i].Kind == 's' {
		name = strings.ToLower(segs[i].Sym)
		if prog != "" {
			name = prog + "." + name
		}
		tag = p.Tags[name]
	} else if segs[i].Kind == 'c' && segs[i].Num == 0x6B {
		if !take() || segs[i].Kind != 'i' {
			return nil, unknown
		}
		for _, t := range p.Tags {
			tp := ""
			if t.Program != "" {
				tp = strings.ToLower("program:" + t.Program)
			}
			if t.Instance == segs[i].Num && tp == prog && t.Instance != 0 {
				tag = t
			}
		}
	}
	if tag == nil {
		return nil, unknown
	}
	i++
	tg := &target{tag: tag, typ: tag.Type, size: tag.Size, udt: tag.UDT, avail: tag.count(), bit: -1}
	dims := tag.Dims
	total := tag.count()
	for {
		var idx []uint32
		for i < len(segs) && segs[i].Kind == 'e' {
			idx = append(idx, segs[i].Num)
			i++
		}
		if len(idx) > 0 {
			if len(idx) != len(dims) {
				return nil, unknown
			}
			lin := 0
			for d := range idx {
				if int(idx[d]) >= dims[d] {
					return nil, unknown
				}
				lin = lin*dims[d] + int(idx[d])
			}
			tg.off += lin * tg.size
			tg.avail = total - lin
		}
		if i >= len(segs) {
			return tg, 0
		}
		if segs[i].Kind != 's' || tg.udt == nil {
			return nil, unknown
		}
		if len(dims) > 0 && len(idx) == 0 {
			return nil, unknown
		}
		var m *Member
		for k := range tg.udt.Members {
			if strings.EqualFold(tg.udt.Members[k].Name, segs[i].Sym) {
				m = &tg.udt.Members[k]
			}
		}
		if m == nil {
			return nil, unknown
		}
		i++
		tg.off += m.Off
		tg.typ, tg.size, tg.udt, tg.bit = m.Type, m.Size, m.UDT, m.Bit
		dims, total = nil, 1
		if m.Dim > 0 {
			dims, total = []int{m.Dim}, m.Dim
		}
		tg.avail = total
	}
}

func (tg *target) typeHeader() []byte {
	if tg.udt != nil {
		return []byte{0xA0, 0x02, byte(tg.udt.Handle), byte(tg.udt.Handle >> 8)}
	}
	return []byte{byte(tg.typ), byte(tg.typ >> 8)}
}

// read serves services 0x4C and 0x52 on a tag.  room is the space left for
// the reply after its 4 byte header.
func (p *PLC) read(segs []Seg, data []byte, frag bool, room int) Reply {
	want := 2
	if frag {
		want = 6
	}
	if len(data) < want {
		return Reply{Status: 0x13}
	}
	if len(data) > want {
		return Reply{Status: 0x15}
	}
	tg, st := p.resolve(segs)
	if st != 0 {
		return Reply{Status: st}
	}
	n := int(le.Uint16(data))
	off := 0
	if frag {
		off = int(le.Uint32(data[2:]))
	}
	if n == 0 || n > tg.avail {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	hdr := tg.typeHeader()
	var all []byte
	if tg.bit >= 0 {
		all = []byte{(tg.tag.Data[tg.off] >> tg.bit) & 1}
		hdr = []byte{0xC1, 0}
	} else {
		all = tg.tag.Data[tg.off : tg.off+n*tg.size]
	}
	if off > len(all) {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	rest := all[off:]
	max := room - len(hdr)
	if p.FragBytes > 0 && p.FragBytes < max {
		max = p.FragBytes
	}
	if len(rest) <= max {
		return Reply{Data: append(hdr, rest...)}
	}
	if max <= 0 {
		return Reply{Status: 0x11}
	}
	p.Partials++
	return Reply{Status: 0x06, Data: append(hdr, rest[:max]...)}
}

func (p *PLC) write(segs []Seg, data []byte, frag bool) Reply {
	tg, st := p.resolve(segs)
	if st != 0 {
		return Reply{Status: st}
	}
	if len(data) < 4 {
		return Reply{Status: 0x13}
	}
	var hdr []byte
	if data[0] == 0xA0 {
		if len(data) < 6 {
			return Reply{Status: 0x13}
		}
		hdr, data = data[:4], data[4:]
	} else {
		hdr, data = data[:2], data[2:]
	}
	exp := tg.typeHeader()
	if tg.bit >= 0 {
		exp = []byte{0xC1, 0}
	}
	if !bytes.Equal(hdr, exp) {
		return Reply{Status: 0xFF, Ext: []uint16{0x2107}}
	}
	n := int(le.Uint16(data))
	data = data[2:]
	off := 0
	if frag {
		if len(data) < 4 {
			return Reply{Status: 0x13}
		}
		off = int(le.Uint32(data))
		data = data[4:]
	}
	if n == 0 || n > tg.avail {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	size := n * tg.size
	if tg.tag.ReadOnly {
		return Reply{Status: 0x0F}
	}
	if tg.bit >= 0 {
		if len(data) != 1 {
			return Reply{Status: 0x13}
		}
		tg.tag.Data[tg.off] &^= 1 << tg.bit
		if data[0] != 0 {
			tg.tag.Data[tg.off] |= 1 << tg.bit
		}
		return Reply{}
	}
	if frag {
		if off+len(data) > size {
			return Reply{Status: 0x15}
		}
		copy(tg.tag.Data[tg.off+off:], data)
		return Reply{}
	}
	if len(data) < size {
		return Reply{Status: 0x13}
	}
	if len(data) > size {
		return Reply{Status: 0x15}
	}
	copy(tg.tag.Data[tg.off:], data)
	return Reply{}
}

// symbols lists symbol instances of a scope in instance order.
func (p *PLC) symbols(prog string) []*Tag {
	var r []*Tag
	for _, t := range p.Tags {
		if strings.EqualFold(t.Program, prog) && !t.Hidden {
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Instance < r[j].Instance })
	return r
}

// TypeWord is attribute 2 of the symbol object.
func (t *Tag) TypeWord() uint16 {
	return t.Type | uint16(len(t.Dims))<<13
}

func (p *PLC) listSymbols(prog string, start uint32, data []byte, room int) Reply {
	if len(data) < 2 {
		return Reply{Status: 0x13}
	}
	n := int(le.Uint16(data))
	if len(data) != 2+2*n {
		return Reply{Status: 0x15}
	}
	var attrs []uint16
	for i := 0; i < n; i++ {
		attrs = append(attrs, le.Uint16(data[2+2*i:]))
	}
	var out []byte
	recs := 0
	for _, t := range p.symbols(prog) {
		if t.Instance < start {
			continue
		}
		rec := le.AppendUint32(nil, t.Instance)
		for _, a := range attrs {
			switch a {
			case 1:
				rec = le.AppendUint16(rec, uint16(len(t.Name)))
				rec = append(rec, t.Name...)
			case 2:
				rec = le.AppendUint16(rec, t.TypeWord())
			case 8:
				for d := 0; d < 3; d++ {
					v := 0
					if d < len(t.Dims) {
						v = t.Dims[d]
					}
					rec = le.AppendUint32(rec, uint32(v))
				}
			default:
				return Reply{Status: 0x14}
			}
		}
		if len(out)+len(rec) > room || (p.PageRecords > 0 && recs >= p.PageRecords) {
			return Reply{Status: 0x06, Data: out}
		}
		out = append(out, rec...)
		recs++
	}
	return Reply{Data: out}
}

func (p *PLC) listPrograms(start uint32, data []byte, room int) Reply {
	if !bytes.Equal(data, []byte{1, 0, 28, 0}) {
		return Reply{Status: 0x14}
	}
	var out []byte
	recs := 0
	for _, pr := range p.Programs {
		if pr.Instance < start {
			continue
		}
		rec := le.AppendUint32(nil, pr.Instance)
		rec = le.AppendUint32(rec, uint32(len(pr.Name)))
		rec = append(rec, pr.Name...)
		if len(out)+len(rec) > room || (p.PageRecords > 0 && recs >= p.PageRecords) {
			return Reply{Status: 0x06, Data: out}
		}
		out = append(out, rec...)
		recs++
	}
	return Reply{Data: out}
}

// TemplateData is what a template read returns.
func (u *UDT) TemplateData() []byte {
	var out []byte
	for _, m := range u.Members {
		info := uint16(m.Dim)
		typ := m.Type
		if m.Dim > 0 {
			typ |= 0x2000
		}
		if m.Bit >= 0 {
			info = uint16(m.Bit)
		}
		out = le.AppendUint16(out, info)
		out = le.AppendUint16(out, typ)
		out = le.AppendUint32(out, uint32(m.Off))
	}
	out = append(out, u.Name...)
	out = append(out, u.Suffix...)
	out = append(out, 0)
	for _, m := range u.Members {
		out = append(out, m.Name...)
		out = append(out, 0)
	}
	return out
}

func (u *UDT) words() int { return (len(u.TemplateData()) + 23 + 3) / 4 }

func (p *PLC) templateRead(u *UDT, data []byte, room int) Reply {
	if len(data) != 6 {
		return Reply{Status: 0x13}
	}
	off, n := int(le.Uint32(data)), int(le.Uint16(data[4:]))
	all := u.TemplateData()
	for len(all) < u.words()*4-23 {
		all = append(all, 0)
	}
	if off > len(all) || off+n > len(all) {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	b := all[off : off+n]
	if p.TemplateBytes > 0 && p.TemplateBytes < room {
		room = p.TemplateBytes
	}
	if len(b) > room {
		return Reply{Status: 0x06, Data: b[:room]}
	}
	return Reply{Data: b}
}

func (p *PLC) attr(class uint16, inst uint32, attr uint16) ([]byte, bool) {
	if class == 1 && inst == 1 && attr == 4 {
		return []byte{p.Firmware, 11}, true
	}
	if class == 0x6C {
		u := p.UDTs[uint16(inst)]
		if u == nil {
			return nil, false
		}
		switch attr {
		case 1:
			return le.AppendUint16(nil, u.Handle), true
		case 2:
			return le.AppendUint16(nil, uint16(len(u.Members))), true
		case 4:
			return le.AppendUint32(nil, uint32(u.words())), true
		case 5:
			return le.AppendUint32(nil, uint32(u.Size)), true
		}
		return nil, false
	}
	v, ok := p.Attrs[fmt.Sprintf("%d.%d.%d", class, inst, attr)]
	return v, ok
}

// Serve answers one CIP request (not the multiple service packet).
func (p *PLC) serve(s *Session, r *Req, room int) Reply {
	if p.Override != nil {
		if rp := p.Override(r); rp != nil {
			return *rp
		}
	}
	segs, err := ParseEPath(r.Path)
	if err != nil {
		p.Problem("malformed path % x: %v", r.Path, err)
		return Reply{Status: 0x04}
	}
	sym := false
	var class uint16
	var inst uint32
	hasInst := false
	attr := uint32(0)
	prog := ""
	tail := segs
	if len(segs) > 0 && segs[0].Kind == 's' {
		sym = true
		if len(segs) == 3 && segs[1].Kind == 'c' && strings.HasPrefix(strings.ToLower(segs[0].Sym), "program:") {
			sym = false
			prog = segs[0].Sym[len("program:"):]
			tail = segs[1:]
		}
	} else if len(segs) >= 4 && segs[0].Kind == 'c' && segs[0].Num == 0x68 && segs[2].Kind == 'c' {
		for _, pr := range p.Programs {
			if pr.Instance == segs[1].Num {
				prog = pr.Name
			}
		}
		if prog == "" {
			return Reply{Status: 0x05}
		}
		tail = segs[2:]
	}
	if !sym {
		for _, sg := range tail {
			switch sg.Kind {
			case 'c':
				class = uint16(sg.Num)
			case 'i':
				inst, hasInst = sg.Num, true
			case 'a':
				attr = sg.Num
			}
		}
	}
	tagAddr := sym || (class == 0x6B && hasInst)
	if p.Extra != nil && !sym {
		if rp := p.Extra(s, r, class, inst); rp != nil {
			return *rp
		}
	}
	if class == 0xB2 && !sym && hasInst {
		return p.buffer(r, inst, room)
	}
	switch r.Service {
	case 0x4C:
		if class == 0x6C && !sym {
			u := p.UDTs[uint16(inst)]
			if u == nil {
				return Reply{Status: 0x05}
			}
			return p.templateRead(u, r.Data, room)
		}
		if tagAddr {
			return p.read(segs, r.Data, false, room)
		}
	case 0x52:
		if tagAddr {
			return p.read(segs, r.Data, true, room)
		}
	case 0x4D:
		if tagAddr {
			return p.write(segs, r.Data, false)
		}
	case 0x53:
		if tagAddr {
			return p.write(segs, r.Data, true)
		}
	case 0x55:
		if class == 0x6B && hasInst {
			return p.listSymbols(prog, inst, r.Data, room)
		}
		if class == 0x68 && hasInst && p.ProgramList {
			return p.listPrograms(inst, r.Data, room)
		}
		return Reply{Status: 0x08}
	case 0x0E:
		if len(r.Data) != 0 {
			p.Problem("get attribute single carries %d data bytes", len(r.Data))
			return Reply{Status: 0x15}
		}
		v, ok := p.attr(class, inst, uint16(attr))
		if !ok {
			return Reply{Status: 0x14}
		}
		return Reply{Data: v}
	case 0x03:
		if len(r.Data) < 2 || len(r.Data) != 2+2*int(le.Uint16(r.Data)) {
			p.Problem("attribute list request of %d bytes", len(r.Data))
			return Reply{Status: 0x13}
		}
		n := int(le.Uint16(r.Data))
		out := le.AppendUint16(nil, uint16(n))
		st := byte(0)
		for i := 0; i < n; i++ {
			a := le.Uint16(r.Data[2+2*i:])
			out = le.AppendUint16(out, a)
			v, ok := p.attr(class, inst, a)
			if !ok {
				out = le.AppendUint16(out, 0x14)
				st = 0x0A
				continue
			}
			out = le.AppendUint16(out, 0)
			out = append(out, v...)
		}
		return Reply{Status: st, Data: out}
	}
	return Reply{Status: 0x08}
}

func packReply(svc byte, rp Reply) []byte {
	out := []byte{svc | 0x80, 0, rp.Status, byte(len(rp.Ext))}
	for _, e := range rp.Ext {
		out = le.AppendUint16(out, e)
	}
	return append(out, rp.Data...)
}

// splitReq splits service, path and data.
func splitReq(b []byte) (Req, error) {
	if len(b) < 2 {
		return Req{}, fmt.Errorf("CIP request of %d bytes", len(b))
	}
	n := 2 * int(b[1])
	if len(b) < 2+n {
		return Req{}, fmt.Errorf("path of %d bytes in a request of %d", n, len(b))
	}
	return Req{Service: b[0], Path: append([]byte(nil), b[2:2+n]...), Data: append([]byte(nil), b[2+n:]...)}, nil
}

// cip serves one connected request (without its sequence count); room is the
// space left for the whole CIP reply.
func (p *PLC) cip(s *Session, b []byte, seq uint16, itemLen, room int) []byte {
	r, err := splitReq(b)
	if err != nil {
		p.Problem("%v", err)
		return packReply(0, Reply{Status: 0x13})
	}
	r.Seq, r.Conn, r.ItemLen = seq, true, itemLen
	if r.Service == 0x0A && bytes.Equal(r.Path, []byte{0x20, 0x02, 0x24, 0x01}) {
		return p.multi(s, r, room)
	}
	p.Reqs = append(p.Reqs, r)
	return packReply(r.Service, p.serve(s, &p.Reqs[len(p.Reqs)-1], room-4))
}

func (p *PLC) multi(s *Session, r Req, room int) []byte {
	if p.Override != nil {
		if rp := p.Override(&r); rp != nil {
			p.Reqs = append(p.Reqs, r)
			return packReply(r.Service, *rp)
		}
	}
	d := r.Data
	bad := func(f string, a ...any) []byte {
		p.Problem("multiple service packet: "+f, a...)
		p.Reqs = append(p.Reqs, r)
		return packReply(0x0A, Reply{Status: 0x13})
	}
	if len(d) < 2 {
		return bad("%d data bytes", len(d))
	}
	n := int(le.Uint16(d))
	if n == 0 {
		return bad("no services")
	}
	if len(d) < 2+2*n {
		return bad("offset table of %d entries in %d bytes", n, len(d))
	}
	var offs []int
	for i := 0; i < n; i++ {
		offs = append(offs, int(le.Uint16(d[2+2*i:])))
	}
	if offs[0] != 2+2*n {
		return bad("first offset is %d, expected %d", offs[0], 2+2*n)
	}
	offs = append(offs, len(d))
	for i := 0; i < n; i++ {
		if offs[i+1] <= offs[i] || offs[i+1] > len(d) {
			return bad("offsets %v of %d data bytes", offs[:n], len(d))
		}
	}
	room -= 4 + 2 + 2*n
	type one struct{ b []byte }
	var reps [][]byte
	st := byte(0)
	minLeft := 4 * n
	for i := 0; i < n; i++ {
		q, err := splitReq(d[offs[i]:offs[i+1]])
		if err != nil {
			return bad("service %d: %v", i, err)
		}
		minLeft -= 4
		rp := p.serve(s, &q, room-minLeft-4)
		r.Multi = append(r.Multi, q)
		b := packReply(q.Service, rp)
		if len(b) > room-minLeft {
			b = packReply(q.Service, Reply{Status: 0x11})
			rp.Status = 0x11
		}
		room -= len(b)
		if rp.Status != 0 {
			st = 0x1E
		}
		reps = append(reps, b)
	}
	p.Reqs = append(p.Reqs, r)
	out := le.AppendUint16(nil, uint16(n))
	o := 2 + 2*n
	for _, b := range reps {
		out = le.AppendUint16(out, uint16(o))
		o += len(b)
	}
	for _, b := range reps {
		out = append(out, b...)
	}
	return packReply(0x0A, Reply{Status: st, Data: out})
}

// Serve answers a request as if Override was not there.
func (p *PLC) Serve(r *Req) Reply {
	o := p.Override
	p.Override = nil
	rp := p.serve(nil, r, 400)
	p.Override = o
	return rp
}
