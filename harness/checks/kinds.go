package checks

import (
	"encoding/binary"
	"fmt"
	"io"
	"log"
	"log/slog"
	"math"
	"net"
	"reflect"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
	"verifharness/vnet"
)

var le = binary.LittleEndian

func init() {
	slog.SetDefault(slog.New(slog.DiscardHandler))
	log.SetOutput(io.Discard)
}

// kind is one (Go type, controller type) pair that documents says correspond.
type kind struct {
	name string
	code uint16
	cip  gologix.CIPType
	zero any // Go zero value of the matching type
	size int
	pats [][]byte
}

// val decodes a wire value into the matching Go type.
func (k *kind) val(b []byte) any {
	switch k.zero.(type) {
	case bool:
		return b[0] != 0
	case byte:
		return b[0]
	case int8:
		return int8(b[0])
	case uint16:
		return le.Uint16(b)
	case int16:
		return int16(le.Uint16(b))
	case uint32:
		return le.Uint32(b)
	case int32:
		return int32(le.Uint32(b))
	case uint64:
		return le.Uint64(b)
	case int64:
		return int64(le.Uint64(b))
	case float32:
		return math.Float32frombits(le.Uint32(b))
	case float64:
		return math.Float64frombits(le.Uint64(b))
	case string:
		return string(b[4 : 4+le.Uint32(b)])
	}
	panic("kind")
}

// newPtr returns a pointer to a fresh zero value.
func (k *kind) newPtr() any { return reflect.New(reflect.TypeOf(k.zero)).Interface() }

// newSlice returns a slice of n.
func (k *kind) newSlice(n int) any {
	return reflect.MakeSlice(reflect.SliceOf(reflect.TypeOf(k.zero)), n, n).Interface()
}

// same compares two values, floats by bits.
func same(a, b any) bool {
	switch x := a.(type) {
	case float32:
		y, ok := b.(float32)
		return ok && math.Float32bits(x) == math.Float32bits(y)
	case float64:
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

func pats(size int) [][]byte {
	var r [][]byte
	if size == 1 {
		for i := 0; i < 256; i++ {
			r = append(r, []byte{byte(i)})
		}
		return r
	}
	add := func(v uint64) {
		b := make([]byte, 8)
		le.PutUint64(b, v)
		r = append(r, b[:size])
	}
	for _, v := range []uint64{0, 1, 0xFFFFFFFFFFFFFFFF, 0x0102030405060708, 0xF1E2D3C4B5A69788} {
		add(v)
	}
	for b := 0; b < size*8; b++ {
		add(1 << b)
	}
	return r
}

func fpats(size int) [][]byte {
	var r [][]byte
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1.5, math.Inf(1), math.Inf(-1), math.MaxFloat32, 1e-40, 3.14159} {
		if size == 4 {
			r = append(r, le.AppendUint32(nil, math.Float32bits(float32(f))))
		} else {
			r = append(r, le.AppendUint64(nil, math.Float64bits(f)))
		}
	}
	if size == 4 {
		r = append(r, le.AppendUint32(nil, 0x7FC12345))
	} else {
		r = append(r, le.AppendUint64(nil, 0x7FF8123456789ABC))
	}
	return r
}

func spats() [][]byte {
	var r [][]byte
	for n := 0; n <= 82; n++ {
		s := make([]byte, n)
		for i := range s {
			s[i] = byte(33 + (i*7+n)%94)
		}
		r = append(r, plc.StringData(string(s)))
	}
	r = append(r, plc.StringData("\x00\x01\xff\x80 \r\n"), plc.StringData("ab\x00\x00"), plc.StringData("\x00"), plc.StringData(" ab "), plc.StringData("a\x00b"))
	return r
}

var kinds = []*kind{
	{"BOOL", 0xC1, gologix.CIPTypeBOOL, false, 1, [][]byte{{0}, {1}}},
	{"SINT", 0xC2, gologix.CIPTypeSINT, int8(0), 1, pats(1)},
	{"INT", 0xC3, gologix.CIPTypeINT, int16(0), 2, pats(2)},
	{"DINT", 0xC4, gologix.CIPTypeDINT, int32(0), 4, pats(4)},
	{"LINT", 0xC5, gologix.CIPTypeLINT, int64(0), 8, pats(8)},
	{"USINT", 0xC6, gologix.CIPTypeUSINT, byte(0), 1, pats(1)},
	{"UINT", 0xC7, gologix.CIPTypeUINT, uint16(0), 2, pats(2)},
	{"UDINT", 0xC8, gologix.CIPTypeUDINT, uint32(0), 4, pats(4)},
	{"ULINT", 0xC9, gologix.CIPTypeULINT, uint64(0), 8, pats(8)},
	{"REAL", 0xCA, gologix.CIPTypeREAL, float32(0), 4, fpats(4)},
	{"LREAL", 0xCB, gologix.CIPTypeLREAL, float64(0), 8, fpats(8)},
	{"BYTE", 0xD1, gologix.CIPTypeBYTE, byte(0), 1, pats(1)},
	{"WORD", 0xD2, gologix.CIPTypeWORD, uint16(0), 2, pats(2)},
	{"DWORD", 0xD3, gologix.CIPTypeDWORD, uint32(0), 4, pats(4)},
	{"LWORD", 0xD4, gologix.CIPTypeLWORD, uint64(0), 8, pats(8)},
	{"STRING", 0xFF, gologix.CIPTypeSTRING, "", 88, spats()},
}

func kindByName(n string) *kind {
	for _, k := range kinds {
		if k.name == n {
			return k
		}
	}
	panic("kind " + n)
}

// tag makes a controller tag of this kind.
func (k *kind) tag(name string, dims ...int) *plc.Tag {
	t := &plc.Tag{Name: name, Type: k.code, Dims: dims}
	if k.name == "STRING" {
		t.UDT = plc.StringUDT
	}
	return t
}

// fill writes patterns p, p+step, ... into the tag's elements.
func (k *kind) fill(t *plc.Tag, start, step int) {
	n := len(t.Data) / k.size
	for i := 0; i < n; i++ {
		copy(t.Data[i*k.size:], k.pats[(start+i*step)%len(k.pats)])
	}
}

// rig is one client connected to one reference controller.
type rig struct {
	p     *plc.PLC
	cl    *gologix.Client
	conn  *plc.Conn
	conns []*plc.Conn
	setup func(*plc.Conn)
}

// newRig makes a client whose dials reach p; it is not connected yet.
func newRig(c *vk.C, p *plc.PLC) *rig {
	r := &rig{p: p}
	vnet.OnDial = func(network, address string, timeout time.Duration) (net.Conn, error) {
		if address != "10.0.0.1:44818" {
			return nil, fmt.Errorf("unexpected dial of %s", address)
		}
		r.conn = p.Dial()
		if r.setup != nil {
			r.setup(r.conn)
		}
		r.conns = append(r.conns, r.conn)
		return r.conn, nil
	}
	r.cl = gologix.NewClient("10.0.0.1")
	r.cl.SocketTimeout = time.Second
	c.Cleanup(func() { vnet.OnDial = nil })
	return r
}

// connect connects and fails the check when a healthy handshake fails.
func (r *rig) connect(c *vk.C) {
	if err := r.cl.Connect(); err != nil {
		c.Fail("connect", "Connect to a healthy controller fails: %v (problems %v)", err, r.p.Problems)
	}
}

// problems fails on protocol errors the controller saw.
func (r *rig) problems(c *vk.C, what string) {
	if len(r.p.Problems) > 0 {
		c.Fail("protocol:"+problemKind(r.p.Problems[0]), "%s: the controller was sent %s", what, strings.Join(r.p.Problems, "; "))
	}
}

func problemKind(s string) string {
	var sb strings.Builder
	for _, ch := range s {
		if ch >= '0' && ch <= '9' {
			continue
		}
		sb.WriteRune(ch)
		if sb.Len() > 40 {
			break
		}
	}
	return strings.TrimSpace(sb.String())
}

// deref reads a pointer made by newPtr.
func deref(p any) any { return reflect.ValueOf(p).Elem().Interface() }

// elems turns a slice into []any.
func elems(s any) []any {
	v := reflect.ValueOf(s)
	r := make([]any, v.Len())
	for i := range r {
		r[i] = v.Index(i).Interface()
	}
	return r
}

func f32(f float32) uint32 { return math.Float32bits(f) }
