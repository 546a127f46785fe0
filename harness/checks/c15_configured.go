package checks

import (
	"bytes"
	"fmt"
	"net"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/vk"
	"verifharness/vnet"
)

// C15: a client opens, uses and closes the connection it is configured for.

type dialed struct {
	network, address string
	timeout          time.Duration
}

// cfgRig is a client whose dials reach p, whatever the address.
type cfgRig struct {
	p     *plc.PLC
	cl    *gologix.Client
	dials []dialed
}

func newCfgRig(c *vk.C, ip string) *cfgRig {
	r := &cfgRig{p: plc.New()}
	r.p.MaxFrames = 0
	r.p.AddTag(&plc.Tag{Name: "T", Type: 0xC4, Instance: 7})
	vnet.OnDial = func(network, address string, timeout time.Duration) (net.Conn, error) {
		r.dials = append(r.dials, dialed{network, address, timeout})
		return r.p.Dial(), nil
	}
	r.cl = gologix.NewClient(ip)
	r.cl.SocketTimeout = time.Second
	c.Cleanup(func() { vnet.OnDial = nil })
	return r
}

var routerTail = []byte{0x20, 0x02, 0x24, 0x01}

// cfgWant is what a configuration asks for.
type cfgWant struct {
	address string
	size    int // what it asks for first
	large   bool
	rpi     uint32
	vendor  uint16
	serial  uint32
	path    []byte // without the message router
	timeout time.Duration
}

// opened connects and compares the connection the controller was asked for.
func (r *cfgRig) opened(c *vk.C, what string, w cfgWant) {
	p := r.p
	p.Opens, p.Closes, r.dials = nil, nil, nil
	if err := r.cl.Connect(); err != nil {
		c.Fail("connect", "%s: Connect to a healthy controller fails: %v (%v)", what, err, p.Problems)
	}
	r.noProblems(c, what)
	if len(r.dials) != 1 || r.dials[0].network != "tcp" || r.dials[0].address != w.address || r.dials[0].timeout != w.timeout {
		c.Fail("dial", "%s: the client dials %v, expected %s with timeout %v", what, r.dials, w.address, w.timeout)
	}
	if len(p.Opens) == 0 {
		c.Fail("opens", "%s: connected without a forward open", what)
	}
	last := len(p.Opens) - 1
	want := 1
	if w.large && !p.AllowLarge {
		want = 2
	}
	if len(p.Opens) != want {
		c.Fail("opens", "%s: the client sends %d forward opens, expected %d", what, len(p.Opens), want)
	}
	for i, o := range p.Opens {
		if o.Granted != (i == last) {
			c.Fail("opens", "%s: forward open %d of %d granted: %v", what, i+1, len(p.Opens), o.Granted)
		}
		size := w.size
		if i > 0 {
			size = 511 // the largest a standard connection can have
		}
		if o.Large != (w.large && i == 0) || o.OTSize != size || o.TOSize != size {
			c.Fail("size", "%s: forward open %d is large: %v with sizes %d and %d, expected large: %v with %d", what, i+1, o.Large, o.OTSize, o.TOSize, w.large && i == 0, size)
		}
		if o.OTRPI != w.rpi || o.TORPI != w.rpi {
			c.Fail("rpi", "%s: the packet intervals asked for are %d and %d us, expected %d", what, o.OTRPI, o.TORPI, w.rpi)
		}
		if o.Vendor != w.vendor || o.OSerial != w.serial {
			c.Fail("originator", "%s: the originator is vendor %#x serial %#x, expected %#x %#x", what, o.Vendor, o.OSerial, w.vendor, w.serial)
		}
		if !bytes.Equal(o.Path, append(append([]byte(nil), w.path...), routerTail...)) {
			c.Fail("path", "%s: the connection path is % x, expected % x and the message router", what, o.Path, w.path)
		}
		if o.OTType != 2 || o.TOType != 2 || !o.OTVariable || !o.TOVariable || o.OTRest&^0x0C000C00 != 0 || o.TORest&^0x0C000C00 != 0 {
			c.Fail("parameters", "%s: the connection parameters are not those of a point to point connection of variable size: %+v", what, o)
		}
		if o.Trigger&0x0F != 3 || o.Trigger&0x80 == 0 {
			c.Fail("trigger", "%s: the transport trigger %#x is not that of a class 3 connection to a server", what, o.Trigger)
		}
		if o.Ticks == 0 || o.Multiplier > 7 || o.Reserved != [3]byte{} {
			c.Fail("timeout", "%s: timeout ticks %d, timeout multiplier %d, reserved % x", what, o.Ticks, o.Multiplier, o.Reserved)
		}
	}
	o := p.Opens[last]
	if int(r.cl.ConnectionSize) != o.OTSize {
		c.Fail("size-kept", "%s: the client takes the connection for one of size %d, it is %d", what, r.cl.ConnectionSize, o.OTSize)
	}
	c.State("open", o.Large, o.OTSize, o.OTRPI, o.Vendor, o.OSerial, string(o.Path))
	c.Distinct("open", o.Large, o.OTSize, o.OTRPI, o.Vendor, o.OSerial, string(o.Path), w.address)
	c.Trans(1)
	c.Eval(1)
}

func (r *cfgRig) noProblems(c *vk.C, what string) {
	if len(r.p.Problems) > 0 {
		c.Fail("protocol:"+problemKind(r.p.Problems[0]), "%s: the controller was sent %s", what, r.p.Problems[0])
	}
}

// closed disconnects and compares the close with the open.
func (r *cfgRig) closed(c *vk.C, what string, used bool) {
	p := r.p
	if used {
		x := int32(len(r.dials) + 77)
		if err := r.cl.Write("T", x); err != nil {
			c.Fail("use", "%s: a write on the new connection fails: %v", what, err)
		}
		var v int32
		if err := r.cl.Read("T", &v); err != nil || v != x {
			c.Fail("use", "%s: a read on the new connection returns %d, %v, expected %d", what, v, err, x)
		}
	}
	o := p.Opens[len(p.Opens)-1]
	if err := r.cl.Disconnect(); err != nil {
		c.Fail("disconnect", "%s: Disconnect fails: %v", what, err)
	}
	r.noProblems(c, what)
	if len(p.Closes) != 1 {
		c.Fail("closes", "%s: disconnecting sends %d forward closes", what, len(p.Closes))
	}
	k := p.Closes[0]
	if k.Serial != o.Serial || k.Vendor != o.Vendor || k.OSerial != o.OSerial || !bytes.Equal(k.Path, o.Path) || k.Ticks == 0 {
		c.Fail("close", "%s: the close %+v does not name the open connection %+v", what, k, o)
	}
	if n := p.OpenConns(); n != 0 {
		c.Fail("left", "%s: %d connections stay open", what, n)
	}
}

// rejected: a configuration that no request can express is an error.
func (r *cfgRig) rejected(c *vk.C, what string) {
	r.p.Opens = nil
	if err := r.cl.Connect(); err == nil {
		c.Fail("accepted", "%s: Connect succeeds with %+v", what, r.p.Opens)
	}
	r.noProblems(c, what)
	if r.cl.Connected() {
		c.Fail("accepted", "%s: connected after Connect failed", what)
	}
	c.Eval(1)
	c.Trans(1)
	c.State(what)
	c.Distinct(what)
}

func (r *cfgRig) want() cfgWant {
	return cfgWant{"10.0.0.1:44818", 4000, true, 2500000, 0x9999, r.cl.SerialNumber, []byte{1, 0}, time.Second}
}

func c15Units(tier string) []vk.Unit {
	deep := tier == "thorough"
	var us []vk.Unit
	sizes := vk.Unit{Name: "sizes", Run: func(c *vk.C) {
		large := c.Bool("large connections are supported")
		blk := c.Choose(64, "block")
		for size := blk << 10; size < (blk+1)<<10; size++ {
			if size == 0 {
				continue
			}
			r := newCfgRig(c, "10.0.0.1")
			r.p.AllowLarge = large
			r.cl.ConnectionSize = uint16(size)
			w := r.want()
			w.size, w.large = size, size > 511
			what := fmt.Sprintf("ConnectionSize %d", size)
			r.opened(c, what, w)
			r.closed(c, what, size >= 40)
		}
	}}
	us = append(us, vk.Shard(sizes, 4, 2)...)
	us = append(us, vk.Unit{Name: "intervals", Run: func(c *vk.C) {
		large := c.Bool("large connections are supported")
		std := c.Bool("standard size")
		var ds []time.Duration
		for i := 0; i < 63; i++ {
			ds = append(ds, 1<<i, 1<<i-1, 1<<i+1, 3<<i/2)
		}
		for i := 0; i < 43; i++ {
			ds = append(ds, time.Microsecond<<i, time.Microsecond<<i-1, time.Microsecond<<i-time.Microsecond, time.Microsecond<<i+1500)
		}
		ds = append(ds, 0, -1, -time.Microsecond, -time.Second, -1<<62, 2500*time.Millisecond, time.Hour, 2*time.Hour, 0xFFFFFFFF*time.Microsecond, 0xFFFFFFFF*time.Microsecond+999)
		for _, d := range ds {
			r := newCfgRig(c, "10.0.0.1")
			r.p.AllowLarge = large
			r.cl.RPI = d
			w := r.want()
			if std {
				r.cl.ConnectionSize = 500
				w.size, w.large = 500, false
			}
			what := fmt.Sprintf("RPI %d ns", d)
			us := d.Microseconds()
			if d == 0 {
				us = 2500000
			}
			if us < 1 || us > 0xFFFFFFFF {
				r.rejected(c, what)
				continue
			}
			w.rpi = uint32(us)
			r.opened(c, what, w)
			r.closed(c, what, true)
		}
	}})
	us = append(us, vk.Unit{Name: "originators", Run: func(c *vk.C) {
		large := c.Bool("large connections are supported")
		blk := c.Choose(16, "block")
		r := newCfgRig(c, "10.0.0.1")
		r.p.AllowLarge = large
		for v := blk << 12; v < (blk+1)<<12; v++ {
			sn := uint32(v)*0x10001 ^ uint32(v)<<7
			r.cl.VendorId, r.cl.SerialNumber = uint16(v), sn
			r.cl.ConnectionSize = 4000
			w := r.want()
			w.vendor, w.serial = uint16(v), sn
			what := fmt.Sprintf("VendorId %#x SerialNumber %#x", v, sn)
			r.opened(c, what, w)
			r.closed(c, what, v%64 == 0)
			if len(r.p.Sessions) > 100 {
				r.p.Sessions = nil
			}
		}
	}})
	hops := [][]byte{{1, 0}, {1, 3}, {1, 17}, {1, 255}, {2, 0}, {14, 1},
		{0x12, 8, '1', '0', '.', '0', '.', '0', '.', '2'}, {0x12, 9, '1', '0', '.', '0', '.', '0', '.', '1', '1', 0}, {0x0F, 20, 0, 5}}
	us = append(us, vk.Unit{Name: "routes", Run: func(c *vk.C) {
		large := c.Bool("large connections are supported")
		depth := 3
		if deep {
			depth = 4
		}
		var path []byte
		var rec func(n int)
		rec = func(n int) {
			r := newCfgRig(c, "10.0.0.1")
			r.p.AllowLarge = large
			r.cl.Controller.Path = bytes.NewBuffer(bytes.Clone(path))
			for i := 0; i < 2; i++ {
				w := r.want()
				w.path = path
				what := fmt.Sprintf("path % x, time %d", path, i+1)
				r.cl.ConnectionSize = 4000
				r.opened(c, what, w)
				r.closed(c, what, true)
				if !bytes.Equal(r.cl.Controller.Path.Bytes(), path) {
					c.Fail("consumed", "%s: afterwards the client's path is % x", what, r.cl.Controller.Path.Bytes())
				}
			}
			if n == depth {
				return
			}
			for _, h := range hops {
				l := len(path)
				path = append(path, h...)
				rec(n + 1)
				path = path[:l]
			}
		}
		rec(0)
		r := newCfgRig(c, "10.0.0.1")
		r.p.AllowLarge = large
		r.cl.Controller.Path = nil
		r.opened(c, "no path", r.want())
		r.closed(c, "no path", true)
	}})
	us = append(us, vk.Unit{Name: "route lengths", Run: func(c *vk.C) {
		large := c.Bool("large connections are supported")
		for n := 0; n < 600; n++ {
			path := bytes.Repeat([]byte{1, byte(n)}, n)
			r := newCfgRig(c, "10.0.0.1")
			r.p.AllowLarge = large
			r.cl.Controller.Path = bytes.NewBuffer(bytes.Clone(path))
			what := fmt.Sprintf("path of %d hops", n)
			if n+2 > 255 {
				r.rejected(c, what)
				continue
			}
			w := r.want()
			w.path = path
			r.opened(c, what, w)
			r.closed(c, what, true)
		}
	}})
	us = append(us, vk.Unit{Name: "addresses", Run: func(c *vk.C) {
		ip := vk.Pick(c, []string{"10.0.0.1", "127.0.0.1", "255.255.255.254", "plc", "plc.example.com"}, "address")
		to := vk.Pick(c, []time.Duration{0, 1, time.Millisecond, time.Second, time.Hour}, "timeout")
		for port := 0; port < 65536; port++ {
			if port > 2 && port%257 != 0 && port != 44818 && port != 65535 && !deep {
				continue
			}
			r := newCfgRig(c, ip)
			r.cl.Controller.Port = uint(port)
			r.cl.SocketTimeout = to
			w := r.want()
			n := port
			if n == 0 {
				n = 44818
			}
			w.address = fmt.Sprintf("%s:%d", ip, n)
			w.timeout = to
			if to == 0 {
				w.timeout = 10 * time.Second
			}
			what := fmt.Sprintf("%s port %d timeout %v", ip, port, to)
			r.opened(c, what, w)
			r.closed(c, what, true)
		}
	}})
	us = append(us, vk.Shard(vk.Unit{Name: "histories", Run: func(c *vk.C) {
		// one client, configured anew before each connect
		r := newCfgRig(c, "10.0.0.1")
		depth := 3
		if deep {
			depth = 4
		}
		what := ""
		for i := 0; i < depth; i++ {
			w := r.want()
			r.cl.ConnectionSize, r.cl.RPI, r.cl.VendorId, r.cl.SerialNumber = 4000, 2500*time.Millisecond, 0x9999, 0x01020304
			r.cl.Controller.Path, r.cl.Controller.Port = bytes.NewBuffer([]byte{1, 0}), 44818
			r.p.AllowLarge = true
			w.serial = 0x01020304
			k := c.Choose(9, "configuration")
			switch k {
			case 0:
			case 1:
				r.cl.ConnectionSize, w.size, w.large = 300, 300, false
			case 2:
				r.cl.ConnectionSize, w.size = 512, 512
			case 3:
				r.p.AllowLarge = false
			case 4:
				r.cl.RPI, w.rpi = 20*time.Millisecond, 20000
			case 5:
				r.cl.VendorId, w.vendor = 0x1337, 0x1337
			case 6:
				r.cl.SerialNumber, w.serial = 0xFEDCBA98, 0xFEDCBA98
			case 7:
				w.path = []byte{1, 5, 2, 9}
				r.cl.Controller.Path = bytes.NewBuffer([]byte{1, 5, 2, 9})
			case 8:
				r.cl.Controller.Port, w.address = 2222, "10.0.0.1:2222"
			}
			what += fmt.Sprintf(" %d", k)
			r.opened(c, "configurations"+what, w)
			var again []plc.Open
			again = append(again, r.p.Opens...)
			r.closed(c, "configurations"+what, true)
			for _, o := range again {
				if o.OTID == o.TOID {
					c.Fail("ids", "configurations%s: both connection ids are %#x", what, o.OTID)
				}
			}
			// how the connection ends before the next one is opened
			if i+1 < depth && c.Bool("a refused attempt comes between") {
				r.cl.ConnectionSize = 300
				r.p.Override = func(q *plc.Req) *plc.Reply { return &plc.Reply{Status: 1, Ext: []uint16{0x113}} }
				if err := r.cl.Connect(); err == nil {
					c.Fail("refused", "configurations%s: Connect succeeds although the controller refuses", what)
				}
				r.p.Override = nil
				what += " refused"
			}
		}
	}}, 4, 3)...)
	return us
}

func init() {
	vk.Register(&vk.Check{
		ID: "C15", Level: "model_checking",
		Rule:        "every connection size, boundary packet intervals at every power of two, every vendor id with a serial number each, every route of up to 3 (thorough 4) of 9 hops and every route length, ports and timeouts, with and without support for large connections, and every history of 3 (thorough 4) of 9 configurations on one client; each connected to the reference controller, used and closed, and the dial, every forward open and the forward close compared with the configuration",
		Units:       c15Units,
		Bounds:      map[string]any{"quick": "routes of 3 hops, histories of 3, every 257th port", "thorough": "routes of 4 hops, histories of 4, every port"},
		QuickBudget: 90 * time.Second, ThoroughBudget: 10 * time.Minute,
	})
}
