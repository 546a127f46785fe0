package checks

import (
	"errors"
	"net"
	"runtime"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/vk"
	"verifharness/vnet"
	"verifharness/vsync"
)

// srvRig is a running server whose sockets are in memory.  Whatever a peer
// sends is handled to the end before the call that sent it returns, so that an
// execution is a function of what was sent.
type srvRig struct {
	c    *vk.C
	srv  *gologix.Server
	mu   sync.Mutex
	cond *sync.Cond

	accept  []*srvConn
	waiting bool // Accept waits
	down    bool
	tcpErr  error

	packets [][]byte
	udpIdle bool
	udpErr  error

	served   bool
	serveErr error
	live     int64

	panicked any
	stack    string
	all      []*srvConn
}

// route is where the rig's default provider sits.
var route = []byte{1, 0}

type srvAddr = net.TCPAddr

type rigListener struct{ r *srvRig }

func (l rigListener) Addr() net.Addr { return &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 44818} }
func (l rigListener) Close() error   { l.r.closeTCP(net.ErrClosed); return nil }
func (l rigListener) Accept() (net.Conn, error) {
	r := l.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.accept) == 0 {
		r.waiting = true
		r.cond.Broadcast()
	}
	for len(r.accept) == 0 && r.tcpErr == nil {
		r.cond.Wait()
	}
	r.waiting = false
	if r.tcpErr != nil {
		if r.down {
			// a server that tries again and again has to end with its rig
			runtime.Goexit()
		}
		r.down = true
		return nil, r.tcpErr
	}
	k := r.accept[0]
	r.accept = r.accept[1:]
	return k, nil
}

func (r *srvRig) closeTCP(err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.tcpErr == nil {
		r.tcpErr = err
	}
	r.cond.Broadcast()
}

type rigPacket struct{ r *srvRig }

func (p rigPacket) LocalAddr() net.Addr                { return &net.UDPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 2222} }
func (p rigPacket) SetDeadline(t time.Time) error      { return nil }
func (p rigPacket) SetReadDeadline(t time.Time) error  { return nil }
func (p rigPacket) SetWriteDeadline(t time.Time) error { return nil }
func (p rigPacket) WriteTo(b []byte, a net.Addr) (int, error) {
	return len(b), nil
}
func (p rigPacket) Close() error {
	p.r.mu.Lock()
	defer p.r.mu.Unlock()
	if p.r.udpErr == nil {
		p.r.udpErr = net.ErrClosed
	}
	p.r.cond.Broadcast()
	return nil
}

func (p rigPacket) ReadFrom(b []byte) (int, net.Addr, error) {
	r := p.r
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.packets) == 0 {
		r.udpIdle = true
		r.cond.Broadcast()
	}
	for len(r.packets) == 0 && r.udpErr == nil {
		r.cond.Wait()
	}
	if r.udpErr != nil {
		if r.udpErr == errRigDown {
			runtime.Goexit()
		}
		err := r.udpErr
		r.udpErr = errRigDown
		return 0, nil, err
	}
	n := copy(b, r.packets[0])
	r.packets = r.packets[1:]
	return n, &net.UDPAddr{IP: net.IPv4(10, 0, 0, 2), Port: 2222}, nil
}

var errRigDown = errors.New("rig is down")

// newSrvRig starts a server with a provider at each route.
func newSrvRig(c *vk.C, routes map[string]gologix.CIPEndpoint) *srvRig {
	r := &srvRig{c: c}
	r.cond = sync.NewCond(&r.mu)
	vnet.OnListen = func(network, address string) (net.Listener, error) { return rigListener{r}, nil }
	vnet.OnListenPacket = func(network, address string) (net.PacketConn, error) { return rigPacket{r}, nil }
	vnet.OnDial = func(network, address string, timeout time.Duration) (net.Conn, error) {
		if network == "udp" {
			return nil, errors.New("no datagrams in this check")
		}
		return clientConn{r.dial()}, nil
	}
	vsync.OnPanic = func(v any, stack string) {
		r.mu.Lock()
		defer r.mu.Unlock()
		if r.panicked == nil {
			r.panicked, r.stack = v, stack
		}
		r.cond.Broadcast()
	}
	vsync.OnEnd = func(id uint64) {
		r.mu.Lock()
		defer r.mu.Unlock()
		for _, k := range r.all {
			if k.reader == id {
				k.ended = true
			}
		}
		r.cond.Broadcast()
	}
	rt := gologix.NewRouter()
	for k, p := range routes {
		rt.Handle([]byte(k), p)
	}
	r.srv = gologix.NewServer(rt)
	r.live = vsync.Live.Load()
	go func() {
		err := r.srv.Serve()
		r.mu.Lock()
		r.served, r.serveErr = true, err
		r.mu.Unlock()
	}()
	r.mu.Lock()
	for !(r.waiting && r.udpIdle) {
		r.cond.Wait()
	}
	r.mu.Unlock()
	c.Cleanup(r.stop)
	return r
}

// stop ends the server.
func (r *srvRig) stop() {
	r.mu.Lock()
	r.tcpErr = net.ErrClosed
	r.udpErr = net.ErrClosed
	for _, k := range r.conns() {
		k.eof = true
	}
	r.cond.Broadcast()
	r.mu.Unlock()
	vnet.OnListen, vnet.OnListenPacket, vnet.OnDial = nil, nil, nil
	vsync.OnEnd = nil
}

// end is stop, and waits for what the server has started to end.
func (r *srvRig) end() {
	r.stop()
	for {
		r.mu.Lock()
		served := r.served
		r.mu.Unlock()
		if served && vsync.Live.Load() == r.live {
			return
		}
		runtime.Gosched()
	}
}

func (r *srvRig) conns() []*srvConn { return r.all }

// check ends the execution when a goroutine of the server has panicked.
func (r *srvRig) check() {
	r.mu.Lock()
	p, s := r.panicked, r.stack
	r.mu.Unlock()
	if p != nil {
		r.c.Repanic(p, s)
	}
}
