// Package vnet stands in for package net in the code under test.  Everything
// is re-exported from net except the calls that would open a real socket:
// those are routed to the hooks the running check installs, and fail when no
// hook is installed.
package vnet

import (
	"context"
	"errors"
	"net"
	"time"
)

// Hooks installed by the checks.  They are set before any code under test runs.
var (
	OnDial         func(network, address string, timeout time.Duration) (net.Conn, error)
	OnListen       func(network, address string) (net.Listener, error)
	OnListenPacket func(network, address string) (net.PacketConn, error)
)

var errNoNet = errors.New("vnet: no network in this check")

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	if OnDial == nil {
		return nil, errNoNet
	}
	return OnDial(network, address, timeout)
}

func Dial(network, address string) (net.Conn, error) { return DialTimeout(network, address, 0) }

func DialTCP(network string, laddr, raddr *net.TCPAddr) (net.Conn, error) {
	return DialTimeout(network, raddr.String(), 0)
}

func DialUDP(network string, laddr, raddr *net.UDPAddr) (net.Conn, error) {
	return DialTimeout(network, raddr.String(), 0)
}

func Listen(network, address string) (net.Listener, error) {
	if OnListen == nil {
		return nil, errNoNet
	}
	return OnListen(network, address)
}

func ListenPacket(network, address string) (net.PacketConn, error) {
	if OnListenPacket == nil {
		return nil, errNoNet
	}
	return OnListenPacket(network, address)
}

// Dialer mirrors net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
}

func (d *Dialer) timeout() time.Duration {
	t := d.Timeout
	if !d.Deadline.IsZero() {
		if u := time.Until(d.Deadline); t == 0 || u < t {
			t = u
		}
	}
	return t
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.timeout())
}

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return DialTimeout(network, address, d.timeout())
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct {
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (net.PacketConn, error) {
	return ListenPacket(network, address)
}
