// Package inst holds the instances of the generic types under test.  It is
// compiled as the code under test is: where the race monitor is on, it watches
// them.
package inst

import "github.com/danomagnum/gologix"

// In and Out have no padding, and no two values of InVal share a field.
type In struct {
	A, B int32
	C, D int16
}

type Out struct {
	P uint16
	Q [3]uint16
	R uint32
}

func InVal(k int) In {
	return In{int32(k), int32(k) * 0x01010101, int16(k) * 0x101, int16(-k)}
}

func OutVal(k int) Out {
	return Out{uint16(k), [3]uint16{uint16(k) << 8, uint16(k) * 3, uint16(k)}, uint32(k) * 0x10203}
}

// Provider is an I/O provider.
type Provider struct{ io gologix.IOProvider[In, Out] }

func NewProvider() *Provider {
	in := InVal(0)
	return &Provider{gologix.IOProvider[In, Out]{In: &in, Out: &Out{}}}
}

func (p *Provider) Endpoint() gologix.CIPEndpoint { return &p.io }
func (p *Provider) SetInputData(k int)            { p.io.SetInputData(InVal(k)) }
func (p *Provider) GetOutputData() Out            { return p.io.GetOutputData() }

// SetByPointer sets the input as the documentation has it: by the pointer, with
// the lock.
func (p *Provider) SetByPointer(k int, between func()) {
	p.io.InMutex.Lock()
	defer p.io.InMutex.Unlock()
	v := InVal(k)
	p.io.In.A = v.A
	between()
	p.io.In.B = v.B
	p.io.In.C, p.io.In.D = v.C, v.D
}

// GetByPointer reads the output by the pointer, with the lock.
func (p *Provider) GetByPointer() Out {
	p.io.OutMutex.Lock()
	defer p.io.OutMutex.Unlock()
	return *p.io.Out
}

// ChannelProvider is an I/O provider with channels.
type ChannelProvider struct {
	io gologix.IOChannelProvider[In, Out]
}

func NewChannelProvider() *ChannelProvider { return &ChannelProvider{} }

func (p *ChannelProvider) Endpoint() gologix.CIPEndpoint    { return &p.io }
func (p *ChannelProvider) SetInputData(k int)               { p.io.SetInputData(InVal(k)) }
func (p *ChannelProvider) GetOutputDataChannel() <-chan Out { return p.io.GetOutputDataChannel() }
