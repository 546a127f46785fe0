package plc

import "fmt"

// Buffer is one data table buffer (class 0xB2 instance).
type Buffer struct {
	Tags    []BufTag
	nextIdx uint16
	batches uint16
}

// BufTag is one tag of a buffer.  Its index is assigned in the order tags were
// added and never changes.
type BufTag struct {
	Index uint16
	Batch uint16
	Size  int
	Segs  []Seg
}

// Names lists what the buffer's tags address, in order.
func (b *Buffer) Names() []string {
	var r []string
	for _, t := range b.Tags {
		r = append(r, SegString(t.Segs))
	}
	return r
}

func (p *PLC) buffer(r *Req, inst uint32, room int) Reply {
	b := p.Buffers[inst]
	if r.Service != 0x08 && b == nil {
		return Reply{Status: 0x05}
	}
	d := r.Data
	switch r.Service {
	case 0x08:
		if inst != 0 {
			return Reply{Status: 0x08}
		}
		if fmt.Sprintf("% x", d) != "01 00 03 00 03 00" {
			p.Problem("buffer create data % x", d)
			return Reply{Status: 0x20}
		}
		p.nextBuf++
		id := 0x0100 + p.nextBuf*0x101
		if p.Buffers == nil {
			p.Buffers = map[uint32]*Buffer{}
		}
		p.Buffers[id] = &Buffer{}
		return Reply{Data: le.AppendUint16(nil, uint16(id))}
	case 0x09:
		delete(p.Buffers, inst)
		return Reply{}
	case 0x4E:
		if len(d) < 5 || d[0] != 2 || d[1] != 0 || d[2] != 1 || d[3] != 1 {
			p.Problem("buffer add header % x", d)
			return Reply{Status: 0x13}
		}
		n := int(d[4])
		if n == 0 {
			p.Problem("buffer add of no tags")
			return Reply{Status: 0x20}
		}
		d = d[5:]
		var add []BufTag
		for i := 0; i < n; i++ {
			if len(d) < 3 || len(d) < 3+2*int(d[2]) {
				p.Problem("buffer add entry %d of %d is cut", i, n)
				return Reply{Status: 0x13}
			}
			size, words := int(le.Uint16(d)), int(d[2])
			segs, err := ParseEPath(d[3 : 3+2*words])
			if err != nil {
				p.Problem("buffer add path: %v", err)
				return Reply{Status: 0x04}
			}
			d = d[3+2*words:]
			tg, st := p.resolve(segs)
			if st != 0 {
				return Reply{Status: st}
			}
			if tg.off+size > len(tg.tag.Data) {
				return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
			}
			add = append(add, BufTag{Size: size, Segs: segs})
		}
		if len(d) != 0 {
			p.Problem("buffer add has %d bytes after %d entries", len(d), n)
			return Reply{Status: 0x15}
		}
		b.batches++
		for _, t := range add {
			b.nextIdx++
			t.Index, t.Batch = b.nextIdx, b.batches
			b.Tags = append(b.Tags, t)
		}
		return Reply{Data: le.AppendUint16(nil, b.batches)}
	case 0x4F:
		if len(d) != 2 {
			p.Problem("buffer remove of %d bytes", len(d))
			return Reply{Status: 0x13}
		}
		for i, t := range b.Tags {
			if t.Index == le.Uint16(d) {
				b.Tags = append(b.Tags[:i:i], b.Tags[i+1:]...)
				return Reply{}
			}
		}
		p.Problem("buffer remove of index %d which it does not have", le.Uint16(d))
		return Reply{Status: 0x16}
	case 0x4C:
		if len(d) != 0 {
			p.Problem("buffer read of %d data bytes", len(d))
		}
		var out []byte
		last := uint16(0)
		for _, t := range b.Tags {
			if t.Batch != last {
				out = le.AppendUint16(out, t.Batch)
				last = t.Batch
			}
			tg, st := p.resolve(t.Segs)
			if st != 0 {
				return Reply{Status: st}
			}
			out = append(out, tg.tag.Data[tg.off:tg.off+t.Size]...)
		}
		if len(out) > room {
			return Reply{Status: 0x11}
		}
		return Reply{Data: out}
	}
	return Reply{Status: 0x08}
}

// Where says which tag and which byte of it a path addresses.
func (p *PLC) Where(segs []Seg) (*Tag, int) {
	tg, st := p.resolve(segs)
	if st != 0 {
		return nil, 0
	}
	return tg.tag, tg.off
}
