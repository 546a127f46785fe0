package vk

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// The parent and its workers share one file: a work counter and, per worker,
// the case being executed, so that a crash or a hang is attributed to a case.

const (
	slotSize  = 8192
	maxChoice = 1000
)

type shared struct{ mem []byte }

func openShared(path string, workers int) (*shared, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	size := slotSize * (workers + 1)
	if err := f.Truncate(int64(size)); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, size, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &shared{mem}, nil
}

func (s *shared) nextUnit() int {
	return int(atomic.AddInt64((*int64)(unsafe.Pointer(&s.mem[0])), 1)) - 1
}

type slot struct{ b []byte }

func (s *shared) slot(w int) *slot { return &slot{s.mem[slotSize*(w+1) : slotSize*(w+2)]} }

// layout: 0 beat u64, 8 unit u32, 12 count u32, 16.. (value u16, n u16)
func (s *slot) start(unit int) {
	binary.LittleEndian.PutUint32(s.b[12:], 0)
	binary.LittleEndian.PutUint32(s.b[8:], uint32(unit))
	atomic.AddUint64((*uint64)(unsafe.Pointer(&s.b[0])), 1)
}

func (s *slot) beat() uint64 { return atomic.LoadUint64((*uint64)(unsafe.Pointer(&s.b[0]))) }

func (s *slot) choice(i, v, n int) {
	if i >= maxChoice {
		return
	}
	binary.LittleEndian.PutUint16(s.b[16+4*i:], uint16(v))
	binary.LittleEndian.PutUint16(s.b[18+4*i:], uint16(n))
	binary.LittleEndian.PutUint32(s.b[12:], uint32(i+1))
}

func (s *slot) current() (unit int, path, ns []int) {
	unit = int(binary.LittleEndian.Uint32(s.b[8:]))
	k := int(binary.LittleEndian.Uint32(s.b[12:]))
	for i := 0; i < k && i < maxChoice; i++ {
		path = append(path, int(binary.LittleEndian.Uint16(s.b[16+4*i:])))
		ns = append(ns, int(binary.LittleEndian.Uint16(s.b[18+4*i:])))
	}
	return
}
