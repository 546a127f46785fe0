package goid

import (
	"bytes"
	"runtime"
	"strconv"
	"unsafe"
)

// getg is the address of the running goroutine's descriptor.
func getg() uintptr

// goidOff is where the descriptor holds the goroutine's number (0: unknown).
var goidOff = findGoid()

// findGoid looks for the number in the descriptors of several goroutines.
func findGoid() uintptr {
	cand := map[uintptr]int{}
	const n = 8
	ch := make(chan bool)
	for i := 0; i < n; i++ {
		go func() {
			id := slowGoid()
			for o := uintptr(0); o < 400; o += 8 {
				if *(*uint64)(at(getg(), o)) == id {
					cand[o]++
				}
			}
			ch <- true
		}()
		<-ch
	}
	for o, k := range cand {
		if k == n {
			return o
		}
	}
	return 0
}

func at(p, o uintptr) unsafe.Pointer {
	p += o
	return *(*unsafe.Pointer)(unsafe.Pointer(&p))
}

func slowGoid() uint64 {
	var b [40]byte
	n := runtime.Stack(b[:], false)
	f := b[len("goroutine "):n]
	i := bytes.IndexByte(f, ' ')
	id, _ := strconv.ParseUint(string(f[:i]), 10, 64)
	return id
}

func Get() uint64 {
	if goidOff == 0 {
		return slowGoid()
	}
	return *(*uint64)(at(getg(), goidOff))
}
