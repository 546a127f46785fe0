package vsync

import (
	"reflect"
	"runtime/debug"
	"sync/atomic"

	"verifharness/goid"
)

// OnPanic, when set, is told of a panic that would end the process because a
// goroutine of the code under test does not recover from it.
var OnPanic func(r any, stack string)

// OnEnd, when set, is told of each goroutine of the code under test that ends.
var OnEnd func(goid uint64)

// Live counts the goroutines the code under test has started and that have
// not ended.
var Live atomic.Int64

// Start is a scheduling point at the start of a goroutine.
func Start() {
	Live.Add(1)
	if s := Current(); s != nil {
		s.Point("go")
	}
}

// Spawned is a scheduling point after a go statement, so that goroutines are
// known in the order they are started in.
func Spawned() {
	if s := Current(); s != nil {
		s.Point("spawned")
	}
}

// End is deferred at the start of a goroutine.
func End() {
	Live.Add(-1)
	r := recover()
	if f := OnEnd; f != nil {
		defer f(goid.Get())
	}
	if r == nil {
		return
	}
	if OnPanic == nil {
		panic(r)
	}
	OnPanic(r, string(debug.Stack()))
}

// Call is the body of a goroutine that calls f.
func Call(f any, args ...any) {
	defer End()
	Start()
	v := reflect.ValueOf(f)
	in := make([]reflect.Value, len(args))
	for i, a := range args {
		t := v.Type()
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1).Elem()
		} else {
			pt = t.In(i)
		}
		if a == nil {
			in[i] = reflect.Zero(pt)
			continue
		}
		in[i] = reflect.ValueOf(a)
		if !in[i].Type().AssignableTo(pt) {
			in[i] = in[i].Convert(pt)
		}
	}
	v.Call(in)
}
