//go:build !race

// Package race tells the race detector, in a build that has it, which accesses
// the code under test has ordered.  In other builds it does nothing.
package race

import "unsafe"

const Enabled = false

func Disable()                 {}
func Enable()                  {}
func Acquire(p unsafe.Pointer) {}
func Release(p unsafe.Pointer) {}
func Errors() int              { return 0 }
func Report() string           { return "" }
