//go:build race

package race

import (
	"fmt"
	"os"
	"runtime"
	"strings"
	"unsafe"
)

const Enabled = true

// Disable makes what the goroutine synchronises on from here order nothing.
func Disable() { runtime.RaceDisable() }
func Enable()  { runtime.RaceEnable() }

func Acquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }
func Release(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:linkname raceErrors internal/race.Errors
func raceErrors() int

// Errors is how many races there have been in this process.
func Errors() int { return raceErrors() }

var read int64

// Report is what the detector has written since the last call.
func Report() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		p, ok := strings.CutPrefix(f, "log_path=")
		if !ok {
			continue
		}
		b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
		if err != nil || int64(len(b)) <= read {
			return ""
		}
		s := string(b[read:])
		read = int64(len(b))
		return s
	}
	return ""
}
