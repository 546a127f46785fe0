// Package vk is the exploration kit: it enumerates, exhaustively within the
// bounds a check states, every sequence of choices of every unit of the check,
// runs the real code on each, and reports what was covered and what failed.
package vk

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Unit is one independently explored scenario.  Run is called once per choice
// sequence and must be a deterministic function of the choices it makes.
type Unit struct {
	Name string
	Run  func(*C)
	// shard of shards: only the choice sequences whose first shardDepth choices
	// fall to this shard are run here.
	shard, shards, shardDepth int
}

// Shard splits a unit into n that together run every choice sequence of it,
// by the first depth choices.
func Shard(u Unit, n, depth int) []Unit {
	var r []Unit
	for i := 0; i < n; i++ {
		v := u
		v.Name = fmt.Sprintf("%s [%d/%d]", u.Name, i+1, n)
		v.shard, v.shards, v.shardDepth = i, n, depth
		r = append(r, v)
	}
	return r
}

// mine tells whether the choice sequence belongs to this shard.
func (c *C) mine() bool {
	if c.u.shards == 0 {
		return true
	}
	p := c.path
	if len(p) > c.u.shardDepth {
		p = p[:c.u.shardDepth]
	}
	h := uint32(2166136261)
	for _, v := range p {
		h = (h ^ uint32(v+1)) * 16777619
	}
	return int(h>>8)%c.u.shards == c.u.shard
}

// Check decides one property.
type Check struct {
	ID    string
	Level string // evidence level
	Rule  string // how cases are made and what makes one non-trivial
	// Units lists the scenarios of a tier ("quick" or "thorough").
	Units       func(tier string) []Unit
	Bounds      map[string]any
	Assumptions []string
	// MaxProcs is GOMAXPROCS of a worker process (default 2).
	MaxProcs int
	// QuickBudget and ThoroughBudget bound the exploration in wall time.
	QuickBudget, ThoroughBudget time.Duration
	// HangAfter: an execution that makes no progress for this long is a hang.
	HangAfter time.Duration
}

var registry = map[string]*Check{}

// Register adds a check.
func Register(c *Check) { registry[c.ID] = c }

// IDs lists the registered checks.
func IDs() []string {
	var r []string
	for k := range registry {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// Violation is one failed execution.
type Violation struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Unit     string `json:"unit"`
	Choices  []int  `json:"choices"`
	Key      string `json:"key"`
	Message  string `json:"message"`
	Trace    string `json:"trace,omitempty"`
}

// C is the context of one execution.
type C struct {
	unit   string
	u      Unit
	skip   bool
	prefix []int
	path   []int
	ns     []int
	labels []string
	st     *stats
	fails  []failure
	slot   *slot
	Tier   string
	// Verbose is set when a single case is being replayed.
	Verbose bool
	log     []string
	cleanup []func()
	nondet  string
}

type failure struct{ key, msg string }

type stats struct {
	Execs    int64
	Trans    int64
	Traces   int64
	distinct map[uint64]struct{}
	states   map[uint64]struct{}
	Samples  []string
	Cases    []string // samples of a check that writes none out
	Counters map[string]int64
}

type stopRun struct{}

// Choose enumerates 0..n-1.
func (c *C) Choose(n int, label string) int {
	if n <= 0 {
		panic("vk: Choose with no alternatives: " + label)
	}
	i := len(c.path)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			c.nondet = fmt.Sprintf("unit %s: choice %d (%s) is %d of %d", c.unit, i, label, v, n)
			panic(stopRun{})
		}
	}
	c.path = append(c.path, v)
	c.ns = append(c.ns, n)
	if c.slot != nil {
		c.slot.choice(i, v, n)
	}
	if c.Verbose {
		c.Logf("choice %s = %d of %d", label, v, n)
	}
	if c.u.shards > 0 && len(c.path) == c.u.shardDepth && !c.mine() {
		c.skip = true
		panic(stopRun{})
	}
	return v
}

// Bool enumerates false, true.
func (c *C) Bool(label string) bool { return c.Choose(2, label) == 1 }

// Pick enumerates the elements of xs.
func Pick[T any](c *C, xs []T, label string) T { return xs[c.Choose(len(xs), label)] }

// Fail records a violation and ends the execution.
func (c *C) Fail(key, format string, args ...any) {
	c.Report(key, format, args...)
	panic(stopRun{})
}

// Report records a violation without ending the execution.
func (c *C) Report(key, format string, args ...any) {
	c.fails = append(c.fails, failure{key, fmt.Sprintf(format, args...)})
}

// Failed tells whether a violation was already recorded.
func (c *C) Failed() bool { return len(c.fails) > 0 }

// Stop ends this execution without a verdict (an irrelevant branch).
func (c *C) Stop() { panic(stopRun{}) }

// Cleanup registers f to run when the execution ends.
func (c *C) Cleanup(f func()) { c.cleanup = append(c.cleanup, f) }

// Trans counts n operations applied to the implementation (and the model).
func (c *C) Trans(n int) { c.st.Trans += int64(n) }

// Validated counts one model trace replayed against the implementation.
func (c *C) Validated() { c.st.Traces++ }

// Distinct records a non-trivial case by content.
func (c *C) Distinct(parts ...any) {
	c.st.distinct[c.hash(parts...)] = struct{}{}
	if len(c.st.Cases) < 2 {
		s := c.unit + ":"
		for _, p := range parts {
			t := fmt.Sprintf(" %v", p)
			if len(t) > 200 {
				t = t[:200] + "..."
			}
			s += t
		}
		c.st.Cases = append(c.st.Cases, s)
	}
}

// State records a visited model state by content.
func (c *C) State(parts ...any) { c.st.states[c.hash(parts...)] = struct{}{} }

// Eval counts n further evaluations made inside this execution.
func (c *C) Eval(n int) { c.st.Execs += int64(n) }

// Count increments a named counter reported in the evidence.
func (c *C) Count(name string, n int) { c.st.Counters[name] += int64(n) }

// Sample keeps the first few cases written out.
func (c *C) Sample(f func() string) {
	if len(c.st.Samples) < 3 {
		c.st.Samples = append(c.st.Samples, c.unit+": "+f())
	}
}

// Logf records a line of the trace (kept only on replay).
func (c *C) Logf(format string, args ...any) {
	if c.Verbose {
		c.log = append(c.log, fmt.Sprintf(format, args...))
	}
}

func (c *C) hash(parts ...any) uint64 {
	h := fnv.New64a()
	h.Write([]byte(c.unit))
	for _, p := range parts {
		switch p := p.(type) {
		case []byte:
			h.Write(p)
		case string:
			h.Write([]byte(p))
		default:
			fmt.Fprintf(h, "%v", p)
		}
		h.Write([]byte{0})
	}
	return h.Sum64()
}

// run executes one case and returns its failures.
func (c *C) run(f func(*C)) {
	defer func() {
		for i := len(c.cleanup) - 1; i >= 0; i-- {
			c.cleanup[i]()
		}
	}()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if _, ok := r.(stopRun); ok {
			return
		}
		stack := string(debug.Stack())
		if len(c.fails) > 0 && !underTest(stack) {
			return
		}
		if underTest(stack) {
			c.fails = append(c.fails, failure{"panic:" + panicSite(stack), fmt.Sprintf("panic: %v\n%s", r, trimStack(stack))})
			return
		}
		fmt.Fprintf(os.Stderr, "HARNESS PANIC unit=%s path=%v: %v\n%s\n", c.unit, c.path, r, stack)
		os.Exit(3)
	}()
	f(c)
}

// Repanic passes on a panic caught elsewhere with its stack.
func (c *C) Repanic(r any, stack string) {
	if _, ok := r.(stopRun); ok {
		panic(r)
	}
	c.ReportPanic(r, stack)
	panic(stopRun{})
}

// ReportPanic records a panic of the code under test; a panic of the harness
// ends the process.
func (c *C) ReportPanic(r any, stack string) {
	if _, ok := r.(stopRun); ok {
		return
	}
	if underTest(stack) {
		c.fails = append(c.fails, failure{"panic:" + panicSite(stack), fmt.Sprintf("panic: %v\n%s", r, trimStack(stack))})
		return
	}
	fmt.Fprintf(os.Stderr, "HARNESS PANIC unit=%s path=%v: %v\n%s\n", c.unit, c.path, r, stack)
	os.Exit(3)
}

const repoPkg = "github.com/danomagnum/gologix"
const harnessPkg = "verifharness/"

// innermost returns the first frame after the panic that belongs to the code
// under test or to the harness.
func innermost(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") || strings.HasPrefix(l, "runtime.panic") || strings.HasPrefix(l, "runtime.goPanic") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, repoPkg) || strings.HasPrefix(l, harnessPkg) {
			_ = i
			return l
		}
	}
	return ""
}

func underTest(stack string) bool { return strings.HasPrefix(innermost(stack), repoPkg) }

func panicSite(stack string) string {
	l := innermost(stack)
	l = strings.TrimPrefix(l, repoPkg)
	if i := strings.LastIndex(l, "("); i > 0 {
		l = l[:i]
	}
	return l
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

// next computes the following choice sequence in depth-first order, or nil.
func next(path, ns []int) []int {
	for i := len(path) - 1; i >= 0; i-- {
		if path[i]+1 < ns[i] {
			p := append([]int(nil), path[:i+1]...)
			p[i]++
			return p
		}
	}
	return nil
}
