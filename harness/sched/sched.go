// Package sched runs code under a controlled scheduler.  Every goroutine of
// the code under test stops at each lock, each I/O call and each other point
// of package vsync; only one runs at a time, and which one goes next, when the
// network delivers and when time passes are choices of the exploration.  The
// goroutines live in a testing/synctest bubble: timers are real but time only
// moves when the scheduler lets it.
package sched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
	"unsafe"

	_ "testing/synctest" // registers what the linknames below need

	"verifharness/goid"
	"verifharness/race"
	"verifharness/vk"
	"verifharness/vsync"
)

//go:linkname bubble internal/synctest.Run
func bubble(f func())

//go:linkname wait internal/synctest.Wait
func wait()

// task is one goroutine that has reached a scheduling point at least once.
type task struct {
	id     int
	goid   uint64
	name   string
	parked bool
	what   string
	ready  func() bool
	ch     chan struct{}
	done   bool
	ours   bool // started by Go
}

// event is something the environment may do.
type event struct {
	name    string
	enabled func() bool
	do      func()
}

type lock struct {
	key     any
	writer  *task
	readers []*task
}

// S is a scheduler; it implements vsync.Sched.
type S struct {
	C *vk.C
	// Preempt bounds how often a goroutine that could go on is passed over.
	Preempt int
	// Jumps bounds how often time passes although something else could happen.
	Jumps int
	// Idle is how long nothing may happen before the execution counts as stuck.
	Idle time.Duration
	// MaxSteps bounds the scheduling steps of one execution.
	MaxSteps int
	// Drain keeps running spawned goroutines for this long after the tasks are done.
	Drain time.Duration
	// OnStep is called before every step with everything at rest.
	OnStep func()
	// Solo lets a task go on without asking the scheduler until it has to wait.
	// It is for phases with one task, in which the code starts no goroutines.
	Solo bool
	// AtEnd is called when the execution is over, to end what is left of it
	AtEnd func()
	// NoChoice makes every choice the default one (used to set things up).
	NoChoice bool

	mu      sync.Mutex
	tasks   []*task
	events  []*event
	locks   []*lock
	cur     *task
	kick    chan struct{}
	aborted bool
	steps   int
	main    uint64
	trace   []string
	stuck   string
	fails   []func()

	resumed, ended int // what the race detector knows the scheduler's order by
}

// Explore runs f, which starts tasks with Go, then schedules until all are done.
func Explore(c *vk.C, s *S, f func(s *S)) {
	s.C = c
	if s.Idle == 0 {
		s.Idle = 10 * time.Minute
	}
	if s.MaxSteps == 0 {
		s.MaxSteps = 100000
	}
	var perr any
	var pstack string
	func() {
		defer func() {
			if r := recover(); r != nil {
				perr = r
			}
		}()
		bubble(func() {
			defer func() {
				if r := recover(); r != nil {
					perr = r
					pstack = string(debug.Stack())
					if s.AtEnd != nil && s.stuck == "" && !c.Failed() {
						// an execution that is another shard's
						for _, t := range s.tasks {
							t.ours = false
						}
						s.AtEnd()
					}
				}
				// the scheduler stays installed until the bubble is empty: whatever
				// still runs ends at its next scheduling point
				s.abort()
			}()
			s.kick = make(chan struct{}, 1)
			vsync.Install(s)
			vsync.OnPanic = func(r any, stack string) {
				if !s.aborted {
					s.C.ReportPanic(r, stack)
				}
				s.kicked()
			}
			s.main = goid.Get()
			errs := race.Errors()
			f(s)
			s.Run()
			s.Drained()
			if s.AtEnd != nil && s.stuck == "" && !c.Failed() {
				s.AtEnd()
			}
			if n := race.Errors() - errs; n > 0 {
				c.Report("race", "%d data races\nschedule: %s\n%s", n, s.Trace(), race.Report())
			}
		})
	}()
	vsync.Install(nil)
	vsync.OnPanic = nil
	if perr != nil {
		if msg, ok := perr.(error); ok && strings.Contains(msg.Error(), "deadlock: main bubble goroutine has exited") {
			perr = nil
		} else if str, ok := perr.(string); ok && strings.Contains(str, "deadlock: main bubble goroutine has exited") {
			perr = nil
		}
	}
	if perr != nil {
		c.Repanic(perr, pstack)
	}
	if s.stuck != "" {
		c.Fail("stuck", "%s\nschedule: %s", s.stuck, s.Trace())
	}
}

// Run schedules until every task is done; f may call it between phases.
func (s *S) Run() {
	if s.stuck == "" {
		s.loop()
	}
	race.Acquire(unsafe.Pointer(&s.ended))
}

// Stuck tells whether the execution could not go on.
func (s *S) Stuck() bool { return s.stuck != "" }

// Drained runs spawned goroutines for Drain after the tasks are done.
func (s *S) Drained() {
	if s.Drain == 0 || s.stuck != "" {
		return
	}
	end := time.Now().Add(s.Drain)
	for time.Now().Before(end) {
		s.wait()
		if t := s.firstReady(); t != nil {
			s.resume(t)
			continue
		}
		if e := s.firstEvent(); e != nil {
			e.do()
			continue
		}
		tm := time.NewTimer(time.Until(end))
		select {
		case <-s.kick:
		case <-tm.C:
		}
		tm.Stop()
	}
	s.wait()
}

// Settle runs what is ready to run until nothing is; time does not pass.
func (s *S) Settle() {
	for s.stuck == "" && !s.C.Failed() {
		s.wait()
		if t := s.firstReady(); t != nil {
			if s.steps++; s.steps > s.MaxSteps {
				s.stuck = fmt.Sprintf("more than %d steps: endless loop", s.MaxSteps)
				return
			}
			s.trace = append(s.trace, t.name+":", t.what)
			s.cur = t
			s.resume(t)
			continue
		}
		if e := s.firstEvent(); e != nil {
			s.log("<" + e.name + ">")
			e.do()
			continue
		}
		return
	}
}

// Forget drops the schedule so far.
func (s *S) Forget() { s.trace = s.trace[:0] }

func (s *S) firstReady() *task {
	for _, t := range s.tasks {
		if t.parked && t.ready() {
			return t
		}
	}
	return nil
}

func (s *S) firstEvent() *event {
	for _, e := range s.events {
		if e.enabled() {
			return e
		}
	}
	return nil
}

// Trace is the schedule so far.
func (s *S) Trace() string { return strings.Join(s.trace, " ") }

func (s *S) log(what string) { s.trace = append(s.trace, what) }

// Fail reports a violation with the schedule that led to it.
func (s *S) Fail(key, f string, a ...any) {
	s.C.Report(key, "%s\nschedule: %s", fmt.Sprintf(f, a...), s.Trace())
}

// Steps is the number of scheduling steps taken.
func (s *S) Steps() int { return s.steps }

func (s *S) self() *task {
	id := goid.Get()
	if id == s.main {
		panic("harness: the scheduler itself called into the code under test")
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, t := range s.tasks {
		if t.goid == id {
			return t
		}
	}
	t := &task{id: len(s.tasks), goid: id, ch: make(chan struct{})}
	t.name = "g" + strconv.Itoa(t.id)
	s.tasks = append(s.tasks, t)
	return t
}

// Go starts a task.  Its panics are violations.
func (s *S) Go(name string, f func()) { s.start(name, true, f) }

// Spawn starts a goroutine that need not end.
func (s *S) Spawn(name string, f func()) { s.start(name, false, f) }

func (s *S) start(name string, ours bool, f func()) {
	t := &task{id: len(s.tasks), name: name, ch: make(chan struct{}), ours: ours}
	s.tasks = append(s.tasks, t)
	go func() {
		defer func() {
			r := recover()
			race.Release(unsafe.Pointer(&s.ended))
			s.apart(func() {
				t.done = true
				t.parked = false
				if r != nil && !s.aborted {
					st := string(debug.Stack())
					s.C.ReportPanic(r, st)
				}
				s.kicked()
			})
		}()
		s.apart(func() {
			s.mu.Lock()
			t.goid = goid.Get()
			s.mu.Unlock()
			s.park(t, "start", nil)
		})
		f()
	}()
	s.wait()
}

// wait waits until nothing runs; what has run is not ordered by it.
func (s *S) wait() {
	race.Disable()
	wait()
	race.Enable()
}

// Event registers something the environment may do whenever enabled holds.
func (s *S) Event(name string, enabled func() bool, do func()) {
	s.events = append(s.events, &event{name, enabled, do})
}

func (s *S) kicked() {
	select {
	case s.kick <- struct{}{}:
	default:
	}
}

// Kick wakes the scheduler, for timers whose firing makes something ready.
func (s *S) Kick() { s.kicked() }

func always() bool { return true }

// apart runs f, in which the scheduler decides what goes on next: this orders
// nothing of what the code under test does, except with what the environment
// did before.
func (s *S) apart(f func()) {
	func() {
		race.Disable()
		defer race.Enable()
		f()
	}()
	race.Acquire(unsafe.Pointer(&s.resumed))
}

func (s *S) park(t *task, what string, ready func() bool) {
	if s.aborted {
		runtime.Goexit()
	}
	if ready == nil {
		ready = always
	}
	if s.Solo && t == s.cur && ready() {
		s.steps++
		s.C.Trans(1)
		s.trace = append(s.trace, what)
		if s.steps > s.MaxSteps {
			s.stuck = fmt.Sprintf("more than %d steps: endless loop", s.MaxSteps)
			runtime.Goexit()
		}
		return
	}
	t.what, t.ready, t.parked = what, ready, true
	s.kicked()
	<-t.ch
	if s.aborted {
		runtime.Goexit()
	}
}

func (s *S) resume(t *task) {
	t.parked = false
	race.Release(unsafe.Pointer(&s.resumed))
	race.Disable()
	t.ch <- struct{}{}
	race.Enable()
}

// Lock implements vsync.Sched.
func (s *S) Lock(key any, write bool) {
	var l *lock
	s.apart(func() {
		t := s.self()
		l = s.lock(key)
		s.park(t, "lock", func() bool { return l.free(write) })
		l.take(t, write)
	})
	l.acquired(write)
}

func (s *S) lock(key any) *lock {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, l := range s.locks {
		if l.key == key {
			return l
		}
	}
	l := &lock{key: key}
	s.locks = append(s.locks, l)
	return l
}

func (l *lock) free(write bool) bool {
	return l.writer == nil && (!write || len(l.readers) == 0)
}

func (l *lock) take(t *task, write bool) {
	if write {
		l.writer = t
	} else {
		l.readers = append(l.readers, t)
	}
}

// acquired and released order what the holders of the lock do.
func (l *lock) acquired(write bool) {
	race.Acquire(unsafe.Pointer(&l.writer))
	if write {
		race.Acquire(unsafe.Pointer(&l.readers))
	}
}

func (l *lock) released(write bool) {
	if write {
		race.Release(unsafe.Pointer(&l.writer))
	} else {
		race.Release(unsafe.Pointer(&l.readers))
	}
}

// TryLock implements vsync.Sched.
func (s *S) TryLock(key any, write bool) bool {
	var l *lock
	ok := false
	s.apart(func() {
		t := s.self()
		s.park(t, "trylock", nil)
		l = s.lock(key)
		if ok = l.free(write); ok {
			l.take(t, write)
		}
	})
	if ok {
		l.acquired(write)
	}
	return ok
}

// Unlock implements vsync.Sched.
func (s *S) Unlock(key any, write bool) {
	if s.aborted {
		return
	}
	var l *lock
	s.apart(func() { l = s.lock(key) })
	l.released(write)
	s.apart(func() {
		t := s.self()
		if write {
			if l.writer == nil {
				panic("sync: unlock of unlocked mutex")
			}
			l.writer = nil
		} else {
			if len(l.readers) == 0 {
				panic("sync: RUnlock of unlocked RWMutex")
			}
			at := 0
			for i, o := range l.readers {
				if o == t {
					at = i
				}
			}
			l.readers[at] = l.readers[len(l.readers)-1]
			l.readers = l.readers[:len(l.readers)-1]
		}
		s.park(t, "unlock", nil)
	})
}

// Point implements vsync.Sched.
func (s *S) Point(what string) { s.Block(what, nil) }

// Block implements vsync.Sched.
func (s *S) Block(what string, ready func() bool) {
	s.apart(func() { s.park(s.self(), what, ready) })
}

// BlockUntil is Block that also ends when the deadline (zero: none) passes.
func (s *S) BlockUntil(what string, deadline time.Time, ready func() bool) {
	if deadline.IsZero() {
		s.Block(what, ready)
		return
	}
	if d := time.Until(deadline); d > 0 {
		tm := time.AfterFunc(d, s.kicked)
		defer tm.Stop()
	}
	s.Block(what, func() bool { return ready() || !time.Now().Before(deadline) })
}

func (s *S) abort() {
	s.aborted = true
	for _, t := range s.tasks {
		if t.parked {
			t.parked = false
			close(t.ch)
		}
	}
}

func (s *S) live() bool {
	for _, t := range s.tasks {
		if t.ours && !t.done {
			return true
		}
	}
	return false
}

func (s *S) loop() {
	for {
		s.wait()
		if !s.live() {
			return
		}
		if s.C.Failed() {
			return
		}
		if s.OnStep != nil {
			s.OnStep()
		}
		s.steps++
		if s.steps > s.MaxSteps {
			s.stuck = fmt.Sprintf("more than %d steps: endless loop", s.MaxSteps)
			return
		}
		s.C.Trans(1)
		// alternatives, the default first
		type alt struct {
			t    *task
			e    *event
			cost int
		}
		var alts []alt
		cont := false
		if s.cur != nil && s.cur.parked && s.cur.ready() {
			alts = append(alts, alt{t: s.cur})
			cont = true
		}
		for _, t := range s.tasks {
			if t != s.cur && t.parked && t.ready() {
				alts = append(alts, alt{t: t})
			}
		}
		for _, e := range s.events {
			if e.enabled() {
				alts = append(alts, alt{e: e})
			}
		}
		if len(alts) == 0 {
			// only time can help
			if !s.pass(false) {
				return
			}
			continue
		}
		if cont && (s.Preempt <= 0 || s.NoChoice) {
			alts = alts[:1]
		}
		n := len(alts)
		if !s.NoChoice && s.Jumps > 0 && s.sleeper() {
			n++
		}
		k := 0
		if n > 1 && !s.NoChoice {
			k = s.C.Choose(n, "schedule")
		}
		if k == len(alts) {
			s.Jumps--
			s.log("<time>")
			s.pass(true)
			continue
		}
		a := alts[k]
		if cont && k > 0 {
			s.Preempt--
		}
		if a.e != nil {
			s.log("<" + a.e.name + ">")
			a.e.do()
			continue
		}
		if a.t != s.cur {
			s.log(a.t.name + ":")
		}
		s.trace = append(s.trace, a.t.what)
		s.cur = a.t
		s.resume(a.t)
	}
}

// sleeper tells whether a goroutine waits for something that time can end.
func (s *S) sleeper() bool {
	for _, t := range s.tasks {
		if t.parked && !t.ready() {
			return true
		}
	}
	return false
}

// pass lets time move to the next timer; false when nothing ever happens.
func (s *S) pass(voluntary bool) bool {
	select {
	case <-s.kick:
	default:
	}
	tm := time.NewTimer(s.Idle)
	defer tm.Stop()
	select {
	case <-s.kick:
		return true
	case <-tm.C:
		if voluntary {
			return true
		}
		var w []string
		for _, t := range s.tasks {
			if !t.done && t.ours || t.parked {
				w = append(w, t.name+" in "+t.what)
			}
		}
		s.stuck = fmt.Sprintf("nothing happens for %v: %s", s.Idle, strings.Join(w, ", "))
		return false
	}
}
