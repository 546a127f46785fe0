package vk

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type workerResult struct {
	Stats      stats
	Distinct   int64
	States     int64
	Units      int
	Violations []Violation
	TimedOut   bool
}

// Main is the entry point of the check binary.
func Main() {
	var (
		prop     = flag.String("prop", "", "property id")
		tier     = flag.String("tier", "quick", "quick or thorough")
		verif    = flag.String("verif", "/verif", "verification directory")
		worker   = flag.Int("worker", -1, "")
		sharedF  = flag.String("shared", "", "")
		nworkers = flag.Int("workers", 0, "")
		out      = flag.String("out", "", "")
		deadline = flag.Int64("deadline", 0, "")
		resume   = flag.String("resume", "", "")
		replay   = flag.String("replay", "", "replay file")
		one      = flag.String("one", "", "run the single case in this file")
		list     = flag.Bool("list", false, "list checks")
		only     = flag.String("only", "", "only units whose name contains this")
	)
	flag.Parse()
	if f := os.Getenv("VERIF_PROF"); f != "" && *worker == 0 {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		time.AfterFunc(20*time.Second, pprof.StopCPUProfile)
	}
	if *list {
		for _, id := range IDs() {
			fmt.Println(id)
		}
		return
	}
	switch {
	case *one != "":
		os.Exit(runOne(*one))
	case *replay != "":
		os.Exit(runReplay(*replay))
	}
	c := registry[*prop]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check for property %q\n", *prop)
		os.Exit(2)
	}
	if *worker >= 0 {
		runWorker(c, *tier, *worker, *nworkers, *sharedF, *out, time.Unix(0, *deadline), *resume, *only)
		return
	}
	os.Exit(runParent(c, *tier, *verif, *only))
}

func newStats() *stats {
	return &stats{distinct: map[uint64]struct{}{}, states: map[uint64]struct{}{}, Counters: map[string]int64{}}
}

func setProcs(c *Check) {
	p := c.MaxProcs
	if p == 0 {
		p = 2
	}
	runtime.GOMAXPROCS(p)
	debug.SetMemoryLimit(3 << 30)
	if p == 1 {
		// controlled schedules: no garbage collection in the middle of one
		debug.SetGCPercent(-1)
	}
}

func selectUnits(c *Check, tier, only string) []Unit {
	us := c.Units(tier)
	if only == "" {
		return us
	}
	var r []Unit
	for _, u := range us {
		if strings.Contains(u.Name, only) {
			r = append(r, u)
		}
	}
	return r
}

func runWorker(c *Check, tier string, w, n int, sharedFile, out string, deadline time.Time, resume, only string) {
	setProcs(c)
	sh, err := openShared(sharedFile, n)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	sl := sh.slot(w)
	units := selectUnits(c, tier, only)
	res := workerResult{}
	st := newStats()
	seen := map[string]int{}
	stop := false
	iter := 0
	gcEvery := 0
	if c.MaxProcs == 1 {
		gcEvery = 16
	}
	save := func() {
		res.Stats = *st
		res.Distinct = int64(len(st.distinct))
		res.States = int64(len(st.states))
		b, _ := json.Marshal(res)
		if err := os.WriteFile(out, b, 0o600); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
	}
	failing := 0
	exploreUnit := func(ui int, path []int) {
		u := units[ui]
		retries := 0
		for !stop {
			cc := &C{unit: u.Name, u: u, prefix: path, st: st, slot: sl, Tier: tier}
			sl.start(ui)
			cc.run(u.Run)
			if cc.nondet == "" && len(cc.path) < len(path) {
				cc.nondet = fmt.Sprintf("unit %s made %d choices, expected at least %d", u.Name, len(cc.path), len(path))
			}
			if cc.nondet != "" {
				// a replayed prefix took another way: run it again
				st.Counters["replays_repeated"]++
				if retries++; retries > 20 {
					fmt.Fprintf(os.Stderr, "HARNESS: non-deterministic %s\n", cc.nondet)
					os.Exit(3)
				}
				continue
			}
			retries = 0
			if !cc.skip && cc.mine() {
				st.Execs++
			}
			if len(cc.fails) > 0 {
				if failing++; failing > 5000 {
					// enough of what fails in so many ways
					res.TimedOut, stop = true, true
				}
			}
			for _, f := range cc.fails {
				// a few of each, as not every one may fail again
				if seen[f.key] < 4 && len(res.Violations) < 200 {
					seen[f.key]++
					res.Violations = append(res.Violations, Violation{c.ID, tier, u.Name, cc.path, f.key, f.msg, ""})
					save() // should the process be ended
				}
			}
			path = next(cc.path, cc.ns)
			if path == nil {
				return
			}
			iter++
			if gcEvery > 0 && iter%16 == 0 {
				gcIfLarge()
			}
			if iter%64 == 0 && time.Now().After(deadline) {
				res.TimedOut = true
				stop = true
			}
		}
	}
	if resume != "" {
		var r struct {
			Unit int
			Path []int
		}
		if err := json.Unmarshal([]byte(resume), &r); err == nil {
			exploreUnit(r.Unit, r.Path)
			res.Units++
		}
	}
	for !stop {
		ui := sh.nextUnit()
		if ui >= len(units) {
			break
		}
		if time.Now().After(deadline) {
			res.TimedOut = true
			break
		}
		exploreUnit(ui, nil)
		res.Units++
	}
	save()
}

// gcIfLarge collects garbage between executions.
func gcIfLarge() {
	sm := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(sm)
	if sm[0].Value.Uint64() > 400<<20 {
		runtime.GC()
	}
}

// knownFinding is one line of known_findings.jsonl.
type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(verif, id string) map[string]knownFinding {
	m := map[string]knownFinding{}
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		var k knownFinding
		if json.Unmarshal([]byte(l), &k) == nil && k.Property == id && k.Status == "known" {
			m[k.Key] = k
		}
	}
	return m
}

func runParent(c *Check, tier, verif, only string) int {
	start := time.Now()
	budget := c.QuickBudget
	if budget == 0 {
		budget = 150 * time.Second
	}
	if tier == "thorough" {
		budget = c.ThoroughBudget
		if budget == 0 {
			budget = 40 * time.Minute
		}
	}
	hang := c.HangAfter
	if hang == 0 {
		hang = 60 * time.Second
	}
	tmp, err := os.MkdirTemp("", "vk")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	raceLog = " log_path=" + filepath.Join(tmp, "race")
	units := selectUnits(c, tier, only)
	if old, _ := filepath.Glob(filepath.Join(verif, "replays", c.ID+"-*.json")); only == "" {
		for _, f := range old {
			os.Remove(f)
		}
	}
	n := runtime.NumCPU()
	if n > len(units) {
		n = len(units)
	}
	if n < 1 {
		n = 1
	}
	sh, err := openShared(filepath.Join(tmp, "shared"), n)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	deadline := start.Add(budget)
	type done struct {
		res   []workerResult
		viol  []Violation
		crash int
		err   string
	}
	ch := make(chan done, n)
	exe, _ := os.Executable()
	for w := 0; w < n; w++ {
		go func(w int) {
			var d done
			resume := ""
			for try := 0; ; try++ {
				out := filepath.Join(tmp, fmt.Sprintf("w%d-%d.json", w, try))
				args := []string{"-prop", c.ID, "-tier", tier, "-worker", strconv.Itoa(w), "-workers", strconv.Itoa(n), "-shared", filepath.Join(tmp, "shared"), "-out", out, "-deadline", strconv.FormatInt(deadline.UnixNano(), 10), "-only", only}
				if resume != "" {
					args = append(args, "-resume", resume)
				}
				status, stderr := runProc(exe, args, sh.slot(w), hang)
				if b, err := os.ReadFile(out); err == nil {
					var r workerResult
					if json.Unmarshal(b, &r) == nil {
						d.res = append(d.res, r)
					}
				}
				if status == "ok" {
					break
				}
				if status == "exit status 3" {
					d.err = stderr
					break
				}
				if strings.Contains(status, "signal: killed") {
					// ended from outside (memory): no verdict from this worker
					d.crash++
					break
				}
				d.crash++
				ui, path, ns := sh.slot(w).current()
				key, msg := crashKey(status, stderr)
				if ui < len(units) {
					d.viol = append(d.viol, Violation{c.ID, tier, units[ui].Name, path, key, msg, ""})
				}
				nx := next(path, ns)
				if d.crash > 25 {
					break
				}
				resume = ""
				if nx != nil {
					b, _ := json.Marshal(map[string]any{"Unit": ui, "Path": nx})
					resume = string(b)
				}
			}
			ch <- d
		}(w)
	}
	tot := newStats()
	var distinct, states int64
	exhaustive := true
	var viols []Violation
	unitsDone := 0
	harnessErr := ""
	for i := 0; i < n; i++ {
		d := <-ch
		if d.err != "" {
			harnessErr = d.err
		}
		if d.crash > 0 {
			exhaustive = false
		}
		viols = append(viols, d.viol...)
		for _, r := range d.res {
			tot.Execs += r.Stats.Execs
			tot.Trans += r.Stats.Trans
			tot.Traces += r.Stats.Traces
			for k, v := range r.Stats.Counters {
				tot.Counters[k] += v
			}
			if len(tot.Samples) < 6 {
				tot.Samples = append(tot.Samples, r.Stats.Samples...)
			}
			if len(tot.Cases) < 6 {
				tot.Cases = append(tot.Cases, r.Stats.Cases...)
			}
			distinct += r.Distinct
			states += r.States
			unitsDone += r.Units
			viols = append(viols, r.Violations...)
			if r.TimedOut {
				exhaustive = false
			}
		}
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, harnessErr)
		return 2
	}
	if unitsDone < len(units) {
		exhaustive = false
	}
	// one violation per key, stable order
	sort.Slice(viols, func(i, j int) bool {
		if viols[i].Key != viols[j].Key {
			return viols[i].Key < viols[j].Key
		}
		return len(viols[i].Choices) < len(viols[j].Choices)
	})
	known := loadKnown(verif, c.ID)
	reported := 0
	tries := map[string]int{} // that did not reproduce; -1 once one did
	confirmed := 0
	unconfirmed := 0
	for _, v := range viols {
		if n := tries[v.Key]; n < 0 || n >= 12 {
			continue
		}
		if k, ok := known[v.Key]; ok {
			tries[v.Key] = -1
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", c.ID, k.What, v.Key)
			continue
		}
		if confirmed >= 10 {
			tries[v.Key] = -1
			fmt.Printf("also: %s in unit %q: %s\n", v.Key, v.Unit, firstLine(v.Message))
			continue
		}
		f := filepath.Join(tmp, "case.json")
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(f, b, 0o600)
		msg, ok := confirm(exe, f, hang)
		if !ok {
			unconfirmed++
			tries[v.Key]++
			fmt.Printf("note: %s unit %q choices %v did not reproduce (%s)\n", c.ID, v.Unit, v.Choices, firstLine(v.Message))
			continue
		}
		tries[v.Key] = -1
		v.Trace = msg
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		name := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, confirmed))
		b, _ = json.MarshalIndent(v, "", " ")
		os.WriteFile(name, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, name)
		fmt.Printf("  unit: %s\n  key: %s\n  %s\n", v.Unit, v.Key, strings.ReplaceAll(clip(v.Message, 700), "\n", "\n  "))
		confirmed++
		reported++
	}
	cov := map[string]any{
		"evaluations":                   tot.Execs,
		"distinct_nontrivial":           distinct,
		"rule":                          c.Rule,
		"units":                         len(units),
		"units_completed":               unitsDone,
		"states":                        states,
		"transitions":                   tot.Trans,
		"traces_validated_against_impl": tot.Traces,
		"samples":                       tot.Samples,
		"exhaustive":                    exhaustive,
		"unreproduced":                  unconfirmed,
	}
	for k, v := range c.Bounds {
		cov["bound_"+k] = v
	}
	for k, v := range tot.Counters {
		cov["count_"+k] = v
	}
	if tot.Samples == nil {
		cov["samples"] = append([]string{}, tot.Cases...)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": cov, "assumptions": c.Assumptions,
		"wall_s": time.Since(start).Seconds(), "violations": reported,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if only == "" {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(verif, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("%s %s: %d executions, %d states, %d transitions, %d distinct non-trivial, units %d/%d, exhaustive=%v, violations=%d, %.1fs\n",
		c.ID, tier, tot.Execs, states, tot.Trans, distinct, unitsDone, len(units), exhaustive, reported, time.Since(start).Seconds())
	if reported > 0 {
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// runProc runs a worker and watches its heartbeat.
// raceLog is the option that makes the workers' race detector write to files.
var raceLog string

func runProc(exe string, args []string, sl *slot, hang time.Duration) (status, stderr string) {
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GORACE=exitcode=0 atexit_sleep_ms=0"+raceLog)
	var eb bytes.Buffer
	w := &limitWriter{b: &eb, n: 1 << 20}
	cmd.Stderr, cmd.Stdout = w, w
	if err := cmd.Start(); err != nil {
		return "exit status 3", err.Error()
	}
	fin := make(chan error, 1)
	go func() { fin <- cmd.Wait() }()
	last := sl.beat()
	lastT := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-fin:
			if err == nil {
				return "ok", eb.String()
			}
			return err.Error(), eb.String()
		case <-tick.C:
			if b := sl.beat(); b != last {
				last, lastT = b, time.Now()
			} else if time.Since(lastT) > hang {
				cmd.Process.Kill()
				<-fin
				return "hang", eb.String()
			}
		}
	}
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p)
	}
	return len(p), nil
}

// crashKey names a crash of the worker process by where it happened.
func crashKey(status, stderr string) (key, msg string) {
	if status == "hang" {
		return "hang", "the execution never finished"
	}
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); i < 0 || (j >= 0 && j < i) {
		if j >= 0 {
			i = j
		}
	}
	if i >= 0 {
		stderr = stderr[i:]
	}
	site := ""
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, repoPkg) {
			site = panicSite("panic(\n" + l)
			break
		}
	}
	if strings.HasPrefix(stderr, "fatal error: all goroutines are asleep") || strings.Contains(firstLine(stderr), "deadlock") {
		site = "deadlock" + site
	}
	return "crash:" + site, "the process ended (" + status + "): " + clip(stderr, 4000)
}

// confirm replays a case in fresh processes and tells whether it fails again.
func confirm(exe, file string, hang time.Duration) (string, bool) {
	for i := 0; i < 3; i++ {
		cmd := exec.Command(exe, "-one", file)
		cmd.Env = append(os.Environ(), "GODEBUG=asyncpreemptoff=1", "GORACE=exitcode=0 atexit_sleep_ms=0")
		var b bytes.Buffer
		w := &limitWriter{b: &b, n: 1 << 20}
		cmd.Stdout, cmd.Stderr = w, w
		if err := cmd.Start(); err != nil {
			continue
		}
		fin := make(chan error, 1)
		go func() { fin <- cmd.Wait() }()
		var err error
		select {
		case err = <-fin:
		case <-time.After(hang):
			cmd.Process.Kill()
			<-fin
			return b.String(), true
		}
		if err != nil && err.Error() != "exit status 3" && !strings.Contains(err.Error(), "signal: killed") {
			return clip(b.String(), 20000), true
		}
	}
	return "", false
}

func runOne(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	c := registry[v.Property]
	if c == nil {
		return 3
	}
	setProcs(c)
	for _, u := range c.Units(v.Tier) {
		if u.Name != v.Unit {
			continue
		}
		var cc *C
		for i := 0; ; i++ {
			cc = &C{unit: u.Name, prefix: v.Choices, st: newStats(), Tier: v.Tier, Verbose: true}
			cc.run(u.Run)
			// the race detector forgets accesses at random
			if len(cc.fails) > 0 || v.Key != "race" || i >= 30 {
				break
			}
		}
		for _, l := range cc.log {
			fmt.Println(l)
		}
		for _, f := range cc.fails {
			fmt.Printf("FAILED [%s] %s\n", f.key, f.msg)
		}
		if len(cc.fails) > 0 {
			return 1
		}
		return 0
	}
	return 3
}

func runReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	exe, _ := os.Executable()
	msg, ok := confirm(exe, file, 60*time.Second)
	fmt.Println(msg)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		return 1
	}
	return 0
}
