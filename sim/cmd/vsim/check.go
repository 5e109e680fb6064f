package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifsim/rt"
	"verifsim/world"
)

type tried struct {
	Hash     string
	Fail     *world.Fail
	Sig      string
	Note     []string
	Switches []rt.Switch
	OK       bool
	Report   string
}

type checker struct {
	prop    *world.Prop
	tier    string
	seed    uint64
	budget  time.Duration
	dir     string // scratch
	outDir  string
	self    string
	start   time.Time
	workers int

	mu     sync.Mutex
	next   uint64
	sum    world.Stats
	runs   int
	hashes map[string]bool
	inter  map[string]bool
	capped bool
	blocks int
	sample []json.RawMessage
	found  *finding
	broken string
	rate   float64
}

type finding struct {
	seed   uint64
	first  uint64 // of the worker's block
	fail   *world.Fail
	sig    string
	report string
	hang   bool
}

const hangAfter = 45 * time.Second

func (c *checker) env(log string) []string {
	var env []string
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GORACE=") && !strings.HasPrefix(e, "GOMAXPROCS=") && !strings.HasPrefix(e, "GOTRACEBACK=") {
			env = append(env, e)
		}
	}
	env = append(env, "GOMAXPROCS=1", "GOTRACEBACK=single", "GOGC=400")
	if raceBuild {
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 history_size=2 log_path="+log)
	}
	return env
}

// sub runs this program in a fresh process.
func (c *checker) sub(limit time.Duration, log string, args ...string) (out []byte, errText string, died, hung bool) {
	cmd := exec.Command(c.self, args...)
	cmd.Env = c.env(log)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{b: &se}
	if err := cmd.Start(); err != nil {
		return nil, err.Error(), true, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		return so.Bytes(), se.String(), err != nil, false
	case <-time.After(limit):
		cmd.Process.Kill()
		<-done
		return nil, se.String(), true, true
	}
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

func raceLog(log string) string {
	fs, _ := filepath.Glob(log + ".*")
	out := ""
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		out += string(b)
		os.Remove(f)
	}
	if len(out) > 20000 {
		out = out[:20000]
	}
	return out
}

func (c *checker) worker(id int) {
	prog := filepath.Join(c.dir, fmt.Sprintf("progress.%d", id))
	log := filepath.Join(c.dir, fmt.Sprintf("race.%d", id))
	n := 20
	for {
		c.mu.Lock()
		left := c.budget - time.Since(c.start)
		if left <= 0 || c.found != nil || c.broken != "" {
			c.mu.Unlock()
			return
		}
		from := c.next
		c.next += uint64(n)
		c.mu.Unlock()
		os.Remove(prog)
		t0 := time.Now()
		secs := left.Seconds()
		if secs > 8 {
			secs = 8
		}
		out, errText, died, hung := c.block(from, n, secs, prog, log)
		if died {
			c.dead(from, prog, errText, hung)
			return
		}
		b := &Block{}
		if err := json.Unmarshal(out, b); err != nil {
			c.fail("worker: " + err.Error())
			return
		}
		el := time.Since(t0).Seconds()
		c.add(b)
		if b.Fail != nil {
			rep := ""
			if raceBuild {
				rep = raceLog(log)
			}
			c.report(&finding{seed: b.Seed, first: b.First, fail: b.Fail, sig: b.Sig, report: rep})
			return
		}
		if raceBuild {
			raceLog(log)
		}
		per := el / float64(b.Done+1)
		n = int(4 / per)
		if n < 10 {
			n = 10
		}
		if n > 20000 {
			n = 20000
		}
	}
}

func (c *checker) block(from uint64, n int, secs float64, prog, log string) (out []byte, errText string, died, hung bool) {
	cmd := exec.Command(c.self, "work", "-prop", c.prop.ID, "-from", strconv.FormatUint(from, 10), "-n", strconv.Itoa(n), "-progress", prog, "-secs", fmt.Sprintf("%.1f", secs))
	cmd.Env = c.env(log)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &limited{b: &se}
	if err := cmd.Start(); err != nil {
		return nil, err.Error(), true, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, since := "", time.Now()
	for {
		select {
		case err := <-done:
			return so.Bytes(), se.String(), err != nil, false
		case <-time.After(500 * time.Millisecond):
			b, _ := os.ReadFile(prog)
			if s := string(b); s != last {
				last, since = s, time.Now()
			}
			if time.Since(since) > hangAfter {
				cmd.Process.Kill()
				<-done
				return nil, se.String(), true, true
			}
		}
	}
}

func (c *checker) fail(msg string) {
	c.mu.Lock()
	if c.broken == "" {
		c.broken = msg
	}
	c.mu.Unlock()
}

func (c *checker) report(f *finding) {
	c.mu.Lock()
	if c.found == nil {
		c.found = f
	}
	c.mu.Unlock()
}

// dead deals with a worker that has ended by itself or didn't go on.
func (c *checker) dead(from uint64, prog, errText string, hung bool) {
	b, _ := os.ReadFile(prog)
	first, _, _ := strings.Cut(string(b), " ")
	seed, err := strconv.ParseUint(first, 10, 64)
	if err != nil {
		c.fail("worker has died: " + errText)
		return
	}
	f := &finding{seed: seed, first: from, report: errText, hang: hung}
	if hung {
		f.fail = &world.Fail{Class: "hang", Msg: fmt.Sprintf("the run doesn't come to an end within %v", hangAfter)}
	} else if crashOfLibrary(errText) {
		f.fail = &world.Fail{Class: "crash", Msg: "the process dies: " + firstLine(errText)}
	} else {
		c.fail("worker has died: " + errText)
		return
	}
	f.sig = f.fail.Class
	c.report(f)
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return ""
}

// crashOfLibrary tells whether the Go runtime has ended the process while the
// library was running.
func crashOfLibrary(s string) bool {
	return (strings.Contains(s, "stack exceeds") || strings.Contains(s, "fatal error:")) && strings.Contains(s, "/nanomux.")
}

func (c *checker) add(b *Block) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.blocks++
	c.runs += b.Done
	s := &c.sum
	s.Reqs += b.Sum.Reqs
	s.Repeats += b.Sum.Repeats
	s.Steps += b.Sum.Steps
	s.Switches += b.Sum.Switches
	s.SimTime += b.Sum.SimTime
	s.PoolGets += b.Sum.PoolGets
	s.PoolReuse += b.Sum.PoolReuse
	s.PoolEvict += b.Sum.PoolEvict
	s.Replays += b.Sum.Replays
	for k, v := range b.Sum.Counts {
		s.Counts[k] += v
	}
	for k, v := range b.Sum.APIs {
		s.APIs[k] += v
	}
	const cap = 4000000
	for _, h := range b.Hashes {
		if len(c.hashes) < cap {
			c.hashes[h] = true
		} else {
			c.capped = true
		}
	}
	for _, h := range b.Inter {
		if len(c.inter) < cap {
			c.inter[h] = true
		} else {
			c.capped = true
		}
	}
	if b.Sample != nil && len(c.sample) < 3 {
		j, _ := json.Marshal(map[string]interface{}{
			"seed":     b.Sample.Seed,
			"requests": b.SampleOf.Reqs,
			"switches": b.SampleOf.Switches,
			"counts":   b.SampleOf.Counts,
			"scenario": strings.Split(strings.TrimSpace(b.Sample.String()), "\n"),
		})
		if len(j) < 20000 {
			c.sample = append(c.sample, j)
		}
	}
}

func check() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	secs := flag.Float64("secs", 20, "seconds of exploration")
	out := flag.String("out", "", "directory for replay files")
	evid := flag.String("evidence", "", "")
	mode := flag.String("mode", "instrumented", "")
	points := flag.Int("points", 0, "")
	workers := flag.Int("workers", 8, "")
	flag.Parse()
	p := world.Props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	dir, err := os.MkdirTemp("", "vsim-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	code := 2
	defer func() {
		if v := recover(); v != nil {
			fmt.Fprintf(os.Stderr, "check is broken: %v\n%s", v, debug.Stack())
		}
		os.RemoveAll(dir)
		os.Exit(code)
	}()
	self, _ := os.Executable()
	c := &checker{prop: p, tier: *tier, seed: *seed, budget: time.Duration(*secs * float64(time.Second)), dir: dir, outDir: *out,
		self: self, start: time.Now(), workers: *workers, hashes: map[string]bool{}, inter: map[string]bool{}}
	c.sum.Counts, c.sum.APIs = map[string]int{}, map[string]int{}
	base := *seed << 32
	c.next = base

	known, kerr := c.probes()
	if kerr != "" {
		fmt.Fprintln(os.Stderr, kerr)
		return
	}
	determ := c.determinism(base)

	c.start = time.Now()
	var wg sync.WaitGroup
	for i := 0; i < c.workers; i++ {
		i := i
		wg.Add(1)
		go func() { defer wg.Done(); c.worker(i) }()
	}
	wg.Wait()
	wall := time.Since(c.start)

	if c.broken != "" && c.found == nil {
		fmt.Fprintln(os.Stderr, "check is broken:", c.broken)
		return
	}
	viol := 0
	replayFile := ""
	if c.found != nil {
		viol = 1
		replayFile = c.conclude()
		if replayFile == "" {
			viol = 0
		}
	}
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k)
	}
	c.evidence(*evid, *mode, *points, wall, determ, known, viol)
	fmt.Printf("%s: %d runs, %d requests, %d distinct interesting executions, %d interleavings, %.1f s\n", p.ID, c.runs, c.sum.Reqs, len(c.hashes), len(c.inter), wall.Seconds())
	if c.found != nil && replayFile == "" {
		fmt.Fprintln(os.Stderr, "check is broken:", c.broken)
		return
	}
	if viol > 0 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replayFile)
		code = 1
		return
	}
	code = 0
}

// determinism runs the same seeds in two processes.
func (c *checker) determinism(base uint64) string {
	n := "12"
	var d [2]string
	for i := range d {
		out, _, died, _ := c.sub(hangAfter, filepath.Join(c.dir, "race.d"), "work", "-prop", c.prop.ID, "-from", strconv.FormatUint(base, 10), "-n", n)
		raceLog(filepath.Join(c.dir, "race.d"))
		b := &Block{}
		if died || json.Unmarshal(out, b) != nil {
			return "not decided: a worker has died"
		}
		d[i] = b.Digest
	}
	if d[0] != d[1] {
		return "MISMATCH: two processes behaved differently for the same seeds"
	}
	return "the same " + n + " seeds gave the same schedules and behaviours in two processes"
}

// try executes a scenario in a fresh process.
func (c *checker) try(s *world.Scenario, before []uint64) *tried {
	f := filepath.Join(c.dir, "try.json")
	j, _ := json.Marshal(&Replay{Property: c.prop.ID, Scenario: s, Before: before})
	os.WriteFile(f, j, 0o644)
	log := filepath.Join(c.dir, "race.try")
	out, errText, died, hung := c.sub(hangAfter+time.Duration(len(before))*200*time.Millisecond, log, "try", f)
	rep := raceLog(log)
	if died {
		t := &tried{Report: errText}
		switch {
		case hung:
			t.Fail, t.Sig = &world.Fail{Class: "hang", Msg: "the run doesn't come to an end"}, "hang"
		case crashOfLibrary(errText):
			t.Fail, t.Sig = &world.Fail{Class: "crash", Msg: "the process dies: " + firstLine(errText)}, "crash"
		default:
			t.Sig = "?"
		}
		return t
	}
	t := &tried{}
	json.Unmarshal(out, t)
	t.Report = rep
	return t
}

// conclude minimises what was found and writes the replay file.
func (c *checker) conclude() string {
	f := c.found
	fmt.Printf("seed %d: %s\n", f.seed, f.fail)
	if f.fail.Class == "race" && f.report != "" && !strings.Contains(f.report, "shohruhadham/nanomux.") {
		c.broken = "a data race that doesn't involve nanomux:\n" + short(f.report, 4000)
		return ""
	}
	orig := c.prop.Gen(f.seed)
	r := &Replay{Property: c.prop.ID, Seed: f.seed, Scenario: orig, Class: f.fail.Class, Sig: f.sig, Violation: f.fail.String(), Report: f.report}
	t := c.try(orig, nil)
	last := t
	if t.Sig != f.sig {
		// It may need what was run before in the same process.
		for k := uint64(1); ; k *= 4 {
			var before []uint64
			first := f.first
			if f.seed-first > k {
				first = f.seed - k
			}
			for s := first; s < f.seed; s++ {
				before = append(before, s)
			}
			if len(before) == 0 {
				break
			}
			if u := c.try(orig, before); u.Sig == f.sig {
				r.Before, r.Verified = before, true
				last = u
				break
			}
			if first == f.first {
				break
			}
		}
		if !r.Verified && f.hang {
			c.broken = "a worker didn't go on, but the run ends when repeated"
			return ""
		}
	} else {
		r.Verified = true
		limit := 45 * time.Second
		if c.tier == "thorough" {
			limit = 150 * time.Second
		}
		end := time.Now().Add(limit)
		stop := func() bool { return time.Now().After(end) }
		inProcess := !raceBuild && f.fail.Class != "crash" && f.fail.Class != "hang"
		try := func(s *world.Scenario) (again bool) {
			// A reduced scenario may make no sense.
			defer func() {
				if recover() != nil {
					again = false
				}
			}()
			if inProcess {
				x := run(c.prop, s)
				return x.Fail.Sig() == f.sig
			}
			return c.try(s, nil).Sig == f.sig
		}
		if f.hang {
			stop = func() bool { return true }
		}
		small := world.Shrink(orig, try, stop)
		// The schedule, explicitly.
		u := c.try(small, nil)
		if u.Sig != f.sig {
			small, u = orig, t
		}
		last = u
		if u.OK && small.Kern.Strat != rt.StratExplicit && !f.hang {
			ex := small.Clone()
			ex.Kern.Strat = rt.StratExplicit
			ex.Kern.Explicit = u.Switches
			if v := c.try(ex, nil); v.Sig == f.sig {
				ex = world.ShrinkSwitches(ex, try, stop)
				if v := c.try(ex, nil); v.Sig == f.sig {
					small, last = ex, v
				}
			}
		}
		if small != orig {
			r.Minimised = true
			r.Scenario = small
			r.Original = orig
		}
		// Exactly repeatable?
		if v := c.try(small, nil); v.Sig != f.sig || v.Hash != last.Hash {
			r.Verified = false
		}
	}
	if last.Fail != nil {
		r.Violation = last.Fail.String()
	}
	if last.Report != "" {
		r.Report = last.Report
	}
	r.Trace = strings.Split(strings.TrimSpace(r.Scenario.String()), "\n")
	for _, n := range last.Note {
		r.Trace = append(r.Trace, strings.Split(strings.TrimSpace(n), "\n")...)
	}
	os.MkdirAll(c.outDir, 0o755)
	name := filepath.Join(c.outDir, fmt.Sprintf("%s-%d.json", c.prop.ID, f.seed))
	j, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(name, append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	fmt.Println(short(r.Violation, 2000))
	fmt.Println(short(r.Scenario.String(), 6000))
	for _, n := range last.Note {
		fmt.Println(short(n, 4000))
	}
	if r.Report != "" {
		fmt.Println(short(r.Report, 8000))
	}
	return name
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}

func (c *checker) evidence(name, mode string, points int, wall time.Duration, determ string, known []string, viol int) {
	if name == "" {
		return
	}
	h := wall.Hours()
	faults := map[string]int{}
	other := map[string]int{}
	for k, v := range c.sum.Counts {
		if strings.HasPrefix(k, "fault: ") || strings.HasPrefix(k, "behaviour: ") {
			faults[strings.TrimPrefix(strings.TrimPrefix(k, "fault: "), "behaviour: ")] += v
		} else {
			other[k] = v
		}
	}
	var apis []string
	for k := range c.sum.APIs {
		apis = append(apis, k)
	}
	sort.Strings(apis)
	real := []string{"nanomux: all of its non-test code, " + mode, "net/http, net/url, regexp, context, strings (Go standard library)"}
	stub := []string{"goroutines, scheduling, sync, channels, time, math/rand and map order as used by nanomux: the simulator's",
		"network connections and http.Server: requests are parsed by net/http and served in the simulator with a recording ResponseWriter",
		"clients, handlers, middlewares, implementations and redirect handlers: scripted by the scenario"}
	if raceBuild {
		stub = append(stub, "sync.Pool of the standard library: without the happens-before edges it adds under the race detector")
	}
	cov := map[string]interface{}{
		"evaluations":                     c.runs,
		"distinct_nontrivial":             len(c.hashes),
		"rule":                            "every seed generates a tree, how it's built, its settings, requests, the behaviour of every handler and middleware, faults and a schedule; a run is non-trivial if " + c.prop.Rule + "; runs are distinct if interleaving or observed behaviour (handlers and middlewares run, statuses) differ",
		"samples":                         c.sample,
		"requests":                        c.sum.Reqs,
		"requests_repeated":               c.sum.Repeats,
		"executions_for_comparison":       c.sum.Replays,
		"runs_per_hour":                   int(float64(c.runs) / h),
		"seeds_per_hour":                  int(float64(c.runs) / h),
		"first_seed":                      c.seed << 32,
		"simulated_time_ns":               c.sum.SimTime,
		"scheduling_points_passed":        c.sum.Steps,
		"scheduling_points_in_source":     points,
		"context_switches":                c.sum.Switches,
		"distinct_interleavings":          len(c.inter),
		"interleaving_measure":            "hash of the sequence (task switched to, statement switched at) of a run",
		"pool_gets_reuses_evictions":      []int64{c.sum.PoolGets, c.sum.PoolReuse, c.sum.PoolEvict},
		"injected_faults_and_behaviours":  faults,
		"other_counts":                    other,
		"library_functions_called":        c.sum.APIs,
		"library_functions_called_number": len(apis),
		"real_components":                 real,
		"stub_components":                 stub,
		"determinism_self_test":           determ,
		"hash_sets_capped":                c.capped,
	}
	if len(known) > 0 {
		cov["known_findings"] = known
	}
	if len(c.sample) == 0 {
		cov["samples"] = []string{}
	}
	ev := map[string]interface{}{
		"property": c.prop.ID,
		"tier":     c.tier,
		"seed":     c.seed,
		"level":    "exploration",
		"coverage": cov,
		"assumptions": []string{
			"statements are the unit of interleaving; memory is sequentially consistent (data races are C02's subject)",
			"handlers and middlewares follow nanomux' documentation (no use of arguments after their return)",
			"the generated trees, settings and requests are representative; see DESIGN.md for what is left out",
		},
		"wall_s":     wall.Seconds(),
		"violations": viol,
	}
	j, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(name), 0o755)
	if err := os.WriteFile(name, append(j, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// probes tells which of the known findings of the property are still there.
func (c *checker) probes() (known []string, err string) {
	any := false
	for _, p := range world.Probes {
		any = any || p.Prop == c.prop.ID
	}
	if !any {
		return nil, ""
	}
	out, errText, died, _ := c.sub(hangAfter, "", "probe", "-prop", c.prop.ID)
	if died {
		// Whatever it is, the search comes across it as well.
		fmt.Fprintln(os.Stderr, "the probe of the known findings dies:", firstLine(errText))
		return nil, ""
	}
	if e := json.Unmarshal(out, &known); e != nil {
		return nil, "the probe of the known findings: " + e.Error()
	}
	return known, ""
}
