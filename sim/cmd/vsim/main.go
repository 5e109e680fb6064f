// Command vsim runs simulations of a router.
//
//	vsim check   decides a property: many runs in worker processes
//	vsim replay  repeats a run from a replay file
//	vsim loop    runs some seeds in this process
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"

	"verifsim/rt"
	"verifsim/world"
)

// Replay is what's needed to repeat a failing execution.
type Replay struct {
	Property  string          `json:"property"`
	Violation string          `json:"violation"`
	Class     string          `json:"class"`
	Sig       string          `json:"sig"`
	Seed      uint64          `json:"seed"`
	Before    []uint64        `json:"seeds_before,omitempty"` // runs needed before in the same process
	Minimised bool            `json:"minimised"`
	Verified  bool            `json:"reproduced_in_fresh_process"`
	Trace     []string        `json:"trace"` // the same for people
	Scenario  *world.Scenario `json:"scenario"`
	Original  *world.Scenario `json:"original,omitempty"`
	Report    string          `json:"report,omitempty"` // of the race detector or the Go runtime
}

func main() {
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check|replay|work|loop ...")
		os.Exit(2)
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	switch cmd {
	case "check":
		check()
	case "replay":
		replay()
	case "work":
		work()
	case "loop":
		loop()
	case "try":
		tryOne()
	case "probe":
		probe()
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// run executes a scenario and looks for data races as well.
func run(p *world.Prop, s *world.Scenario) *world.Exec {
	before := raceErrors()
	x := p.Check(s)
	if n := raceErrors() - before; n > 0 && p.Race {
		x.Fail = &world.Fail{Class: "race", Msg: fmt.Sprintf("%d data races between requests (see report)", n)}
	}
	return x
}

func loop() {
	prop := flag.String("prop", "C01", "")
	from := flag.Uint64("from", 0, "")
	n := flag.Int("n", 1000, "")
	max := flag.Int("max", 3, "")
	v := flag.Bool("v", false, "")
	slow := flag.Duration("slow", 0, "print the runs that take longer")
	prof := flag.String("cpuprofile", "", "")
	flag.Parse()
	if *prof != "" {
		f, err := os.Create(*prof)
		if err == nil && pprof.StartCPUProfile(f) == nil {
			defer pprof.StopCPUProfile()
		}
	}
	p := world.Props[*prop]
	t0 := time.Now()
	fails, reqs, inter := 0, 0, 0
	for i := 0; i < *n; i++ {
		s := p.Gen(*from + uint64(i))
		t1 := time.Now()
		x := run(p, s)
		if d := time.Since(t1); *slow > 0 && d > *slow {
			fmt.Println("SLOW", *from+uint64(i), d, x.St.Reqs, x.St.Repeats, x.St.Steps, x.St.Switches, stratName(s.Kern.Strat))
		}
		reqs += x.St.Reqs
		if x.St.Interesting {
			inter++
		}
		if x.Fail == nil {
			continue
		}
		fails++
		if fails <= *max {
			fmt.Println("SEED", *from+uint64(i), x.Fail)
			if *v {
				fmt.Println(s)
				for _, s := range x.Note {
					fmt.Println(s)
				}
			}
		}
	}
	fmt.Println(*prop, *n, "runs", reqs, "reqs", inter, "interesting", fails, "fails", time.Since(t0))
	if fails > 0 {
		os.Exit(1)
	}
}

func load(name string) *Replay {
	b, err := os.ReadFile(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if world.Props[r.Property] == nil || r.Scenario == nil {
		fmt.Fprintln(os.Stderr, "not a replay file")
		os.Exit(2)
	}
	return r
}

// replay repeats the run of a replay file. It exits with 1 if it fails again.
func replay() {
	v := flag.Bool("v", false, "print what happened")
	flag.Parse()
	r := load(flag.Arg(0))
	p := world.Props[r.Property]
	for _, s := range r.Before {
		run(p, p.Gen(s))
	}
	x := run(p, r.Scenario)
	if *v {
		fmt.Println(r.Scenario)
		for _, s := range x.Note {
			fmt.Println(s)
		}
	}
	fmt.Printf("schedule hash %016x, behaviour hash %016x, %d steps, %d ns simulated\n", x.St.Hash, x.St.Behave, x.St.Steps, x.St.SimTime)
	if x.Fail != nil {
		fmt.Println(x.Fail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, flag.Arg(0))
		os.Exit(1)
	}
	fmt.Println("no violation")
}

// tryOne is replay for machines.
func tryOne() {
	flag.Parse()
	r := load(flag.Arg(0))
	p := world.Props[r.Property]
	for _, s := range r.Before {
		run(p, p.Gen(s))
	}
	x := run(p, r.Scenario)
	out := tried{Hash: fmt.Sprintf("%016x-%016x", x.St.Hash, x.St.Behave), Fail: x.Fail, Sig: x.Fail.Sig(), Note: x.Note, Switches: x.Switches, OK: x.SwitchOK}
	b, _ := json.Marshal(out)
	os.Stdout.Write(b)
}

// probe prints which of the known findings of a property are still there.
func probe() {
	prop := flag.String("prop", "", "")
	flag.Parse()
	known := []string{}
	for _, p := range world.Probes {
		if p.Prop == *prop {
			if s := p.Run(); s != "" {
				known = append(known, p.ID+": "+s)
			}
		}
	}
	b, _ := json.Marshal(known)
	os.Stdout.Write(b)
}

// Block is the result of a worker.
type Block struct {
	Done     int
	Hashes   []string // behaviour and interleaving of interesting runs
	Inter    []string // interleavings
	Digest   string
	Sum      world.Stats
	Sim      int64
	Fail     *world.Fail
	Sig      string
	Seed     uint64
	First    uint64
	Sample   *world.Scenario
	SampleOf *world.Stats
}

func hex(h uint64) string { return strconv.FormatUint(h, 36) }

func work() {
	prop := flag.String("prop", "", "")
	from := flag.Uint64("from", 0, "")
	n := flag.Int("n", 0, "")
	prog := flag.String("progress", "", "")
	secs := flag.Float64("secs", 1e9, "")
	flag.Parse()
	p := world.Props[*prop]
	b := &Block{First: *from}
	var pf *os.File
	if *prog != "" {
		pf, _ = os.Create(*prog)
	}
	if pf != nil {
		// Tells that a run goes on, however long it takes.
		go func() {
			for {
				pf.WriteAt([]byte(fmt.Sprintf(" %-24d", rt.Beat())), 24)
				time.Sleep(500 * time.Millisecond)
			}
		}()
	}
	b.Sum.Counts, b.Sum.APIs = map[string]int{}, map[string]int{}
	seen, seenI := map[uint64]bool{}, map[uint64]bool{}
	dig := uint64(14695981039346656037)
	t0 := time.Now()
	for i := 0; i < *n; i++ {
		seed := *from + uint64(i)
		if pf != nil {
			pf.WriteAt([]byte(fmt.Sprintf("%-24d", seed)), 0)
		}
		s := p.Gen(seed)
		x := run(p, s)
		st := x.St
		b.Done++
		b.Sum.Reqs += st.Reqs
		b.Sum.Repeats += st.Repeats
		b.Sum.Steps += st.Steps
		b.Sum.Switches += st.Switches
		b.Sum.SimTime += st.SimTime
		b.Sum.PoolGets += st.PoolGets
		b.Sum.PoolReuse += st.PoolReuse
		b.Sum.PoolEvict += st.PoolEvict
		b.Sum.Replays += st.Replays
		for k, v := range st.Counts {
			b.Sum.Counts[k] += v
		}
		for k, v := range st.APIs {
			b.Sum.APIs[k] += v
		}
		b.Sum.Counts["schedules: "+stratName(s.Kern.Strat)]++
		dig = (dig ^ st.Hash) * 1099511628211
		dig = (dig ^ st.Behave) * 1099511628211
		if st.Switches > 0 && !seenI[st.Hash] {
			seenI[st.Hash] = true
			b.Inter = append(b.Inter, hex(st.Hash))
		}
		if st.Interesting {
			h := st.Behave*31 ^ st.Hash
			if !seen[h] {
				seen[h] = true
				b.Hashes = append(b.Hashes, hex(h))
			}
			if b.Sample == nil {
				b.Sample, b.SampleOf = s, st
			}
		}
		if x.Fail != nil {
			b.Fail, b.Sig, b.Seed = x.Fail, x.Fail.Sig(), seed
			break
		}
		if time.Since(t0).Seconds() > *secs {
			break
		}
	}
	b.Digest = hex(dig)
	json.NewEncoder(os.Stdout).Encode(b)
}

func stratName(s int) string {
	names := []string{"serial", "random", "pct", "statement subset", "around pools", "explicit"}
	if s >= 0 && s < len(names) {
		return names[s]
	}
	return "?"
}
