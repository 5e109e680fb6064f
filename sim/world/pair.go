package world

import "verifsim/rt"

// task is a part of what happens to a tree: some configuration or some serving.
// Its functions run concurrently with those of the other tree's.
type task struct {
	fns  []func()
	then func() // afterwards
}

// configTask returns the configuration of the phase.
func (x *Exec) configTask(pi int, ph *Phase) task {
	return task{
		fns: []func(){func() {
			if x.Fail = x.steps(pi, ph); x.Fail == nil && x.Accepted == "" {
				x.Fail = x.complete(pi)
			}
		}},
	}
}

// serveTask returns the serving of the phase's requests.
func (x *Exec) serveTask(ph *Phase) task {
	var want [][]*Rec
	for _, c := range ph.Conns {
		var rs []*Rec
		for _, q := range c.Reqs {
			rs = append(rs, x.L.m.Serve(q))
		}
		want = append(want, rs)
	}
	got, fns := x.L.connTasks(ph.Conns)
	x.Got, x.Want = append(x.Got, got), append(x.Want, want)
	x.L.serving = true
	return task{fns: fns, then: func() {
		x.L.serving = false
		if x.Fail == nil {
			x.Fail = x.applied(append(append([][]*Rec(nil), got...), x.L.extra...))
		}
		if x.Fail == nil {
			x.repeated(want)
			x.compare(got, want)
		}
	}}
}

// tasks counts the tasks of the scenario's phases.
func (s *Scenario) tasks() int { return 2 * len(s.Phases) }

// task returns the nth task, a phase has two.
func (x *Exec) task(n int) task {
	if n < 0 || n >= x.S.tasks() {
		return task{}
	}
	ph := x.S.Phases[n/2]
	if n%2 == 0 {
		return x.configTask(n/2, ph)
	}
	return x.serveTask(ph)
}

// ExecutePair runs the scenario and its other one, of another tree, in the same
// process: while one tree is built or serves, so does the other. Each of them
// has to be as if it were alone.
func ExecutePair(s *Scenario) *Exec {
	if s.Other == nil {
		return Execute(s, ExecOpt{Dump: true})
	}
	x, y := &Exec{S: s, St: &Stats{}, Opt: ExecOpt{Dump: true}}, &Exec{S: s.Other, St: &Stats{}, Opt: ExecOpt{Dump: true}}
	rt.ResetGlobals()
	ResetLibrary()
	rt.K.Reset(s.Kern)
	x.L, y.L = NewLib(s.Build, s.Style), NewLib(s.Other.Build, s.Other.Style)
	x.L.other, x.L.m.other = y.L, y.L.m
	both := false
	merge := func() bool {
		if x.Fail == nil && y.Fail != nil {
			x.Fail = failf(y.Fail.Class, "in the other tree: %s", y.Fail.Msg)
			x.Note = append(x.Note, y.Note...)
		}
		return x.Fail == nil && x.Accepted == "" && y.Accepted == ""
	}
	for n := 0; n < s.tasks() || n-s.Lag < s.Other.tasks(); n++ {
		a, b := x.task(n), y.task(n-s.Lag)
		sw := rt.K.Switches
		rt.K.Run(append(append([]func(){}, a.fns...), b.fns...)...)
		if x.kernel() {
			break
		}
		both = both || len(a.fns) > 0 && len(b.fns) > 0 && rt.K.Switches > sw+int64(len(a.fns)+len(b.fns))
		if !merge() {
			break
		}
		for _, t := range []task{a, b} {
			if t.then != nil {
				t.then()
			}
		}
		if !merge() {
			break
		}
	}
	if x.Fail == nil && x.Accepted == "" && y.Accepted == "" {
		// Both are as they were left.
		if x.sim(func() *Fail { return x.L.checkSettings() }) {
			y.sim(func() *Fail { return y.L.checkSettings() })
			merge()
		}
	}
	x.stats()
	x.St.join(y)
	x.St.Interesting = both
	return x
}

// join adds what was seen in the other execution of the same simulation.
func (st *Stats) join(y *Exec) {
	for _, ph := range y.Got {
		for _, rs := range ph {
			for _, r := range rs {
				st.Reqs++
				y.countRec(r)
			}
		}
	}
	st.Nested += y.St.Nested
	st.Repeats += y.St.Repeats
	st.Behave = st.Behave*1099511628211 ^ y.St.Behave
	for k, n := range y.L.APIs {
		st.APIs[k] += n
	}
	for _, m := range []map[string]int{y.St.Counts, y.L.Merges} {
		for k, n := range m {
			if st.Counts == nil {
				st.Counts = map[string]int{}
			}
			st.Counts[k] += n
		}
	}
}

// pair makes a scenario of two trees.
func pair(seed uint64) *Scenario {
	one := func(seed uint64) *Scenario {
		p := base()
		g := newGen("C19", seed, &p)
		p.Global, p.Nodes, p.Hosts = 0, [2]int{1, 5}, [2]int{0, 2}
		p.Panics, p.Abort, p.Conns, p.Mounts = 2, 1, [2]int{1, 3}, 12
		p.Shared, p.CfgOps, p.Pat, p.Wild, p.Miss, p.Redirect, p.RedAny = 35, 10, 40, 25, 22, 6, 4
		g.vary()
		g.P.Global = 0
		g.Kern()
		g.Tree()
		g.Configure()
		for g.pct(g.P.Bulk) {
			g.BulkOp()
		}
		g.EndPhase(g.Conns())
		if g.R.P(3) {
			g.More()
			cs := g.Conns()
			g.again(cs)
			g.EndPhase(cs)
		}
		return g.S
	}
	r := NewRng(seed, 1919)
	s := one(seed)
	o := seed + 1 + uint64(r.N(1000000))
	if r.P(4) {
		o = seed // the same tree, once more
	}
	other := one(o)
	if r.P(3) {
		// Another configuration of the same hosts and resources.
		other = s.Clone()
		for _, ph := range other.Phases {
			var ops []*Op
			for _, op := range ph.Ops {
				if op.K == OpNode || r.P(2) {
					ops = append(ops, op)
				}
			}
			ph.Ops = ops
		}
	}
	s.Other, other.Build = other, r.U()
	s.Lag = r.N(3)
	if s.Lag == 0 {
		s.crossCalls(r)
	}
	return s
}

// crossCalls lets some handlers of the tree make requests to the other one.
func (s *Scenario) crossCalls(r *Rng) {
	for i, ph := range s.Phases {
		if i >= len(s.Other.Phases) {
			return
		}
		var to []*Req
		for _, c := range s.Other.Phases[i].Conns {
			for _, q := range c.Reqs {
				if q.Mount < 0 {
					to = append(to, q)
				}
			}
		}
		if len(to) == 0 {
			continue
		}
		for _, c := range ph.Conns {
			for j, q := range c.Reqs {
				if len(q.Beh) == 0 || !r.P(4) {
					continue
				}
				sub := *to[r.N(len(to))]
				sub.Gap, sub.Fault, sub.Tree, sub.Inherit = 0, nil, 1, r.P(2)
				nq := *q
				nq.Beh = append([]Beh(nil), q.Beh...)
				b := &nq.Beh[r.N(len(nq.Beh))]
				b.Pre = append(append([]Act(nil), b.Pre...), Act{K: "nest", Sub: &sub})
				c.Reqs[j] = &nq
			}
		}
	}
}

func init() {
	register(&Prop{
		ID:    "C19",
		Rule:  "two trees were configured or served at the same time, with the tasks interleaved",
		Gen:   pair,
		Check: ExecutePair,
	})
}
