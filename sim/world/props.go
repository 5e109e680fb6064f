package world

import (
	"sort"
	"strings"

	"verifsim/rt"
)

// Prop is a property together with what decides it.
type Prop struct {
	ID    string
	Gen   func(seed uint64) *Scenario
	Check func(s *Scenario) *Exec
	Rule  string // what makes a run interesting
	Race  bool   // needs the race detector
}

// Props lists the properties.
var Props = map[string]*Prop{}

func register(p *Prop) { Props[p.ID] = p }

// PropIDs lists the properties in order.
func PropIDs() []string {
	var out []string
	for id := range Props {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

// base is a bit of everything.
func base() Prof {
	return Prof{
		Nodes: [2]int{2, 7}, Hosts: [2]int{0, 2}, Root: 60, Depth: 4,
		Pat: 30, Wild: 15, Names: 15, BigFan: 1, Deep: 2,
		Sub: 20, Sec: 8, Redir: 50, TS: 20, Strict: 8, Len: 10, Unc: 8, CfgOps: 6,
		Handlers: 80, Impl: 8, StdH: 10, ManyM: 3, NotAllowed: 8, Options: 8,
		RoMw: 20, PassMw: 20, HndMw: 20, MethMw: 20, StdMw: 25, ManyMw: 5, Shared: 25,
		Code: 6, RdH: 4, RdMw: 4, Redirect: 4, RedAny: 3, Global: 4, Bulk: 15,
		Conns: [2]int{2, 4}, Reqs: [2]int{1, 3}, Mounts: 8,
		Miss: 18, Slash: 8, Unclean: 5, Esc: 5, BadEsc: 1, BadHost: 4, Port: 6, Abs: 5, TLS: 6, OddMeth: 8, Query: 10,
		Dec: 10, Drop: 8, Panics: 3, Abort: 1, Rec: 4, Sets: 20, Sleeps: 10, Nest: 5, Mark: 8, Veto: 2, Rewr: 2, RdBeh: 3, Stall: 0, Look: 3, Faults: 4, Multi: 8,
		Long: 1,
	}
}

// vary changes the sizes of some scenarios.
func (g *Gen) vary() {
	p, r := g.P, g.R
	np := *p
	g.P = &np
	switch r.N(12) {
	case 0: // small and busy
		np.Nodes, np.Hosts = [2]int{1, 2}, [2]int{0, 1}
		np.Conns = [2]int{3, 8}
		np.Reqs = [2]int{1, 2}
	case 1: // large
		np.Nodes, np.Hosts = [2]int{8, 24}, [2]int{1, 5}
		np.Depth = 7
	case 2: // everything may happen
		np.Dec, np.Drop, np.Panics, np.Abort = 25, 20, 8, 4
		np.Sub = 50
	case 3: // one client
		np.Conns = [2]int{1, 1}
		np.Reqs = [2]int{1, 12}
	case 4:
		np.PassMw, np.MethMw, np.HndMw, np.ManyMw = 60, 50, 50, 20
	}
}

// standard makes a scenario with one phase.
func standard(id string, tweak func(p *Prof, r *Rng)) func(seed uint64) *Scenario {
	return func(seed uint64) *Scenario {
		p := base()
		g := newGen(id, seed, &p)
		if tweak != nil {
			tweak(&p, g.R)
		}
		g.vary()
		g.Kern()
		g.Tree()
		g.Configure()
		for g.pct(g.P.Bulk) {
			g.BulkOp()
		}
		g.EndPhase(g.Conns())
		if id != "C08" && g.R.P(8) {
			// Some go on with another tree or other settings.
			g.More()
			cs := g.Conns()
			if g.R.P(2) {
				g.again(cs)
			}
			g.EndPhase(cs)
		}
		return g.S
	}
}

// count tells how many of the records, nested ones included, satisfy f.
func (x *Exec) count(f func(r *Rec) bool) int {
	n := 0
	var walk func(r *Rec)
	walk = func(r *Rec) {
		if f(r) {
			n++
		}
		for _, s := range r.Subs {
			walk(s)
		}
	}
	for _, ph := range x.Got {
		for _, rs := range ph {
			for _, r := range rs {
				walk(r)
			}
		}
	}
	return n
}

func (x *Exec) each(f func(ph int, r *Rec) *Fail) *Fail {
	for i, ph := range x.Got {
		for _, rs := range ph {
			for _, r := range rs {
				if e := f(i, r); e != nil {
					return e
				}
			}
		}
	}
	return nil
}

func model(s *Scenario, opt ExecOpt, interesting func(x *Exec) bool) *Exec {
	x := Execute(s, opt)
	if x.Fail == nil {
		x.St.Interesting = interesting == nil || interesting(x)
	}
	return x
}

func switched(x *Exec) bool { return x.St.Switches > int64(2*len(x.S.Phases)) }

func hasBeh(r *Rec, ks ...string) bool {
	for _, e := range r.Evs {
		if e.P == 'i' {
			if b := r.Req.beh(e.T); b != nil && has(ks, b.K) {
				return true
			}
		}
	}
	return false
}

// soloCheck compares every request with the same request served alone on a
// fresh tree.
const soloMax = 6

func soloCheck(x *Exec, last bool, steps bool) {
	if x.Fail != nil {
		return
	}
	kern := x.S.Kern
	kern.PoolMode = rt.PoolFresh
	n := 0
	x.each(func(ph int, r *Rec) *Fail {
		if !last || ph == len(x.Got)-1 {
			n++
		}
		return nil
	})
	// Some of many requests are enough: the model has an opinion on all.
	rng := NewRng(x.S.Seed ^ 0x5010)
	x.Fail = x.each(func(ph int, r *Rec) *Fail {
		if last && ph < len(x.Got)-1 {
			return nil
		}
		if n > soloMax && rng.N(n) >= soloMax {
			return nil
		}
		y := x.solo(r.Req, kern)
		if y.Fail != nil {
			return failf("solo", "%s alone: %s", reqStr(r.Req), y.Fail)
		}
		var s *Rec
		for _, p := range y.Got {
			for _, rs := range p {
				for _, o := range rs {
					s = o
				}
			}
		}
		if s == nil {
			return nil
		}
		if d := Diff(r, s, CmpAll, false); d != "" {
			x.Note = append(x.Note, reqStr(r.Req)+"\n  got\n"+r.Dump()+"  alone\n"+s.Dump())
			return failf("isolation", "%s: %s (as if it were the only one)", reqStr(r.Req), d)
		}
		if steps && r.Steps > 4*s.Steps+300 {
			return failf("work", "%s: %d statements, %d when it's the only one", reqStr(r.Req), r.Steps, s.Steps)
		}
		return nil
	})
}

func init() {
	register(&Prop{
		ID:   "C01",
		Rule: "at least two requests of different clients interleave (the scheduler switched between them)",
		Gen: standard("C01", func(p *Prof, r *Rng) {
			p.Conns, p.Reqs = [2]int{2, 5}, [2]int{1, 2}
			p.Sets, p.Nest, p.Faults, p.Pat, p.Wild = 35, 12, 0, 40, 25
		}),
		Check: func(s *Scenario) *Exec {
			x := Execute(s, ExecOpt{})
			x.St.Interesting = switched(x)
			soloCheck(x, false, false)
			return x
		},
	})
	register(&Prop{
		ID:   "C02",
		Race: true,
		Rule: "at least two requests of different clients interleave (the scheduler switched between them)",
		Gen: standard("C02", func(p *Prof, r *Rng) {
			p.Conns, p.Reqs = [2]int{2, 6}, [2]int{1, 2}
			p.StdMw, p.StdH, p.Nest, p.Look = 40, 25, 8, 8
			p.Redirect, p.RedAny, p.RdMw, p.RdH, p.Impl = 10, 8, 10, 10, 15
			p.Unclean, p.Slash = 10, 15
		}),
		Check: func(s *Scenario) *Exec { return model(s, ExecOpt{NoCmp: true}, switched) },
	})
	register(&Prop{
		ID:   "C03",
		Rule: "a handler or middleware declined, dropped, took over or answered a request, or a write failed",
		Gen: standard("C03", func(p *Prof, r *Rng) {
			p.Dec, p.Drop, p.Sub, p.StdMw, p.Faults, p.Multi = 30, 25, 40, 40, 15, 15
			p.PassMw, p.HndMw, p.MethMw, p.RoMw, p.StdH = 35, 30, 30, 35, 20
			p.Miss, p.Panics, p.Rec, p.Global, p.BadEsc = 25, 2, 8, 10, 5
		}),
		Check: func(s *Scenario) *Exec {
			x := model(s, ExecOpt{}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool {
					return r.WFailed || r.Gone || hasBeh(r, "dec", "drop", "swal", "ans", "ovr", "sil")
				}) > 0
			})
			if x.Fail == nil {
				x.Fail = x.each(func(_ int, r *Rec) *Fail { return oneResponse(r) })
			}
			return x
		},
	})
	register(&Prop{
		ID:   "C04",
		Rule: "a request matched a pattern or wildcard, got lost in the tree, or a responder declined it",
		Gen: standard("C04", func(p *Prof, r *Rng) {
			p.Nodes, p.Hosts, p.Pat, p.Wild = [2]int{4, 12}, [2]int{0, 4}, 45, 20
			p.Sub, p.Dec, p.Miss, p.BadHost, p.Esc, p.BadEsc = 30, 25, 35, 8, 15, 4
			p.Redirect, p.RedAny, p.Sec, p.HndMw, p.MethMw, p.Mounts = 1, 1, 3, 8, 5, 12
			p.BigFan, p.Deep, p.Sets, p.Nest = 4, 5, 5, 3
			if r.P(2) {
				p.TS, p.Strict, p.Unclean, p.Slash = 10, 3, 2, 3
			}
		}),
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool {
					for _, e := range r.Evs {
						if e.Obs != nil && len(e.Obs.Vals) > 0 {
							return true
						}
					}
					return hasBeh(r, "dec") || len(r.Stat) == 1 && r.Stat[0] == 404
				}) > 0
			})
		},
	})
	register(&Prop{
		ID:   "C05",
		Rule: "a handler ran inside at least two middlewares, or a middleware kept it from running",
		Gen: standard("C05", func(p *Prof, r *Rng) {
			p.RoMw, p.PassMw, p.HndMw, p.MethMw, p.ManyMw, p.StdMw = 40, 50, 45, 50, 12, 25
			p.Sub, p.Dec, p.Drop, p.Bulk, p.Impl, p.NotAllowed, p.Options = 35, 15, 15, 40, 15, 20, 20
			p.OddMeth, p.Redirect, p.RedAny, p.Sec = 18, 1, 1, 3
		}),
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool { return len(r.Evs) >= 4 || hasBeh(r, "drop", "swal", "ans", "ovr") }) > 0
			})
		},
	})
	register(&Prop{
		ID:   "C06",
		Rule: "a plain or TLS request was meant for a secure responder",
		Gen: standard("C06", func(p *Prof, r *Rng) {
			p.Sec, p.Redir, p.Sub, p.CfgOps, p.Miss, p.TLS = 55, 50, 40, 25, 25, 15
			p.Dec, p.Redirect, p.RedAny, p.Bulk, p.Impl = 15, 8, 4, 25, 12
			p.Unclean, p.Slash, p.TS, p.Len, p.Unc, p.Strict = 8, 15, 25, 20, 15, 8
			p.HndMw, p.Mounts, p.Port, p.Code, p.RdH, p.RdMw = 30, 12, 12, 12, 8, 8
		}),
		Check: func(s *Scenario) *Exec {
			x := model(s, ExecOpt{}, func(x *Exec) bool {
				for _, n := range x.L.m.Order {
					if n.has(fSec) {
						return true
					}
				}
				return false
			})
			if x.Fail == nil {
				x.Fail = x.each(func(ph int, r *Rec) *Fail {
					if ph < len(x.Got)-1 {
						return nil // other settings were in force
					}
					return x.secured(r)
				})
			}
			return x
		},
	})
	register(&Prop{
		ID:   "C07",
		Rule: "a request's slash or path had to be judged: a policy redirect was sent, refused or waived",
		Gen: standard("C07", func(p *Prof, r *Rng) {
			p.TS, p.Strict, p.Len, p.Unc, p.Slash, p.Unclean, p.Sub = 45, 20, 25, 25, 35, 30, 35
			p.Sec, p.Redir, p.CfgOps, p.Miss, p.Code, p.RdH, p.RdMw, p.Global = 15, 70, 15, 12, 15, 12, 12, 10
			p.Esc, p.Query, p.Port, p.Abs, p.Bulk, p.Redirect, p.RedAny = 15, 25, 12, 8, 20, 3, 2
			p.PassMw, p.HndMw, p.MethMw, p.Dec, p.Mounts = 10, 10, 8, 10, 12
		}),
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool {
					return len(r.Loc) > 0 || strings.Contains(r.Req.Path, "//") || strings.HasSuffix(r.Req.Path, "/")
				}) > 0
			})
		},
	})
	register(&Prop{
		ID:   "C09",
		Rule: "a method was dispatched, not allowed, or answered as OPTIONS on a responder with handlers",
		Gen: standard("C09", func(p *Prof, r *Rng) {
			p.Nodes, p.Hosts = [2]int{1, 5}, [2]int{0, 2}
			p.ManyM, p.Handlers, p.Impl, p.NotAllowed, p.Options, p.OddMeth = 45, 90, 30, 20, 20, 35
			p.MethMw, p.HndMw, p.Bulk, p.Miss, p.Slash, p.Unclean, p.Redirect, p.RedAny, p.Sec = 35, 15, 20, 4, 2, 1, 1, 1, 2
			p.Pat, p.Wild, p.Sub, p.Reqs = 15, 10, 15, [2]int{2, 5}
		}),
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{Dump: true}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool { return len(r.Evs) > 0 || len(r.Allow) > 0 }) > 0
			})
		},
	})
	register(&Prop{
		ID:   "C11",
		Rule: "a panic, abort, failed write, undecodable path, dropped request or unmatched host came before other requests",
		Gen: func(seed uint64) *Scenario {
			p := base()
			g := newGen("C11", seed, &p)
			p.Panics, p.Abort, p.Drop, p.BadEsc, p.BadHost, p.Faults, p.Miss, p.Rec, p.Dec = 22, 10, 20, 10, 12, 15, 25, 10, 15
			p.RdMw, p.Nest, p.StdMw, p.StdH, p.Pat, p.Wild, p.Sub, p.Sets = 8, 10, 35, 15, 40, 25, 35, 30
			p.Reqs = [2]int{1, 4}
			if g.R.P(4) {
				p.Conns = [2]int{1, 1}
				p.Reqs = [2]int{2, 8}
			}
			g.vary()
			g.Kern()
			g.Tree()
			g.Configure()
			g.EndPhase(g.Conns())
			q := *g.P
			g.P = &q
			q.Panics, q.Abort, q.Drop, q.BadEsc, q.Faults = 4, 1, 5, 2, 2
			q.Conns = [2]int{1, 3}
			q.Reqs = [2]int{1, 3}
			q.Long = 0
			g.EndPhase(g.Conns())
			return g.S
		},
		Check: func(s *Scenario) *Exec {
			x := Execute(s, ExecOpt{})
			x.St.Interesting = x.count(func(r *Rec) bool {
				return r.Panic != "" || r.WFailed || r.Gone || hasBeh(r, "drop", "abt", "panb", "pana", "pan", "part") ||
					len(r.Stat) == 1 && (r.Stat[0] == 400 || r.Stat[0] == 404)
			}) > 0
			soloCheck(x, true, false)
			return x
		},
	})
	register(&Prop{
		ID:   "C12",
		Rule: "requests were stalled, slow, aborted or numerous while others were served",
		Gen: func(seed uint64) *Scenario {
			p := base()
			g := newGen("C12", seed, &p)
			p.Stall, p.Sleeps, p.Panics, p.Abort, p.Faults = 10, 25, 8, 4, 8
			p.Conns, p.Reqs, p.Long = [2]int{3, 8}, [2]int{1, 3}, 10
			p.Pat, p.Wild, p.Deep, p.BigFan, p.ManyM, p.StdMw = 35, 20, 6, 4, 8, 35
			if g.R.P(3) {
				p.Stall = 30
			}
			if g.R.P(4) {
				p.Redirect, p.RedAny, p.RdH, p.RdMw, p.Slash, p.OddMeth, p.Sec, p.Redir = 25, 15, 12, 12, 20, 20, 15, 70
			}
			if g.R.P(8) {
				p.Nodes = [2]int{20, 60}
			}
			crowd := 0
			switch {
			case g.R.P(2500):
				crowd = 300 + g.R.N(1400)
			case g.R.P(250):
				crowd = 30 + g.R.N(270)
			}
			if len(dictInts) > 0 && g.R.P(60) {
				crowd = g.R.dictCount(100, 1500, 1) + g.R.N(8)
			}
			if crowd > 0 {
				p.Nodes, p.Handlers, p.BigFan, p.Long = [2]int{1, 3}, 90, 0, 0
			}
			g.vary()
			g.Kern()
			g.Tree()
			g.Configure()
			cs := g.Conns()
			if crowd > 0 {
				cs = append(cs, g.crowd(crowd)...)
				for i := len(cs) - 1; i > 0; i-- {
					j := g.R.N(i + 1)
					cs[i], cs[j] = cs[j], cs[i]
				}
			}
			g.EndPhase(cs)
			return g.S
		},
		Check: func(s *Scenario) *Exec {
			x := Execute(s, ExecOpt{})
			x.St.Interesting = switched(x)
			soloCheck(x, false, true)
			return x
		},
	})
	register(&Prop{
		ID:   "C13",
		Rule: "a converted handler or middleware ran",
		Gen: standard("C13", func(p *Prof, r *Rng) {
			p.StdMw, p.StdH, p.Mark, p.Drop, p.Dec, p.Sets, p.Panics = 75, 65, 25, 20, 20, 30, 6
			p.RoMw, p.PassMw, p.HndMw, p.MethMw, p.ManyMw, p.Global, p.Sub = 40, 40, 40, 40, 15, 15, 35
			p.Conns, p.Reqs, p.Nest = [2]int{2, 5}, [2]int{1, 3}, 10
			p.Redirect, p.RedAny, p.Sec, p.Slash, p.Unclean = 1, 1, 2, 3, 2
		}),
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool { return len(r.Evs) > 0 }) > 0
			})
		},
	})
	register(&Prop{
		ID:   "C16",
		Rule: "a handler or middleware saw values, a remaining path or custom arguments",
		Gen: standard("C16", func(p *Prof, r *Rng) {
			p.Pat, p.Wild, p.Sub, p.Miss, p.Esc, p.TS, p.Sets, p.Shared, p.Impl = 45, 25, 50, 35, 20, 30, 50, 50, 20
			p.PassMw, p.HndMw, p.MethMw, p.RoMw, p.Dec, p.Drop, p.Nest, p.Mounts = 40, 25, 20, 30, 30, 12, 10, 15
			p.Unclean, p.Unc, p.Len, p.Slash, p.Redirect, p.RedAny, p.Sec = 10, 25, 25, 8, 1, 1, 2
			p.StdMw, p.StdH, p.Depth = 30, 25, 6
		}),
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool {
					for _, e := range r.Evs {
						if e.Obs != nil && (len(e.Obs.Vals) > 0 || e.Obs.Rem != "") {
							return true
						}
					}
					return false
				}) > 0
			})
		},
	})
	register(&Prop{
		ID:   "C17",
		Rule: "a configured redirect was met",
		Gen: standard("C17", func(p *Prof, r *Rng) {
			p.Redirect, p.RedAny, p.RdH, p.RdMw, p.Global, p.Code = 45, 25, 25, 30, 20, 10
			p.Sub, p.Sec, p.Redir, p.TS, p.Len, p.Unc, p.Miss, p.Esc, p.Query = 45, 10, 60, 30, 20, 20, 35, 20, 15
			p.Unclean, p.Slash, p.Mounts, p.Dec, p.HndMw, p.MethMw, p.Nodes = 10, 15, 10, 10, 15, 10, [2]int{1, 6}
		}),
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{}, func(x *Exec) bool {
				return x.count(func(r *Rec) bool {
					for _, e := range r.Evs {
						if e.P == 'r' {
							return true
						}
					}
					return len(r.Loc) > 0
				}) > 0
			})
		},
	})
	register(&Prop{
		ID:   "C18",
		Rule: "bulk settings were made and requests served afterwards",
		Gen: func(seed uint64) *Scenario {
			p := base()
			g := newGen("C18", seed, &p)
			p.Sec, p.TS, p.Sub, p.Handlers, p.Shared, p.CfgOps, p.Nodes, p.Hosts = 20, 30, 20, 65, 35, 15, [2]int{3, 9}, [2]int{0, 3}
			p.Impl, p.NotAllowed, p.OddMeth, p.MethMw, p.HndMw, p.Deep = 12, 20, 18, 15, 15, 6
			g.vary()
			g.Kern()
			g.Tree()
			g.Configure()
			for i, k := 0, 1+g.R.N(5); i < k; i++ {
				g.BulkOp()
			}
			if g.R.P(2) {
				// What is added or set afterwards isn't concerned.
				old := len(g.M.Order)
				g.TreeN(g.R.N(2), false, 1+g.R.N(3))
				for _, n := range append([]*Node(nil), g.M.Order[old:]...) {
					g.nodeOps(n)
				}
				if g.R.P(2) {
					g.BulkOp()
				}
			}
			g.EndPhase(g.Conns())
			return g.S
		},
		Check: func(s *Scenario) *Exec {
			return model(s, ExecOpt{Dump: true}, func(x *Exec) bool {
				for _, ph := range x.S.Phases {
					for _, op := range ph.Ops {
						if strings.HasPrefix(op.K, "b") {
							return true
						}
					}
				}
				return false
			})
		},
	})
}

// oneResponse checks that exactly one response has been decided.
func oneResponse(r *Rec) *Fail {
	for _, s := range r.Subs {
		if f := oneResponse(s); f != nil {
			return f
		}
	}
	if r.NoModel || r.Panic != "" || !r.Done {
		return nil
	}
	if hasBeh(r, "part", "rec", "sil", "swal", "pan", "panb", "pana", "abt") {
		return nil
	}
	if len(r.Stat) == 0 && hasBeh(r, "drop", "dec", "adopt") {
		// A converted one counts as having handled the request.
		return nil
	}
	if len(r.Stat) != 1 {
		return failf("response", "%s: the response has been decided %d times %v", reqStr(r.Req), len(r.Stat), r.Stat)
	}
	return nil
}

// secured checks that no handler of a secure responder has run for a plain
// request.
func (x *Exec) secured(r *Rec) *Fail {
	for _, s := range r.Subs {
		if f := x.secured(s); f != nil {
			return f
		}
	}
	if r.Req.TLS {
		return nil
	}
	for _, b := range r.Req.Beh {
		if b.RT {
			return nil // a middleware says that it has arrived over TLS
		}
	}
	for _, e := range r.Evs {
		if e.P != 'i' {
			continue
		}
		for _, n := range x.L.m.Order {
			if !n.has(fSec) {
				continue
			}
			for _, c := range n.Hs {
				if c.Tag == e.T && !x.elsewhere(c.Tag, n) {
					return failf("secure", "%s: handler %d of the secure node %d has run", reqStr(r.Req), e.T, n.ID)
				}
			}
			for _, m := range n.HndMw {
				if m.Tag == e.T && !x.elsewhere(m.Tag, n) {
					return failf("secure", "%s: middleware %d around the request handler of the secure node %d has run", reqStr(r.Req), e.T, n.ID)
				}
			}
		}
	}
	return nil
}

// elsewhere tells if the tag is also used by another node (bulk settings).
func (x *Exec) elsewhere(tag int, n *Node) bool {
	for _, o := range x.L.m.Order {
		if o == n {
			continue
		}
		for _, m := range o.HndMw {
			if m.Tag == tag {
				return true
			}
		}
		for _, c := range o.Hs {
			if c.Tag == tag {
				return true
			}
		}
		if o.NA != nil && o.NA.Tag == tag {
			return true
		}
	}
	return false
}
