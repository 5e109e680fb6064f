package world

import "strings"

func init() {
	register(&Prop{
		ID:   "C10",
		Rule: "responders with the same template have met, or a resource and its parents were created out of order",
		Gen: func(seed uint64) *Scenario {
			p := base()
			g := newGen("C10", seed, &p)
			p.Nodes, p.Hosts = [2]int{3, 10}, [2]int{0, 3}
			p.Names, p.Pat, p.Wild, p.Root = 30, 35, 20, 60
			p.Handlers, p.Impl, p.Shared, p.CfgOps, p.Sub, p.TS, p.Sec = 65, 15, 40, 2, 30, 20, 8
			p.Dec, p.Drop, p.Panics, p.Abort, p.Rec, p.Faults, p.Sleeps, p.Nest = 5, 4, 0, 0, 0, 0, 2, 2
			p.Conns, p.Reqs = [2]int{1, 3}, [2]int{2, 6}
			p.Miss, p.BigFan, p.Bulk = 10, 3, 12
			apart := !g.R.P(5)
			if apart {
				g.S.Style = "inorder"
				p.Pat, p.Overlap = 50, 60
				if g.R.P(3) {
					p.Disjoint, p.Pat = true, 35
					g.S.Style = "apart"
				}
			}
			g.vary()
			g.Kern()
			g.Tree()
			g.Configure()
			for g.pct(g.P.Bulk) {
				g.BulkOp()
			}
			refuse := g.R.P(3)
			mix := func() {
				if refuse {
					n := len(g.ops)
					g.mixIn(3)
					if len(g.ops) == n {
						return
					}
					for _, op := range g.ops {
						if op.K == OpRefuse {
							op.Refuse = "duplicate,name among siblings,name of another host,name in the URL,name within the URL,value name,different names,conflicting child,already registered"
						}
					}
				}
			}
			mix()
			g.EndPhase(g.Conns())
			if g.R.P(3) {
				g.More()
				mix()
				cs := g.Conns()
				g.again(cs)
				g.EndPhase(cs)
			}
			return g.S
		},
		Check: func(s *Scenario) *Exec {
			x := Execute(s, ExecOpt{Dump: true, Strict: true})
			for k := range x.St.Counts {
				if strings.HasPrefix(k, "a fragment ") {
					x.St.Interesting = true
				}
			}
			return x
		},
	})
}
