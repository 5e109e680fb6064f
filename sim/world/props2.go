package world

import (
	"fmt"
	"net/url"
	"strings"
)

// follow makes the request a client sends after a redirect. It returns nil if
// there is nothing to follow.
func follow(r *Rec, id int) *Req {
	loc := ""
	if len(r.Loc) == 1 {
		loc = r.Loc[0]
	} else {
		for _, e := range r.Evs {
			if e.P == 'r' {
				loc = e.URL
			}
		}
	}
	q := r.Req
	if loc == "" || q.Host == "" {
		return nil
	}
	u, err := url.Parse(loc)
	if err != nil {
		return nil
	}
	n := *q
	n.ID = id
	n.Path = u.RequestURI()
	n.TLS = u.Scheme == "https"
	n.Host = u.Host
	n.Abs, n.NoHost = false, false
	n.Fault = nil
	n.Gap = 0
	if u.Host == "" || u.Scheme == "" {
		n.Host = q.Host
		n.TLS = q.TLS
	}
	return &n
}

// cleanSegs decodes the segments of a path, dropping the empty and dot ones.
func cleanSegs(target string) (segs []string, query string, ok bool) {
	p := target
	if i := strings.IndexByte(p, '?'); i >= 0 {
		p, query = p[:i], p[i:]
	}
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(segs) > 0 {
				segs = segs[:len(segs)-1]
			}
		default:
			segs = append(segs, s)
		}
	}
	for i, s := range segs {
		d, err := url.PathUnescape(s)
		if err != nil {
			return nil, query, false
		}
		segs[i] = d
	}
	return segs, query, true
}

// hop follows the redirects of a phase.
func (x *Exec) hop(phase int) *Fail {
	got, want := x.Got[phase], x.Want[phase]
	var conns []*Conn
	var from []*Rec
	var model []*Rec
	id := 100000
	for i := range got {
		for j := range got[i] {
			g, w := got[i][j], want[i][j]
			if !w.Pol || w.NoModel {
				continue
			}
			if p, _, _ := strings.Cut(g.Req.Path, "?"); badEscape.MatchString(p) {
				continue // no request line can have such a path
			}
			q := follow(g, id)
			if q == nil {
				continue
			}
			id++
			conns = append(conns, &Conn{Reqs: []*Req{q}})
			from = append(from, g)
			model = append(model, w)
			if len(conns) >= 12 {
				break
			}
		}
	}
	n := len(conns)
	if n == 0 {
		return nil
	}
	// The others go on as before.
	for _, c := range x.conns(phase, x.S.Phases[phase]) {
		if len(conns) >= 16 {
			break
		}
		o := &Conn{}
		for _, q := range c.Reqs {
			nq := *q
			nq.ID = id
			id++
			o.Reqs = append(o.Reqs, &nq)
		}
		conns = append(conns, o)
	}
	var want2 [][]*Rec
	for _, c := range conns {
		var rs []*Rec
		for _, q := range c.Reqs {
			rs = append(rs, x.L.m.Serve(q))
		}
		want2 = append(want2, rs)
	}
	got2 := x.L.Serve(conns)
	x.Got = append(x.Got, got2)
	if x.kernel() {
		return x.Fail
	}
	for i := 0; i < n; i++ {
		a, q := from[i], conns[i].Reqs[0]
		w, g, w0 := want2[i][0], got2[i][0], model[i]
		s1, q1, ok1 := cleanSegs(a.Req.Path)
		s2, q2, ok2 := cleanSegs(q.Path)
		x.St.add("redirects followed")
		if ok1 && (!ok2 || fmt.Sprintf("%q", s1) != fmt.Sprintf("%q", s2)) {
			return failf("hop", "%s is redirected to path %q: path segments %q, want %q", reqStr(a.Req), q.Path, s2, s1)
		}
		if q1 != q2 {
			return failf("hop", "%s is redirected to %q: query %q, want %q", reqStr(a.Req), q.Path, q2, q1)
		}
		if q.Host != a.Req.Host {
			return failf("hop", "%s is redirected to the host %q", reqStr(a.Req), q.Host)
		}
		if a.Req.TLS && !q.TLS {
			return failf("hop", "%s is redirected to http", reqStr(a.Req))
		}
		// The answer mustn't be such a redirect again.
		if len(g.Loc) == 1 && len(w.Loc) == 1 && (!w.Pol || w.PolNode != w0.PolNode) {
			// A configured redirect, or another responder's after the one
			// that has sent the redirect declined the request.
		} else if len(g.Loc) > 0 && (g.Stat[0] == 301 || g.Stat[0] == 308) {
			return failf("hop", "%s is redirected to %q and then again to %q", reqStr(a.Req), q.Path, g.Loc[0])
		}
		if d := Diff(g, w, CmpAll, true); d != "" {
			x.Note = append(x.Note, reqStr(q)+"\n  got\n"+g.Dump()+"  want\n"+w.Dump())
			return failf("hop", "%s is redirected; then %s: %s", reqStr(a.Req), reqStr(q), d)
		}
		// The responder that has sent the redirect gets the request, with the
		// same values.
		for _, e := range g.Evs {
			if e.P != 'i' || e.Obs == nil || !x.L.m.Nodes[w0.PolNode].owns(e.T) {
				continue
			}
			if e.Obs.Res != w0.PolNode && (e.Obs.Res >= 0 || e.Obs.Host != w0.PolNode) {
				continue // another responder with the same handler
			}
			for _, kv := range w0.PolVals {
				found := false
				for _, o := range e.Obs.Vals {
					if o == kv {
						found = true
					}
				}
				if !found {
					return failf("hop", "%s is redirected; then %s has the values %q, want %q", reqStr(a.Req), reqStr(q), e.Obs.Vals, w0.PolVals)
				}
			}
		}
	}
	for i := n; i < len(conns); i++ {
		for j := range got2[i] {
			if d := Diff(got2[i][j], want2[i][j], CmpAll, true); d != "" {
				return failf("serve", "%s: %s", reqStr(got2[i][j].Req), d)
			}
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "a policy redirect was sent and followed",
		Gen: standard("C08", func(p *Prof, r *Rng) {
			p.TS, p.Strict, p.Len, p.Unc, p.Slash, p.Unclean, p.Sub = 45, 4, 10, 12, 45, 35, 35
			p.Sec, p.Redir, p.CfgOps, p.Miss, p.Code, p.RdH, p.RdMw, p.Global = 30, 85, 12, 8, 12, 8, 8, 6
			p.Esc, p.Query, p.Port, p.Abs, p.Bulk, p.Redirect, p.RedAny, p.Rewr, p.RdBeh = 30, 40, 20, 8, 15, 2, 1, 0, 0
			p.Pat, p.Wild, p.PassMw, p.HndMw, p.MethMw, p.Mounts, p.TLS = 40, 20, 12, 10, 8, 12, 10
			p.Dec, p.Drop, p.Panics, p.Abort, p.Rec, p.Faults, p.BadHost = 0, 0, 0, 0, 0, 0, 1
		}),
		Check: func(s *Scenario) *Exec {
			x := Execute(s, ExecOpt{After: func(x *Exec, phase int) *Fail { return x.hop(phase) }})
			x.St.Interesting = x.St.Counts["redirects followed"] > 0
			return x
		},
	})
	register(&Prop{
		ID:   "C15",
		Rule: "the tree was reconfigured or extended after it had served requests",
		Gen: func(seed uint64) *Scenario {
			p := base()
			g := newGen("C15", seed, &p)
			p.Sub, p.Impl, p.Shared, p.Redirect, p.RedAny, p.Code, p.RdH, p.RdMw = 30, 20, 40, 8, 5, 12, 10, 10
			p.Panics, p.Abort, p.Drop, p.BadEsc, p.Dec, p.Sec, p.TS, p.CfgOps = 8, 4, 12, 4, 18, 15, 30, 12
			p.Slash, p.Unclean, p.OddMeth, p.Miss = 15, 10, 15, 25
			g.vary()
			g.Kern()
			g.Tree()
			g.Configure()
			for g.pct(g.P.Bulk) {
				g.BulkOp()
			}
			g.EndPhase(g.Conns())
			for i, k := 0, 1+g.R.P2(3); i < k; i++ {
				g.More()
				cs := g.Conns()
				if g.R.P(2) {
					g.again(cs)
				}
				g.EndPhase(cs)
			}
			return g.S
		},
		Check: func(s *Scenario) *Exec {
			var before map[int][]string
			dump := func(x *Exec) (map[int][]string, *Fail) {
				d, e := x.L.allSettings()
				if e != "" {
					return nil, failf("settings", "asking for the settings panics: %s", e)
				}
				return d, nil
			}
			x := Execute(s, ExecOpt{
				Dump: true,
				Conf: func(x *Exec, phase int) (f *Fail) {
					before, f = dump(x)
					return f
				},
				After: func(x *Exec, phase int) *Fail {
					after, f := dump(x)
					if f != nil {
						return f
					}
					if d := diffSettings(before, after); d != "" {
						return failf("settings", "serving changes the settings: %s", d)
					}
					return nil
				},
			})
			x.St.Interesting = len(s.Phases) > 1
			if x.Fail != nil || len(s.Phases) < 2 {
				return x
			}
			// The same without the earlier serving.
			kern := s.Kern
			x.St.Replays++
			y := Execute(s, ExecOpt{Kern: &kern, Last: true, NoCmp: true})
			if y.Fail != nil {
				x.Fail = failf("fresh", "without the earlier requests: %s", y.Fail)
				return x
			}
			a, b := x.Got[len(x.Got)-1], y.Got[len(y.Got)-1]
			for i := range a {
				for j := range a[i] {
					if d := Diff(a[i][j], b[i][j], CmpAll, false); d != "" {
						x.Fail = failf("fresh", "%s: %s (as in a tree that hasn't served before)", reqStr(a[i][j].Req), d)
						return x
					}
				}
			}
			return x
		},
	})
}

// P2 is n/2 or so times 0 or 1.
func (r *Rng) P2(n int) int {
	if r.P(n) {
		return 1
	}
	return 0
}

// More adds to the tree and reconfigures parts of it.
func (g *Gen) More() {
	r := g.R
	old := append([]*Node(nil), g.M.Order...)
	if r.P(2) {
		g.TreeN(r.N(2), false, r.N(4))
		for _, n := range append([]*Node(nil), g.M.Order[len(old):]...) {
			g.nodeOps(n)
		}
	}
	np := *g.P
	np.Handlers = g.P.Handlers / 2
	np.CfgOps = 20
	keep := g.P
	g.P = &np
	for _, n := range old {
		if r.P(3) {
			g.nodeOps(n)
		}
	}
	g.P = keep
	if r.P(4) {
		g.globalOps()
	}
	for g.pct(20) {
		ts, ks := g.tags(1)
		g.add(&Op{K: OpRoPassMw, N: -1, Tags: ts, MKs: ks})
	}
	for g.pct(g.P.Bulk) {
		g.BulkOp()
	}
}

// again adds copies of earlier requests.
func (g *Gen) again(cs []*Conn) {
	var old []*Req
	for _, ph := range g.S.Phases {
		for _, c := range ph.Conns {
			old = append(old, c.Reqs...)
		}
	}
	if len(old) == 0 {
		return
	}
	for _, c := range cs {
		for k := g.R.N(3); k > 0; k-- {
			q := *old[g.R.N(len(old))]
			q.ID = g.req
			g.req++
			c.Reqs = append(c.Reqs, &q)
		}
	}
}

// owns tells whether the tag is of one of the node's handlers.
func (n *Node) owns(tag int) bool {
	if n == nil {
		return false
	}
	for _, c := range n.Hs {
		if c.Tag == tag && c.Kind != "h" && c.Kind != "f" {
			return true
		}
	}
	return n.NA != nil && n.NA.Tag == tag && n.NA.Kind != "h" && n.NA.Kind != "f"
}

// mixIn puts calls that have to be refused between the steps.
func (g *Gen) mixIn(pct int) {
	var out []*Op
	k := 0
	for _, op := range g.ops {
		for g.pct(pct) {
			out = append(out, &Op{ID: 500000 + g.id, K: OpRefuse, N: -1})
			g.id++
			k++
		}
		out = append(out, op)
	}
	for k == 0 || g.pct(60) {
		out = append(out, &Op{ID: 500000 + g.id, K: OpRefuse, N: -1})
		g.id++
		k++
	}
	g.ops = out
}

func init() {
	register(&Prop{
		ID:   "C14",
		Rule: "a call was refused",
		Gen: func(seed uint64) *Scenario {
			p := base()
			g := newGen("C14", seed, &p)
			p.Hosts, p.Names, p.Pat, p.Wild = [2]int{0, 3}, 45, 40, 20
			p.TS, p.Sec, p.CfgOps, p.Shared, p.Impl = 30, 15, 8, 25, 15
			p.Dec, p.Drop, p.Panics, p.Abort, p.Rec, p.Faults, p.Sleeps = 5, 4, 0, 0, 0, 0, 2
			p.Conns, p.Reqs = [2]int{1, 3}, [2]int{1, 4}
			p.Miss = 30
			g.vary()
			g.Kern()
			g.Tree()
			g.Configure()
			for g.pct(g.P.Bulk) {
				g.BulkOp()
			}
			g.mixIn(25)
			g.EndPhase(g.Conns())
			for i, k := 0, g.R.N(3); i < k; i++ {
				g.More()
				g.mixIn(30)
				cs := g.Conns()
				g.again(cs)
				g.EndPhase(cs)
			}
			return g.S
		},
		Check: func(s *Scenario) *Exec {
			x := Execute(s, ExecOpt{Dump: true})
			for k := range x.St.Counts {
				if strings.HasPrefix(k, "refused: ") {
					x.St.Interesting = true
				}
			}
			return x
		},
	})
}
