package world

import (
	"fmt"
	"sort"
	"strings"

	"verifsim/rt"

	"github.com/shohruhadham/nanomux"
)

// Fail is a violation found in a run.
type Fail struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

func (f *Fail) String() string { return f.Class + ": " + f.Msg }

func failf(class, f string, a ...interface{}) *Fail {
	return &Fail{class, fmt.Sprintf(f, a...)}
}

// Stats says what happened in a run.
type Stats struct {
	Reqs        int
	Nested      int
	Steps       int64
	Switches    int64
	SimTime     int64
	PoolGets    int64
	PoolReuse   int64
	PoolEvict   int64
	Hash        uint64 // of the interleaving
	Behave      uint64 // of what was observed
	Counts      map[string]int
	APIs        map[string]int
	Interesting bool
	Repeats     int // requests that were sent again
	Replays     int // additional executions for comparison
}

func (s *Stats) add(k string) {
	if s.Counts == nil {
		s.Counts = map[string]int{}
	}
	s.Counts[k]++
}

// Exec is one execution of a scenario.
type Exec struct {
	S    *Scenario
	L    *Lib
	Opt  ExecOpt
	Got  [][][]*Rec // by phase, connection, request
	Want [][][]*Rec
	St   *Stats
	Fail *Fail
	Note []string // dumps for the report

	Accepted string // a call that should have been refused; the run ends there

	Switches []rt.Switch // the schedule
	SwitchOK bool
}

// ExecOpt changes how a scenario is executed.
type ExecOpt struct {
	Kern   *rt.Config
	Only   map[int]bool // serve these requests only
	Last   bool         // only the last phase serves
	Dump   bool         // compare the settings with the model
	NoCmp  bool         // don't compare with the model
	Strict bool         // a call that isn't refused although it has to be is a failure
	Mask   int
	After  func(x *Exec, phase int) *Fail
	Conf   func(x *Exec, phase int) *Fail // called in the simulation after the configuration of a phase
	Rel    func(x *Exec, want *Rec) bool  // whether the request is of interest
}

// Execute runs the scenario.
func Execute(s *Scenario, opt ExecOpt) *Exec {
	x := &Exec{S: s, Opt: opt, St: &Stats{}}
	rt.ResetGlobals()
	ResetLibrary()
	kern := s.Kern
	if opt.Kern != nil {
		kern = *opt.Kern
	}
	rt.K.Reset(kern)
	x.L = NewLib(s.Build, s.Style)
	for pi, ph := range s.Phases {
		if !x.configure(pi, ph) || x.Accepted != "" {
			break
		}
		conns := x.conns(pi, ph)
		if len(conns) > 0 || pi == len(s.Phases)-1 {
			if !x.ready(pi) {
				break
			}
		}
		var want [][]*Rec
		if !opt.NoCmp {
			for _, c := range conns {
				var rs []*Rec
				for _, q := range c.Reqs {
					rs = append(rs, x.L.m.Serve(q))
				}
				want = append(want, rs)
			}
		}
		var got [][]*Rec
		if len(conns) > 0 {
			x.L.serving = true
			got = x.L.Serve(conns)
			x.L.serving = false
		}
		x.Got = append(x.Got, got)
		x.Want = append(x.Want, want)
		if x.kernel() {
			break
		}
		if x.Fail == nil {
			x.Fail = x.applied(append(append([][]*Rec(nil), got...), x.L.extra...))
		}
		if !opt.NoCmp && x.Fail == nil {
			x.repeated(want)
			x.compare(got, want)
		}
		if x.Fail == nil && opt.After != nil {
			x.Fail = opt.After(x, pi)
		}
		if x.Fail != nil {
			break
		}
	}
	x.stats()
	return x
}

// applied checks that what a converted middleware has returned when it was
// applied to its next handler is used for all requests: it may keep state. The
// library may apply it as late as the first request.
func (x *Exec) applied(got [][]*Rec) *Fail {
	type place struct {
		tag, res, host, nth int
		meth                string
		tree                int
	}
	insts := map[place]*application{}
	var walk func(r *Rec) *Fail
	walk = func(r *Rec) *Fail {
		nth := map[place]int{}
		for _, e := range r.Evs {
			if e.inst == nil || e.Obs == nil || e.meth != r.Evs[0].meth {
				continue
			}
			p := place{tag: e.T, res: e.Obs.Res, host: e.Obs.Host, meth: e.meth, tree: r.Req.Tree}
			nth[p]++
			p.nth = nth[p]
			if !e.inst.late {
				continue
			}
			if i := insts[p]; i == nil {
				insts[p] = e.inst
			} else if i != e.inst {
				return failf("applied", "%s: the converted middleware %d has been applied anew (node %d)", reqStr(r.Req), e.T, e.Obs.Res)
			}
		}
		for _, s := range r.Subs {
			if f := walk(s); f != nil {
				return f
			}
		}
		return nil
	}
	for _, rs := range got {
		for _, r := range rs {
			if r == nil {
				continue
			}
			if f := walk(r); f != nil {
				return f
			}
		}
	}
	return nil
}

func (x *Exec) conns(pi int, ph *Phase) []*Conn {
	if x.Opt.Last && pi < len(x.S.Phases)-1 {
		return nil
	}
	if x.Opt.Only == nil {
		return ph.Conns
	}
	var out []*Conn
	for _, c := range ph.Conns {
		n := &Conn{}
		for _, q := range c.Reqs {
			if x.Opt.Only[q.ID] {
				n.Reqs = append(n.Reqs, q)
			}
		}
		if len(n.Reqs) > 0 {
			out = append(out, n)
		}
	}
	return out
}

// sim runs f as the only task.
func (x *Exec) sim(f func() *Fail) bool {
	var res *Fail
	rt.K.Run(func() { res = f() })
	if x.Fail == nil {
		x.Fail = res
	}
	if x.kernel() {
		return false
	}
	return x.Fail == nil
}

// kernel looks for failures of the run itself.
func (x *Exec) kernel() bool {
	k := rt.K
	switch {
	case len(k.Failures()) > 0:
		if x.Fail == nil {
			x.Fail = failf("task", "a task has ended with %s", panicStr(k.Failures()[0]))
		}
	case k.Overflow:
		x.Fail = failf("overflow", "too many tasks")
	case k.Deadlock:
		x.Fail = failf("deadlock", "some requests can never go on%s", x.unfinished())
	case k.StepLimit:
		x.Fail = failf("steps", "the library doesn't come to an end%s", x.unfinished())
	default:
		return false
	}
	return true
}

func (x *Exec) unfinished() string {
	if len(x.Got) == 0 {
		return " (configuring)"
	}
	var b strings.Builder
	for _, rs := range x.Got[len(x.Got)-1] {
		for _, r := range rs {
			if !r.Done && len(r.Evs) > 0 {
				fmt.Fprintf(&b, "; request %d %s isn't finished", r.Req.ID, r.Req.Path)
			}
		}
	}
	return b.String()
}

func (x *Exec) configure(pi int, ph *Phase) bool {
	if len(ph.Ops) == 0 {
		return true
	}
	return x.sim(func() *Fail { return x.steps(pi, ph) })
}

// steps executes the steps of a phase's configuration.
func (x *Exec) steps(pi int, ph *Phase) *Fail {
	for _, op := range ph.Ops {
		_, le := x.L.Exec(op)
		le = strings.TrimPrefix(le, "other: ")
		if le != "" {
			if strings.HasPrefix(le, accepted) {
				if x.Opt.Strict {
					return failf("accept", "phase %d: %s", pi, le)
				}
				x.Accepted = strings.TrimPrefix(le, accepted)
				x.St.add("accepted: " + strings.SplitN(x.Accepted, ":", 2)[0])
				return nil
			}
			if strings.HasPrefix(le, "refuse: ") {
				return failf("refuse", "phase %d: %s", pi, strings.TrimPrefix(le, "refuse: "))
			}
			return failf("configure", "phase %d: step %d (%s on %d) panics: %s", pi, op.ID, op.K, op.N, le)
		}
	}
	return nil
}

// ready completes the tree and finds out which object is which node.
func (x *Exec) ready(pi int) bool {
	return x.sim(func() *Fail { return x.complete(pi) })
}

func (x *Exec) complete(pi int) *Fail {
	if e := x.L.MatAll(); e != "" {
		return failf("configure", "phase %d: creating the rest panics: %s", pi, e)
	}
	if e := x.L.index(); e != "" {
		return failf("structure", "phase %d: %s", pi, e)
	}
	if x.Opt.Dump {
		if f := x.L.checkSettings(); f != nil {
			return f
		}
	}
	if x.Opt.Conf != nil {
		return x.Opt.Conf(x, pi)
	}
	return nil
}

func reqStr(q *Req) string {
	s := "http"
	if q.TLS {
		s = "https"
	}
	m := ""
	if q.Mount >= 0 {
		m = fmt.Sprintf(" at node %d", q.Mount)
	}
	if q.Tree == 1 {
		m += " to the other tree"
	}
	return fmt.Sprintf("request %d: %s %s host %q %s%s", q.ID, q.Meth, s, q.Host, q.Path, m)
}

// repeated compares the repetitions of requests.
func (x *Exec) repeated(want [][]*Rec) {
	for i, rs := range x.L.extra {
		for j, g := range rs {
			if x.Fail != nil {
				return
			}
			x.St.Repeats++
			x.compare([][]*Rec{{g}}, [][]*Rec{{want[i][j%len(want[i])]}})
		}
	}
}

func (x *Exec) compare(got, want [][]*Rec) {
	mask := x.Opt.Mask
	if mask == 0 {
		mask = CmpAll
	}
	for i := range got {
		for j := range got[i] {
			g, w := got[i][j], want[i][j]
			d := Diff(g, w, mask, true)
			if d == "" {
				continue
			}
			if x.Opt.Rel != nil && !x.Opt.Rel(x, w) && !x.Opt.Rel(x, g) {
				continue
			}
			x.Fail = failf("serve", "%s: %s", reqStr(g.Req), d)
			x.Note = append(x.Note, reqStr(g.Req)+"\n  got\n"+g.Dump()+"  want\n"+w.Dump())
			return
		}
	}
}

func mix(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return (h ^ 0xff) * 1099511628211
}

func (x *Exec) stats() {
	st, k := x.St, rt.K
	x.Switches, x.SwitchOK = k.Recorded()
	st.Steps, st.Switches, st.SimTime = k.Steps(), k.Switches, k.SimTime
	st.PoolGets, st.PoolReuse, st.PoolEvict = k.PoolGets, k.PoolReuse, k.PoolEvict
	st.Hash = k.Hash
	st.APIs = x.L.APIs
	for _, m := range []map[string]int{x.L.Refused, x.L.Merges} {
		for k, n := range m {
			if st.Counts == nil {
				st.Counts = map[string]int{}
			}
			st.Counts[k] += n
		}
	}
	st.Behave = 14695981039346656037
	for _, ph := range x.Got {
		for _, rs := range ph {
			for _, r := range rs {
				st.Reqs++
				x.countRec(r)
			}
		}
	}
	if k.PoolEvict > 0 {
		for i := int64(0); i < k.PoolEvict; i++ {
			st.add("fault: pool emptied by the garbage collector")
		}
	}
}

func (x *Exec) countRec(r *Rec) {
	st := x.St
	q := r.Req
	for _, e := range r.Evs {
		st.Behave = (st.Behave ^ uint64(e.T)) * 1099511628211
		st.Behave = (st.Behave ^ uint64(e.P)) * 1099511628211
		if e.P == 'i' {
			if b := q.beh(e.T); b != nil && b.K != "" {
				st.add("behaviour: " + b.K)
			}
		}
	}
	for _, c := range r.Stat {
		st.Behave = (st.Behave ^ uint64(c)) * 1099511628211
	}
	switch {
	case r.NoModel:
		st.add("fault: request refused by the server")
	case !r.Done:
		st.add("unfinished")
	case r.Panic == "abort":
		st.add("fault: handler aborted")
	case r.Panic != "":
		st.add("fault: panic reached the caller")
	case len(r.Stat) == 0:
		st.add("answer: none")
	default:
		st.add(fmt.Sprintf("answer: %d", class(r.Stat[0])))
	}
	if r.WFailed {
		st.add("fault: write failed")
	}
	if f := q.Fault; f != nil && len(r.Stat) > 0 {
		if f.PanicAt > 0 {
			st.add("fault: writer panicked")
		}
		if f.StallAt == 1 || f.StallAt == 2 && len(r.Body) > 0 {
			st.add("fault: connection stalled")
		}
	}
	if r.Gone {
		st.add("fault: client gone")
	}
	if strings.Contains(q.Path, "%") {
		st.add("request: escaped path")
	}
	if q.TLS {
		st.add("request: tls")
	}
	for _, s := range r.Subs {
		st.Nested++
		x.countRec(s)
	}
}

func class(c int) int {
	if c >= 200 && c < 300 {
		return 200
	}
	return c
}

// serveSolo serves one request on a fresh, identically built tree.
func (x *Exec) solo(q *Req, kern rt.Config) *Exec {
	kern.Strat = rt.StratSerial
	kern.Explicit = nil
	x.St.Replays++
	return Execute(x.S, ExecOpt{Kern: &kern, Only: map[int]bool{q.ID: true}, NoCmp: true})
}

func flagsOf(c nanomux.Config) int {
	m := Cfg{Sub: c.SubtreeHandler, Sec: c.Secure, Redir: c.RedirectsInsecureRequest, TS: c.HasTrailingSlash,
		Strict: c.StrictOnTrailingSlash, Len: c.LenientOnTrailingSlash, Unc: c.LenientOnUncleanPath, AsIs: c.HandlesThePathAsIs}
	return m.flags()
}

func flagsAsked(o responder) int {
	a := o.(interface {
		IsSubtreeHandler() bool
		IsSecure() bool
		RedirectsInsecureRequest() bool
		HasTrailingSlash() bool
		IsStrictOnTrailingSlash() bool
		IsLenientOnTrailingSlash() bool
		IsLenientOnUncleanPath() bool
		HandlesThePathAsIs() bool
	})
	f := 0
	for i, b := range []bool{a.IsSubtreeHandler(), a.IsSecure(), a.RedirectsInsecureRequest(), a.HasTrailingSlash(),
		a.IsStrictOnTrailingSlash(), a.IsLenientOnTrailingSlash(), a.IsLenientOnUncleanPath()} {
		if b {
			f |= 1 << i
		}
	}
	if a.HandlesThePathAsIs() != (f&(fLen|fUnc) == fLen|fUnc) {
		f |= 1 << 20
	}
	return f
}

// settings prints everything that can be asked about a responder.
func (l *Lib) settings(n *Node) (s []string) {
	o := l.obj[n.ID]
	put := func(k string, v interface{}) { s = append(s, fmt.Sprintf("%s=%v", k, v)) }
	put("name", o.Name())
	if n.Kind != "root" {
		put("template", o.Template().String())
	}
	put("config", fmt.Sprintf("%07b", flagsOf(o.Configuration())))
	put("shared", dataID(o.SharedData()))
	put("impl", implID(o.Implementation()))
	ms := append([]string(nil), o.AllowedHTTPMethods()...)
	sort.Strings(ms)
	put("methods", ms)
	for _, m := range ms {
		put("handler of "+m, o.HandlerOf(m) != nil)
	}
	put("not-allowed handler", o.HandlerOf("!") != nil)
	put("code", o.PermanentRedirectCode())
	put("redirect handler", o.RedirectHandler() != nil)
	put("router", o.Router() == l.ro)
	if r, ok := o.(*nanomux.Resource); ok {
		put("parent", l.parentStr(r))
		put("host", l.idOfHost(r.Host()))
	}
	put("flags", fmt.Sprintf("%07b", flagsAsked(o)))
	var kids []int
	for _, k := range o.ChildResources() {
		kids = append(kids, l.idOfRes(k))
	}
	sort.Ints(kids)
	put("children", kids)
	put("has children", o.HasAnyChildResources())
	if u, err := o.URL(l.someValues(n)); err == nil {
		put("url", u.String())
	} else {
		put("url", "refused")
	}
	return s
}

// someValues gives values that fit the templates on the way to the node.
func (l *Lib) someValues(n *Node) nanomux.HostPathValues {
	rng := NewRng(uint64(n.ID), 5)
	vs := nanomux.HostPathValues{}
	for _, a := range n.chainUp() {
		if a.Tm == nil || a.Tm.Static() {
			continue
		}
		_, kvs := a.Tm.Match(a.Tm.GenValue(rng))
		for _, kv := range kvs {
			vs.Set(kv.K, kv.V)
		}
	}
	return vs
}

func (l *Lib) parentStr(r *nanomux.Resource) string {
	p := r.Parent()
	if p == nil {
		return "none"
	}
	return fmt.Sprint(l.idOfRes(p))
}

// allSettings prints the settings of the whole tree.
func (l *Lib) allSettings() (map[int][]string, string) {
	out := map[int][]string{}
	e := catch(func() {
		for _, n := range l.m.Order {
			out[n.ID] = l.settings(n)
		}
	})
	return out, e
}

func diffSettings(a, b map[int][]string) string {
	for id := range a {
		x, y := a[id], b[id]
		for i := 0; i < len(x) || i < len(y); i++ {
			p, q := "nothing", "nothing"
			if i < len(x) {
				p = x[i]
			}
			if i < len(y) {
				q = y[i]
			}
			if p != q {
				return fmt.Sprintf("node %d: %s, was %s", id, q, p)
			}
		}
	}
	return ""
}

// checkSettings compares what can be asked with the model.
func (l *Lib) checkSettings() (f *Fail) {
	e := catch(func() {
		for _, n := range l.m.Order {
			if s := l.checkNode(n); s != "" {
				f = failf("settings", "%s (node %d): %s", l.nodeStr(n), n.ID, s)
				return
			}
		}
	})
	if e != "" {
		return failf("settings", "asking for the settings panics: %s", e)
	}
	return f
}

func (l *Lib) checkNode(n *Node) string {
	o := l.obj[n.ID]
	if g := flagsOf(o.Configuration()); g != n.Flags {
		return fmt.Sprintf("configuration %07b, want %07b", g, n.Flags)
	}
	if g := flagsAsked(o); g != n.Flags {
		return fmt.Sprintf("configuration (one by one) %07b, want %07b", g, n.Flags)
	}
	if sh := dataID(o.SharedData()); sh != n.Shared {
		return fmt.Sprintf("shared data %v, want %d", o.SharedData(), n.Shared)
	}
	if g := implID(o.Implementation()); g != n.Impl {
		return fmt.Sprintf("implementation %d, want %d", g, n.Impl)
	}
	ms := append([]string(nil), o.AllowedHTTPMethods()...)
	sort.Strings(ms)
	if fmt.Sprint(ms) != fmt.Sprint(n.methods()) {
		return fmt.Sprintf("methods %v, want %v", ms, n.methods())
	}
	code := n.Code
	if code == 0 {
		code = l.m.GCode
	}
	if code == 0 {
		code = 308
	}
	if g := o.PermanentRedirectCode(); g != code {
		return fmt.Sprintf("permanent redirect code %d, want %d", g, code)
	}
	if n.Kind != "root" {
		if g := o.Name(); g != n.Tm.EffName() {
			return fmt.Sprintf("name %q, want %q", g, n.Tm.EffName())
		}
	}
	if o.Router() != l.ro {
		return "another router or none"
	}
	if r, ok := o.(*nanomux.Resource); ok {
		want := "none"
		if n.P != nil && n.P.Kind != "host" {
			want = fmt.Sprint(n.P.ID)
		}
		if g := l.parentStr(r); g != want {
			return fmt.Sprintf("parent %s, want %s", g, want)
		}
		host := -1
		if t := n.chainUp()[0]; t.Kind == "host" {
			host = t.ID
		}
		if g := l.idOfHost(r.Host()); g != host {
			return fmt.Sprintf("host %d, want %d", g, host)
		}
	}
	for _, k := range n.Kids {
		ko, _ := l.obj[k.ID].(*nanomux.Resource)
		if !o.HasChildResource(ko) {
			return fmt.Sprintf("doesn't have the child resource %d", k.ID)
		}
		if nm := k.Tm.EffName(); nm != "" {
			if g := o.ChildResourceNamed(nm); g != ko {
				return fmt.Sprintf("the child resource named %q is %d, want %d", nm, l.idOfRes(g), k.ID)
			}
		}
	}
	if g := o.HasAnyChildResources(); g != (len(n.Kids) > 0) {
		return fmt.Sprintf("has child resources: %v", g)
	}
	return l.checkLookups(n, o)
}

// checkLookups looks the responder up in every way there is.
func (l *Lib) checkLookups(n *Node, o responder) string {
	rng := NewRng(l.build, uint64(n.ID), 9)
	sec, ts := n.has(fSec), n.has(fTS)
	if n.Kind == "host" {
		h := o.(*nanomux.Host)
		if nm := n.Tm.EffName(); nm != "" {
			if g := l.ro.HostNamed(nm); g != h {
				return fmt.Sprintf("the host named %q is %d", nm, l.idOfHost(g))
			}
		}
		if !l.ro.HasHost(h) || !l.ro.HasAnyHost() {
			return "the router doesn't have the host"
		}
		if g := l.ro.RegisteredHost(hostURL(n, sec, ts, rng)); g != h {
			return fmt.Sprintf("the host at its URL is %d", l.idOfHost(g))
		}
	} else {
		r := o.(*nanomux.Resource)
		if g := l.ro.RegisteredResource(fullURL(relPath(nil, n, sec, ts && n.Kind == "res", rng), n)); g != r {
			return fmt.Sprintf("the resource at its URL is %d", l.idOfRes(g))
		}
		var ups []*Node
		for a := n.P; a != nil; a = a.P {
			ups = append(ups, a)
		}
		if len(ups) > 0 {
			a := ups[rng.N(len(ups))]
			if g := l.obj[a.ID].RegisteredResource(relPath(a, n, sec, ts, rng)); g != r {
				return fmt.Sprintf("the resource at its path from node %d is %d", a.ID, l.idOfRes(g))
			}
		}
	}
	if s := l.checkNames(n, o, rng); s != "" {
		return s
	}
	return l.checkURL(n, o)
}

// named prints the path or URL of n with names for some of the templates. It
// returns "" if there is none.
func named(base, n *Node, sec, ts bool, rng *Rng) string {
	var segs []string
	var host *Node
	some := false
	str := func(a *Node) string {
		if nm := a.Tm.EffName(); nm != "" && !rng.P(4) {
			some = true
			return "$" + nm
		}
		return a.Tm.Str(true)
	}
	for a := n; a != nil && a != base; a = a.P {
		switch a.Kind {
		case "res":
			segs = append([]string{str(a)}, segs...)
		case "host":
			host = a
		}
	}
	s := "/" + strings.Join(segs, "/")
	if len(segs) > 0 && ts {
		s += "/"
	}
	if base == nil && host != nil {
		s = str(host) + s
		if len(segs) == 0 && !ts {
			s = strings.TrimSuffix(s, "/")
		}
	}
	if !some {
		return ""
	}
	switch {
	case sec:
		s = "https://" + s
	case base == nil && host != nil && len(segs) > 0, rng.P(4):
		s = "http://" + s
	}
	return s
}

// checkNames looks the responder up by name, and what isn't there as well.
func (l *Lib) checkNames(n *Node, o responder, rng *Rng) string {
	sec, ts := n.has(fSec), n.has(fTS)
	absent := "zzabsent"
	if n.Kind == "host" {
		if u := named(nil, n, sec, ts, rng); u != "" {
			if g := l.ro.RegisteredHost(u); responder(g) != o {
				return fmt.Sprintf("the host at %s is %d", u, l.idOfHost(g))
			}
		}
		for _, u := range []string{"$" + absent, absent + ".example", "http://" + absent + "/", "https://$" + absent} {
			if g := l.ro.RegisteredHost(u); g != nil {
				return fmt.Sprintf("there is a host at %s: %d", u, l.idOfHost(g))
			}
			if g := l.ro.RegisteredResource("http://" + absent + "/a"); g != nil {
				return fmt.Sprintf("there is a resource below an absent host: %d", l.idOfRes(g))
			}
		}
		if g := l.ro.HostNamed(absent); g != nil {
			return fmt.Sprintf("the host named %q is %d", absent, l.idOfHost(g))
		}
		if l.ro.HasHost(nanomux.NewDormantHost(absent+".example")) || l.ro.HasHost(nanomux.NewDormantHost(n.Tm.Str(true))) {
			return "the router has a host that isn't registered"
		}
	} else {
		r := o.(*nanomux.Resource)
		base := []*Node{nil}
		for a := n.P; a != nil; a = a.P {
			base = append(base, a)
		}
		b := base[rng.N(len(base))]
		if u := named(b, n, sec, ts && n.Kind == "res", rng); u != "" {
			g := (*nanomux.Resource)(nil)
			if b == nil {
				g = l.ro.RegisteredResource(u)
			} else {
				g = l.obj[b.ID].RegisteredResource(u)
			}
			if g != r {
				return fmt.Sprintf("the resource at %s is %d", u, l.idOfRes(g))
			}
		}
	}
	for _, u := range []string{absent, "$" + absent, "/" + absent + "/x/", absent + "/$y", "https:///" + absent} {
		if g := o.RegisteredResource(u); g != nil {
			return fmt.Sprintf("there is a resource at %s: %d", u, l.idOfRes(g))
		}
	}
	m := l.m.Order[rng.N(len(l.m.Order))]
	names := []string{absent, ""}
	if m.Kind != "root" {
		names = append(names, m.Tm.EffName())
	}
	for _, nm := range names {
		want := -1
		for _, k := range n.Kids {
			if nm != "" && k.Tm.EffName() == nm {
				want = k.ID
			}
		}
		if g := o.ChildResourceNamed(nm); g == nil && want >= 0 || g != nil && l.idOfRes(g) != want {
			return fmt.Sprintf("the child resource named %q is %d, want %d", nm, l.idOfRes(g), want)
		}
		want = -1
		for _, h := range l.m.Hosts {
			if nm != "" && h.Tm.EffName() == nm {
				want = h.ID
			}
		}
		if g := l.ro.HostNamed(nm); g == nil && want >= 0 || g != nil && l.idOfHost(g) != want {
			return fmt.Sprintf("the host named %q is %d, want %d", nm, l.idOfHost(g), want)
		}
	}
	if m.P != n && m.Kind == "res" {
		if o.HasChildResource(l.obj[m.ID].(*nanomux.Resource)) {
			return fmt.Sprintf("has %d as a child resource", m.ID)
		}
	}
	return ""
}

func fullURL(u string, n *Node) string { return u }

// checkURL compares the URL of the responder with its template.
func (l *Lib) checkURL(n *Node, o responder) string {
	vs := l.someValues(n)
	u, err := o.URL(vs)
	if err != nil {
		return "URL: " + err.Error()
	}
	var segs []string
	host := ""
	for _, a := range n.chainUp() {
		var b strings.Builder
		if a.Tm != nil {
			for _, p := range a.Tm.Parts {
				if p.Val != "" {
					b.WriteString(vs.Get(p.Val))
				} else {
					b.WriteString(p.Lit)
				}
			}
		}
		if a.Kind == "host" {
			host = b.String()
		} else if a.Kind == "res" {
			segs = append(segs, b.String())
		}
	}
	p := "/" + strings.Join(segs, "/")
	if len(segs) > 0 && n.has(fTS) {
		p += "/"
	}
	if n.Kind == "host" {
		p = ""
		if n.has(fTS) {
			p = "/"
		}
	}
	scheme := "http"
	if n.has(fSec) {
		scheme = "https"
	}
	if host == "" {
		if n.Kind == "root" || true {
			if u.Path != p {
				return fmt.Sprintf("URL %s, want the path %q", u, p)
			}
		}
		return ""
	}
	if u.Host != host || u.Path != p || u.Scheme != scheme {
		return fmt.Sprintf("URL %s, want %s://%s%s", u, scheme, host, p)
	}
	return ""
}
