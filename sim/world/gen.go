package world

import (
	"fmt"
	"strconv"
	"strings"
	"verifsim/rt"
)

// Prof says what the generator makes; numbers are percentages unless noted.
type Prof struct {
	Nodes      [2]int // number of resources
	Hosts      [2]int
	Root       int
	Depth      int
	Pat        int
	Wild       int
	Disjoint   bool // no two pattern siblings that match the same string
	Overlap    int  // chance of a pattern that is likely to match what its siblings match
	Names      int
	BigFan     int // chance of a resource with very many children
	Deep       int // chance of a very deep chain
	Sub        int
	Sec        int
	Redir      int
	TS         int
	Strict     int
	Len        int
	Unc        int
	CfgOps     int // configuration set later
	Handlers   int
	Impl       int
	StdH       int // converted handlers
	ManyM      int // very many methods
	NotAllowed int
	Options    int
	RoMw       int
	PassMw     int
	HndMw      int
	MethMw     int
	StdMw      int
	ManyMw     int
	Shared     int
	Code       int
	RdH        int
	RdMw       int
	Redirect   int
	RedAny     int
	Global     int
	Bulk       int
	Conns      [2]int
	Reqs       [2]int
	Mounts     int
	Miss       int // requests for what isn't there
	Slash      int // toggled trailing slashes
	Unclean    int
	Esc        int // needless escapes
	BadEsc     int
	BadHost    int
	Port       int
	Abs        int
	TLS        int
	OddMeth    int
	Query      int
	Dec        int // handlers decline
	Drop       int // middlewares drop, answer, ...
	Panics     int
	Abort      int
	Rec        int
	Sets       int
	Sleeps     int
	Nest       int
	Mark       int
	Veto       int // middlewares return something else than what they wrap
	Rewr       int // middlewares pass a changed request
	RdBeh      int // redirect handlers and middlewares do odd things
	Stall      int
	Look       int
	Faults     int
	Multi      int
	Strat      []int // allowed strategies, nil: all
	Phases     int
	Long       int // chance of very many requests
}

// Gen is a scenario generator.
type Gen struct {
	impls, hands []*Op

	R    *Rng
	P    *Prof
	M    *Model
	S    *Scenario
	ops  []*Op
	id   int
	tag  int
	node int
	req  int
	mws  []int // tags of all middlewares
	rds  []int
	rdhs []int   // redirect handlers
	late []*Node // nodes that get their handlers at the end
}

func newGen(prop string, seed uint64, p *Prof) *Gen {
	h := uint64(0)
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	g := &Gen{R: NewRng(seed, h), P: p, M: NewModel(), tag: 0}
	g.S = &Scenario{Prop: prop, Seed: seed, Build: g.R.U()}
	return g
}

func (g *Gen) rangeOf(r [2]int) int { return r[0] + g.R.N(r[1]-r[0]+1) }

func (g *Gen) newTag() int { g.tag++; return g.tag }

// add applies a step to the model and keeps it if it makes sense.
func (g *Gen) add(op *Op) bool {
	op.ID = g.id
	if err := g.M.Apply(op); err != nil {
		return false
	}
	g.id++
	g.ops = append(g.ops, op)
	return true
}

func (g *Gen) pct(p int) bool { return g.R.Pct(p) }

func (g *Gen) cfg(host bool, sec bool) *Cfg {
	c := &Cfg{}
	p := g.P
	c.Sub = g.pct(p.Sub)
	if sec && g.pct(p.Redir) {
		c.Redir = true
	}
	switch {
	case g.pct(p.Strict):
		c.Strict = true
		if g.R.P(6) {
			c.Len = true
		}
	case g.pct(p.Len):
		c.Len = true
	}
	if g.pct(p.Unc) {
		c.Unc = true
		if g.R.P(4) {
			c.Unc, c.AsIs = false, true
		}
	}
	if c.flags() == 0 {
		return nil
	}
	return c
}

// rootCfg drops what a root resource has no use for.
func rootCfg(c *Cfg) *Cfg {
	if c == nil {
		return nil
	}
	n := *c
	n.Unc = n.Unc || n.AsIs
	n.TS, n.Strict, n.Len, n.AsIs = false, false, false, false
	if n.flags() == 0 {
		return nil
	}
	return &n
}

func (g *Gen) explicitName() string {
	if !g.pct(g.P.Names) {
		return ""
	}
	if g.R.P(3) {
		return fmt.Sprintf("nm%d", g.R.N(6))
	}
	return fmt.Sprintf("name%d", g.node)
}

// disjoint patterns: no two of them match the same string.
var disjointPath = []int{0, 2, 3, 5, 6, 9, 12, 13, 15}
var disjointHost = []int{0, 2, 3, 6}

// overlapping patterns
var overlapPath = []int{1, 4, 11, 14, 16, 21, 24}
var overlapHost = []int{0, 1, 4, 5}

func (g *Gen) pathTmpl() *Tmpl {
	r := g.R
	suffix := fmt.Sprint(g.node)
	switch {
	case g.pct(g.P.Wild):
		return &Tmpl{Name: g.explicitName(), Parts: []Part{val("w"+suffix, "")}}
	case g.pct(g.P.Pat):
		i := r.N(len(pathProtos))
		if g.P.Disjoint {
			i = disjointPath[r.N(len(disjointPath))]
		} else if g.pct(g.P.Overlap) {
			i = overlapPath[r.N(len(overlapPath))]
		}
		return &Tmpl{Name: g.explicitName(), Parts: instantiate(pathProtos[i].parts, suffix)}
	}
	s := staticPaths[r.N(len(staticPaths))]
	if r.fromDict(dictTmpls, 5) {
		s = r.Pick(dictTmpls...)
	} else if r.P(10) {
		s = fmt.Sprintf("s%d", r.N(40))
	}
	return &Tmpl{Name: g.explicitName(), Parts: []Part{lit(s)}}
}

func (g *Gen) hostTmpl() *Tmpl {
	r := g.R
	suffix := "h" + fmt.Sprint(g.node)
	if g.pct(g.P.Pat) {
		i := r.N(len(hostProtos))
		if g.P.Disjoint {
			i = disjointHost[r.N(len(disjointHost))]
		} else if g.pct(g.P.Overlap) {
			i = overlapHost[r.N(len(overlapHost))]
		}
		return &Tmpl{Name: g.explicitName(), Parts: instantiate(hostProtos[i].parts, suffix)}
	}
	s := staticHosts[r.N(len(staticHosts))]
	if r.fromDict(dictHosts, 5) {
		s = r.Pick(dictHosts...)
	}
	return &Tmpl{Name: g.explicitName(), Parts: []Part{lit(s)}}
}

// addNode adds a responder; parent nil makes a host or the root.
func (g *Gen) addNode(kind string, p *Node) *Node {
	for try := 0; try < 8; try++ {
		op := &Op{K: OpNode, N: g.node, Kind: kind}
		switch kind {
		case "host":
			op.Tm = g.hostTmpl()
			op.TS = g.pct(g.P.TS)
		case "res":
			op.Tm = g.pathTmpl()
			op.P = p.ID
			if !g.P.Disjoint && g.R.P(12) {
				if tm := g.siblingLike(p); tm != nil {
					op.Tm = tm
				}
			}
			op.TS = g.pct(g.P.TS)
		}
		op.Sec = g.pct(g.P.Sec)
		op.Cfg = g.cfg(kind == "host", op.Sec)
		if kind == "root" {
			op.Cfg = rootCfg(op.Cfg)
		}
		if g.add(op) {
			n := g.M.Nodes[g.node]
			g.node++
			return n
		}
	}
	return nil
}

// siblingLike makes a template like the one of a child of p.
func (g *Gen) siblingLike(p *Node) *Tmpl {
	var cs []*Node
	for _, n := range g.M.Order {
		if n.P == p && n.Kind == "res" && !n.Tm.Static() && !n.Tm.Wild() {
			cs = append(cs, n)
		}
	}
	if cs == nil {
		return nil
	}
	tm := cs[g.R.N(len(cs))].Tm.variant(g.R)
	if tm == nil {
		return nil
	}
	if g.R.P(2) {
		tm.Name = fmt.Sprintf("like%d", g.node)
	} else {
		tm.Parts = instantiate(tm.Parts, "l")
	}
	return tm
}

// Tree adds the hosts and resources.
func (g *Gen) Tree() {
	p := g.P
	g.TreeN(g.rangeOf(p.Hosts), g.pct(p.Root), g.rangeOf(p.Nodes))
}

// TreeN adds hosts, the root if wanted, and resources.
func (g *Gen) TreeN(hosts int, root bool, nodes int) {
	p := g.P
	for i := 0; i < hosts; i++ {
		g.addNode("host", nil)
	}
	if (root || len(g.M.Hosts) == 0) && g.M.Root == nil {
		g.addNode("root", nil)
	}
	if g.pct(p.Deep) {
		n := g.M.Order[g.R.N(len(g.M.Order))]
		d := 6 + g.R.N(14)
		if g.R.P(6) {
			d = 20 + g.R.N(60)
		}
		for i := 0; i < d && n != nil; i++ {
			n = g.addNode("res", n)
		}
	}
	for i := 0; i < nodes; i++ {
		var par *Node
		for try := 0; try < 10; try++ {
			par = g.M.Order[g.R.N(len(g.M.Order))]
			if len(par.chainUp()) <= p.Depth {
				break
			}
		}
		g.addNode("res", par)
	}
	if g.pct(p.BigFan) {
		par := g.M.Order[g.R.N(len(g.M.Order))]
		for i, d := 0, g.R.dictCount(15+g.R.N(40), 300, 3); i < d; i++ {
			op := &Op{K: OpNode, N: g.node, Kind: "res", P: par.ID, Tm: &Tmpl{Parts: []Part{lit(fmt.Sprintf("f%d", i))}}}
			if g.R.P(4) {
				op.Tm = &Tmpl{Parts: []Part{lit(fmt.Sprintf("g%d-", i)), val(fmt.Sprintf("a%d", g.node), `\d+`)}}
			}
			if g.add(op) {
				g.node++
			}
		}
	}
}

var stdMethods = []string{"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "OPTIONS", "CONNECT", "TRACE"}
var moreMethods = []string{"LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL", "PROPFIND", "PROPPATCH", "SEARCH", "BIND", "REBIND", "UNBIND", "ACL", "REPORT",
	"MKACTIVITY", "CHECKOUT", "MERGE", "M-SEARCH", "NOTIFY", "SUBSCRIBE", "UNSUBSCRIBE", "PURGE", "LINK", "UNLINK", "SOURCE", "X", "VIEW", "GETX", "GE", "A", "ZZ"}

func randCase(r *Rng, s string) string {
	switch r.N(3) {
	case 0:
		return strings.ToLower(s)
	case 1:
		return s
	}
	b := []byte(strings.ToLower(s))
	for i := range b {
		if r.P(2) {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func (g *Gen) joinMethods(ms []string) string {
	var b strings.Builder
	for i, m := range ms {
		if i > 0 {
			b.WriteString(g.R.Pick(", ", ",", " ", " , ", "  "))
		}
		b.WriteString(randCase(g.R, m))
	}
	s := b.String()
	if g.R.P(6) {
		s = " " + s + g.R.Pick(" ", ",", ", ")
	}
	return s
}

func (g *Gen) hk() string {
	if g.pct(g.P.StdH) {
		return g.R.Pick("h", "f", "ha", "fa")
	}
	return "n"
}

func (g *Gen) tags(k int) (ts []int, ks []string) {
	for i := 0; i < k; i++ {
		t := g.newTag()
		ts = append(ts, t)
		s := ""
		if g.pct(g.P.StdMw) {
			s = "std"
		}
		ks = append(ks, s)
		g.mws = append(g.mws, t)
	}
	return
}

func (g *Gen) mwCount() int {
	if g.pct(g.P.ManyMw) {
		return g.R.dictCount(4+g.R.N(8), 40, 3)
	}
	return 1 + g.R.N(2)
}

// handlerOps gives a node handlers.
func (g *Gen) handlerOps(n *Node) {
	p, r := g.P, g.R
	if len(n.HndMw) == 0 && g.pct(p.Impl) {
		x := 1 + r.N(9)
		op := &Op{K: OpImpl, N: n.ID, X: x, Tag: g.tag + 1}
		if len(g.impls) > 0 && r.P(4) {
			o := g.impls[r.N(len(g.impls))]
			op.X, op.Tag = o.X, o.Tag
		} else {
			g.tag += 40
		}
		if g.add(op) {
			g.impls = append(g.impls, op)
		}
		if r.P(2) {
			return
		}
	}
	if g.pct(p.Handlers) {
		pool := stdMethods[:6]
		k := 1 + r.N(3)
		if g.pct(p.ManyM) {
			pool = append(append([]string(nil), stdMethods...), moreMethods...)
			k = r.dictCount(8+r.N(30), 60, 3)
		} else if r.P(4) {
			pool = append(append([]string(nil), stdMethods[:6]...), moreMethods[:8]...)
		}
		var ms []string
		for i := 0; i < k; i++ {
			if i == 0 && r.Pct(60) {
				ms = append(ms, "GET")
				continue
			}
			if r.fromDict(dictMethods, 8) {
				ms = append(ms, r.Pick(dictMethods...))
				continue
			}
			ms = append(ms, pool[r.N(len(pool))])
		}
		if g.pct(p.Options) {
			ms = append(ms, "OPTIONS")
		}
		for len(ms) > 0 {
			c := 1 + r.N(len(ms))
			if r.P(2) {
				c = 1
			}
			op := &Op{K: OpHandler, N: n.ID, M: g.joinMethods(ms[:c]), Tag: g.newTag(), HK: g.hk()}
			if len(g.hands) > 0 && r.P(10) {
				// The same handler as another one.
				o := g.hands[r.N(len(g.hands))]
				op.Tag, op.HK = o.Tag, o.HK
			}
			if g.add(op) {
				g.hands = append(g.hands, op)
			}
			ms = ms[c:]
		}
	}
	if g.pct(p.NotAllowed) {
		g.add(&Op{K: OpHandler, N: n.ID, M: g.R.Pick("!", " ! "), Tag: g.newTag(), HK: g.hk()})
	}
}

func (g *Gen) someMethods(n *Node) string {
	ms := n.methods()
	r := g.R
	if len(ms) == 0 {
		return ""
	}
	switch r.N(4) {
	case 0:
		return "*"
	case 1:
		return "!"
	}
	var out []string
	for i, k := 0, 1+r.N(2); i < k; i++ {
		m := ms[r.N(len(ms))]
		if !has(out, m) {
			out = append(out, m)
		}
	}
	return g.joinMethods(out)
}

// nodeOps configures a node in some order.
func (g *Gen) nodeOps(n *Node) { g.settings(n, false) }

func (g *Gen) settings(n *Node, late bool) {
	p, r := g.P, g.R
	var steps []func()
	if !late {
		steps = append(steps, func() { g.handlerOps(n) })
	}
	if !late && g.pct(p.Impl) {
		steps = append(steps, func() { g.handlerOps(n) })
	}
	if g.pct(p.PassMw) {
		steps = append(steps, func() {
			ts, ks := g.tags(g.mwCount())
			g.add(&Op{K: OpPassMw, N: n.ID, Tags: ts, MKs: ks})
		})
	}
	if g.pct(p.PassMw / 3) {
		steps = append(steps, func() {
			ts, ks := g.tags(1)
			g.add(&Op{K: OpPassMw, N: n.ID, Tags: ts, MKs: ks})
		})
	}
	if g.pct(p.MethMw) {
		for i, k := 0, 1+r.N(2); i < k; i++ {
			steps = append(steps, func() {
				ms := g.someMethods(n)
				if ms == "" {
					return
				}
				ts, ks := g.tags(g.mwCount())
				g.add(&Op{K: OpMethMw, N: n.ID, M: ms, Tags: ts, MKs: ks})
			})
		}
	}
	if g.pct(p.Shared) {
		steps = append(steps, func() { g.add(&Op{K: OpShared, N: n.ID, X: 1000 + g.newTag()}) })
		if g.R.P(8) {
			steps = append(steps, func() { g.add(&Op{K: OpShared, N: n.ID}) })
		}
	}
	if g.pct(p.CfgOps) {
		steps = append(steps, func() {
			sec := n.has(fSec)
			c := g.cfg(n.Kind == "host", true)
			if c == nil {
				c = &Cfg{}
			}
			if c.Redir && !sec && !g.pct(p.Sec) {
				c.Redir = false
			}
			if g.pct(p.Sec) {
				c.Sec = true
			}
			if g.pct(p.TS) && n.Kind != "root" {
				c.TS = true
			}
			g.add(&Op{K: OpConfig, N: n.ID, Cfg: c})
		})
	}
	if g.pct(p.Code) {
		steps = append(steps, func() { g.add(&Op{K: OpCode, N: n.ID, Code: r.PickI(301, 308)}) })
	}
	if g.pct(p.RdH) {
		steps = append(steps, func() {
			t := g.newTag()
			g.rdhs = append(g.rdhs, t)
			g.add(&Op{K: OpRdH, N: n.ID, Tag: t})
		})
	}
	if g.pct(p.RdMw) {
		steps = append(steps, func() {
			var ts []int
			for i, k := 0, 1+r.N(2); i < k; i++ {
				ts = append(ts, g.newTag())
			}
			g.rds = append(g.rds, ts...)
			g.add(&Op{K: OpRdMw, N: n.ID, Tags: ts})
		})
	}
	if g.pct(p.Redirect) {
		steps = append(steps, func() {
			g.add(&Op{K: OpRedirect, N: n.ID, URL: g.redirURL(), Code: g.redirCode()})
		})
	}
	if g.pct(p.RedAny) {
		steps = append(steps, func() {
			g.add(&Op{K: OpRedAny, N: n.ID, URL: g.redirURL(), Code: g.redirCode()})
		})
	}
	// Mostly the middlewares of the request handler are wrapped after the
	// handlers are there. No implementation is set after them: it starts over.
	hnd := func() {
		if g.pct(p.HndMw) {
			ts, ks := g.tags(g.mwCount())
			g.add(&Op{K: OpHndMw, N: n.ID, Tags: ts, MKs: ks})
			if r.P(3) {
				ts, ks := g.tags(1)
				g.add(&Op{K: OpHndMw, N: n.ID, Tags: ts, MKs: ks})
			}
		}
	}
	early := r.P(4)
	if early {
		steps = append(steps, hnd)
	}
	for i := len(steps) - 1; i > 0; i-- {
		j := r.N(i + 1)
		steps[i], steps[j] = steps[j], steps[i]
	}
	if !early {
		steps = append(steps, hnd)
	}
	for _, s := range steps {
		s()
	}
}

func (g *Gen) redirURL() string {
	return g.R.Pick("http://other.example/x", "https://other.example/x/", "http://other.example", "/new/place", "/", "new/place/", "new", "/n%20w/é",
		"https://other.example:8443/a/b")
}

func (g *Gen) redirCode() int { return g.R.PickI(300, 301, 302, 303, 307, 308, 399) }

func (g *Gen) globalOps() {
	r := g.R
	if g.pct(g.P.Global) {
		g.add(&Op{K: OpGCode, N: -1, Code: r.PickI(301, 308)})
	}
	if g.pct(g.P.Global) {
		g.add(&Op{K: OpGRdH, N: -1, Tag: g.newTag()})
	}
	if g.pct(g.P.Global) {
		t := g.newTag()
		g.rds = append(g.rds, t)
		g.add(&Op{K: OpGRdMw, N: -1, Tags: []int{t}})
	}
	if g.pct(g.P.Global) {
		g.add(&Op{K: OpGNf, N: -1, Tag: g.newTag(), HK: g.hk()})
	}
	if g.pct(g.P.Global) {
		ts, ks := g.tags(1)
		g.add(&Op{K: OpGNfMw, N: -1, Tags: ts, MKs: ks})
	}
}

// Configure gives all nodes settings.
func (g *Gen) Configure() {
	g.globalOps()
	for g.pct(g.P.RoMw) {
		ts, ks := g.tags(g.mwCount())
		g.add(&Op{K: OpRoPassMw, N: -1, Tags: ts, MKs: ks})
	}
	some := g.R.P(4)
	for _, n := range append([]*Node(nil), g.M.Order...) {
		late := some && g.R.P(3)
		g.settings(n, late)
		if late {
			g.late = append(g.late, n)
		}
	}
}

// lateOps sets the handlers of the nodes that have been left without them.
func (g *Gen) lateOps() {
	for _, n := range g.late {
		g.handlerOps(n)
		if g.pct(g.P.MethMw) {
			if ms := g.someMethods(n); ms != "" {
				ts, ks := g.tags(1)
				g.add(&Op{K: OpMethMw, N: n.ID, M: ms, Tags: ts, MKs: ks})
			}
		}
	}
	if g.late != nil && g.pct(g.P.Bulk/2) {
		g.BulkOp()
	}
	g.late = nil
}

// BulkOp adds a step that concerns a whole subtree.
func (g *Gen) BulkOp() {
	r := g.R
	scope := -1
	if !r.P(3) {
		scope = g.M.Order[r.N(len(g.M.Order))].ID
	}
	switch r.N(5) {
	case 0:
		g.add(&Op{K: OpBShared, N: scope, X: 1000 + g.newTag()})
	case 1:
		c := g.cfg(false, true)
		if c == nil {
			c = &Cfg{Sub: true}
		}
		if r.P(3) {
			c.Redir = false
		}
		if g.P.Sec == 0 {
			c.Redir = false
		}
		if g.pct(g.P.Sec) {
			c.Sec = true
		}
		if g.pct(g.P.TS) {
			c.TS = true
		}
		g.add(&Op{K: OpBConfig, N: scope, Cfg: c})
	case 2:
		ts, ks := g.tags(g.mwCount())
		g.add(&Op{K: OpBPassMw, N: scope, Tags: ts, MKs: ks})
	case 3:
		ts, ks := g.tags(g.mwCount())
		g.add(&Op{K: OpBHndMw, N: scope, Tags: ts, MKs: ks})
	case 4:
		ts, ks := g.tags(g.mwCount())
		ms := g.R.Pick("*", "!", "get", "GET, post", "put,delete,get", "* !", "lock", "options")
		g.add(&Op{K: OpBMethMw, N: scope, M: ms, Tags: ts, MKs: ks})
	}
}

// EndPhase closes a phase of the scenario.
func (g *Gen) EndPhase(conns []*Conn) {
	g.S.Phases = append(g.S.Phases, &Phase{Ops: g.ops, Conns: conns})
	g.ops = nil
}

// escape writes a path segment.
func (g *Gen) escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		must := c <= ' ' || c >= 0x7f || c == '%' || c == '/' || c == '?' || c == '#'
		if s == "." || s == ".." {
			must = true
		}
		if !must && strings.IndexByte("\"<>\\^`{|}", c) >= 0 && !g.R.P(3) {
			must = true
		}
		if !must && g.pct(g.P.Esc) {
			must = true
		}
		if c >= 0x80 && g.R.P(12) {
			must = false
		}
		if must {
			if g.R.P(3) {
				fmt.Fprintf(&b, "%%%02x", c)
			} else {
				fmt.Fprintf(&b, "%%%02X", c)
			}
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

func (g *Gen) someSegment() string {
	r := g.R
	if r.fromDict(dictSegs, 4) {
		return dictSeg(r, word(r))
	}
	switch r.N(4) {
	case 0:
		return staticPaths[r.N(len(staticPaths))]
	case 1:
		return pathProtos[r.N(len(pathProtos))].gen(r)
	case 2:
		return oddValue(r)
	}
	return r.Pick("nope", "x", "1", "foo", "deep")
}

// someValue makes the value of a custom argument; 0 is nil.
func someValue(r *Rng) int {
	if r.P(8) {
		return 0
	}
	return 1 + r.N(1000)
}

// near makes a string much like the given one.
func near(r *Rng, s string) string {
	if s == "" {
		return "x"
	}
	i := r.N(len(s))
	c := s[i]
	switch k := r.N(5); {
	case k == 0 || c >= 0x80:
		return s + r.Pick("x", "1", "-", s)
	case k == 1:
		return s[:i] + string(rune(c)) + s[i:]
	case k == 2:
		return s[:i] + s[i+1:]
	case c >= '0' && c <= '9':
		return s[:i] + digits(r) + s[i+1:]
	case k == 3:
		return strings.ToUpper(s)
	case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
		return s[:i] + string(rune(c^0x20)) + s[i+1:]
	}
	return s[:i] + "x" + s[i:]
}

// Request makes a request for some node or for nothing.
func (g *Gen) Request() *Req { return g.RequestFor(nil) }

// RequestFor makes a request for the node.
func (g *Gen) RequestFor(n *Node) *Req {
	p, r := g.P, g.R
	q := &Req{ID: g.req, Mount: -1, Meth: "GET"}
	g.req++
	if n == nil {
		n = g.M.Order[r.N(len(g.M.Order))]
	}
	chain := n.chainUp()
	var segs []string
	for _, a := range chain {
		switch a.Kind {
		case "host":
			q.Host = a.Tm.GenValue(r)
		case "res":
			segs = append(segs, a.Tm.GenValue(r))
		}
	}
	if chain[0].Kind != "host" {
		q.Host = r.Pick("unknown.test", "root.test", "")
		if len(g.M.Hosts) > 0 && r.P(20) {
			q.Host = "localhost"
		}
	}
	if g.pct(p.Mounts) {
		m := chain[r.N(len(chain))]
		q.Mount = m.ID
		if m.Kind == "res" {
			// Directly mounted, a resource matches the first segment.
			i := 0
			for k, a := range chain {
				if a == m {
					i = k
				}
			}
			if chain[0].Kind != "res" {
				i--
			}
			segs = segs[i:]
		}
	}
	if g.pct(p.BadHost) {
		q.Host = r.Pick("nobody.invalid", "", "foo.example.com", "x.y.z", "example.com", "[::1]", "127.0.0.1", "example.com.", "a-b.c_d.test", "[fe80::1]")
	}
	for _, n := range g.M.Order {
		if n.Kind == "host" && n.Tm.unclear(q.Host) {
			q.Host = "unknown.test"
		}
	}
	if g.pct(p.Port) && q.Host != "" {
		q.Host += r.Pick(":80", ":8080", ":443", ":", ":1")
	}
	if g.pct(p.Miss) {
		switch r.N(5) {
		case 0, 1:
			segs = append(segs, g.someSegment())
		case 2:
			k := 1 + r.N(4)
			if r.P(10) {
				k = 10 + r.N(100)
			}
			k = r.dictCount(k, 300, 4)
			for i := 0; i < k; i++ {
				segs = append(segs, g.someSegment())
			}
		case 3:
			if len(segs) > 0 {
				i := r.N(len(segs))
				if r.P(2) {
					segs[i] = near(r, segs[i])
					if strings.Trim(segs[i], ".") == "" {
						segs[i] = "x"
					}
				} else {
					segs[i] = g.someSegment()
				}
			}
		case 4:
			if len(segs) > 0 {
				segs = segs[:r.N(len(segs))]
			}
		}
	}
	if len(segs) > 0 && r.fromDict(dictSegs, 10) {
		i := r.N(len(segs))
		segs[i] = dictSeg(r, segs[i])
	}
	long := 0
	if r.P(1200) {
		long = r.PickI(260, 4100, 33000, 66000)
	}
	if n := r.dictCount(long, 1500, 10); n > 0 && len(segs) > 0 {
		s := segs[len(segs)-1]
		if len(s) < n {
			s += strings.Repeat("x", n-len(s))
		}
		segs[len(segs)-1] = s
	}
	for i, s := range segs {
		for _, n := range g.M.Order {
			if n.Kind == "res" && n.Tm.unclear(s) {
				segs[i] = "nope"
			}
		}
	}
	ts := n.has(fTS) && len(segs) > 0
	if n.Kind == "host" && len(segs) == 0 {
		ts = false
	}
	if g.pct(p.Slash) {
		ts = !ts
	}
	var b strings.Builder
	for i, s := range segs {
		b.WriteByte('/')
		if g.pct(p.Unclean) {
			switch r.N(4) {
			case 0:
				b.WriteString("/")
			case 1:
				b.WriteString("./")
			case 2:
				b.WriteString(g.escape(g.someSegment()) + "/../")
			case 3:
				if i == 0 {
					b.WriteString("../")
				} else {
					b.WriteString("//")
				}
			}
		}
		e := g.escape(s)
		if g.pct(p.BadEsc) && r.P(2) {
			e += r.Pick("%", "%zz", "%4")
		}
		b.WriteString(e)
	}
	if len(segs) == 0 || ts {
		b.WriteByte('/')
		if g.pct(p.Unclean / 2) {
			b.WriteString(r.Pick("/", ".", "./", "x/.."))
		}
	}
	q.Path = b.String()
	if g.pct(p.Query) {
		q.Path += g.query()
	}
	if g.pct(p.Abs) && q.Host != "" {
		q.Abs = true
		q.AbsS = r.P(3)
		q.NoHost = r.P(4)
	}
	if r.P(12) || r.fromDict(dictHeaders, 4) {
		g.headers(q)
	}
	if r.P(20) {
		q.Proto = 1 + r.N(2)
	}
	sec := false
	for _, a := range chain {
		if a.has(fSec) {
			sec = true
		}
	}
	if sec && g.pct(60) || g.pct(p.TLS) {
		q.TLS = true
	}
	if ms := n.methods(); len(ms) > 0 && !(g.pct(30) && n.Hs["GET"] != nil) {
		q.Meth = ms[r.N(len(ms))]
	}
	if g.pct(p.OddMeth) {
		g.oddMethod(q, n)
	}
	if q.Meth == "CONNECT" {
		q.Meth = "POST"
	}
	g.behaviours(q, n)
	if r.P(4) {
		q.Gap = int64(r.N(50))
	}
	if g.pct(p.Faults) {
		f := &Fault{}
		if r.P(2) {
			f.WriteFailAt = 1 + r.N(6)
		}
		if f.WriteFailAt == 0 || r.P(3) {
			f.CancelAt = 1 + int64(r.N(40))
		}
		q.Fault = f
	}
	if g.pct(p.Panics) && r.P(2) {
		if q.Fault == nil {
			q.Fault = &Fault{}
		}
		q.Fault.PanicAt = 1 + r.N(2)
	}
	if g.pct(p.Stall) && r.P(2) {
		if q.Fault == nil {
			q.Fault = &Fault{}
		}
		q.Fault.StallAt = 1 + r.N(2)
	}
	return q
}

// oddMethod takes a method the responder may have no handler for.
func (g *Gen) oddMethod(q *Req, n *Node) {
	r := g.R
	ms := n.methods()
	switch {
	case r.fromDict(dictMethods, 3):
		q.Meth = r.Pick(dictMethods...)
	case len(ms) > 0 && r.P(4):
		// Nearly one it has; methods are case-sensitive.
		m := ms[r.N(len(ms))]
		switch r.N(5) {
		case 0, 1:
			m = strings.ToLower(m)
		case 2:
			m = m[:1] + strings.ToLower(m[1:])
		case 3:
			m += r.Pick("S", "E", "A", "1", "-")
		case 4:
			if len(m) > 1 {
				m = m[:len(m)-1]
			}
		}
		q.Meth = m
	default:
		q.Meth = r.Pick("GET", "POST", "HEAD", "OPTIONS", "BREW", "GETX", "get", "DELETE", "X", "LOCK", "PUT", "TRACE", "AA", "ZZZ")
	}
}

// headers adds headers that mustn't make a difference.
func (g *Gen) headers(q *Req) {
	r := g.R
	for i, k := 0, 1+r.N(3); i < k; i++ {
		if r.fromDict(dictHeaders, 2) {
			v := r.Pick("1", "true", "https", "/x")
			if len(dictSegs) > 0 && r.P(2) {
				v = r.Pick(dictSegs...)
			}
			q.Hdr = append(q.Hdr, r.Pick(dictHeaders...)+": "+v)
			continue
		}
		q.Hdr = append(q.Hdr, r.Pick("X-Forwarded-Proto: https", "X-Forwarded-Proto: http", "Forwarded: proto=https;host=other.test",
			"X-Forwarded-Host: "+g.someHost(), "X-Forwarded-For: 127.0.0.1", "X-Http-Method-Override: "+r.Pick("POST", "OPTIONS", "DELETE", "GET"),
			"X-Original-Url: /x", "X-Rewrite-Url: /x", "Front-End-Https: on", "X-Forwarded-Ssl: on", "X-Url-Scheme: https", "X-Scheme: https",
			"Upgrade-Insecure-Requests: 1", "Connection: Upgrade", "Upgrade: websocket", "Access-Control-Request-Method: PUT",
			"Origin: https://other.test", "Expect: 100-continue", "Accept: text/html", "Accept: */*", "Accept-Encoding: gzip", "Cookie: a=b",
			"Referer: https://root.test/a", "Range: bytes=0-1", "If-None-Match: *", "X-Forwarded-Prefix: /p", "Connection: close",
			"Allow: X", "Location: /y", "X-Real-Ip: ::1", "Authorization: Basic YTpi", "Content-Type: application/x-www-form-urlencoded"))
	}
	if r.P(3) {
		q.Body = r.Pick("a=b", "_method=DELETE", "{}")
		q.Hdr = append(q.Hdr, "Content-Length: "+strconv.Itoa(len(q.Body)))
	}
}

// query returns a query: mostly of common forms, otherwise of arbitrary pieces.
func (g *Gen) query() string {
	r := g.R
	if r.P(3) {
		return r.Pick("?a=b", "?x=%2F&y", "?", "?q=a%20b&z=%C3%A9", "?a//b")
	}
	b := "?"
	if r.fromDict(dictSegs, 3) {
		b += r.Pick(dictSegs...) + r.Pick("", "=1", "=", "&a=b")
	}
	for i, k := 0, 1+r.N(7); i < k; i++ {
		b += r.Pick("a", "b=", "c=d", "&", "=", "?", "/", "//", "..", "/../", ";", "+", "%20", "%2F", "%2f", "%", "%zz", "%3D",
			"%00", "a=1", "a=2", ":", "@", "[]", "{", "|", "~", "http://x.test/y", "e", "ee", "\\", "'", ",", "$", "!", "*")
	}
	return b
}

// someHost is the host name of some host node or another one.
func (g *Gen) someHost() string {
	r := g.R
	if hs := g.M.Hosts; len(hs) > 0 && !r.P(4) {
		h := hs[r.N(len(hs))].Tm.GenValue(r)
		return h + r.Pick("", "", ":8080")
	}
	return r.Pick("nobody.invalid", "root.test", "example.com")
}

func (n *Node) oneOf(r *Rng) string {
	if ms := n.methods(); len(ms) > 0 {
		return ms[r.N(len(ms))]
	}
	return "PUT"
}

// tagsOn collects the tags a request for the node may meet.
func (g *Gen) tagsOn(n *Node, meth string) (mws, hs []int) {
	add := func(ms []Mw) {
		for _, m := range ms {
			mws = append(mws, m.Tag)
		}
	}
	add(g.M.PassMw)
	for _, a := range n.chainUp() {
		if a != n {
			add(a.PassMw)
		}
		if a.has(fSub) && a != n {
			add(a.HndMw)
			if c := a.Hs[meth]; c != nil {
				if c.Tag != 0 {
					hs = append(hs, c.Tag)
				}
				add(c.Mws)
			}
		}
	}
	if g.R.P(4) {
		add(n.PassMw)
	}
	add(n.HndMw)
	c := n.Hs[meth]
	if c == nil {
		c = n.NA
	}
	if c != nil {
		if c.Tag != 0 {
			hs = append([]int{c.Tag}, hs...)
		}
		add(c.Mws)
	}
	if g.R.P(3) {
		add(g.M.GNf.Mws)
		if g.M.GNf.Tag != 0 {
			hs = append(hs, g.M.GNf.Tag)
		}
	}
	return
}

func (g *Gen) someActs(nest bool) []Act {
	p, r := g.P, g.R
	var as []Act
	if g.pct(p.Sets) {
		for i, k := 0, 1+r.N(3); i < k; i++ {
			as = append(as, Act{K: "set", A: r.N(nKeys), B: someValue(r)})
		}
		if r.P(60) {
			for i, k := 0, r.dictCount(5+r.N(2*allKeys), 300, 2); i < k; i++ {
				as = append(as, Act{K: "set", A: r.N(allKeys), B: someValue(r)})
			}
		}
	}
	if g.pct(p.Sleeps) {
		as = append(as, Act{K: "sleep", A: 1 + r.N(30)})
	}
	if g.pct(p.Look) {
		as = append(as, Act{K: "look"})
	}
	if nest && g.pct(p.Nest) {
		old := *p
		np := *p
		np.Nest = p.Nest / 3
		np.Stall = 0
		g.P = &np
		sub := g.Request()
		g.P = &old
		g.P = p
		sub.Gap = 0
		sub.Fault = nil
		sub.Inherit = r.P(2)
		as = append(as, Act{K: "nest", Sub: sub})
	}
	return as
}

func (g *Gen) behaviours(q *Req, n *Node) {
	p, r := g.P, g.R
	mws, hs := g.tagsOn(n, q.Meth)
	gnf := map[int]bool{g.M.GNf.Tag: true}
	for _, m := range g.M.GNf.Mws {
		gnf[m.Tag] = true
	}
	seen := map[int]bool{}
	for _, t := range mws {
		if seen[t] {
			continue
		}
		seen[t] = true
		b := Beh{Tag: t}
		switch {
		case g.pct(p.Drop):
			b.K = r.Pick("drop", "drop", "swal", "ans", "ovr", "ovr")
			if gnf[t] {
				b.K = "ans"
			}
		case g.pct(p.Veto):
			b.K = r.Pick("veto", "adopt")
			if gnf[t] {
				b.K = "adopt"
			}
		case g.pct(p.Rewr):
			b.K = "rewr"
			if r.P(2) {
				b.RM = r.Pick(n.oneOf(r), "GET", "POST", "OPTIONS", "NOPE", "HEAD")
			}
			if r.P(3) {
				b.RH = g.someHost()
			}
			b.RT = b.RM == "" && b.RH == "" || r.P(4)
		case g.pct(p.Panics):
			b.K = r.Pick("panb", "pana")
		case g.pct(p.Rec):
			b.K = "rec"
		case g.pct(p.Mark):
			b.K = "mark"
		case g.pct(p.Stall):
			b.K = "stall"
		}
		b.Pre = g.someActs(true)
		if r.P(4) {
			b.Post = g.someActs(false)
		}
		if b.K != "" || b.Pre != nil || b.Post != nil {
			q.Beh = append(q.Beh, b)
		}
	}
	for i, t := range hs {
		if seen[t] {
			continue
		}
		seen[t] = true
		b := Beh{Tag: t}
		dec := p.Dec
		if i > 0 {
			dec = p.Dec / 3
		}
		switch {
		case g.pct(dec):
			b.K = "dec"
			if gnf[t] {
				b.K = "ok"
			}
		case g.pct(p.Panics):
			b.K = r.Pick("pan", "part")
		case g.pct(p.Abort):
			b.K = "abt"
		case g.pct(p.Stall):
			b.K = "stall"
		case g.pct(p.Multi):
			b.K = r.Pick("multi", "sil")
		}
		b.Pre = g.someActs(true)
		if b.K != "" || b.Pre != nil {
			q.Beh = append(q.Beh, b)
		}
	}
	for _, t := range g.rds {
		if g.pct(p.RdBeh) {
			q.Beh = append(q.Beh, Beh{Tag: t, K: r.Pick("panb", "drop", "alt", "ans", "veto")})
		}
	}
	for _, t := range g.rdhs {
		if g.pct(p.RdBeh) {
			q.Beh = append(q.Beh, Beh{Tag: t, K: r.Pick("panb", "dec", "dec")})
		}
	}
}

// crowd makes many clients whose requests, most of the time, are stuck until
// all the others have been served.
func (g *Gen) crowd(k int) (cs []*Conn) {
	var kinds []*Req
	for i, n := 0, 1+g.R.N(3); i < n; i++ {
		n := g.M.Order[g.R.N(len(g.M.Order))]
		q := g.RequestFor(n)
		q.Fault, q.Gap, q.Beh = nil, 0, nil
		mws, hs := g.tagsOn(n, q.Meth)
		seen := map[int]bool{}
		for _, t := range append(hs, mws...) {
			if !seen[t] {
				q.Beh = append(q.Beh, Beh{Tag: t, K: "stall"})
			}
			seen[t] = true
		}
		if g.R.P(3) {
			q.Fault = &Fault{StallAt: 1 + g.R.N(2)}
			if g.R.P(2) {
				q.Beh = nil
			}
		}
		kinds = append(kinds, q)
	}
	for i := 0; i < k; i++ {
		q := *kinds[g.R.N(len(kinds))]
		q.ID = g.req
		g.req++
		if g.R.P(20) {
			q.Beh, q.Fault = nil, nil
		}
		cs = append(cs, &Conn{Reqs: []*Req{&q}})
	}
	return
}

// Conns makes clients with requests.
func (g *Gen) Conns() []*Conn {
	g.lateOps()
	p, r := g.P, g.R
	k := r.dictCount(g.rangeOf(p.Conns), 200, 40)
	long := g.pct(p.Long)
	many := !long && p.Long > 0 && r.P(150)
	if len(dictInts) > 0 && !long && p.Long > 0 && r.P(15) {
		many = true
	}
	switch {
	case long:
		k = 2 + r.N(20)
	case many:
		k = 1 + r.N(3)
	}
	var out []*Conn
	for i := 0; i < k; i++ {
		c := &Conn{}
		n := g.rangeOf(p.Reqs)
		if long {
			n = 2 + r.N(8)
		} else if many && r.P(2) {
			n = 50 + r.N(200)
		}
		for j := 0; j < n; j++ {
			c.Reqs = append(c.Reqs, g.Request())
		}
		if many && n < 20 {
			stalls := false
			for _, q := range c.Reqs {
				stalls = stalls || q.stalls()
			}
			if !stalls {
				c.Times = 2 + r.N(r.PickI(40, 400, 1200)/n)
				c.Times = r.dictCount(c.Times, 1200/n, 2)
			}
		}
		out = append(out, c)
	}
	return out
}

// Kern picks a schedule.
func (g *Gen) Kern() {
	r := g.R
	k := rt.Config{Seed: r.U(), MapSeed: r.U()}
	strats := g.P.Strat
	if strats == nil {
		strats = []int{rt.StratSerial, rt.StratRandom, rt.StratRandom, rt.StratRandom, rt.StratPCT, rt.StratPCT, rt.StratSites, rt.StratSites, rt.StratPool}
	}
	k.Strat = strats[r.N(len(strats))]
	k.Q = r.PickI(1, 2, 3, 5, 10, 30, 100, 300)
	if k.Strat == rt.StratSites {
		k.Q = r.PickI(3, 10, 30, 100)
	}
	k.D = 1 + r.N(8)
	k.Est = int64(r.PickI(100, 500, 2000, 8000, 30000))
	k.PoolMode = r.PickI(rt.PoolLIFO, rt.PoolLIFO, rt.PoolLIFO, rt.PoolFIFO, rt.PoolRandom, rt.PoolRandom, rt.PoolFresh)
	if r.P(4) {
		k.PoolDrop = 2 + r.N(6)
	}
	g.S.Kern = k
}
