package world

import (
	"fmt"
	"sort"
	"strings"
)

// Mw is a reference to a middleware.
type Mw struct {
	Tag int
	Std bool
}

// Chain is a handler with the middlewares around it, the last one outermost.
type Chain struct {
	Tag  int // 0: the library's own
	Std  bool
	Opt  bool // the library's OPTIONS handler
	Mws  []Mw
	Kind string
}

func (c *Chain) wrap(ms []Mw) *Chain {
	n := *c
	n.Mws = append(append([]Mw(nil), c.Mws...), ms...)
	return &n
}

// RdChain is a redirect handler with its middlewares.
type RdChain struct {
	Tag int // 0: the library's own
	Mws []int
}

// Redir is a configured redirect.
type Redir struct {
	URL  string
	Code int
}

// Node is a responder of the model.
type Node struct {
	ID     int
	Kind   string // host, root, res
	P      *Node
	Kids   []*Node
	Tm     *Tmpl
	Flags  int
	Hs     map[string]*Chain
	NA     *Chain
	PassMw []Mw
	HndMw  []Mw
	Impl   int
	Shared int
	Code   int
	Rd     *RdChain
	RdReq  *Redir
	RdAny  *Redir
	Op     *Op
}

// Model is the reference model of a router.
type Model struct {
	Nodes  map[int]*Node
	Order  []*Node
	Hosts  []*Node
	Root   *Node
	PassMw []Mw

	GCode int
	GRd   *RdChain
	GNf   *Chain

	other *Model // of the other tree
}

// NewModel returns the model of an empty router.
func NewModel() *Model {
	return &Model{Nodes: map[int]*Node{}, GRd: &RdChain{}, GNf: &Chain{}}
}

func (n *Node) has(f int) bool { return n.Flags&f == f }

func (n *Node) canHandle() bool { return len(n.Hs) > 0 }

func (n *Node) methods() []string {
	var ms []string
	for m := range n.Hs {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	return ms
}

// chainUp returns the nodes from the top down to n.
func (n *Node) chainUp() []*Node {
	var out []*Node
	for p := n; p != nil; p = p.P {
		out = append([]*Node{p}, out...)
	}
	return out
}

func mwsOf(op *Op) []Mw {
	var out []Mw
	for i, t := range op.Tags {
		k := ""
		if i < len(op.MKs) {
			k = op.MKs[i]
		}
		out = append(out, Mw{t, k == "std"})
	}
	return out
}

func splitMethods(m string) []string {
	return strings.FieldsFunc(strings.ToUpper(m), func(r rune) bool { return r == ',' || r == ' ' })
}

// implMethods lists the methods of the predeclared implementation types; "!"
// is the not-allowed handler.
var implMethods = map[int][]string{
	1: {"GET"},
	2: {"GET", "POST"},
	3: {"GET", "PUT", "!"},
	4: {},
	5: {"LOCK", "OPTIONS", "GET"},
	6: {"GET", "POST", "PUT", "PATCH", "DELETE", "HEAD", "LOCK", "UNLOCK", "COPY", "MOVE", "MKCOL", "PROPFIND", "SEARCH", "BIND", "LINK", "REPORT", "TRACE", "VIEW"},
	7: {"!"},
	8: {"GET", "PUT"},
	9: {"GET", "PUT", "!", "COPY"},
}

// implTag gives the tag of the handler of an implementation.
func implTag(base int, m string) int {
	if m == "!" {
		return base + 31
	}
	all := implMethods[6]
	for i, x := range all {
		if x == m {
			return base + i
		}
	}
	if m == "OPTIONS" {
		return base + 30
	}
	return base + 29
}

func (n *Node) setHandler(m string, c *Chain) {
	if n.Hs == nil {
		n.Hs = map[string]*Chain{}
	}
	n.Hs[m] = c
}

func (n *Node) addOptions() {
	if len(n.Hs) > 0 && n.Hs["OPTIONS"] == nil {
		n.setHandler("OPTIONS", &Chain{Opt: true})
	}
}

func (n *Node) wrapMethods(methods string, ms []Mw, bulk bool) error {
	list := splitMethods(methods)
	if !bulk && !n.canHandle() && n.NA == nil {
		return fmt.Errorf("no handler exists")
	}
	each := func(m string) error {
		switch m {
		case "!":
			if n.NA == nil {
				n.NA = &Chain{}
			}
			n.NA = n.NA.wrap(ms)
		case "*":
			for _, x := range n.methods() {
				n.Hs[x] = n.Hs[x].wrap(ms)
			}
		default:
			c := n.Hs[m]
			if c == nil {
				return fmt.Errorf("no handler for %s", m)
			}
			n.Hs[m] = c.wrap(ms)
		}
		return nil
	}
	for _, m := range list {
		if err := each(m); err != nil && !bulk {
			return err
		}
	}
	return nil
}

func (n *Node) setConfig(c Cfg) {
	if n.Kind == "root" {
		c.TS, c.Strict, c.Len = false, false, false
		if c.AsIs {
			c.AsIs, c.Unc = false, true
		}
	}
	n.Flags = n.Flags&(fSec|fTS) | c.flags()
}

func (n *Node) subtree(f func(*Node)) {
	for _, k := range n.Kids {
		f(k)
		k.subtree(f)
	}
}

// each calls f for every node in scope of a bulk operation.
func (m *Model) each(id int, f func(*Node)) {
	if id >= 0 {
		m.Nodes[id].subtree(f)
		return
	}
	for _, h := range m.Hosts {
		f(h)
		h.subtree(f)
	}
	if m.Root != nil {
		f(m.Root)
		m.Root.subtree(f)
	}
}

// Names that must differ along a URL and among siblings.
func (m *Model) nameClash(p *Node, t *Tmpl, self *Node) string {
	var sibs []*Node
	if p == nil {
		sibs = m.Hosts
	} else {
		sibs = p.Kids
	}
	n := t.EffName()
	for _, s := range sibs {
		if s == self {
			continue
		}
		if n != "" && s.Tm.EffName() == n {
			return "sibling"
		}
		if SameTmpl(s.Tm, t) {
			return "same"
		}
	}
	for a := p; a != nil; a = a.P {
		if a.Tm == nil {
			continue
		}
		if n != "" && a.Tm.EffName() == n {
			return "name"
		}
		for _, v := range t.ValueNames() {
			if has(a.Tm.ValueNames(), v) {
				return "value"
			}
		}
	}
	return ""
}

// Apply applies a step. It fails if the step makes no sense on its own (which
// happens while a scenario is being minimised).
func (m *Model) Apply(op *Op) error {
	var n *Node
	if op.N >= 0 && op.K != OpNode {
		n = m.Nodes[op.N]
		if n == nil {
			return fmt.Errorf("no node %d", op.N)
		}
	}
	need := func() error {
		if n == nil {
			return fmt.Errorf("needs a node")
		}
		return nil
	}
	switch op.K {
	case OpNode:
		var p *Node
		if op.Kind == "res" {
			p = m.Nodes[op.P]
			if p == nil {
				return fmt.Errorf("no parent")
			}
		}
		if m.Nodes[op.N] != nil {
			return fmt.Errorf("node exists")
		}
		nn := &Node{ID: op.N, Kind: op.Kind, P: p, Tm: op.Tm, Op: op}
		if op.Kind == "root" {
			if m.Root != nil {
				return fmt.Errorf("root exists")
			}
			m.Root = nn
		} else {
			if c := m.nameClash(p, op.Tm, nil); c != "" {
				return fmt.Errorf("clash %s", c)
			}
			if p == nil {
				m.Hosts = append(m.Hosts, nn)
			} else {
				p.Kids = append(p.Kids, nn)
			}
		}
		if op.Cfg != nil {
			c := *op.Cfg
			if op.Kind == "root" {
				c.TS, c.Strict, c.Len = false, false, false
				if c.AsIs {
					c.AsIs, c.Unc = false, true
				}
			}
			nn.Flags = c.flags()
		}
		if op.Sec {
			nn.Flags |= fSec
		}
		if op.TS && op.Kind != "root" {
			nn.Flags |= fTS
		}
		if op.Kind == "host" && op.TS {
			nn.Flags |= fTS
		}
		m.Nodes[op.N] = nn
		m.Order = append(m.Order, nn)
	case OpHandler:
		if err := need(); err != nil {
			return err
		}
		c := &Chain{Tag: op.Tag, Std: op.HK != "" && op.HK != "n", Kind: op.HK}
		ms := splitMethods(op.M)
		if len(ms) == 1 && ms[0] == "!" {
			n.NA = c
			break
		}
		for _, x := range ms {
			n.setHandler(x, c)
		}
		n.addOptions()
	case OpImpl:
		if err := need(); err != nil {
			return err
		}
		n.Impl = op.Tag
		ms := implMethods[op.X]
		if len(ms) == 0 {
			break
		}
		n.Hs, n.NA, n.HndMw = nil, nil, nil
		for _, x := range ms {
			c := &Chain{Tag: implTag(op.Tag, x), Kind: "i"}
			if x == "!" {
				n.NA = c
			} else {
				n.setHandler(x, c)
			}
		}
		n.addOptions()
	case OpPassMw:
		if err := need(); err != nil {
			return err
		}
		n.PassMw = append(n.PassMw, mwsOf(op)...)
	case OpHndMw:
		if err := need(); err != nil {
			return err
		}
		n.HndMw = append(n.HndMw, mwsOf(op)...)
	case OpMethMw:
		if err := need(); err != nil {
			return err
		}
		return n.wrapMethods(op.M, mwsOf(op), false)
	case OpShared:
		if err := need(); err != nil {
			return err
		}
		n.Shared = op.X
	case OpConfig:
		if err := need(); err != nil {
			return err
		}
		n.setConfig(*op.Cfg)
	case OpCode:
		if err := need(); err != nil {
			return err
		}
		n.Code = op.Code
	case OpRdH:
		if err := need(); err != nil {
			return err
		}
		n.Rd = &RdChain{Tag: op.Tag}
	case OpRdMw:
		if err := need(); err != nil {
			return err
		}
		base := n.Rd
		if base == nil {
			base = m.GRd
		}
		n.Rd = &RdChain{base.Tag, append(append([]int(nil), base.Mws...), op.Tags...)}
	case OpRedirect:
		if err := need(); err != nil {
			return err
		}
		n.RdReq = &Redir{op.URL, op.Code}
	case OpRedAny:
		if err := need(); err != nil {
			return err
		}
		n.RdAny = &Redir{op.URL, op.Code}
	case OpBShared:
		m.each(op.N, func(x *Node) {
			if x.Shared == 0 {
				x.Shared = op.X
			}
		})
	case OpBConfig:
		m.each(op.N, func(x *Node) {
			if x.Flags&^(fSec|fTS) == 0 {
				x.setConfig(*op.Cfg)
			}
		})
	case OpBPassMw:
		m.each(op.N, func(x *Node) { x.PassMw = append(x.PassMw, mwsOf(op)...) })
	case OpBHndMw:
		m.each(op.N, func(x *Node) { x.HndMw = append(x.HndMw, mwsOf(op)...) })
	case OpBMethMw:
		m.each(op.N, func(x *Node) {
			if x.canHandle() {
				x.wrapMethods(op.M, mwsOf(op), true)
			}
		})
	case OpRoPassMw:
		m.PassMw = append(m.PassMw, mwsOf(op)...)
	case OpGCode:
		m.GCode = op.Code
	case OpGRdH:
		m.GRd = &RdChain{Tag: op.Tag}
	case OpGRdMw:
		m.GRd = &RdChain{m.GRd.Tag, append(append([]int(nil), m.GRd.Mws...), op.Tags...)}
	case OpGNf:
		m.GNf = &Chain{Tag: op.Tag, Std: op.HK != "" && op.HK != "n", Kind: op.HK}
	case OpGNfMw:
		m.GNf = m.GNf.wrap(mwsOf(op))
	case OpRefuse:
	default:
		return fmt.Errorf("unknown step %q", op.K)
	}
	return nil
}
