package world

import (
	"github.com/shohruhadham/nanomux"
)

// With the style "apart" the steps on a responder wait until the tree is
// assembled. It's assembled in random steps: a waiting step is executed at
// the router or at a responder that exists, which may create the responder,
// or a fragment of the tree is built apart and registered. The same node may
// be a part of many fragments, but it's configured in one place only: every
// other responder for it has no handlers and gives way.

// later tells whether the step can wait, and if it can, lets it wait.
func (l *Lib) later(op *Op) bool {
	if op.N < 0 {
		return false
	}
	switch op.K {
	case OpHandler, OpImpl, OpPassMw, OpHndMw, OpMethMw, OpShared, OpCode, OpRdH, OpRdMw, OpRedirect, OpRedAny:
		l.pend[op.N] = append(l.pend[op.N], op)
		return true
	}
	return false
}

// needsAll tells whether the step depends on steps that may be waiting.
func (l *Lib) needsAll(op *Op) bool {
	switch op.K {
	case OpConfig, OpRefuse:
		return true
	case OpGRdH, OpGRdMw:
		for _, ops := range l.pend {
			for _, p := range ops {
				if p.K == OpRdMw {
					return true
				}
			}
		}
	}
	return false
}

// todo lists the nodes that aren't complete.
func (l *Lib) todo() (out []*Node) {
	for _, n := range l.m.Order {
		if l.obj[n.ID] == nil || len(l.pend[n.ID]) > 0 {
			out = append(out, n)
		}
	}
	return out
}

// assemble completes the tree.
func (l *Lib) assemble(id int) string {
	rng := NewRng(l.build, uint64(id+1), 5)
	frags := 2 + rng.N(2*len(l.m.Order)+1)
	share := rng.PickI(1, 2, 4)
	for {
		todo := l.todo()
		if len(todo) == 0 {
			return ""
		}
		n := todo[rng.N(len(todo))]
		var e string
		if frags > 0 && rng.N(share+1) > 0 {
			frags--
			up := n.chainUp()
			e = catch(func() { l.fragment(up[rng.N(len(up))], rng) })
			if e != "" {
				e = "(assembling) " + e
			}
		} else if ops := l.pend[n.ID]; len(ops) > 0 {
			l.pend[n.ID] = ops[1:]
			e = catch(func() { l.exec(ops[0]) })
		} else {
			e = catch(func() { l.mat(n) })
		}
		if e != "" {
			return e
		}
	}
}

// frag is a part of the tree that is being built apart.
type frag struct {
	l    *Lib
	rng  *Rng
	top  *Node
	can  map[int]bool               // nodes that may get their own object here
	bare map[int]bool               // ... which have no handlers
	used map[int]bool               // nodes the fragment has a responder for
	own  map[int]responder          // objects that have been built here
	has  map[responder]map[int]bool // what is below an object that is being built
	k    int
}

func handlersOf(o responder) bool { return len(o.AllowedHTTPMethods()) > 0 }

func opFlags(op *Op) int {
	f := 0
	if op.Cfg != nil {
		c := op.Cfg
		if op.Kind == "root" {
			c = rootCfg(c)
		}
		f = c.flags()
	}
	if op.Sec {
		f |= fSec
	}
	if op.TS && op.Kind != "root" {
		f |= fTS
	}
	return f
}

// given counts the waiting steps that leave the responder with handlers.
func (l *Lib) given(n *Node) (ks []int) {
	h := false
	for i, op := range l.pend[n.ID] {
		switch op.K {
		case OpHandler:
			if ms := splitMethods(op.M); len(ms) != 1 || ms[0] != "!" {
				h = true
			}
		case OpImpl:
			if ms := implMethods[op.X]; len(ms) > 0 {
				h = len(ms) > 1 || ms[0] != "!"
			}
		}
		if h {
			ks = append(ks, i+1)
		}
	}
	return ks
}

func (n *Node) unchanged() bool { return n.Flags == opFlags(n.Op) }

func (l *Lib) present(n *Node) bool { return l.obj[n.ID] != nil || l.imp[n.ID] }

// fragment builds and registers a part of the tree.
func (l *Lib) fragment(top *Node, rng *Rng) {
	f := &frag{l: l, rng: rng, top: top, can: map[int]bool{}, bare: map[int]bool{}, used: map[int]bool{}, own: map[int]responder{}, has: map[responder]map[int]bool{}}
	l.prepare(top)
	part := rng.PickI(0, 50, 100)
	consider := func(n *Node) {
		if l.obj[n.ID] != nil || !rng.Pct(part) || !n.unchanged() {
			return
		}
		if len(l.given(n)) > 0 {
			f.can[n.ID] = true
		} else if !l.present(n) && rng.P(2) {
			f.can[n.ID] = true
			f.bare[n.ID] = true
		}
	}
	consider(top)
	top.subtree(consider)
	f.k = 1 + rng.N(6)
	if !f.can[top.ID] && !f.ghost(top) {
		return
	}
	meets := l.present(top)
	var u string
	var register func(o responder)
	switch top.Kind {
	case "host":
		u = hostURL(top, top.Op.Sec, top.Op.TS, rng)
		register = func(o responder) { l.ro.RegisterHost(o.(*nanomux.Host)) }
	case "root":
		u = relPath(nil, top, top.Op.Sec, false, rng)
		register = func(o responder) {
			if rng.P(2) {
				l.ro.RegisterResource(o.(*nanomux.Resource))
			} else {
				l.ro.RegisterResourceUnder("", o.(*nanomux.Resource))
			}
		}
	default:
		var reg func(r *nanomux.Resource)
		u, reg = l.registration(top, rng)
		register = func(o responder) { reg(o.(*nanomux.Resource)) }
	}
	if l.present(top) && !meets {
		// It has been created on the way to its parent.
		return
	}
	o := f.build(top, u)
	l.look(top.ID<<10+1, o)
	register(o)
	l.look(top.ID<<10 + 2)
	kind := "without handlers"
	if handlersOf(o) {
		kind = "with handlers"
	}
	if meets {
		l.merged("a fragment " + kind + " meets a responder")
	} else {
		l.merged("a fragment " + kind + " is new")
	}
	for id := range f.used {
		l.imp[id] = true
	}
	for id, o := range f.own {
		l.obj[id] = o
	}
	l.imp[top.ID] = true
	l.markImplicit(top)
}

func (l *Lib) merged(k string) {
	if l.Merges == nil {
		l.Merges = map[string]int{}
	}
	l.Merges[k]++
}

// below tells whether a responder that may get its own object is above n.
func (f *frag) below(n *Node) bool {
	for a := n; a != f.top; {
		a = a.P
		if f.can[a.ID] {
			return true
		}
	}
	return false
}

// ghost tells whether a responder without handlers may be built for n. When
// two responders without handlers meet, only the one that has been registered
// first is kept with its settings. A responder with handlers above n may turn
// the order round.
func (f *frag) ghost(n *Node) bool {
	if !n.unchanged() {
		return false
	}
	return !f.below(n) || f.keepable(n)
}

func (f *frag) keepable(n *Node) bool {
	if f.bare[n.ID] {
		return false
	}
	o := f.l.obj[n.ID]
	return o == nil || handlersOf(o)
}

// dormant tells whether a responder for n may be created as a part of a path.
func (f *frag) dormant(n *Node) bool {
	return !f.below(n) || f.keepable(n)
}

// owner tells whether the object for n that is being built is its own one.
func (f *frag) owner(n *Node) bool {
	return f.can[n.ID] && f.own[n.ID] == nil && !(f.bare[n.ID] && f.used[n.ID])
}

// configure executes some of the waiting steps on the node's own object. The
// first ones may have been executed already.
func (f *frag) configure(n *Node, o responder, done int) {
	l := f.l
	pend := l.pend[n.ID]
	k := f.rng.N(len(pend) + 1)
	if ks := l.given(n); len(ks) > 0 {
		k = ks[f.rng.N(len(ks))]
	}
	for _, op := range pend[done:max(k, done)] {
		l.execOn(op, o)
	}
	l.pend[n.ID] = pend[max(k, done):]
	f.own[n.ID] = o
}

// build builds a responder for n with some of what is below it.
func (f *frag) build(n *Node, u string) responder {
	l, op := f.l, n.Op
	own := f.owner(n)
	var o responder
	done := 0
	impl := 0
	if pend := l.pend[n.ID]; own && len(pend) > 0 && pend[0].K == OpImpl && n.Kind != "root" && f.rng.P(2) {
		if ks := l.given(n); len(ks) == 0 || ks[len(ks)-1] >= 1 {
			impl = 1
		}
	}
	switch {
	case n.Kind == "host" && impl == 1:
		im := l.impl(l.pend[n.ID][0].X, l.pend[n.ID][0].Tag)
		if op.Cfg != nil {
			l.api("NewHostUsingConfig")
			o = nanomux.NewHostUsingConfig(u, im, op.newCfg())
		} else {
			l.api("NewHost")
			o = nanomux.NewHost(u, im)
		}
		done = 1
	case n.Kind == "host":
		if op.Cfg != nil {
			l.api("NewDormantHostUsingConfig")
			o = nanomux.NewDormantHostUsingConfig(u, op.newCfg())
		} else {
			l.api("NewDormantHost")
			o = nanomux.NewDormantHost(u)
		}
	case impl == 1:
		im := l.impl(l.pend[n.ID][0].X, l.pend[n.ID][0].Tag)
		if op.Cfg != nil {
			l.api("NewResourceUsingConfig")
			o = nanomux.NewResourceUsingConfig(u, im, op.newCfg())
		} else {
			l.api("NewResource")
			o = nanomux.NewResource(u, im)
		}
		done = 1
	default:
		o = l.newResource(u, op)
	}
	early := f.rng.P(2)
	if own && early {
		f.configure(n, o, done)
	}
	f.used[n.ID] = true
	f.has[o] = map[int]bool{}
	var desc []*Node
	n.subtree(func(d *Node) { desc = append(desc, d) })
	for len(desc) > 0 && f.k > 0 && !f.rng.P(4) {
		f.k--
		f.attach(n, o, desc[f.rng.N(len(desc))])
	}
	if own && !early {
		f.configure(n, o, done)
	}
	return o
}

// attach puts a responder for d, which is below n, into the fragment at the
// object for n.
func (f *frag) attach(n *Node, o responder, d *Node) {
	if l := f.l; l.inOrder() {
		for a := d; a != n; a = a.P {
			for _, s := range l.patternsBefore(a) {
				if !f.has[o][s.ID] {
					f.attach(n, o, s)
					return
				}
			}
		}
	}
	l, rng, op := f.l, f.rng, d.Op
	for a := d.P; a != n; a = a.P {
		if !f.dormant(a) {
			return
		}
	}
	own := f.owner(d)
	if !own && !f.ghost(d) {
		return
	}
	for a := d.P; a != n; a = a.P {
		f.used[a.ID] = true
		f.has[o][a.ID] = true
	}
	f.has[o][d.ID] = true
	with := func(r responder) {
		for id := range f.has[r] {
			f.has[o][id] = true
		}
	}
	if rng.P(3) {
		u := relPath(n, d, op.Sec, op.TS, rng)
		var r *nanomux.Resource
		if op.Cfg != nil {
			l.api("apart: ResourceUsingConfig")
			r = o.ResourceUsingConfig(u, op.Cfg.lib())
		} else {
			l.api("apart: Resource")
			r = o.Resource(u)
		}
		f.used[d.ID] = true
		if own {
			f.configure(d, r, 0)
		}
		return
	}
	if n.Kind != "res" && n == f.top && rng.P(3) {
		r := f.build(d, relPath(nil, d, op.Sec, op.TS, rng))
		with(r)
		if rng.P(3) {
			pp := l.under(n, d.P, rng)
			l.api("apart: RegisterResourceUnder(url)")
			o.RegisterResourceUnder(pp, r.(*nanomux.Resource))
			return
		}
		l.api("apart: RegisterResource(url)")
		o.RegisterResource(r.(*nanomux.Resource))
		return
	}
	r := f.build(d, relPath(d.P, d, op.Sec, op.TS, rng)).(*nanomux.Resource)
	with(r)
	if d.P == n && rng.P(2) {
		l.api("apart: RegisterResource")
		o.RegisterResource(r)
		return
	}
	pp := l.under(n, d.P, rng)
	l.api("apart: RegisterResourceUnder")
	o.RegisterResourceUnder(pp, r)
}
