package world

import (
	"context"
	"fmt"
	"net/url"
	"sort"
	"strings"

	"github.com/shohruhadham/nanomux"
)

// Calls that have to be refused. A refused call must leave everything as it
// was: the tree of the router and the responders that were to be registered.

// snapshot prints everything reachable from the router. Objects are numbered
// in the order in which they have been seen for the first time.
type snapper struct {
	l    *Lib
	ids  map[responder]int
	seen []responder
}

func (s *snapper) id(o responder) int {
	if id, ok := s.ids[o]; ok {
		return id
	}
	s.ids[o] = len(s.seen)
	s.seen = append(s.seen, o)
	return s.ids[o]
}

func (s *snapper) print(o responder, b *[]string, parent int, ro *nanomux.Router) {
	id := s.id(o)
	sh := dataID(o.SharedData())
	ms := append([]string(nil), o.AllowedHTTPMethods()...)
	sort.Strings(ms)
	line := fmt.Sprintf("#%d below #%d %q name %q flags %07b/%07b shared %v impl %d methods %v not-allowed %v code %d", id, parent,
		o.Template().String(), o.Name(), flagsOf(o.Configuration()), flagsAsked(o), sh, implID(o.Implementation()), ms,
		o.HandlerOf("!") != nil, o.PermanentRedirectCode())
	if o.Router() != ro {
		line += " another router"
	}
	if r, ok := o.(*nanomux.Resource); ok {
		if p := r.Parent(); p != nil {
			if s.id(p) != parent {
				line += fmt.Sprintf(" but its parent is #%d", s.id(p))
			}
		}
		if h := r.Host(); h != nil {
			line += fmt.Sprintf(" host #%d", s.id(h))
		}
	}
	if u, err := o.URL(nil); err == nil {
		line += " " + u.String()
	}
	kids := o.ChildResources()
	var static, rest []*nanomux.Resource
	for _, k := range kids {
		if k.Template().IsStatic() {
			static = append(static, k)
		} else {
			rest = append(rest, k)
		}
	}
	sort.Slice(static, func(i, j int) bool { return static[i].Template().String() < static[j].Template().String() })
	for _, k := range append(static, rest...) {
		line += fmt.Sprintf(" #%d", s.id(k))
		if !o.HasChildResource(k) || k.Name() != "" && o.ChildResourceNamed(k.Name()) != k {
			line += "!"
		}
	}
	*b = append(*b, line)
	for _, k := range append(static, rest...) {
		s.print(k, b, id, ro)
	}
}

// hosts prints the hosts of a router and what is below them.
func (s *snapper) hosts(ro *nanomux.Router, b *[]string) {
	hs := ro.Hosts()
	var static, rest []*nanomux.Host
	for _, h := range hs {
		if h.Template().IsStatic() {
			static = append(static, h)
		} else {
			rest = append(rest, h)
		}
	}
	sort.Slice(static, func(i, j int) bool { return static[i].Template().String() < static[j].Template().String() })
	for _, h := range append(static, rest...) {
		s.print(h, b, -1, ro)
	}
}

// all prints the router and the given responders.
func (s *snapper) all(det ...responder) (b []string) {
	l := s.l
	s.hosts(l.ro, &b)
	if l.m.Root != nil {
		if r := l.obj[l.m.Root.ID]; r != nil {
			s.print(r, &b, -1, l.ro)
		} else {
			for _, k := range l.m.Root.Kids {
				if o, ok := l.obj[k.ID].(*nanomux.Resource); ok {
					if p := o.Parent(); p != nil {
						s.print(p, &b, -1, l.ro)
						break
					}
				}
			}
		}
	}
	for _, d := range det {
		b = append(b, "apart:")
		s.print(d, &b, -1, nil)
	}
	return b
}

// look asks for everything there is to ask for in the middle of the building
// of the tree. It mustn't make a difference: what is found out now may be out
// of date later.
func (l *Lib) look(salt int, apart ...responder) {
	l.early(salt, apart)
	if l.curious == 0 {
		l.curious = 1
		if NewRng(l.build, 4242).P(3) {
			l.curious = 2
		}
	}
	if l.curious == 1 || len(l.m.Order) > 40 {
		return
	}
	rng := NewRng(l.build, uint64(salt), 4243)
	few := len(l.m.Order) / 6
	if !rng.P(3 + few) {
		return
	}
	s := &snapper{l: l, ids: map[responder]int{}}
	s.all(apart...)
	for _, n := range l.m.Order {
		o := l.obj[n.ID]
		if o == nil || !rng.P(2+few) {
			continue
		}
		o.HandlerOf("GET")
		o.HandlerOf("!")
		o.RedirectHandler()
		if n.Kind == "host" {
			l.ro.HostNamed(n.Tm.EffName())
		}
		for _, k := range n.Kids {
			o.ChildResourceNamed(k.Tm.EffName())
		}
		sec, ts := n.has(fSec), n.has(fTS)
		if rng.P(8) {
			ts = !ts
		}
		catch(func() {
			switch n.Kind {
			case "host":
				l.ro.RegisteredHost(hostURL(n, sec, ts, rng))
			default:
				if b := l.bases(n); n.Kind == "res" && rng.P(2) {
					if base := b[rng.N(len(b))]; base != nil {
						l.obj[base.ID].RegisteredResource(relPath(base, n, sec, ts, rng))
						return
					}
				}
				l.ro.RegisteredResource(relPath(nil, n, sec, ts, rng))
			}
		})
	}
	l.api("(everything asked for while building)")
}

// early serves some requests in the middle of the building of the tree, by
// what there is of it or by responders that aren't registered yet. What they
// are answered doesn't matter, but that they were served mustn't make a
// difference later.
func (l *Lib) early(salt int, apart []responder) {
	rng := NewRng(l.build, uint64(salt), 4244)
	few := len(l.m.Order) / 6
	if !NewRng(l.build, 4245).P(3) || len(l.m.Order) == 0 || len(l.m.Order) > 40 || !rng.P(3+few) {
		return
	}
	l.serving = true
	defer func() { l.serving = false }()
	for i, k := 0, 1+rng.N(3); i < k; i++ {
		n := l.m.Order[rng.N(len(l.m.Order))]
		q := &Req{ID: 1 << 20, Mount: -1, Meth: "GET", Host: "unknown.test", TLS: rng.P(3)}
		if ms := n.methods(); len(ms) > 0 && rng.P(2) {
			q.Meth = ms[rng.N(len(ms))]
		}
		rec := &Rec{Req: q}
		chain := n.chainUp()
		from := 0
		switch rng.N(3) {
		case 0:
			if len(apart) > 0 {
				rec.at = apart[rng.N(len(apart))]
				from = rng.N(len(chain))
			}
		case 1:
			from = rng.N(len(chain))
			if o := l.obj[chain[from].ID]; o != nil {
				rec.at = o
			} else {
				from = 0
			}
		}
		for i, a := range chain {
			switch {
			case a.Kind == "host":
				q.Host = a.Tm.GenValue(rng)
			case a.Kind == "res" && i >= from:
				q.Path += "/" + url.PathEscape(a.Tm.GenValue(rng))
			}
		}
		if rng.P(4) {
			q.Path += "/zz"
		}
		if q.Path == "" || n.has(fTS) != rng.P(5) {
			q.Path += "/"
		}
		if q.Meth == "CONNECT" {
			q.Meth = "GET"
		}
		l.do(context.Background(), q, rec)
	}
	l.api("(requests served while building)")
}

// refusal is a call that has to be refused.
type refusal struct {
	cat  string
	what string
	f    func()
	det  []responder // responders that aren't registered
}

type refuser struct {
	l    *Lib
	rng  *Rng
	k    int
	full map[*nanomux.Resource]bool // the resource knows its whole URL
}

func (l *Lib) liveNodes() (out []*Node) {
	for _, n := range l.m.Order {
		if l.obj[n.ID] != nil {
			out = append(out, n)
		}
	}
	return out
}

func (f *refuser) z(p string) string { f.k++; return fmt.Sprintf("zz%s%d", p, f.k) }

func (f *refuser) handler() nanomux.Handler { return f.l.handlerOf(1<<20, "n") }

func (f *refuser) mw() nanomux.Middleware { return f.l.mwOf(1<<20, false, false) }

// newRes makes a resource apart.
func (f *refuser) newRes(u string, handler bool) *nanomux.Resource {
	var r *nanomux.Resource
	if f.rng.P(4) {
		r = nanomux.NewDormantResourceUsingConfig(u, nanomux.Config{})
	} else {
		r = nanomux.NewDormantResource(u)
	}
	if handler {
		r.SetHandlerFor("GET", f.handler())
	}
	return r
}

// resAt makes a resource apart for the segment below n and more segments.
func (f *refuser) resAt(n *Node, seg string, sec, ts, handler bool, more ...string) *nanomux.Resource {
	u := "/" + seg
	full := f.rng.P(3)
	if full {
		u = join(join(relPath(nil, n, true, false, f.rng), more...), seg)
	}
	u = strings.TrimPrefix(u, "https://")
	if ts {
		u += "/"
	}
	if sec {
		u = "https://" + u
	} else if full || f.rng.P(4) {
		u = "http://" + u
	}
	r := f.newRes(u, handler)
	if full {
		f.full[r] = true
	}
	return r
}

// node picks a node whose object exists.
func (f *refuser) node(ok func(n *Node) bool) *Node {
	live := f.l.liveNodes()
	if len(live) == 0 {
		return nil
	}
	at := f.rng.N(len(live))
	for i := range live {
		n := live[(at+i)%len(live)]
		if ok == nil || ok(n) {
			return n
		}
	}
	return nil
}

// below prints a path from base down to n plus more segments.
func join(u string, more ...string) string {
	for _, m := range more {
		u = strings.TrimSuffix(u, "/") + "/" + m
	}
	return u
}

// base picks from where n is addressed, nil is the router.
func (f *refuser) base(n *Node) *Node {
	var bs []*Node
	for a := n; a != nil; a = a.P {
		if f.l.obj[a.ID] != nil {
			bs = append(bs, a)
		}
	}
	bs = append(bs, nil)
	return bs[f.rng.N(len(bs))]
}

// creator returns a call that is to find or to create a responder at the path
// from base. The path starts with a scheme if base is nil.
func (f *refuser) creator(base *Node, path string) (string, func()) {
	l := f.l
	var at atAPI = roAt{l.ro}
	if base != nil {
		at = resAt{l.obj[base.ID]}
	}
	find := l.ro.Resource
	using := l.ro.ResourceUsingConfig
	if base != nil {
		find, using = l.obj[base.ID].Resource, l.obj[base.ID].ResourceUsingConfig
	}
	switch f.rng.N(13) {
	case 0, 1:
		return "Resource", func() { find(path) }
	case 2, 3:
		c := nanomux.Config{SubtreeHandler: f.rng.P(2), LenientOnUncleanPath: f.rng.P(2)}
		return "ResourceUsingConfig", func() { using(path, c) }
	case 4:
		return "SetSharedDataAt", func() { at.SetSharedDataAt(path, 9) }
	case 5:
		return "SetImplementationAt", func() { at.SetImplementationAt(path, l.impl(2, 1<<20)) }
	case 6:
		return "SetHandlerAt", func() { at.handler("GET", path, f.handler()) }
	case 7:
		return "WrapRequestPasserAt", func() { at.WrapRequestPasserAt(path, f.mw()) }
	case 8:
		return "SetPermanentRedirectCodeAt", func() { at.SetPermanentRedirectCodeAt(path, 301) }
	case 9:
		return "SetRedirectHandlerAt", func() { at.SetRedirectHandlerAt(path, l.rdHandler(1<<20)) }
	case 10:
		return "RedirectRequestAt", func() { at.RedirectRequestAt(path, "/x", 302) }
	case 11:
		return "RedirectAnyRequestAt", func() { at.RedirectAnyRequestAt(path, "/x", 302) }
	}
	return "SetConfigurationAt", func() { at.SetConfigurationAt(path, nanomux.Config{SubtreeHandler: true}) }
}

// registrar returns a call that registers r, whose template is a segment,
// below n and more segments.
func (f *refuser) registrar(n *Node, r *nanomux.Resource, more ...string) (string, func()) {
	l := f.l
	base := f.base(n)
	if f.full[r] {
		if base == nil && f.rng.P(2) {
			u := relPath(nil, n, f.rng.P(3), false, f.rng)
			if n.Kind == "host" && !hasScheme(u) {
				u = "http://" + u
			}
			u = join(u, more...)
			return "Router.RegisterResourceUnder (with its URL)", func() { l.ro.RegisterResourceUnder(u, r) }
		}
		if base == nil {
			return "Router.RegisterResource (with its URL)", func() { l.ro.RegisterResource(r) }
		}
		return "RegisterResource (with its URL)", func() { l.obj[base.ID].RegisterResource(r) }
	}
	if base == n {
		if more != nil {
			u := join("", more...)
			if f.rng.P(3) {
				u = u[1:]
			}
			return "RegisterResourceUnder", func() { l.obj[n.ID].RegisterResourceUnder(u, r) }
		}
		if n.Kind == "root" && f.rng.P(2) {
			return "Router.RegisterResource", func() { l.ro.RegisterResource(r) }
		}
		if f.rng.P(4) {
			return "RegisterResourceUnder", func() { l.obj[n.ID].RegisterResourceUnder("", r) }
		}
		return "RegisterResource", func() { l.obj[n.ID].RegisterResource(r) }
	}
	u := relPath(base, n, base == nil && f.rng.P(3), f.rng.P(3) && n.Kind == "res", f.rng)
	if base == nil {
		if n.Kind == "host" && !hasScheme(u) {
			u = "http://" + u
		}
		u = join(u, more...)
		return "Router.RegisterResourceUnder", func() { l.ro.RegisterResourceUnder(u, r) }
	}
	u = join(strings.TrimPrefix(u, "http://"), more...)
	return "RegisterResourceUnder", func() { l.obj[base.ID].RegisterResourceUnder(u, r) }
}

var badTmpls = []string{"{", "a{b", "}", "a}b", "{}", "{:x}", "{a:[}", "{a:(}", "{a:*}", "{a}{b}", "{a}{b:\\d+}{c}", "{a:\\d+}{a:[a-z]+}", "$n:{", "$:a", "$:", "{a", "x{a:\\d+", "a{b}c{", "{a:", "{a:\\p{Zz}}"}

// badTmpl returns a template that can't be parsed.
func (f *refuser) badTmpl() string {
	for i := 0; i < 10; i++ {
		s := badTmpls[f.rng.N(len(badTmpls))]
		if _, err := nanomux.TryToParse(s); err != nil && (s[0] != '$' || strings.Contains(s, "{")) {
			return s
		}
	}
	return "{"
}

// names of the way down to n, n included.
func namesUp(n *Node) (out []string) {
	for a := n; a != nil; a = a.P {
		if a.Tm != nil && a.Tm.EffName() != "" {
			out = append(out, a.Tm.EffName())
		}
	}
	return out
}

func valuesUp(n *Node) (out []string) {
	for a := n; a != nil; a = a.P {
		if a.Tm != nil {
			out = append(out, a.Tm.ValueNames()...)
		}
	}
	return out
}

// tm prints a template of a segment or a host with the name.
func tmStr(name, content string) string {
	if name == "" {
		return content
	}
	return (&Tmpl{Name: name}).Str(true) + content
}

// named makes the template of a segment with the name: static, with a pattern
// or a wildcard.
func (f *refuser) named(name, z string) string {
	switch f.rng.N(6) {
	case 0:
		return tmStr(name, f.z(z)+"{"+f.z("v")+":zz\\d+}")
	case 1:
		return tmStr(name, "{"+f.z("v")+"}")
	case 2: // a wildcard's value gives it its name
		for _, c := range name {
			if (c < 'a' || c > 'z') && (c < '0' || c > '9') {
				return tmStr(name, f.z(z))
			}
		}
		return "{" + name + "}"
	}
	return tmStr(name, f.z(z))
}

// segOf prints the template of n for a resource that is built apart.
func apartURL(n *Node, sec, ts bool) string {
	u := n.Tm.Str(true)
	if ts {
		u += "/"
	}
	if n.Kind == "res" {
		u = "/" + u
	}
	if sec {
		return "https://" + u
	}
	if n.Kind == "res" {
		return u
	}
	return "http://" + u
}

// atSegs makes a creator at n followed by segments. The path leads to what
// doesn't exist, so its scheme and trailing slash are free.
func (f *refuser) atSegs(cat string, n *Node, segs ...string) *refusal {
	base := f.base(n)
	var u string
	if base == n {
		u = "/" + strings.Join(segs, "/")
		if f.rng.P(3) {
			u = u[1:]
		}
		if f.rng.P(6) {
			u = "https:///" + strings.Join(segs, "/")
		}
	} else {
		u = relPath(base, n, f.rng.P(4), false, f.rng)
		if base == nil && n.Kind == "host" && !hasScheme(u) {
			u = "http://" + u
		}
		u = join(u, segs...)
	}
	if f.rng.P(4) {
		u += "/"
	}
	w, c := f.creator(base, u)
	return &refusal{cat: cat, what: fmt.Sprintf("%s(%q) from %s", w, u, f.str(base)), f: c}
}

func (f *refuser) str(n *Node) string {
	if n == nil {
		return "the router"
	}
	return fmt.Sprintf("node %d", n.ID)
}

// withRes registers r below n and more segments.
func (f *refuser) withRes(cat string, n *Node, r *nanomux.Resource, more ...string) *refusal {
	w, c := f.registrar(n, r, more...)
	return &refusal{cat: cat, what: fmt.Sprintf("%s of %q below node %d %q", w, r.Template().String(), n.ID, more), f: c, det: []responder{r}}
}

// clash registers a resource below n and prefix segments that don't exist yet.
// The resource or what's below it has the segment bad, good is for the others.
func (f *refuser) clash(cat string, n *Node, more []string, bad string) *refusal {
	rng := f.rng
	depth := rng.N(4)
	seg := bad
	if depth > 0 {
		seg = f.z("r")
	}
	r := f.resAt(n, seg, rng.P(4), rng.P(3), rng.P(2), more...)
	for at, i := r, 1; i <= depth; i++ {
		seg = bad
		if i < depth {
			seg = f.z("k")
			if rng.P(3) {
				seg += "{" + f.z("v") + ":zz}"
			}
		}
		for rng.P(3) {
			at.Resource(f.z("k"))
		}
		at = at.Resource(seg)
		if rng.P(3) {
			at.SetHandlerFor("GET", f.handler())
		}
	}
	return f.withRes(cat, n, r, more...)
}

// prefix makes segments that don't exist yet, one of them is the given one.
func (f *refuser) prefix(seg string) (more []string) {
	for f.rng.P(2) {
		more = append(more, f.z("p"))
	}
	if seg != "" {
		more = append(more, seg)
	}
	for f.rng.P(3) || more == nil {
		more = append(more, f.z("q"))
	}
	return
}

// with picks between a path and a resource for the segment seg, which can't
// be below n.
func (f *refuser) with(cat string, n *Node, seg string) *refusal {
	if f.rng.P(2) {
		return f.atSegs(cat, n, seg)
	}
	return f.withRes(cat, n, f.resAt(n, seg, f.rng.P(4), f.rng.P(3), f.rng.P(2)))
}

// pick returns a refusal or nil.
func (f *refuser) pick(cat string) *refusal {
	l, rng := f.l, f.rng
	switch cat {
	case "invalid template":
		bad := f.badTmpl()
		n := f.node(nil)
		if n == nil || rng.P(6) {
			u := bad + ".test"
			switch rng.N(4) {
			case 0:
				return &refusal{cat: cat, what: "Host " + u, f: func() { l.ro.Host(u) }}
			case 1:
				return &refusal{cat: cat, what: "HostUsingConfig " + u, f: func() { l.ro.HostUsingConfig(u, nanomux.Config{SubtreeHandler: true}) }}
			}
			u = "http://" + u + "/" + f.z("a")
			if rng.P(2) { // below the root, which may not be there
				u = "/" + f.z("a") + "/" + bad
				if rng.P(3) {
					r := f.newRes(f.z("r"), rng.P(2))
					return &refusal{cat: cat, what: "Router.RegisterResourceUnder " + u, f: func() { l.ro.RegisterResourceUnder(u, r) }, det: []responder{r}}
				}
			}
			w, c := f.creator(nil, u)
			return &refusal{cat: cat, what: w + " " + u, f: c}
		}
		switch rng.N(6) {
		case 0:
			return f.atSegs(cat, n, bad)
		case 1:
			return f.atSegs(cat, n, f.z("a"), bad)
		case 2:
			return f.atSegs(cat, n, f.z("a"), f.z("b"), bad, f.z("c"))
		case 3:
			return f.atSegs(cat, n, bad, f.z("a"))
		case 4: // below a new host
			u := "http://" + f.z("h") + ".test/" + f.z("a") + "/" + bad
			w, c := f.creator(nil, u)
			return &refusal{cat: cat, what: w + " " + u, f: c}
		}
		r := f.newRes(f.z("r"), rng.P(2))
		base := f.base(n)
		if base == nil {
			u := relPath(nil, n, false, false, rng)
			if !hasScheme(u) && n.Kind == "host" {
				u = "http://" + u
			}
			u = join(u, f.z("a"), bad)
			return &refusal{cat: cat, what: fmt.Sprintf("Router.RegisterResourceUnder(%q)", u), f: func() { l.ro.RegisterResourceUnder(u, r) }, det: []responder{r}}
		}
		u := strings.TrimPrefix(relPath(base, n, false, false, rng), "http://")
		if base == n {
			u = ""
		}
		u = join(u, f.z("a"), bad)
		return &refusal{cat: cat, what: fmt.Sprintf("RegisterResourceUnder(%q) from node %d", u, base.ID), f: func() { l.obj[base.ID].RegisterResourceUnder(u, r) }, det: []responder{r}}

	case "name in the URL":
		n := f.node(func(n *Node) bool { return len(namesUp(n)) > 0 })
		if n == nil {
			return nil
		}
		nm := rng.Pick(namesUp(n)...)
		switch rng.N(6) {
		case 5:
			return f.clash(cat, n, f.prefix(""), f.named(nm, "b"))
		case 0:
			return f.atSegs(cat, n, f.z("a"), f.named(nm, "b"))
		case 1:
			return f.atSegs(cat, n, f.z("a"), f.named(nm, "b"), f.z("c"))
		case 2: // the child of a resource
			r := f.resAt(n, f.z("r"), rng.P(4), rng.P(3), rng.P(2))
			c := r.Resource(f.named(nm, "b"))
			if rng.P(2) {
				c.SetHandlerFor("GET", f.handler())
			}
			return f.withRes(cat, n, r)
		case 3:
			return f.with(cat, n, f.named(nm, "b"))
		}
		return f.atSegs(cat, n, tmStr(nm, "{"+f.z("v")+":zz\\d+}"))

	case "name within the URL":
		n := f.node(nil)
		nm := f.z("n")
		if n != nil && rng.P(3) {
			return f.clash(cat, n, f.prefix(tmStr(nm, f.z("a"))), f.named(nm, "b"))
		}
		if n == nil || rng.P(6) {
			u := "/" + tmStr(nm, f.z("a")) + "/" + f.named(nm, "b")
			if rng.P(2) {
				// with a resource that knows its URL
				u = "http://" + u
				r := f.newRes(u, rng.P(2))
				r.Resource(f.z("k"))
				return &refusal{cat: cat, what: "Router.RegisterResource " + u, f: func() { l.ro.RegisterResource(r) }}
			}
			w, c := f.creator(nil, u)
			return &refusal{cat: cat, what: w + " " + u, f: c}
		}
		return f.atSegs(cat, n, tmStr(nm, f.z("a")), f.z("b"), f.named(nm, "c"))

	case "name among siblings":
		n := f.node(func(n *Node) bool {
			return n.Kind == "res" && n.Tm.EffName() != "" && l.obj[n.P.ID] != nil
		})
		if n == nil {
			return nil
		}
		seg := f.named(n.Tm.EffName(), "s")
		if n.Tm.Str(true) == seg {
			return nil // the wildcard itself
		}
		if rng.P(3) {
			return f.atSegs(cat, n.P, seg, f.z("t"))
		}
		return f.with(cat, n.P, seg)

	case "value name":
		if n := f.node(nil); n != nil && rng.P(4) {
			v := f.z("v")
			return f.clash(cat, n, f.prefix(f.z("x")+"{"+v+":zz\\d+}"), f.z("y")+"{"+v+":zz\\d+}")
		}
		n := f.node(func(n *Node) bool { return len(valuesUp(n)) > 0 })
		if n == nil {
			return nil
		}
		v := strings.ReplaceAll(rng.Pick(valuesUp(n)...), ":", `\:`)
		seg := f.z("v") + "{" + v + ":\\d+}"
		switch rng.N(5) {
		case 4:
			return f.clash(cat, n, f.prefix(""), seg)
		case 0:
			return f.atSegs(cat, n, f.z("a"), seg)
		case 1:
			r := f.resAt(n, f.z("r"), rng.P(4), rng.P(3), rng.P(2))
			r.Resource(seg)
			return f.withRes(cat, n, r)
		case 2: // the second value has it
			seg = tmStr(f.z("n"), "{"+f.z("x")+":\\d+}-"+seg)
		}
		return f.with(cat, n, seg)

	case "different names":
		n := f.node(func(n *Node) bool { return n.Kind != "root" })
		if n == nil {
			return nil
		}
		t, ok := f.otherNames(n.Tm)
		if !ok {
			return nil
		}
		if n.Kind == "host" {
			return f.hostCall(cat, t.Str(true), n.has(fSec), n.has(fTS))
		}
		if l.obj[n.P.ID] == nil {
			return nil
		}
		if o := l.obj[n.ID]; o != nil && rng.P(4) {
			// The URL of the new one names the one it's registered below
			// differently.
			u := join(join(relPath(nil, n.P, true, false, rng), t.Str(true)), f.z("a"))
			u = strings.TrimPrefix(u, "https://")
			if !hasScheme(u) {
				u = "http://" + u
			}
			r := f.newRes(u, rng.P(2))
			f.full[r] = true
			w := fmt.Sprintf("registration of %q below node %d", u, n.ID)
			if rng.P(3) {
				return &refusal{cat: cat, what: w, f: func() { o.RegisterResourceUnder("", r) }, det: []responder{r}}
			}
			return &refusal{cat: cat, what: w, f: func() { o.RegisterResource(r) }, det: []responder{r}}
		}
		if rng.P(3) {
			return f.atSegs(cat, n.P, t.Str(true), f.z("d"))
		}
		return f.with(cat, n.P, t.Str(true))

	case "different security":
		n := f.node(nil)
		if n == nil {
			return nil
		}
		sec, ts := n.has(fSec), n.has(fTS)
		if n.Kind == "host" && rng.P(2) {
			u := hostURL(n, !sec, ts, rng)
			return f.hostFind(cat, u, n, !sec, ts)
		}
		return f.findAs(cat, n, !sec, ts)

	case "different trailing slash":
		n := f.node(func(n *Node) bool { return n.Kind != "root" && !n.has(fLen) })
		if n == nil {
			return nil
		}
		sec, ts := n.has(fSec), n.has(fTS)
		if n.Kind == "host" {
			return f.hostFind(cat, hostURL(n, sec, !ts, rng), n, sec, !ts)
		}
		return f.findAs(cat, n, sec, !ts)

	case "different configuration":
		n := f.node(func(n *Node) bool { return n.Flags&fSub == 0 || n.Flags&fUnc == 0 })
		if n == nil {
			return nil
		}
		c := nanomux.Config{SubtreeHandler: n.Flags&fSub == 0, LenientOnUncleanPath: n.Flags&fUnc == 0}
		sec, ts := n.has(fSec), n.has(fTS)
		if n.Kind == "host" {
			u := hostURL(n, sec, ts, rng)
			return &refusal{cat: cat, what: "HostUsingConfig " + u, f: func() { l.ro.HostUsingConfig(u, c) }}
		}
		base := f.base(n)
		if base == n {
			return nil
		}
		u := relPath(base, n, sec, ts && n.Kind == "res", rng)
		if base == nil {
			return &refusal{cat: cat, what: "Router.ResourceUsingConfig " + u, f: func() { l.ro.ResourceUsingConfig(u, c) }}
		}
		return &refusal{cat: cat, what: "ResourceUsingConfig " + u, f: func() { l.obj[base.ID].ResourceUsingConfig(u, c) }}

	case "duplicate":
		n := f.node(func(n *Node) bool { return n.canHandle() })
		if n == nil {
			return nil
		}
		sec, ts := n.has(fSec), n.has(fTS)
		if n.Kind == "host" {
			h := nanomux.NewHost(apartURL(n, sec, ts), l.impl(2, 1<<20))
			if rng.P(2) {
				h.Resource("/" + f.z("k"))
			}
			return &refusal{cat: cat, what: fmt.Sprintf("RegisterHost like node %d", n.ID), f: func() { l.ro.RegisterHost(h) }, det: []responder{h}}
		}
		var r *nanomux.Resource
		if n.Kind == "root" {
			r = f.newRes("/", true)
		} else {
			r = f.newRes(apartURL(n, sec, ts), true)
		}
		if rng.P(2) {
			r.Resource("/"+f.z("k")).SetHandlerFor("GET", f.handler())
		}
		if n.Kind == "root" {
			return &refusal{cat: cat, what: "RegisterResource of another root", f: func() { l.ro.RegisterResource(r) }, det: []responder{r}}
		}
		if l.obj[n.P.ID] == nil {
			return nil
		}
		return f.withRes(cat, n.P, r)

	case "already registered":
		n := f.node(func(n *Node) bool { return n.Kind != "root" })
		if n == nil {
			return nil
		}
		if n.Kind == "host" {
			h := l.obj[n.ID].(*nanomux.Host)
			return &refusal{cat: cat, what: fmt.Sprintf("RegisterHost of node %d", n.ID), f: func() { l.ro.RegisterHost(h) }}
		}
		r := l.obj[n.ID].(*nanomux.Resource)
		p := f.node(nil)
		o := l.obj[p.ID]
		w := fmt.Sprintf("registration of node %d below node %d", n.ID, p.ID)
		switch rng.N(4) {
		case 0:
			return &refusal{cat: cat, what: w, f: func() { o.RegisterResource(r) }}
		case 1:
			u := "/" + f.z("a")
			return &refusal{cat: cat, what: w + " under " + u, f: func() { o.RegisterResourceUnder(u, r) }}
		case 2:
			return &refusal{cat: cat, what: w, f: func() { l.ro.RegisterResource(r) }}
		}
		u := "http://" + f.z("h") + ".test/" + f.z("a")
		if rng.P(2) {
			u = "/" + f.z("a")
		}
		return &refusal{cat: cat, what: w + " under " + u, f: func() { l.ro.RegisterResourceUnder(u, r) }}

	case "nothing":
		n := f.node(nil)
		if n == nil || rng.P(3) {
			switch rng.N(3) {
			case 0:
				return &refusal{cat: cat, what: "RegisterHost(nil)", f: func() { l.ro.RegisterHost(nil) }}
			case 1:
				return &refusal{cat: cat, what: "Router.RegisterResource(nil)", f: func() { l.ro.RegisterResource(nil) }}
			}
			u := "http://" + f.z("h") + ".test/" + f.z("a")
			if rng.P(2) {
				u = "/" + f.z("a")
			}
			return &refusal{cat: cat, what: "Router.RegisterResourceUnder(nil)", f: func() { l.ro.RegisterResourceUnder(u, nil) }}
		}
		o := l.obj[n.ID]
		if rng.P(2) {
			return &refusal{cat: cat, what: "RegisterResource(nil)", f: func() { o.RegisterResource(nil) }}
		}
		u := "/" + f.z("a")
		return &refusal{cat: cat, what: "RegisterResourceUnder(nil)", f: func() { o.RegisterResourceUnder(u, nil) }}

	case "root below another":
		n := f.node(nil)
		if n == nil {
			return nil
		}
		o := l.obj[n.ID]
		r := f.newRes("/", rng.P(2))
		switch rng.N(6) {
		case 0:
			return &refusal{cat: cat, what: "RegisterResource", f: func() { o.RegisterResource(r) }, det: []responder{r}}
		case 1:
			u := "/" + f.z("a")
			return &refusal{cat: cat, what: "RegisterResourceUnder", f: func() { o.RegisterResourceUnder(u, r) }, det: []responder{r}}
		case 2:
			u := "/" + f.z("a")
			return &refusal{cat: cat, what: "Router.RegisterResourceUnder", f: func() { l.ro.RegisterResourceUnder(u, r) }, det: []responder{r}}
		case 3:
			return &refusal{cat: cat, what: "Resource /", f: func() { o.Resource("/") }}
		case 4:
			return &refusal{cat: cat, what: "ResourceUsingConfig /", f: func() { o.ResourceUsingConfig("/", nanomux.Config{SubtreeHandler: true}) }}
		}
		u := "http://" + f.z("h") + ".test/"
		return &refusal{cat: cat, what: "Router.Resource " + u, f: func() { l.ro.Resource(u) }}

	case "foreign URL":
		n := f.node(nil)
		if n == nil {
			return nil
		}
		o := l.obj[n.ID]
		var r *nanomux.Resource
		switch {
		case rng.P(2):
			r = f.newRes("http://"+f.z("h")+".test/"+f.z("a"), rng.P(2))
		case n.Kind == "res":
			r = f.newRes("http:///"+f.z("p")+"/"+f.z("q")+"/"+f.z("r")+"/"+f.z("s")+"/"+f.z("a"), rng.P(2))
		default:
			r = f.newRes("http:///"+f.z("p")+"/"+f.z("a"), rng.P(2))
			u := "/" + f.z("a")
			return &refusal{cat: cat, what: fmt.Sprintf("RegisterResourceUnder at node %d", n.ID), f: func() { o.RegisterResourceUnder(u, r) }, det: []responder{r}}
		}
		if rng.P(2) {
			r.Resource(f.z("k"))
		}
		if rng.P(3) {
			u := "/" + f.z("a")
			return &refusal{cat: cat, what: fmt.Sprintf("RegisterResourceUnder at node %d", n.ID), f: func() { o.RegisterResourceUnder(u, r) }, det: []responder{r}}
		}
		return &refusal{cat: cat, what: fmt.Sprintf("RegisterResource at node %d", n.ID), f: func() { o.RegisterResource(r) }, det: []responder{r}}

	case "redirect without security":
		c := nanomux.Config{RedirectsInsecureRequest: true}
		n := f.node(nil)
		if n == nil || rng.P(4) {
			u := f.z("h") + ".test"
			if rng.P(2) {
				return &refusal{cat: cat, what: "HostUsingConfig " + u, f: func() { l.ro.HostUsingConfig(u, c) }}
			}
			u = "http://" + u + "/" + f.z("a")
			return &refusal{cat: cat, what: "Router.ResourceUsingConfig " + u, f: func() { l.ro.ResourceUsingConfig(u, c) }}
		}
		u := "/" + f.z("a") + "/" + f.z("b")
		o := l.obj[n.ID]
		return &refusal{cat: cat, what: "ResourceUsingConfig " + u, f: func() { o.ResourceUsingConfig(u, c) }}

	case "invalid host":
		n := f.node(func(n *Node) bool { return n.Kind == "host" })
		switch rng.N(4) {
		case 0:
			return f.hostCall(cat, "{"+f.z("w")+"}", false, false)
		case 1:
			u := f.z("h") + ".test/" + f.z("a")
			return &refusal{cat: cat, what: "Host " + u, f: func() { l.ro.Host(u) }}
		case 2:
			u := f.z("h") + ".test/" + f.z("a")
			return &refusal{cat: cat, what: "HostUsingConfig " + u, f: func() { l.ro.HostUsingConfig(u, nanomux.Config{}) }}
		}
		if n == nil {
			return nil
		}
		o := l.obj[n.ID]
		u := "http://" + f.z("h") + ".test/" + f.z("a")
		w, c := "Resource", func() { o.Resource(u) }
		if rng.P(2) {
			w, c = "ResourceUsingConfig", func() { o.ResourceUsingConfig(u, nanomux.Config{}) }
		}
		return &refusal{cat: cat, what: w + " " + u, f: c}

	case "name of another host":
		n := f.node(func(n *Node) bool { return n.Kind == "host" && n.Tm.EffName() != "" })
		if n == nil {
			return nil
		}
		u := tmStr(n.Tm.EffName(), f.z("h")+".test")
		switch rng.N(7) {
		case 0:
			return &refusal{cat: cat, what: "Host " + u, f: func() { l.ro.Host(u) }}
		case 1:
			return &refusal{cat: cat, what: "HostUsingConfig " + u, f: func() { l.ro.HostUsingConfig(u, nanomux.Config{SubtreeHandler: true}) }}
		case 2:
			h := nanomux.NewDormantHost(u)
			h.Resource("/" + f.z("k"))
			return &refusal{cat: cat, what: "RegisterHost " + u, f: func() { l.ro.RegisterHost(h) }, det: []responder{h}}
		case 3:
			h := nanomux.NewHost(u, l.impl(2, 1<<20))
			return &refusal{cat: cat, what: "RegisterHost " + u, f: func() { l.ro.RegisterHost(h) }, det: []responder{h}}
		case 4:
			u = "http://" + u + "/" + f.z("a")
			return &refusal{cat: cat, what: "Router.Resource " + u, f: func() { l.ro.Resource(u) }}
		case 5:
			u = "http://" + u + "/" + f.z("a")
			r := f.newRes(u, rng.P(2))
			return &refusal{cat: cat, what: "Router.RegisterResource " + u, f: func() { l.ro.RegisterResource(r) }, det: []responder{r}}
		}
		u = "http://" + u + "/" + f.z("a")
		return &refusal{cat: cat, what: "Router.SetSharedDataAt " + u, f: func() { l.ro.SetSharedDataAt(u, 5) }}

	case "absent responder":
		u := "/" + f.z("a")
		var at atAPI = roAt{l.ro}
		if n := f.node(nil); n != nil && !rng.P(4) {
			at = resAt{l.obj[n.ID]}
			if rng.P(2) {
				u = join(u, f.z("b"))
			}
		} else if rng.P(2) {
			u = "http://" + f.z("h") + ".test" + u
		}
		mk := func(w string, c func()) *refusal { return &refusal{cat: cat, what: w + " " + u, f: c} }
		switch rng.N(6) {
		case 0:
			return mk("SharedDataAt", func() { at.SharedDataAt(u) })
		case 1:
			return mk("ConfigurationAt", func() { at.ConfigurationAt(u) })
		case 2:
			return mk("ImplementationAt", func() { at.ImplementationAt(u) })
		case 3:
			return mk("PermanentRedirectCodeAt", func() { at.PermanentRedirectCodeAt(u) })
		case 4:
			return mk("RedirectHandlerAt", func() { at.RedirectHandlerAt(u) })
		}
		return mk("WrapHandlerOf", func() { at.wrapHandlers("GET", u, f.mw()) })

	case "invalid setting":
		n := f.node(nil)
		if n == nil {
			return nil
		}
		o := l.obj[n.ID]
		bad := rng.PickI(-1, 0, 200, 299, 400, 404, 500)
		mk := func(w string, c func()) *refusal { return &refusal{cat: cat, what: w, f: c} }
		switch rng.N(14) {
		case 0:
			return mk("SetPermanentRedirectCode(302)", func() { o.SetPermanentRedirectCode(302) })
		case 1:
			return mk(fmt.Sprint("RedirectRequestTo ", bad), func() { o.RedirectRequestTo("/x", bad) })
		case 2:
			return mk(fmt.Sprint("RedirectAnyRequestTo ", bad), func() { o.RedirectAnyRequestTo("/x", bad) })
		case 3:
			return mk("RedirectRequestTo nothing", func() { o.RedirectRequestTo("", 301) })
		case 4:
			return mk("SetRedirectHandler(nil)", func() { o.SetRedirectHandler(nil) })
		case 5:
			return mk("SetImplementation(nil)", func() { o.SetImplementation(nil) })
		case 6:
			switch rng.N(3) {
			case 0:
				return mk("WrapRequestPasser()", func() { o.WrapRequestPasser() })
			case 1:
				return mk("WrapRequestHandler()", func() { o.WrapRequestHandler() })
			}
			return mk("WrapRedirectHandler()", func() { o.WrapRedirectHandler() })
		case 7:
			switch rng.N(6) {
			case 0:
				return mk("global SetPermanentRedirectCode(302)", func() { nanomux.SetPermanentRedirectCode(302) })
			case 1:
				return mk("SetCommonRedirectHandler(nil)", func() { nanomux.SetCommonRedirectHandler(nil) })
			case 2:
				return mk("WrapCommonRedirectHandler()", func() { nanomux.WrapCommonRedirectHandler() })
			case 3:
				return mk("SetHandlerForNotFound(nil)", func() { nanomux.SetHandlerForNotFound(nil) })
			case 4:
				return mk("WrapHandlerOfNotFound()", func() { nanomux.WrapHandlerOfNotFound() })
			}
			return mk("Router.WrapRequestPasser()", func() { l.ro.WrapRequestPasser() })
		case 8, 9:
			// These need handlers.
			if len(o.AllowedHTTPMethods()) == 0 {
				if n.NA != nil {
					return nil
				}
				ms, mw := rng.Pick("*", "!", "GET"), f.mw()
				return mk("WrapHandlerOf without handlers", func() { o.WrapHandlerOf(ms, mw) })
			}
			switch rng.N(4) {
			case 0:
				return mk("SetHandlerFor no method", func() { o.SetHandlerFor(" , ", l.handlerOf(1<<20, "h")) })
			case 1:
				ms := rng.Pick(strings.Join(o.AllowedHTTPMethods(), " "), strings.Join(o.AllowedHTTPMethods(), ", "), "GET", "GET POST", "!", "ZZ GET", "get, put", "OPTIONS")
				return mk(fmt.Sprintf("SetHandlerFor(%q, nil)", ms), func() { o.SetHandlerFor(ms, nil) })
			case 2:
				return mk("WrapHandlerOf no method", func() { o.WrapHandlerOf("", f.mw()) })
			}
			return mk("WrapHandlerOf()", func() { o.WrapHandlerOf("*") })
		}
		if len(n.Hs) == 0 || n.Hs["ZZABSENT"] != nil {
			return nil
		}
		return &refusal{cat: cat, what: "WrapHandlerOf an absent method", f: func() { o.WrapHandlerOf("ZZABSENT", f.mw()) }}

	case "conflicting child":
		return f.conflictingChild(cat)
	}
	panic("unknown category " + cat)
}

var refuseCats = []string{"invalid template", "name in the URL", "name within the URL", "name among siblings", "value name",
	"different names", "different security", "different trailing slash", "different configuration", "duplicate", "already registered",
	"nothing", "root below another", "foreign URL", "redirect without security", "invalid host", "name of another host",
	"absent responder", "invalid setting", "conflicting child"}

// hostCall tries to get or to create a host.
func (f *refuser) hostCall(cat, tm string, sec, ts bool) *refusal {
	l := f.l
	u := tm
	if ts {
		u += "/"
	}
	if sec {
		u = "https://" + u
	}
	switch f.rng.N(5) {
	case 0:
		return &refusal{cat: cat, what: "Host " + u, f: func() { l.ro.Host(u) }}
	case 1:
		return &refusal{cat: cat, what: "HostUsingConfig " + u, f: func() { l.ro.HostUsingConfig(u, nanomux.Config{}) }}
	case 2:
		return &refusal{cat: cat, what: "RegisteredHost " + u, f: func() { l.ro.RegisteredHost(u) }}
	}
	u = "http://" + tm + "/" + f.z("a")
	w, c := f.creator(nil, u)
	return &refusal{cat: cat, what: w + " " + u, f: c}
}

// hostFind looks an existing host up.
func (f *refuser) hostFind(cat, u string, n *Node, sec, ts bool) *refusal {
	l := f.l
	switch f.rng.N(3) {
	case 0:
		return &refusal{cat: cat, what: "Host " + u, f: func() { l.ro.Host(u) }}
	case 1:
		return &refusal{cat: cat, what: "HostUsingConfig " + u, f: func() { l.ro.HostUsingConfig(u, nanomux.Config{}) }}
	}
	return &refusal{cat: cat, what: "RegisteredHost " + u, f: func() { l.ro.RegisteredHost(u) }}
}

// findAs looks an existing responder up with another scheme or slash.
func (f *refuser) findAs(cat string, n *Node, sec, ts bool) *refusal {
	l, rng := f.l, f.rng
	base := f.base(n)
	if base == n {
		if n.Kind == "root" {
			base = nil
		} else if n.Kind == "host" {
			base = nil
		} else if n.P != nil && l.obj[n.P.ID] != nil {
			base = n.P
		} else {
			base = nil
		}
	}
	u := relPath(base, n, sec, ts && n.Kind == "res", rng)
	if n.Kind == "host" && !hasScheme(u) {
		u = "http://" + u
	}
	var at atAPI = roAt{l.ro}
	if base != nil {
		at = resAt{l.obj[base.ID]}
	}
	mk := func(w string, c func()) *refusal {
		return &refusal{cat: cat, what: fmt.Sprintf("%s(%q) from %s", w, u, f.str(base)), f: c}
	}
	switch rng.N(8) {
	case 0:
		if n.Kind != "host" {
			if base == nil {
				return mk("RegisteredResource", func() { l.ro.RegisteredResource(u) })
			}
			return mk("RegisteredResource", func() { l.obj[base.ID].RegisteredResource(u) })
		}
	case 1:
		return mk("SharedDataAt", func() { at.SharedDataAt(u) })
	case 2:
		return mk("ConfigurationAt", func() { at.ConfigurationAt(u) })
	case 3:
		return mk("ImplementationAt", func() { at.ImplementationAt(u) })
	case 4:
		return mk("HandlerAt", func() { at.handlerAt("GET", u) })
	case 5:
		return mk("WrapHandlerOf", func() { at.wrapHandlers("*", u, f.mw()) })
	}
	for {
		w, c := f.creator(base, u)
		if n.Kind == "host" && (w == "Resource" || w == "ResourceUsingConfig") {
			continue
		}
		return mk(w, c)
	}
}

// otherNames copies the template with another name or other names of its
// values.
func (f *refuser) otherNames(tm *Tmpl) (Tmpl, bool) {
	t := *tm
	t.Name = f.z("diff")
	if t.EffName() == tm.EffName() {
		return t, false
	}
	if len(t.ValueNames()) > 0 && f.rng.P(2) {
		// the values' names differ
		t.Name = tm.Name
		t.Parts = append([]Part(nil), t.Parts...)
		for i := range t.Parts {
			if t.Parts[i].Val != "" {
				t.Parts[i].Val += "zz"
			}
		}
	}
	return t, true
}

// conflictingChild registers a responder that meets one with the same
// template, but whose child resources can't be put together.
func (f *refuser) conflictingChild(cat string) *refusal {
	l, rng := f.l, f.rng
	// k is the child that is in the way.
	k := f.node(func(k *Node) bool {
		return k.Kind == "res" && l.obj[k.P.ID] != nil
	})
	if k == nil {
		return nil
	}
	n := k.P
	mine := !n.canHandle() && rng.P(2) // the new one is kept
	// How the child conflicts.
	conflict := func(o responder) {
		for {
			switch rng.N(4) {
			case 0:
				if k.canHandle() {
					c := f.newRes(apartURL(k, k.has(fSec), k.has(fTS)), true)
					o.RegisterResource(c)
					return
				}
			case 1:
				if k.Tm.EffName() != "" {
					o.Resource(tmStr(k.Tm.EffName(), f.z("c")))
					return
				}
			case 2: // the settings are different
				c := o.Resource(apartURL(k, !k.has(fSec), k.has(fTS)))
				if rng.P(3) {
					c.Resource(f.z("k"))
				}
				return
			default:
				t, ok := f.otherNames(k.Tm)
				if ok {
					c := o.Resource(t.Str(true))
					if rng.P(3) {
						c.SetHandlerFor("GET", f.handler())
					}
					return
				}
			}
		}
	}
	fill := func(o responder) {
		at := rng.N(4)
		for i := 0; i < 4; i++ {
			if i == at {
				conflict(o)
				continue
			}
			if rng.P(2) {
				s := f.z("k")
				if rng.P(2) {
					s += "{" + f.z("q") + ":\\d+}"
				}
				c := o.Resource(s)
				if rng.P(2) {
					c.SetHandlerFor("GET", f.handler())
				}
				if rng.P(3) {
					c.Resource(f.z("g")).SetHandlerFor("GET", f.handler())
				}
			}
		}
	}
	sec, ts := n.has(fSec), n.has(fTS)
	switch n.Kind {
	case "host":
		var h *nanomux.Host
		if mine {
			h = nanomux.NewHost(apartURL(n, sec, ts), l.impl(2, 1<<20))
		} else {
			h = nanomux.NewDormantHost(apartURL(n, sec, ts))
		}
		fill(h)
		return &refusal{cat: cat, what: fmt.Sprintf("RegisterHost like node %d (has handlers: %v) against node %d", n.ID, mine, k.ID),
			f: func() { l.ro.RegisterHost(h) }, det: []responder{h}}
	case "root":
		r := f.newRes("/", mine)
		fill(r)
		return &refusal{cat: cat, what: fmt.Sprintf("Router.RegisterResource of another root (has handlers: %v) against node %d", mine, k.ID),
			f: func() { l.ro.RegisterResource(r) }, det: []responder{r}}
	}
	p := n.P
	if l.obj[p.ID] == nil {
		return nil
	}
	r := f.resAt(p, n.Tm.Str(true), sec, ts, mine)
	fill(r)
	// Possibly as a part of something larger.
	if p.Kind == "res" && l.obj[p.P.ID] != nil && !f.full[r] && rng.P(3) {
		up := f.resAt(p.P, p.Tm.Str(true), p.has(fSec), p.has(fTS), false)
		if rng.P(2) {
			up.Resource(f.z("u"))
		}
		up.RegisterResource(r)
		if rng.P(2) {
			up.Resource(f.z("u")).SetHandlerFor("GET", f.handler())
		}
		x := f.withRes(cat, p.P, up)
		x.what += fmt.Sprintf(" against node %d", k.ID)
		return x
	}
	x := f.withRes(cat, p, r)
	x.what += fmt.Sprintf(" (has handlers: %v) against node %d", mine, k.ID)
	return x
}

// accepted is the panic of a call that should have been refused.
const accepted = "accepted: "

func (l *Lib) execRefuse(op *Op) {
	rng := NewRng(l.build, uint64(op.ID), 9)
	if rng.P(2) {
		if e := l.MatAll(); e != "" {
			panic(e)
		}
	}
	f := &refuser{l: l, rng: rng, k: op.ID * 100, full: map[*nanomux.Resource]bool{}}
	cats := refuseCats
	if op.Refuse != "" {
		cats = strings.Split(op.Refuse, ",")
	}
	var x, twin *refusal
	for i := 0; i < 12 && x == nil; i++ {
		cat := rng.Pick(cats...)
		rng2, k := *rng, f.k
		if e := catch(func() { x = f.pick(cat) }); e != "" {
			x = nil // what is to be registered can't be built
		}
		if x != nil && len(x.det) > 0 {
			g := &refuser{l: l, rng: &rng2, k: k, full: map[*nanomux.Resource]bool{}}
			twin = g.pick(cat)
		}
	}
	if x == nil {
		return
	}
	s := &snapper{l: l, ids: map[responder]int{}}
	before := s.all(x.det...)
	e := catch(x.f)
	l.refused("refused: " + x.cat)
	if e == "" {
		panic(accepted + x.cat + ": " + x.what)
	}
	if strings.Contains(e, "runtime error") {
		l.refused("refused with a runtime error")
	}
	after := s.all(x.det...)
	for i := 0; i < len(before) || i < len(after); i++ {
		b, a := "nothing", "nothing"
		if i < len(before) {
			b = before[i]
		}
		if i < len(after) {
			a = after[i]
		}
		if a != b {
			panic(fmt.Sprintf("refuse: the refused call (%s: %s) changes\n  %s\n  to\n  %s", x.cat, x.what, b, a))
		}
	}
	// What wasn't registered can be registered elsewhere like one that hasn't
	// been refused.
	for i, d := range x.det {
		got, want := l.elsewhere(d), l.elsewhere(twin.det[i])
		for j := 0; j < len(got) || j < len(want); j++ {
			g, w := "nothing", "nothing"
			if j < len(got) {
				g = got[j]
			}
			if j < len(want) {
				w = want[j]
			}
			if g != w {
				panic(fmt.Sprintf("refuse: after the refused call (%s: %s) the responder registered elsewhere gives\n  %s\n  want\n  %s", x.cat, x.what, g, w))
			}
		}
	}
}

// elsewhere registers the responder with another router.
func (l *Lib) elsewhere(d responder) (b []string) {
	ro := nanomux.NewRouter()
	e := catch(func() {
		switch d := d.(type) {
		case *nanomux.Host:
			ro.RegisterHost(d)
		case *nanomux.Resource:
			ro.RegisterResource(d)
		}
	})
	if e != "" {
		return []string{"refused: " + e}
	}
	if d.Router() != ro {
		b = append(b, "not in the router")
	}
	s := &snapper{l: l, ids: map[responder]int{}}
	s.hosts(ro, &b)
	var top responder = d
	for {
		r, ok := top.(*nanomux.Resource)
		if !ok || r.Parent() == nil {
			break
		}
		top = r.Parent()
	}
	s.print(top, &b, -1, ro)
	b = append(b, fmt.Sprint(s.id(d)))
	return b
}

func (l *Lib) refused(k string) {
	if l.Refused == nil {
		l.Refused = map[string]int{}
	}
	l.Refused[k]++
}
