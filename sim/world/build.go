package world

import (
	"crypto/tls"
	"fmt"
	"net/http"
	"strconv"
	"strings"

	"verifsim/rt"

	"github.com/shohruhadham/nanomux"
)

// A request has arrived over TLS when its TLS field isn't nil, whatever is in it.
var fakeTLS = [2]*tls.ConnectionState{{Version: tls.VersionTLS13, HandshakeComplete: true}, {}}

// Implementations. Their handlers are told apart by the tag of the instance.
type implBase struct {
	l   *Lib
	tag int
}

func (b *implBase) run(m string, w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
	t := implTag(b.tag, m)
	e := b.l.env(w, r, args)
	return runHandler(e, t, e.rec.Req.beh(t))
}

type hasTag interface{ Tag() int }

func (b *implBase) Tag() int { return b.tag }

func implID(i interface{}) int {
	if i == nil {
		return 0
	}
	if t, ok := i.(hasTag); ok {
		return t.Tag()
	}
	return -1
}

type impl1 struct{ implBase }

func (i *impl1) HandleGet(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("GET", w, r, a)
}

type impl2 struct{ implBase }

func (i *impl2) HandleGet(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("GET", w, r, a)
}
func (i *impl2) HandlePost(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("POST", w, r, a)
}
func (i *impl2) Helper() {}

type impl3 struct{ implBase }

func (i *impl3) HandleGET(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("GET", w, r, a)
}
func (i *impl3) HandlePuT(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("PUT", w, r, a)
}
func (i *impl3) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("!", w, r, a)
}
func (i *impl3) HandleWrong(w http.ResponseWriter) {}

type impl4 struct{ implBase }

type impl5 struct{ implBase }

func (i *impl5) HandleLock(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("LOCK", w, r, a)
}
func (i *impl5) HandleOptions(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("OPTIONS", w, r, a)
}
func (i *impl5) HandleGet(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("GET", w, r, a)
}

type impl6 struct{ implBase }

func (i *impl6) HandleGet(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("GET", w, r, a)
}
func (i *impl6) HandlePost(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("POST", w, r, a)
}
func (i *impl6) HandlePut(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("PUT", w, r, a)
}
func (i *impl6) HandlePatch(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("PATCH", w, r, a)
}
func (i *impl6) HandleDelete(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("DELETE", w, r, a)
}
func (i *impl6) HandleHead(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("HEAD", w, r, a)
}
func (i *impl6) HandleLock(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("LOCK", w, r, a)
}
func (i *impl6) HandleUnlock(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("UNLOCK", w, r, a)
}
func (i *impl6) HandleCopy(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("COPY", w, r, a)
}
func (i *impl6) HandleMove(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("MOVE", w, r, a)
}
func (i *impl6) HandleMkcol(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("MKCOL", w, r, a)
}
func (i *impl6) HandlePropfind(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("PROPFIND", w, r, a)
}
func (i *impl6) HandleSearch(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("SEARCH", w, r, a)
}
func (i *impl6) HandleBind(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("BIND", w, r, a)
}
func (i *impl6) HandleLink(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("LINK", w, r, a)
}
func (i *impl6) HandleReport(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("REPORT", w, r, a)
}
func (i *impl6) HandleTrace(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("TRACE", w, r, a)
}
func (i *impl6) HandleView(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("VIEW", w, r, a)
}

type impl7 struct{ implBase }

func (i *impl7) HandleNotAllowedMethod(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("!", w, r, a)
}

// impl8 is used by value.
type impl8 struct{ *implBase }

func (i impl8) HandleGet(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("GET", w, r, a)
}
func (i impl8) HandlePut(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("PUT", w, r, a)
}

// impl9 is used by value and has some of its handlers from what it embeds.
type impl9 struct{ *impl3 }

func (i impl9) HandleCopy(w http.ResponseWriter, r *http.Request, a *nanomux.Args) bool {
	return i.run("COPY", w, r, a)
}

func (l *Lib) impl(typ, tag int) interface{} {
	i := l.impls[tag]
	if i == nil {
		i = l.newImpl(typ, tag)
		l.impls[tag] = i
	}
	return i
}

func (l *Lib) newImpl(typ, tag int) interface{} {
	b := implBase{l, tag}
	switch typ {
	case 8:
		return impl8{&b}
	case 9:
		return impl9{&impl3{b}}
	case 1:
		return &impl1{b}
	case 2:
		return &impl2{b}
	case 3:
		return &impl3{b}
	case 5:
		return &impl5{b}
	case 6:
		return &impl6{b}
	case 7:
		return &impl7{b}
	}
	return &impl4{b}
}

// sharedData is nil if there is none.
// Shared data and custom arguments may be anything, also what can't be compared.
func sharedData(x int) interface{} {
	switch {
	case x == 0:
		return nil
	case x%9 == 0:
		return []int{x}
	case x%9 == 4:
		return dataErr(x)
	}
	return x
}

type dataErr int

func (e dataErr) Error() string { return "an error that is data" }

// dataID returns what the data was made of, or -1 when it isn't ours.
func dataID(v interface{}) int {
	switch v := v.(type) {
	case nil:
		return 0
	case int:
		return v
	case dataErr:
		return int(v)
	case []int:
		if len(v) == 1 {
			return v[0]
		}
	}
	return -1
}

// handlerOf returns the handler with the tag. Some responders have the same.
func (l *Lib) handlerOf(tag int, kind string) nanomux.Handler {
	h := l.hs[tag]
	if h == nil {
		h = l.newHandler(tag, kind)
		l.hs[tag] = h
	}
	return h
}

func (l *Lib) newHandler(tag int, kind string) nanomux.Handler {
	std := func(w http.ResponseWriter, r *http.Request) {
		var args *nanomux.Args
		if kind == "ha" || kind == "fa" {
			args = nanomux.ArgsFrom(r)
			if args == nil {
				panic("no arguments in the request's context")
			}
		}
		e := l.env(w, r, args)
		runHandler(e, tag, e.rec.Req.beh(tag))
	}
	switch kind {
	case "h":
		return nanomux.Hr(http.HandlerFunc(std))
	case "f":
		return nanomux.FnHr(std)
	case "ha":
		return nanomux.HrWithArgs(http.HandlerFunc(std))
	case "fa":
		return nanomux.FnHrWithArgs(std)
	}
	return func(w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
		e := l.env(w, r, args)
		return runHandler(e, tag, e.rec.Req.beh(tag))
	}
}

// notFoundHandler only sees custom arguments.
func (l *Lib) notFoundHandler(tag int, kind string) nanomux.Handler {
	if kind == "h" || kind == "f" {
		return l.handlerOf(tag, kind)
	}
	std := func(w http.ResponseWriter, r *http.Request) {
		e := l.env(w, r, nanomux.ArgsFrom(r))
		e.argsOnly = true
		runHandler(e, tag, e.rec.Req.beh(tag))
	}
	switch kind {
	case "ha":
		return nanomux.HrWithArgs(http.HandlerFunc(std))
	case "fa":
		return nanomux.FnHrWithArgs(std)
	}
	return func(w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
		e := l.env(w, r, args)
		e.argsOnly = true
		return runHandler(e, tag, e.rec.Req.beh(tag))
	}
}

func (l *Lib) mwOf(tag int, std, argsOnly bool) nanomux.Middleware {
	if !std {
		return func(next nanomux.Handler) nanomux.Handler {
			return func(w http.ResponseWriter, r *http.Request, args *nanomux.Args) bool {
				e := l.env(w, r, args)
				e.argsOnly = argsOnly
				return runMw(e, tag, false, e.rec.Req.beh(tag), func(e2 Env) bool {
					n := e2.(*libEnv)
					return next(n.w, n.r, n.args)
				})
			}
		}
	}
	return nanomux.Mw(func(next http.Handler) http.Handler {
		inst := &application{late: l.serving}
		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			args := nanomux.ArgsFrom(r)
			if args == nil {
				panic("no arguments in the request's context")
			}
			e := l.env(w, r, args)
			e.argsOnly, e.inst = argsOnly, inst
			runMw(e, tag, true, e.rec.Req.beh(tag), func(e2 Env) bool {
				n := e2.(*libEnv)
				next.ServeHTTP(n.w, n.r)
				return true
			})
		})
	})
}

func (l *Lib) mws(op *Op) []nanomux.Middleware {
	var out []nanomux.Middleware
	for _, m := range mwsOf(op) {
		out = append(out, l.mwOf(m.Tag, m.Std, op.K == OpGNfMw))
	}
	return out
}

func (l *Lib) rdHandler(tag int) nanomux.RedirectHandler {
	return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nanomux.Args) bool {
		e := l.env(w, r, args)
		e.argsOnly = true
		e.rec.Evs = append(e.rec.Evs, Ev{T: tag, P: 'r', URL: u, Code: code, Obs: e.obs(), Rq: e.rq()})
		if !runRdH(e.rec.Req.beh(tag)) {
			return false
		}
		e.Write(code, "rd"+strconv.Itoa(tag))
		return true
	}
}

func (l *Lib) rdMw(tag int) func(nanomux.RedirectHandler) nanomux.RedirectHandler {
	return func(next nanomux.RedirectHandler) nanomux.RedirectHandler {
		return func(w http.ResponseWriter, r *http.Request, u string, code int, args *nanomux.Args) bool {
			e := l.env(w, r, args)
			e.argsOnly = true
			e.rec.Evs = append(e.rec.Evs, Ev{T: tag, P: 'r', URL: u, Code: code, Obs: e.obs(), Rq: e.rq()})
			return runRdMw(e, e.rec.Req.beh(tag), tag, u, code, func(u string, code int) bool {
				return next(w, r, u, code, args)
			})
		}
	}
}

func (l *Lib) rdMws(op *Op) []func(nanomux.RedirectHandler) nanomux.RedirectHandler {
	var out []func(nanomux.RedirectHandler) nanomux.RedirectHandler
	for _, t := range op.Tags {
		out = append(out, l.rdMw(t))
	}
	return out
}

// ResetLibrary puts the library's package state back.
func ResetLibrary() {
	nanomux.SetPermanentRedirectCode(defCode)
	nanomux.SetCommonRedirectHandler(defRedirect)
	nanomux.SetHandlerForNotFound(defNotFound)
}

var (
	defCode     = nanomux.PermanentRedirectCode()
	defRedirect = nanomux.CommonRedirectHandler()
	defNotFound = nanomux.HandlerOfNotFound()
)

// Paths. relPath prints the URL template of n as seen from base (nil: the
// router).
func relPath(base, n *Node, sec, ts bool, rng *Rng) string {
	var segs []string
	var host *Node
	for a := n; a != nil && a != base; a = a.P {
		switch a.Kind {
		case "res":
			segs = append([]string{a.Tm.Str(true)}, segs...)
		case "host":
			host = a
		}
	}
	s := ""
	if len(segs) > 0 {
		s = "/" + strings.Join(segs, "/")
		if ts {
			s += "/"
		}
	}
	scheme := "http://"
	if sec {
		scheme = "https://"
	}
	if base == nil {
		if host != nil {
			if len(segs) == 0 && ts {
				s = "/"
			}
			if !sec && len(segs) == 0 && rng.P(3) {
				return host.Tm.Str(true) + s
			}
			return scheme + host.Tm.Str(true) + s
		}
		if s == "" {
			s = "/"
		}
		if sec || rng.P(6) {
			return scheme + s
		}
		return s
	}
	if sec || rng.P(8) {
		return scheme + s
	}
	if rng.P(3) {
		return s[1:]
	}
	return s
}

// hostURL prints the URL template of a host for methods that take hosts only.
func hostURL(n *Node, sec, ts bool, rng *Rng) string {
	s := n.Tm.Str(true)
	if ts {
		s += "/"
	}
	if sec {
		return "https://" + s
	}
	if rng.P(2) {
		return "http://" + s
	}
	return s
}

func (l *Lib) api(name string) {
	rt.Progress()
	l.APIs[name]++
}

// apart tells whether fragments of the tree are built apart.
func (l *Lib) apart() bool { return l.style == "apart" || l.inOrder() }

// inOrder tells whether the pattern siblings are registered in their order
// everywhere, so that their order in the tree is certain. A fragment has the
// first ones of them only, and so does the tree.
func (l *Lib) inOrder() bool { return l.style == "inorder" }

// earlierPatterns makes sure that the pattern siblings before n are in the
// tree before n, because their order counts.
func (l *Lib) earlierPatterns(n *Node) {
	if l.apart() && !l.inOrder() {
		return
	}
	for _, s := range l.patternsBefore(n) {
		if l.obj[s.ID] == nil && !l.imp[s.ID] {
			l.mat(s)
		}
	}
}

// patternsBefore lists the pattern siblings that come before the pattern n.
func (l *Lib) patternsBefore(n *Node) (out []*Node) {
	if n.Kind == "root" || n.Tm.Static() || (n.Kind == "res" && n.Tm.Wild()) {
		return
	}
	sibs := l.m.Hosts
	if n.P != nil {
		sibs = n.P.Kids
	}
	for _, s := range sibs {
		if s == n {
			return
		}
		if !s.Tm.Static() && !(n.Kind == "res" && s.Tm.Wild()) {
			out = append(out, s)
		}
	}
	return
}

// prepare gets the tree ready for the creation of n.
func (l *Lib) prepare(n *Node) {
	for _, a := range n.chainUp() {
		if l.obj[a.ID] == nil && !l.imp[a.ID] {
			l.earlierPatterns(a)
		}
	}
}

// markImplicit notes that everything above n is in the tree now.
func (l *Lib) markImplicit(n *Node) {
	for a := n.P; a != nil; a = a.P {
		l.imp[a.ID] = true
	}
}

// bases returns the responders from which n can be reached: nil is the router.
func (l *Lib) bases(n *Node) []*Node {
	out := []*Node{nil}
	for a := n.P; a != nil; a = a.P {
		if l.obj[a.ID] != nil {
			out = append(out, a)
		}
	}
	return out
}

// mat makes sure that the node exists and returns its object.
func (l *Lib) mat(n *Node) responder {
	if o := l.obj[n.ID]; o != nil {
		return o
	}
	l.prepare(n)
	rng := NewRng(l.build, uint64(n.Op.ID), 1)
	op := n.Op
	exists := l.imp[n.ID]
	var o responder
	switch n.Kind {
	case "host":
		u := hostURL(n, op.Sec, op.TS, rng)
		style := rng.N(3)
		switch {
		case style == 0 && !exists:
			var h *nanomux.Host
			if op.Cfg != nil {
				l.api("NewDormantHostUsingConfig")
				h = nanomux.NewDormantHostUsingConfig(u, op.newCfg())
			} else {
				l.api("NewDormantHost")
				h = nanomux.NewDormantHost(u)
			}
			l.api("Router.RegisterHost")
			l.ro.RegisterHost(h)
			o = h
		case op.Cfg != nil && !exists && op.Cfg.plain() && rng.P(3):
			l.api("Router.SetConfigurationAt of a new host")
			at := u
			if !hasScheme(at) {
				at = "http://" + at
			}
			l.ro.SetConfigurationAt(at, op.Cfg.lib())
			if o = l.ro.RegisteredHost(u); o.(*nanomux.Host) == nil {
				panic("the new host is not found")
			}
		case op.Cfg != nil:
			l.api("Router.HostUsingConfig")
			o = l.ro.HostUsingConfig(u, op.Cfg.lib())
		default:
			l.api("Router.Host")
			o = l.ro.Host(u)
		}
	case "root":
		u := relPath(nil, n, op.Sec, false, rng)
		if !exists {
			// The root may have been created for the sake of a resource.
			for _, k := range n.Kids {
				if l.obj[k.ID] != nil || l.imp[k.ID] {
					exists = true
				}
			}
		}
		switch {
		case rng.P(3) && !exists:
			var r *nanomux.Resource
			if op.Cfg != nil {
				l.api("NewDormantResourceUsingConfig")
				r = nanomux.NewDormantResourceUsingConfig(u, op.newCfg())
			} else {
				l.api("NewDormantResource")
				r = nanomux.NewDormantResource(u)
			}
			if rng.P(2) {
				l.api("Router.RegisterResource")
				l.ro.RegisterResource(r)
			} else {
				l.api("Router.RegisterResourceUnder")
				l.ro.RegisterResourceUnder("", r)
			}
			o = r
		case op.Cfg != nil:
			l.api("Router.ResourceUsingConfig")
			o = l.ro.ResourceUsingConfig(u, op.Cfg.lib())
		default:
			l.api("Router.Resource")
			o = l.ro.Resource(u)
		}
	default:
		o = l.matRes(n, rng, exists)
	}
	l.obj[n.ID] = o
	l.markImplicit(n)
	return o
}

func (l *Lib) matRes(n *Node, rng *Rng, exists bool) responder {
	op := n.Op
	bs := l.bases(n)
	base := bs[rng.N(len(bs))]
	if !exists && rng.P(3) {
		return l.newAndRegister(n, rng)
	}
	u := relPath(base, n, op.Sec, op.TS, rng)
	switch {
	case base == nil && op.Cfg != nil:
		// A new host's name isn't checked here.
		if top := n.chainUp()[0]; top.Kind == "host" && l.obj[top.ID] == nil && !l.imp[top.ID] {
			l.mat(top)
		}
		if !exists && op.Cfg.plain() && rng.P(4) {
			l.api("Router.SetConfigurationAt of a new resource")
			l.ro.SetConfigurationAt(u, op.Cfg.lib())
			return l.lookup(n, nil, u)
		}
		l.api("Router.ResourceUsingConfig")
		return l.ro.ResourceUsingConfig(u, op.Cfg.lib())
	case base == nil:
		l.api("Router.Resource")
		return l.ro.Resource(u)
	case op.Cfg != nil && !exists && op.Cfg.plain() && rng.P(4):
		l.api("SetConfigurationAt of a new resource")
		l.obj[base.ID].SetConfigurationAt(u, op.Cfg.lib())
		return l.lookup(n, base, u)
	case op.Cfg != nil:
		l.api("ResourceUsingConfig")
		return l.obj[base.ID].ResourceUsingConfig(u, op.Cfg.lib())
	}
	l.api("Resource")
	return l.obj[base.ID].Resource(u)
}

func (l *Lib) newResource(u string, op *Op) *nanomux.Resource {
	if op.Cfg != nil {
		l.api("NewDormantResourceUsingConfig")
		return nanomux.NewDormantResourceUsingConfig(u, op.newCfg())
	}
	l.api("NewDormantResource")
	return nanomux.NewDormantResource(u)
}

// newAndRegister builds a resource apart and registers it.
func (l *Lib) newAndRegister(n *Node, rng *Rng) responder {
	u, register := l.registration(n, rng)
	r := l.newResource(u, n.Op)
	l.look(n.ID<<10, r)
	register(r)
	return r
}

// registration chooses how to register a resource that is built apart. It
// returns the URL template to build it with and the call that registers it.
func (l *Lib) registration(n *Node, rng *Rng) (string, func(r *nanomux.Resource)) {
	op := n.Op
	bs := l.bases(n)
	base := bs[rng.N(len(bs))]
	parentOnly := func() (*Node, string) { return n.P, relPath(n.P, n, op.Sec, op.TS, rng) }
	switch rng.N(4) {
	case 3: // with its whole URL, under a prefix of it
		u := relPath(nil, n, op.Sec, op.TS, rng)
		if base == nil {
			pp := relPath(nil, n.P, op.Sec, rng.P(3) && n.P.Kind == "res", rng)
			if n.P.Kind == "host" && !hasScheme(pp) {
				pp = "http://" + pp
			}
			l.api("Router.RegisterResourceUnder(url)")
			return u, func(r *nanomux.Resource) { l.ro.RegisterResourceUnder(pp, r) }
		}
		pp := l.under(base, n.P, rng)
		l.api("RegisterResourceUnder(url)")
		return u, func(r *nanomux.Resource) { l.obj[base.ID].RegisterResourceUnder(pp, r) }
	case 0: // by its own segment, at its parent
		p, u := parentOnly()
		po := l.mat(p)
		if p.Kind == "root" && rng.P(2) {
			l.api("Router.RegisterResource")
			return u, l.ro.RegisterResource
		}
		l.api("RegisterResource")
		return u, po.RegisterResource
	case 1: // with its whole URL
		u := relPath(nil, n, op.Sec, op.TS, rng)
		if base == nil {
			l.api("Router.RegisterResource(url)")
			return u, l.ro.RegisterResource
		}
		l.api("RegisterResource(url)")
		return u, l.obj[base.ID].RegisterResource
	}
	// by its own segment, under a prefix
	_, u := parentOnly()
	if base == nil {
		pp := relPath(nil, n.P, op.Sec, rng.P(3) && n.P.Kind == "res", rng)
		if n.P.Kind == "host" && !hasScheme(pp) {
			pp = "http://" + pp
		}
		l.api("Router.RegisterResourceUnder")
		return u, func(r *nanomux.Resource) { l.ro.RegisterResourceUnder(pp, r) }
	}
	pp := l.under(base, n.P, rng)
	l.api("RegisterResourceUnder")
	return u, func(r *nanomux.Resource) { l.obj[base.ID].RegisterResourceUnder(pp, r) }
}

// under prints the prefix path that leads from base to p.
func (l *Lib) under(base, p *Node, rng *Rng) string {
	if base == p {
		if p.Kind == "host" && rng.P(2) {
			return "/"
		}
		return ""
	}
	return strings.TrimPrefix(relPath(base, p, false, rng.P(3), rng), "http://")
}

// Exec executes a step on the library and applies it to the model. A panic of
// the library is returned.
func (l *Lib) Exec(op *Op) (modelErr error, libErr string) {
	rt.Progress()
	if libErr = catch(func() { l.look(op.ID) }); libErr != "" {
		return nil, libErr
	}
	if op.K == OpNode {
		if err := l.m.Apply(op); err != nil {
			return err, ""
		}
		if l.apart() {
			return nil, ""
		}
		n := l.m.Nodes[op.N]
		rng := NewRng(l.build, uint64(op.ID), 2)
		if l.style == "eager" || rng.P(2) {
			libErr = catch(func() { l.mat(n) })
		}
		return nil, libErr
	}
	if op.N >= 0 && op.K != OpRefuse && l.m.Nodes[op.N] == nil {
		return fmt.Errorf("no node"), ""
	}
	if op.K == OpMethMw {
		n := l.m.Nodes[op.N]
		for _, m := range splitMethods(op.M) {
			if m != "*" && m != "!" && n.Hs[m] == nil {
				return fmt.Errorf("no handler"), ""
			}
		}
		if len(n.Hs) == 0 {
			return fmt.Errorf("no handler"), ""
		}
	}
	if l.apart() {
		if l.later(op) {
			return l.m.Apply(op), ""
		}
		if l.needsAll(op) {
			libErr = l.assemble(op.ID)
			if libErr != "" {
				return nil, libErr
			}
		}
	}
	libErr = catch(func() { l.exec(op) })
	if libErr != "" {
		return nil, libErr
	}
	return l.m.Apply(op), ""
}

func catch(f func()) (s string) {
	defer func() {
		if v := recover(); v != nil {
			if rt.IsAbort(v) {
				panic(v)
			}
			s = panicStr(v)
			if s == "" {
				s = "panic"
			}
		}
	}()
	f()
	return ""
}

// MatAll creates everything that hasn't been needed so far.
func (l *Lib) MatAll() string {
	if l.apart() {
		return l.assemble(-1)
	}
	return catch(func() {
		idx := NewRng(l.build, 77)
		order := append([]*Node(nil), l.m.Order...)
		for i := len(order) - 1; i > 0; i-- {
			j := idx.N(i + 1)
			order[i], order[j] = order[j], order[i]
		}
		for _, n := range order {
			l.mat(n)
		}
	})
}

func (l *Lib) exec(op *Op) {
	rng := NewRng(l.build, uint64(op.ID), 3)
	m := l.m
	switch op.K {
	case OpBShared, OpBConfig, OpBPassMw, OpBHndMw, OpBMethMw:
		if e := l.MatAll(); e != "" {
			panic(e)
		}
		l.execBulk(op)
		return
	case OpRoPassMw:
		l.ro.WrapRequestPasser(l.mws(op)...)
		return
	case OpGCode:
		nanomux.SetPermanentRedirectCode(op.Code)
		return
	case OpGRdH:
		nanomux.SetCommonRedirectHandler(l.rdHandler(op.Tag))
		return
	case OpGRdMw:
		nanomux.WrapCommonRedirectHandler(l.rdMws(op)...)
		return
	case OpGNf:
		nanomux.SetHandlerForNotFound(l.notFoundHandler(op.Tag, op.HK))
		return
	case OpGNfMw:
		nanomux.WrapHandlerOfNotFound(l.mws(op)...)
		return
	case OpRefuse:
		l.execRefuse(op)
		return
	}
	n := m.Nodes[op.N]
	o := l.obj[n.ID]
	exists := o != nil
	// Which way: 0 on the object, 1 at a path of another responder, 2 at a
	// URL of the router.
	way := rng.N(3)
	if l.style == "eager" {
		way = 0
	}
	if !exists && op.K == OpImpl && !l.imp[n.ID] && rng.P(2) && l.newWithImpl(n, op, rng) {
		return
	}
	getter := op.K == OpMethMw || op.K == OpConfig
	if !exists && (n.Op.Cfg != nil || getter) {
		o = l.mat(n)
		exists = true
	}
	if way == 0 {
		o = l.mat(n)
		l.execOn(op, o)
		return
	}
	var base *Node
	if way == 1 && n.Kind == "res" {
		bs := l.bases(n)
		base = bs[rng.N(len(bs))]
	}
	sec, ts := n.Op.Sec, n.Op.TS
	if exists {
		sec, ts = n.has(fSec), n.has(fTS)
		if n.has(fLen) && n.Kind != "root" {
			ts = rng.P(2)
		}
	} else {
		l.prepare(n)
	}
	u := relPath(base, n, sec, ts, rng)
	if n.Kind == "host" && !hasScheme(u) {
		u = "http://" + u
	}
	var at atAPI = roAt{l.ro}
	if base != nil {
		at = resAt{l.obj[base.ID]}
	}
	l.execAt(op, at, u)
	if !exists {
		// It has been created on the way.
		l.obj[n.ID] = l.lookup(n, base, u)
		l.markImplicit(n)
	}
}

func (l *Lib) newWithImpl(n *Node, op *Op, rng *Rng) bool {
	l.prepare(n)
	im := l.impl(op.X, op.Tag)
	nop := n.Op
	switch n.Kind {
	case "host":
		u := hostURL(n, nop.Sec, nop.TS, rng)
		var h *nanomux.Host
		if nop.Cfg != nil {
			l.api("NewHostUsingConfig")
			h = nanomux.NewHostUsingConfig(u, im, nop.newCfg())
		} else {
			l.api("NewHost")
			h = nanomux.NewHost(u, im)
		}
		l.ro.RegisterHost(h)
		l.obj[n.ID] = h
	case "res":
		p := l.mat(n.P)
		u := relPath(n.P, n, nop.Sec, nop.TS, rng)
		var r *nanomux.Resource
		if nop.Cfg != nil {
			l.api("NewResourceUsingConfig")
			r = nanomux.NewResourceUsingConfig(u, im, nop.newCfg())
		} else {
			l.api("NewResource")
			r = nanomux.NewResource(u, im)
		}
		p.RegisterResource(r)
		l.obj[n.ID] = r
	default:
		return false
	}
	return true
}

// lookup finds the object of a node that has just been created at a URL.
// hasScheme tells whether the URL is a full one (a host may be named "https").
func hasScheme(u string) bool {
	return strings.HasPrefix(u, "http://") || strings.HasPrefix(u, "https://")
}

func (l *Lib) lookup(n *Node, base *Node, u string) responder {
	if n.Kind == "host" {
		h := l.ro.RegisteredHost(u)
		if h == nil {
			panic("the new host is not found")
		}
		return h
	}
	var r *nanomux.Resource
	if base == nil {
		r = l.ro.RegisteredResource(u)
	} else {
		r = l.obj[base.ID].RegisteredResource(u)
	}
	if r == nil {
		panic("the new resource is not found")
	}
	return r
}

func (l *Lib) execOn(op *Op, o responder) {
	l.api("own " + op.K)
	switch op.K {
	case OpHandler:
		o.SetHandlerFor(op.M, l.handlerOf(op.Tag, op.HK))
	case OpImpl:
		o.SetImplementation(l.impl(op.X, op.Tag))
	case OpPassMw:
		o.WrapRequestPasser(l.mws(op)...)
	case OpHndMw:
		o.WrapRequestHandler(l.mws(op)...)
	case OpMethMw:
		o.WrapHandlerOf(op.M, l.mws(op)...)
	case OpShared:
		o.SetSharedData(sharedData(op.X))
	case OpConfig:
		o.SetConfiguration(op.Cfg.lib())
	case OpCode:
		o.SetPermanentRedirectCode(op.Code)
	case OpRdH:
		o.SetRedirectHandler(l.rdHandler(op.Tag))
	case OpRdMw:
		o.WrapRedirectHandler(l.rdMws(op)...)
	case OpRedirect:
		o.RedirectRequestTo(op.URL, op.Code)
	case OpRedAny:
		o.RedirectAnyRequestTo(op.URL, op.Code)
	default:
		panic("unknown step " + op.K)
	}
}

// atAPI is what can be done at a path or URL.
type atAPI interface {
	SetSharedDataAt(string, interface{})
	SetConfigurationAt(string, nanomux.Config)
	SetImplementationAt(string, nanomux.Impl)
	WrapRequestPasserAt(string, ...nanomux.Middleware)
	WrapRequestHandlerAt(string, ...nanomux.Middleware)
	SetPermanentRedirectCodeAt(string, int)
	SetRedirectHandlerAt(string, nanomux.RedirectHandler)
	WrapRedirectHandlerAt(string, ...func(nanomux.RedirectHandler) nanomux.RedirectHandler)
	RedirectRequestAt(string, string, int)
	RedirectAnyRequestAt(string, string, int)
	SharedDataAt(string) interface{}
	ConfigurationAt(string) nanomux.Config
	ImplementationAt(string) nanomux.Impl
	PermanentRedirectCodeAt(string) int
	RedirectHandlerAt(string) nanomux.RedirectHandler
	handler(methods, u string, h nanomux.Handler)
	wrapHandlers(methods, u string, ms ...nanomux.Middleware)
	handlerAt(method, u string) nanomux.Handler
}

type roAt struct{ *nanomux.Router }

func (r roAt) handler(ms, u string, h nanomux.Handler) { r.SetURLHandlerFor(ms, u, h) }
func (r roAt) wrapHandlers(ms, u string, mw ...nanomux.Middleware) {
	r.WrapURLHandlerOf(ms, u, mw...)
}
func (r roAt) handlerAt(m, u string) nanomux.Handler { return r.URLHandlerOf(m, u) }

type resAt struct{ responder }

func (r resAt) handler(ms, u string, h nanomux.Handler) { r.SetPathHandlerFor(ms, u, h) }
func (r resAt) wrapHandlers(ms, u string, mw ...nanomux.Middleware) {
	r.WrapPathHandlerOf(ms, u, mw...)
}
func (r resAt) handlerAt(m, u string) nanomux.Handler { return r.PathHandlerOf(m, u) }

func (l *Lib) execAt(op *Op, at atAPI, u string) {
	l.api("at " + op.K)
	switch op.K {
	case OpHandler:
		at.handler(op.M, u, l.handlerOf(op.Tag, op.HK))
	case OpImpl:
		at.SetImplementationAt(u, l.impl(op.X, op.Tag))
	case OpPassMw:
		at.WrapRequestPasserAt(u, l.mws(op)...)
	case OpHndMw:
		at.WrapRequestHandlerAt(u, l.mws(op)...)
	case OpMethMw:
		at.wrapHandlers(op.M, u, l.mws(op)...)
	case OpShared:
		at.SetSharedDataAt(u, sharedData(op.X))
	case OpConfig:
		at.SetConfigurationAt(u, op.Cfg.lib())
	case OpCode:
		at.SetPermanentRedirectCodeAt(u, op.Code)
	case OpRdH:
		at.SetRedirectHandlerAt(u, l.rdHandler(op.Tag))
	case OpRdMw:
		at.WrapRedirectHandlerAt(u, l.rdMws(op)...)
	case OpRedirect:
		at.RedirectRequestAt(u, op.URL, op.Code)
	case OpRedAny:
		at.RedirectAnyRequestAt(u, op.URL, op.Code)
	default:
		panic("unknown step " + op.K)
	}
}

func (l *Lib) execBulk(op *Op) {
	l.api("bulk " + op.K)
	if op.N < 0 {
		switch op.K {
		case OpBShared:
			l.ro.SetSharedDataForAll(op.X)
		case OpBConfig:
			l.ro.SetConfigurationForAll(op.Cfg.lib())
		case OpBPassMw:
			l.ro.WrapAllRequestPassers(l.mws(op)...)
		case OpBHndMw:
			l.ro.WrapAllRequestHandlers(l.mws(op)...)
		case OpBMethMw:
			l.ro.WrapAllHandlersOf(op.M, l.mws(op)...)
		}
		return
	}
	o := l.obj[op.N]
	switch op.K {
	case OpBShared:
		o.SetSharedDataForSubtree(op.X)
	case OpBConfig:
		o.SetConfigurationForSubtree(op.Cfg.lib())
	case OpBPassMw:
		o.WrapSubtreeRequestPassers(l.mws(op)...)
	case OpBHndMw:
		o.WrapSubtreeRequestHandlers(l.mws(op)...)
	case OpBMethMw:
		o.WrapSubtreeHandlersOf(op.M, l.mws(op)...)
	}
}
