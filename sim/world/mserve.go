package world

import (
	"bufio"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// raw prints the request as it's sent.
func (q *Req) raw() string {
	t := q.Path
	if q.Abs {
		s := "http"
		if q.TLS || q.AbsS {
			s = "https"
		}
		t = s + "://" + q.Host + q.Path
	}
	var b strings.Builder
	b.WriteString(q.Meth + " " + t + " " + q.proto() + "\r\nHost: " + q.Host + "\r\n")
	for _, h := range q.Hdr {
		b.WriteString(h + "\r\n")
	}
	b.WriteString("\r\n" + q.Body)
	return b.String()
}

func (q *Req) proto() string {
	if q.Proto == 1 {
		return "HTTP/1.0"
	}
	return "HTTP/1.1"
}

var badEscape = regexp.MustCompile(`%([^0-9A-Fa-f]|.[^0-9A-Fa-f]|.?$)`)

// parse parses the request like a server does. ok is false if a server would
// refuse it itself. A path with an invalid escape, which a server would refuse,
// becomes the RawPath, as a handler that rewrites URLs may set it.
func (q *Req) parse() (*http.Request, bool) {
	read := func(q *Req) (*http.Request, bool) {
		r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(q.raw())))
		if err != nil {
			return nil, false
		}
		if q.Proto == 2 {
			r.Proto, r.ProtoMajor, r.ProtoMinor = "HTTP/2.0", 2, 0
		}
		if q.NoHost && r.URL.Host != "" {
			r.Host = ""
		}
		return r, true
	}
	p, query, hasQuery := strings.Cut(q.Path, "?")
	if !badEscape.MatchString(p) {
		return read(q)
	}
	var b strings.Builder
	for i := 0; i < len(p); i++ {
		b.WriteByte(p[i])
		if p[i] == '%' && badEscape.MatchString(p[i:min(i+3, len(p))]) {
			b.WriteString("25")
		}
	}
	c := *q
	c.Path = b.String()
	if hasQuery {
		c.Path += "?" + query
	}
	r, ok := read(&c)
	if ok {
		r.URL.RawPath = p
	}
	return r, ok
}

// mreq is the model's request.
type mreq struct {
	m   *Model
	q   *Req
	rec *Rec
	u   *url.URL

	raw     bool
	p       string // cleaned path, "" allowed
	unclean bool
	segs    []string
	segOff  []int // offset of each segment in p
	tslash  bool

	at     int // segments consumed
	cur    *Node
	vals   []KV // all values so far
	loose  bool
	under  bool // a subtree handler is above
	args   [allKeys]int
	hdrC   bool // header written
	router bool
	top    *Node // mounted directly
	w      http.Header
	depth  int
}

// view is the request as the handlers and middlewares pass it on.
type view struct {
	tls  bool
	meth string
	host string // the Host field
}

// name is the host name that is used for routing.
func (v view) name(u *url.URL) string {
	h := v.host
	if h == "" {
		h = u.Host
	}
	if strings.Contains(h, ":") {
		if n, _, err := net.SplitHostPort(h); err == nil {
			h = n
		}
	}
	return h
}

type mEnv struct {
	s        *mreq
	v        view
	marks    []int
	wmarks   []int
	argsOnly bool
	noArgs   bool // a converted handler without arguments
}

func (e *mEnv) obs() *Obs {
	s := e.s
	if e.noArgs {
		return nil
	}
	o := &Obs{Args: shownArgs(append([]int(nil), s.args[:]...))}
	if e.argsOnly {
		o.ArgsOnly = true
		return o
	}
	o.Marks, o.WMarks, o.Meth = e.marks, e.wmarks, e.v.meth
	o.Rem = s.remaining()
	o.Host, o.Res = -1, -1
	if n := s.cur; n != nil {
		if n.Kind != "host" {
			o.Res = n.ID
		}
		for a := n; a != nil; a = a.P {
			if a.Kind == "host" {
				o.Host = a.ID
			}
		}
		o.Impl, o.Shared = n.Impl, n.Shared
	}
	o.Loose = s.loose
	// Values of the nodes on the way to the current one.
	var names []string
	for a := s.cur; a != nil; a = a.P {
		if a.Tm != nil {
			names = append(names, a.Tm.ValueNames()...)
		}
	}
	for _, kv := range s.vals {
		if has(names, kv.K) {
			o.Vals = append(o.Vals, kv)
		}
	}
	sort.Slice(o.Vals, func(i, j int) bool { return o.Vals[i].K < o.Vals[j].K })
	return o
}

func (e *mEnv) In(tag int) {
	e.s.rec.Evs = append(e.s.rec.Evs, Ev{T: tag, P: 'i', Obs: e.obs(), Rq: e.rq()})
}
func (e *mEnv) Out(tag int, ret bool) {
	e.s.rec.Evs = append(e.s.rec.Evs, Ev{T: tag, P: 'o', Ret: ret, Rq: e.rq()})
}
func (e *mEnv) Set(k, v int) {
	if !e.noArgs {
		e.s.args[k] = v
	}
}
func (e *mEnv) Write(status int, body string) {
	s := e.s
	if status != 0 {
		s.status(status)
	} else if len(s.rec.Stat) == 0 {
		s.status(200)
	}
	s.rec.Body = append(s.rec.Body, body...)
}
func (e *mEnv) Sleep(d int64) {}
func (e *mEnv) Stall()        {}
func (e *mEnv) Look()         { e.s.rec.Evs = append(e.s.rec.Evs, Ev{P: 'l'}) }
func (e *mEnv) Nest(sub *Req) {
	s := e.s
	if s.depth > 3 || len(s.rec.Subs) > 2 {
		return
	}
	m := s.m
	if sub.Tree == 1 {
		m = m.other
	}
	rec := m.serveDepth(sub, s.depth+1, e.markList(sub))
	s.rec.Subs = append(s.rec.Subs, rec)
	if rec.Panic != "" {
		return
	}
}
func (e *mEnv) markList(sub *Req) []int {
	if sub.Inherit {
		return e.marks
	}
	return nil
}
func (e *mEnv) Decided() bool { return len(e.s.rec.Stat) > 0 }
func (e *mEnv) Rewrite(b *Beh) Env {
	n := *e
	if b.RM != "" {
		n.v.meth = b.RM
	}
	if b.RH != "" {
		n.v.host = b.RH
	}
	n.v.tls = n.v.tls != b.RT
	return &n
}
func (e *mEnv) Mark(tag int) Env {
	n := *e
	n.marks = append(append([]int(nil), e.marks...), tag)
	n.wmarks = append(append([]int(nil), e.wmarks...), tag)
	e.s.rec.WMarkH = append(e.s.rec.WMarkH, strconv.Itoa(tag))
	return &n
}

// rq describes the request the handler or middleware gets.
func (e *mEnv) rq() string { return rqStr(e.v.meth, e.v.host, e.v.tls, e.s.u) }

// libResp is an answer of the library itself.
func (s *mreq) libResp(status int) {
	s.rec.Lib = true
	s.status(status)
}

func (s *mreq) status(status int) {
	s.rec.Stat = append(s.rec.Stat, status)
	if len(s.rec.Stat) == 1 {
		s.q.Fault.writerPanic()
	}
}

// Serve gives the record the model expects for a request.
func (m *Model) Serve(q *Req) *Rec { return m.serveDepth(q, 0, nil) }

func (m *Model) serveDepth(q *Req, depth int, marks []int) (rec *Rec) {
	rec = &Rec{Req: q}
	r, ok := q.parse()
	if !ok {
		rec.NoModel = true
		return
	}
	s := &mreq{m: m, q: q, rec: rec, u: r.URL, depth: depth}
	s.p = r.URL.Path
	if r.URL.RawPath != "" {
		s.p, s.raw = r.URL.RawPath, true
	}
	if len(s.p) > 1 {
		c := path.Clean("/" + strings.TrimPrefix(s.p, "/"))
		if s.p[len(s.p)-1] == '/' && c != "/" {
			c += "/"
		}
		if c != s.p {
			s.p, s.unclean = c, true
		}
	}
	if len(s.p) > 1 {
		t := strings.TrimSuffix(s.p[1:], "/")
		s.tslash = strings.HasSuffix(s.p, "/")
		off := 1
		for _, x := range strings.Split(t, "/") {
			s.segs = append(s.segs, x)
			s.segOff = append(s.segOff, off)
			off += len(x) + 1
		}
	}
	e := &mEnv{s: s, v: view{q.TLS, r.Method, r.Host}, marks: marks}
	defer func() {
		if v := recover(); v != nil {
			if !isModelOrUserPanic(v) {
				panic(v)
			}
			rec.Panic = panicStr(v)
			rec.Done = true
		}
	}()
	handled := false
	if q.Mount < 0 {
		s.router = true
		handled = s.run(e, m.PassMw, func(e *mEnv) bool { return s.route(e) })
	} else {
		n := m.Nodes[q.Mount]
		s.top = n
		s.cur = n
		switch n.Kind {
		case "host":
			host := e.v.name(s.u)
			ok, vs := n.Tm.Match(host)
			if !ok || host == "" {
				s.notFound(e)
				handled = true
			} else {
				s.vals = vs
				handled = s.receive(e, n)
			}
		case "root":
			handled = s.receive(e, n)
		default:
			if len(s.segs) == 0 {
				s.notFound(e)
				handled = true
				break
			}
			seg, bad := s.seg(0)
			if bad {
				s.libResp(400)
				handled = true
				break
			}
			ok, vs := n.Tm.Match(seg)
			if !ok {
				s.notFound(e)
				handled = true
				break
			}
			s.vals = vs
			s.at = 1
			handled = s.receive(e, n)
		}
	}
	if !handled {
		s.notFound(e)
	}
	rec.Done = true
	return
}

func (s *mreq) seg(i int) (string, bool) {
	x := s.segs[i]
	if s.raw {
		d, err := url.PathUnescape(x)
		return d, err != nil
	}
	return x, false
}

// rest is what is left of the path below the segments consumed so far,
// without its leading slash.
func (s *mreq) rest() (string, bool) {
	if len(s.p) <= 1 || s.at >= len(s.segs) {
		if s.at == 0 && len(s.p) == 1 {
			return "", true
		}
		return "", false
	}
	return s.p[s.segOff[s.at]:], true
}

func (s *mreq) remaining() string {
	var out string
	switch {
	case s.p == "":
		return ""
	case s.cur == nil:
		out = s.p
	default:
		if s.p == "/" {
			return ""
		}
		r, ok := s.rest()
		if !ok {
			return ""
		}
		if s.cur.Kind == "res" && s.cur.has(fTS) {
			out = r
		} else {
			out = "/" + r
		}
	}
	if s.raw {
		return out
	}
	return (&url.URL{Path: out}).EscapedPath()
}

// run runs a function inside middlewares.
func (s *mreq) run(e *mEnv, ms []Mw, base func(*mEnv) bool) bool {
	if len(ms) == 0 {
		return base(e)
	}
	mw := ms[len(ms)-1]
	inner := ms[:len(ms)-1]
	if !mw.Std {
		return runMw(e, mw.Tag, false, s.q.beh(mw.Tag), func(e2 Env) bool {
			return s.run(e2.(*mEnv), inner, base)
		})
	}
	called, ret := false, false
	runMw(e, mw.Tag, true, s.q.beh(mw.Tag), func(e2 Env) bool {
		ret = s.run(e2.(*mEnv), inner, base)
		called = true
		return true
	})
	if called {
		return ret
	}
	return true
}

// chain runs a handler with its middlewares; lib is what the library does if
// it's its own handler.
func (s *mreq) chain(e *mEnv, c *Chain, lib func(e *mEnv) bool) bool {
	return s.run(e, c.Mws, func(e *mEnv) bool {
		if c.Tag == 0 {
			return lib(e)
		}
		if c.Kind == "h" || c.Kind == "f" {
			n := *e
			n.noArgs = true
			e = &n
		}
		ret := runHandler(e, c.Tag, s.q.beh(c.Tag))
		if c.Std {
			return true
		}
		return ret
	})
}

func (s *mreq) notFound(e *mEnv) bool {
	n := *e
	n.argsOnly = true
	return s.chain(&n, s.m.GNf, func(e *mEnv) bool {
		s.libResp(404)
		return true
	})
}

func (s *mreq) route(e *mEnv) bool {
	m := s.m
	if host := e.v.name(s.u); host != "" {
		var hit *Node
		for _, h := range m.Hosts {
			if h.Tm.Static() && h.Tm.Lit() == host {
				hit = h
			}
		}
		if hit == nil {
			for _, h := range m.Hosts {
				if h.Tm.Static() {
					continue
				}
				if ok, vs := h.Tm.Match(host); ok {
					hit, s.vals = h, vs
					break
				}
			}
		}
		if hit != nil {
			s.cur = hit
			return s.receive(e, hit)
		}
	}
	if m.Root != nil && s.u.Path != "" {
		s.cur = m.Root
		return s.receive(e, m.Root)
	}
	return s.notFound(e)
}

// receive is what a responder does with a request.
func (s *mreq) receive(e *mEnv, n *Node) bool {
	if n.RdAny != nil {
		return s.redirect(e, n, n.RdAny)
	}
	if n.has(fSub) {
		s.under = true
	}
	last := true
	below := false
	switch n.Kind {
	case "res":
		below = s.at < len(s.segs)
	default:
		below = len(s.p) > 1
	}
	if below {
		last = false
		at, under := s.at, s.under
		if s.run(e, n.PassMw, func(e *mEnv) bool { return s.pass(e, n) }) {
			return true
		}
		s.at, s.under = at, under
		s.cur = n
		if !n.has(fSub) {
			if n.Kind == "host" {
				return s.notFound(e)
			}
			return false
		}
	}
	return s.handle(e, n, last)
}

func (s *mreq) pass(e *mEnv, n *Node) bool {
	seg, bad := s.seg(s.at)
	if bad {
		s.libResp(400)
		return true
	}
	var hit *Node
	var vs []KV
	for _, k := range n.Kids {
		if k.Tm.Static() && k.Tm.Lit() == seg {
			hit = k
		}
	}
	if hit == nil {
		for _, k := range n.Kids {
			if k.Tm.Static() || k.Tm.Wild() {
				continue
			}
			if ok, v := k.Tm.Match(seg); ok {
				hit, vs = k, v
				break
			}
		}
	}
	if hit == nil {
		for _, k := range n.Kids {
			if k.Tm.Wild() {
				hit = k
				_, vs = k.Tm.Match(seg)
			}
		}
	}
	if hit == nil {
		if s.under {
			return false
		}
		return s.notFound(e)
	}
	s.vals = append(append([]KV(nil), s.vals...), vs...)
	s.at++
	s.cur = hit
	ok := s.receive(e, hit)
	s.at--
	s.loose = true
	return ok
}

func (s *mreq) handle(e *mEnv, n *Node, last bool) bool {
	if !n.canHandle() && n.RdReq == nil {
		return s.notFound(e)
	}
	nu := *s.u
	if nu.Host == "" {
		nu.Host = e.v.host
	}
	change := false
	if !e.v.tls && n.has(fSec) {
		if !n.has(fRedir) {
			return s.notFound(e)
		}
		nu.Scheme = "https"
		change = true
	}
	p, rp := nu.Path, nu.RawPath
	if s.unclean && !n.has(fUnc) {
		change = true
		p, rp = s.p, ""
		if s.raw {
			if d, err := url.PathUnescape(s.p); err == nil {
				p, rp = d, s.p
			}
		}
	}
	check := n.Kind == "res" && last || n.Kind == "host" && n.has(fSub) && len(s.p) > 1
	if check && !n.has(fLen) && n.has(fTS) != s.tslash {
		if n.has(fStrict) {
			return s.notFound(e)
		}
		change = true
		if n.has(fTS) {
			p += "/"
			if rp != "" {
				rp += "/"
			}
		} else {
			trim := func(x string) string { return strings.TrimRight(x, "/") }
			if rp != "" {
				k := len(rp) - len(trim(rp))
				rp = trim(rp)
				p = p[:len(p)-k]
			} else {
				p = trim(p)
			}
		}
	}
	if change {
		s.rec.Pol, s.rec.PolNode, s.rec.PolVals = true, n.ID, s.vals
		if s.loose {
			s.rec.PolVals = nil // values of responders that declined are in it
		}
		if rp != "" {
			rp = reescape(rp)
		}
		nu.Path, nu.RawPath = p, rp
		if nu.Scheme == "" {
			nu.Scheme = "http"
			if e.v.tls {
				nu.Scheme = "https"
			}
		}
		code := n.Code
		if code == 0 {
			code = s.m.GCode
		}
		if code == 0 {
			code = 308
		}
		return s.sendRedirect(e, n, nu.String(), code)
	}
	if n.RdReq != nil {
		return s.redirect(e, n, n.RdReq)
	}
	return s.run(e, n.HndMw, func(e *mEnv) bool {
		if c := n.Hs[e.v.meth]; c != nil {
			return s.chain(e, c, func(e *mEnv) bool {
				s.rec.Allow = append(s.rec.Allow, strings.Join(n.methods(), ", "))
				s.status(200)
				return true
			})
		}
		na := n.NA
		if na == nil {
			na = &Chain{}
		}
		return s.chain(e, na, func(e *mEnv) bool {
			s.rec.Allow = append(s.rec.Allow, strings.Join(n.methods(), ", "))
			s.libResp(405)
			return true
		})
	})
}

// redirect is a configured redirect.
func (s *mreq) redirect(e *mEnv, n *Node, rd *Redir) bool {
	u := rd.URL
	if !strings.HasPrefix(u, "http") && !strings.HasPrefix(u, "/") {
		u = "/" + u
	}
	if rem := s.remaining(); rem != "" {
		u = strings.TrimSuffix(u, "/") + "/" + strings.TrimPrefix(rem, "/")
	}
	return s.sendRedirect(e, n, u, rd.Code)
}

func (s *mreq) sendRedirect(e *mEnv, n *Node, u string, code int) bool {
	c := n.Rd
	if c == nil {
		c = s.m.GRd
	}
	return s.rdRun(e, c.Mws, c.Tag, u, code)
}

func (s *mreq) rdRun(e *mEnv, ms []int, tag int, u string, code int) bool {
	if len(ms) > 0 {
		t := ms[len(ms)-1]
		s.rec.Evs = append(s.rec.Evs, Ev{T: t, P: 'r', URL: u, Code: code, Obs: e.rdObs(), Rq: e.rq()})
		return runRdMw(e, s.q.beh(t), t, u, code, func(u string, code int) bool {
			return s.rdRun(e, ms[:len(ms)-1], tag, u, code)
		})
	}
	if tag != 0 {
		s.rec.Evs = append(s.rec.Evs, Ev{T: tag, P: 'r', URL: u, Code: code, Obs: e.rdObs(), Rq: e.rq()})
		if runRdH(s.q.beh(tag)) {
			e.Write(code, "rd"+strconv.Itoa(tag))
			return true
		}
		return false
	}
	s.defaultRedirect(e, u, code)
	return true
}

func (e *mEnv) rdObs() *Obs {
	return &Obs{Args: shownArgs(append([]int(nil), e.s.args[:]...)), ArgsOnly: true}
}

// runRdMw is a redirect middleware: by default it passes on what it got.
func runRdMw(e Env, b *Beh, tag int, u string, code int, next func(string, int) bool) bool {
	if b != nil {
		switch b.K {
		case "drop":
			return false
		case "ans":
			e.Write(297, "q"+strconv.Itoa(tag))
			return true
		case "alt":
			return next("/alt"+strconv.Itoa(tag), 303)
		case "veto":
			next(u, code)
			return e.Decided()
		case "panb":
			panic(&PanicVal{tag})
		}
	}
	return next(u, code)
}

// runRdH is a redirect handler: it tells whether it redirects.
func runRdH(b *Beh) bool {
	if b != nil {
		switch b.K {
		case "dec":
			return false
		case "panb":
			panic(&PanicVal{b.Tag})
		}
	}
	return true
}

func (s *mreq) defaultRedirect(e *mEnv, u string, code int) {
	r, _ := s.q.parse()
	r.Method = e.v.meth
	w := httptest.NewRecorder()
	w.Header()["Content-Type"] = nil
	http.Redirect(w, r, u, code)
	s.rec.Loc = append(s.rec.Loc, w.Header()["Location"]...)
	s.libResp(code)
}

// reescape escapes the bytes which the path of a URL can't have, if there are
// any.
func reescape(rp string) string {
	const ok = "-_.~!$&'()*+,;=:@[]/%"
	alnum := func(c byte) bool {
		return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	bad := false
	for i := 0; i < len(rp); i++ {
		if !alnum(rp[i]) && strings.IndexByte(ok, rp[i]) < 0 {
			bad = true
		}
	}
	if !bad {
		return rp
	}
	out := ""
	for i := 0; i < len(rp); i++ {
		c := rp[i]
		if alnum(c) || strings.IndexByte("-_.~$&+:=@/%", c) >= 0 {
			out += string(rune(c))
		} else {
			out += fmt.Sprintf("%%%02X", c)
		}
	}
	return out
}
