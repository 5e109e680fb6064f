package world

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"verifsim/rt"

	"github.com/shohruhadham/nanomux"
)

// responder is what hosts and resources have in common.
type responder interface {
	Name() string
	Template() *nanomux.Template
	URL(nanomux.HostPathValues) (*url.URL, error)
	Router() *nanomux.Router
	Resource(string) *nanomux.Resource
	ResourceUsingConfig(string, nanomux.Config) *nanomux.Resource
	RegisterResource(*nanomux.Resource)
	RegisterResourceUnder(string, *nanomux.Resource)
	RegisteredResource(string) *nanomux.Resource
	ChildResourceNamed(string) *nanomux.Resource
	ChildResources() []*nanomux.Resource
	HasChildResource(*nanomux.Resource) bool
	HasAnyChildResources() bool
	SetSharedData(interface{})
	SharedData() interface{}
	SetConfiguration(nanomux.Config)
	Configuration() nanomux.Config
	SetImplementation(nanomux.Impl)
	Implementation() nanomux.Impl
	SetHandlerFor(string, nanomux.Handler)
	HandlerOf(string) nanomux.Handler
	AllowedHTTPMethods() []string
	WrapRequestPasser(...nanomux.Middleware)
	WrapRequestHandler(...nanomux.Middleware)
	WrapHandlerOf(string, ...nanomux.Middleware)
	SetPermanentRedirectCode(int)
	PermanentRedirectCode() int
	SetRedirectHandler(nanomux.RedirectHandler)
	RedirectHandler() nanomux.RedirectHandler
	WrapRedirectHandler(...func(nanomux.RedirectHandler) nanomux.RedirectHandler)
	RedirectRequestTo(string, int)
	RedirectAnyRequestTo(string, int)
	SetSharedDataAt(string, interface{})
	SharedDataAt(string) interface{}
	SetConfigurationAt(string, nanomux.Config)
	ConfigurationAt(string) nanomux.Config
	SetImplementationAt(string, nanomux.Impl)
	ImplementationAt(string) nanomux.Impl
	SetPathHandlerFor(string, string, nanomux.Handler)
	PathHandlerOf(string, string) nanomux.Handler
	WrapRequestPasserAt(string, ...nanomux.Middleware)
	WrapRequestHandlerAt(string, ...nanomux.Middleware)
	WrapPathHandlerOf(string, string, ...nanomux.Middleware)
	SetPermanentRedirectCodeAt(string, int)
	PermanentRedirectCodeAt(string) int
	SetRedirectHandlerAt(string, nanomux.RedirectHandler)
	RedirectHandlerAt(string) nanomux.RedirectHandler
	WrapRedirectHandlerAt(string, ...func(nanomux.RedirectHandler) nanomux.RedirectHandler)
	RedirectRequestAt(string, string, int)
	RedirectAnyRequestAt(string, string, int)
	SetSharedDataForSubtree(interface{})
	SetConfigurationForSubtree(nanomux.Config)
	WrapSubtreeRequestPassers(...nanomux.Middleware)
	WrapSubtreeRequestHandlers(...nanomux.Middleware)
	WrapSubtreeHandlersOf(string, ...nanomux.Middleware)
	http.Handler
}

var (
	_ responder = (*nanomux.Host)(nil)
	_ responder = (*nanomux.Resource)(nil)
)

func (c *Cfg) lib() nanomux.Config {
	return nanomux.Config{
		SubtreeHandler:           c.Sub,
		Secure:                   c.Sec,
		RedirectsInsecureRequest: c.Redir,
		HasTrailingSlash:         c.TS,
		StrictOnTrailingSlash:    c.Strict,
		LenientOnTrailingSlash:   c.Len,
		LenientOnUncleanPath:     c.Unc,
		HandlesThePathAsIs:       c.AsIs,
	}
}

// plain tells that the configuration says nothing about the scheme and the
// trailing slash.
func (c *Cfg) plain() bool { return !c.Sec && !c.Redir && !c.TS }

// newCfg is the step's configuration for a function that creates a responder
// and ignores what the configuration says about the scheme and the trailing
// slash: the template's are used.
func (op *Op) newCfg() nanomux.Config {
	c := op.Cfg.lib()
	h := NewRng(uint64(op.ID), 77).U()
	c.Secure, c.HasTrailingSlash = h&3 == 1, h&12 == 4
	return c
}

// Lib is a router under test together with what is needed to watch it.
type Lib struct {
	ro      *nanomux.Router
	m       *Model
	obj     map[int]responder
	imp     map[int]bool   // created as a part of a URL
	pend    map[int][]*Op  // steps that wait for their responder (style "apart")
	Merges  map[string]int // template collisions, by what meets what
	Refused map[string]int // calls that had to be refused, by the reason
	resID   map[*nanomux.Resource]int
	hostID  map[*nanomux.Host]int
	names   []string
	build   uint64
	style   string
	serving bool
	curious int // 2: see look
	other   *Lib

	stallKey int
	active   int
	conns    []*connState
	impls    map[int]interface{}
	hs       map[int]nanomux.Handler
	extra    [][]*Rec       // the records of the repetitions, by connection
	APIs     map[string]int // which calls were made
}

type connState struct {
	recs []*Rec
}

// NewLib returns an empty router under test.
func NewLib(build uint64, style string) *Lib {
	return &Lib{
		ro:    nanomux.NewRouter(),
		m:     NewModel(),
		obj:   map[int]responder{},
		imp:   map[int]bool{},
		pend:  map[int][]*Op{},
		build: build,
		style: style,
		impls: map[int]interface{}{},
		hs:    map[int]nanomux.Handler{},
		APIs:  map[string]int{},
	}
}

// Model returns the model the router follows.
func (l *Lib) Model() *Model { return l.m }

type recKey struct{}

func recOf(r *http.Request) *Rec {
	rec, _ := r.Context().Value(recKey{}).(*Rec)
	if rec == nil {
		panic("the request has lost its context")
	}
	return rec
}

// markW is a response writer of a middleware.
type markW struct {
	http.ResponseWriter
	tag int
}

type marksKey struct{}

// libEnv implements Env on the real thing.
type libEnv struct {
	l        *Lib
	rec      *Rec
	w        http.ResponseWriter
	r        *http.Request
	args     *nanomux.Args
	argsOnly bool
	ctx      context.Context // the request's when it was received
	inst     *application
}

func (l *Lib) env(w http.ResponseWriter, r *http.Request, args *nanomux.Args) *libEnv {
	return &libEnv{l: l, rec: recOf(r), w: w, r: r, args: args, ctx: r.Context()}
}

func (e *libEnv) argVals() []int {
	out := make([]int, allKeys)
	for i := range out {
		out[i] = dataID(e.args.Get(keyOf(i)))
	}
	return shownArgs(out)
}

func (l *Lib) idOfRes(r *nanomux.Resource) int {
	if r == nil {
		return -1
	}
	if id, ok := l.resID[r]; ok {
		return id
	}
	return -99
}

func (l *Lib) idOfHost(h *nanomux.Host) int {
	if h == nil {
		return -1
	}
	if id, ok := l.hostID[h]; ok {
		return id
	}
	return -99
}

func (e *libEnv) obs() *Obs {
	if e.args == nil {
		return nil
	}
	o := &Obs{Args: e.argVals()}
	if e.argsOnly {
		return o
	}
	o.Marks, _ = e.r.Context().Value(marksKey{}).([]int)
	var wm []int
	w := e.w
	for {
		m, ok := w.(*markW)
		if !ok {
			break
		}
		wm = append([]int{m.tag}, wm...)
		w = m.ResponseWriter
	}
	o.WMarks = wm
	if s, ok := w.(*simW); !ok || s.rec != e.rec {
		o.WMarks = append(o.WMarks, -1)
	}
	o.Meth = e.r.Method
	o.Rem = e.args.RemainingPath()
	o.Res = e.l.idOfRes(e.args.CurrentResource())
	o.Host = e.l.idOfHost(e.args.Host())
	o.Impl = implID(e.args.ResponderImpl())
	o.Shared = dataID(e.args.ResponderSharedData())
	vs := e.args.HostPathValues()
	for _, n := range e.l.names {
		if v := vs.Get(n); v != "" {
			o.Vals = append(o.Vals, KV{n, v})
		}
	}
	return o
}

// rq describes the request the handler or middleware has.
func (e *libEnv) rq() string {
	s := rqStr(e.r.Method, e.r.Host, e.r.TLS != nil, e.r.URL)
	if e.r.Context() != e.ctx {
		s += " (its context has been replaced)"
	}
	if f := e.rec.first; f != nil {
		if reflect.ValueOf(f.Header).Pointer() != reflect.ValueOf(e.r.Header).Pointer() {
			s += " (the headers are another map)"
		}
		if f.Body != e.r.Body {
			s += " (another body)"
		} else if b, ok := f.Body.(*simBody); ok && b.used {
			s += " (its body has been used)"
		}
		if f.Form != nil || f.PostForm != nil || f.MultipartForm != nil || e.r.Form != nil {
			s += " (its form has been parsed)"
		}
	}
	w := e.w
	for {
		m, ok := w.(*markW)
		if !ok {
			break
		}
		w = m.ResponseWriter
	}
	if s0, ok := w.(*simW); !ok || s0.rec != e.rec {
		s += " (another writer)"
	}
	if e.rec.lib != e.l {
		s += " (of another tree)"
	}
	return s
}

func (e *libEnv) In(tag int) {
	rt.Progress()
	rt.Point(-101)
	e.rec.Evs = append(e.rec.Evs, Ev{T: tag, P: 'i', Obs: e.obs(), Rq: e.rq(), inst: e.inst, meth: e.r.Method})
	rt.Point(-102)
}

func (e *libEnv) Out(tag int, ret bool) {
	rt.Progress()
	e.rec.Evs = append(e.rec.Evs, Ev{T: tag, P: 'o', Ret: ret, Rq: e.rq()})
	rt.Point(-103)
}

func (e *libEnv) Set(k, v int) {
	if e.args != nil {
		e.args.Set(keyOf(k), sharedData(v))
	}
}

func (e *libEnv) Write(status int, body string) {
	if status != 0 {
		e.w.WriteHeader(status)
		rt.Point(-104)
	}
	e.w.Write([]byte(body))
	rt.Point(-105)
}

// Look reads everything that can be read of the responders that have the
// request.
func (e *libEnv) Look() {
	rt.Progress()
	ev := Ev{P: 'l'}
	if e.args != nil && !e.argsOnly {
		var b strings.Builder
		vals := e.args.HostPathValues()
		l := e.l
		one := func(o responder) {
			fmt.Fprintf(&b, "%s %q %07b", o.Template().String(), o.Name(), flagsOf(o.Configuration()))
			if u, err := o.URL(vals); err == nil {
				b.WriteString(" " + u.String())
			} else {
				b.WriteString(" no URL")
			}
			fmt.Fprintf(&b, " %v %v %d %v", o.SharedData(), implID(o.Implementation()), o.PermanentRedirectCode(), o.AllowedHTTPMethods())
			fmt.Fprintf(&b, " %v%v%v", o.Router() == l.ro, o.RedirectHandler() != nil, o.HasAnyChildResources())
			var ids []int
			for _, k := range o.ChildResources() {
				ids = append(ids, l.idOfRes(k))
				if !o.HasChildResource(k) || k.Name() != "" && o.ChildResourceNamed(k.Name()) != k {
					b.WriteString(" odd child")
				}
			}
			sort.Ints(ids)
			fmt.Fprintf(&b, " %v", ids)
			for _, m := range []string{"GET", "POST", "!"} {
				fmt.Fprintf(&b, " %v", o.HandlerOf(m) != nil)
			}
			b.WriteString("; ")
		}
		for r := e.args.CurrentResource(); r != nil; r = r.Parent() {
			one(r)
			fmt.Fprintf(&b, "host %d ", l.idOfHost(r.Host()))
		}
		if h := e.args.Host(); h != nil {
			one(h)
		}
		var ids []int
		for _, h := range l.ro.Hosts() {
			ids = append(ids, l.idOfHost(h))
			if !l.ro.HasHost(h) || h.Name() != "" && l.ro.HostNamed(h.Name()) != h {
				b.WriteString(" odd host")
			}
		}
		sort.Ints(ids)
		fmt.Fprintf(&b, " %v %v", ids, l.ro.HasAnyHost())
		ev.URL = b.String()
	}
	e.rec.Evs = append(e.rec.Evs, ev)
	rt.Point(-106)
}

func (e *libEnv) Sleep(d int64) { rt.SleepFor(d) }

func (e *libEnv) Stall() { e.l.stall() }

func (e *libEnv) Nest(sub *Req) {
	if depthOf(e.r) > 2 || len(e.rec.Subs) > 2 {
		return
	}
	var ctx context.Context = context.Background()
	if sub.Inherit {
		ctx = e.r.Context()
	}
	rec := &Rec{Req: sub}
	e.rec.Subs = append(e.rec.Subs, rec)
	rt.Progress()
	ctx = context.WithValue(ctx, depthKey{}, depthOf(e.r)+1)
	l := e.l
	if sub.Tree == 1 {
		l = l.other
	}
	l.do(ctx, sub, rec)
}

type depthKey struct{}

func depthOf(r *http.Request) int {
	d, _ := r.Context().Value(depthKey{}).(int)
	return d
}

func (e *libEnv) Decided() bool { return len(e.rec.Stat) > 0 }

func (e *libEnv) Rewrite(b *Beh) Env {
	n := *e
	r := e.r.WithContext(e.r.Context())
	if b.RM != "" {
		r.Method = b.RM
	}
	if b.RH != "" {
		r.Host = b.RH
	}
	if b.RT {
		if r.TLS == nil {
			r.TLS = fakeTLS[b.Tag&1]
		} else {
			r.TLS = nil
		}
	}
	n.r = r
	return &n
}

func (e *libEnv) Mark(tag int) Env {
	n := *e
	n.w = &markW{e.w, tag}
	n.w.Header().Add("X-Mark", strconv.Itoa(tag))
	ms, _ := e.r.Context().Value(marksKey{}).([]int)
	ms = append(append([]int(nil), ms...), tag)
	n.r = e.r.WithContext(context.WithValue(e.r.Context(), marksKey{}, ms))
	return &n
}

// simW is the response writer of a simulated connection.
type simW struct {
	rec    *Rec
	h      http.Header
	failAt int
	n      int

	l       *Lib
	stallAt int
}

func (w *simW) Header() http.Header { return w.h }

func (w *simW) WriteHeader(code int) {
	rt.Point(-110)
	w.rec.Stat = append(w.rec.Stat, code)
	if len(w.rec.Stat) == 1 {
		w.snapshot()
	}
	if w.stallAt == 1 {
		w.l.stall()
	}
	if len(w.rec.Stat) == 1 {
		w.rec.Req.Fault.writerPanic()
	}
}

func (w *simW) snapshot() {
	w.rec.Allow = append([]string(nil), w.h["Allow"]...)
	w.rec.Loc = append([]string(nil), w.h["Location"]...)
	w.rec.WMarkH = append([]string(nil), w.h["X-Mark"]...)
	if ct := w.h["Content-Type"]; len(ct) > 0 {
		w.rec.CT = ct[0]
	}
}

var errGone = errors.New("write: connection reset by peer")

func (w *simW) Write(p []byte) (int, error) {
	if len(w.rec.Stat) == 0 {
		w.WriteHeader(200)
	}
	rt.Point(-111)
	if w.stallAt == 2 {
		w.l.stall()
	}
	w.rec.Body = append(w.rec.Body, p...)
	w.n += len(p)
	if w.failAt > 0 && w.n >= w.failAt {
		w.rec.WFailed = true
		return 0, errGone
	}
	return len(p), nil
}

// simCtx is the context of a request whose client may go away.
type simCtx struct {
	context.Context
	at int64
}

func (c *simCtx) Err() error {
	if c.at > 0 && rt.Clock() >= c.at {
		return context.Canceled
	}
	return nil
}
func (c *simCtx) Done() <-chan struct{}            { return nil }
func (c *simCtx) Deadline() (t time.Time, ok bool) { return }

func (l *Lib) mount(id int) http.Handler {
	if id < 0 {
		return l.ro
	}
	return l.obj[id]
}

// simBody is the body of a request, it tells whether the library has used it.
type simBody struct {
	io.ReadCloser
	used bool
}

func (b *simBody) Read(p []byte) (int, error) {
	b.used = true
	return b.ReadCloser.Read(p)
}

func (b *simBody) Close() error {
	b.used = true
	return b.ReadCloser.Close()
}

// do serves one request the way net/http does.
func (l *Lib) do(ctx context.Context, q *Req, rec *Rec) {
	r, ok := q.parse()
	if !ok {
		rec.NoModel = true
		return
	}
	if q.TLS {
		r.TLS = fakeTLS[q.ID&1]
	}
	r.RemoteAddr = "192.0.2.1:1234"
	if r.Body != http.NoBody {
		r.Body = &simBody{ReadCloser: r.Body}
	}
	w := &simW{rec: rec, h: http.Header{}}
	if f := q.Fault; f != nil {
		w.failAt, w.stallAt, w.l = f.WriteFailAt, f.StallAt, l
		if f.CancelAt > 0 {
			ctx = &simCtx{ctx, f.CancelAt + rt.Clock()}
		}
	}
	r = r.WithContext(context.WithValue(ctx, recKey{}, rec))
	rec.first, rec.lib = r, l
	t := rt.Current()
	var s0 int64
	if t != nil {
		s0 = t.Steps
	}
	func() {
		defer func() {
			if v := recover(); v != nil {
				if rt.IsAbort(v) {
					panic(v)
				}
				rec.Panic = panicStr(v)
			}
		}()
		at := rec.at
		if at == nil {
			at = l.mount(q.Mount)
		}
		at.ServeHTTP(w, r)
	}()
	if len(rec.Stat) == 0 {
		w.snapshot()
	}
	rec.Done = true
	if c, ok := ctx.(*simCtx); ok && c.Err() != nil {
		rec.Gone = true
	}
	if t != nil {
		rec.Steps = t.Steps - s0
	}
}

//go:norace
func (l *Lib) stall() {
	for l.active > 0 && !rt.Aborting() {
		rt.Block(uintptr(0x51a11))
	}
}

//go:norace
func (l *Lib) finished() {
	l.active--
	if l.active == 0 {
		rt.Wake(uintptr(0x51a11))
	}
}

//go:norace
func (l *Lib) setActive(n int) { l.active = n }

func (q *Req) stalls() bool {
	if q.Fault != nil && q.Fault.StallAt > 0 {
		return true
	}
	for _, b := range q.Beh {
		if b.K == "stall" {
			return true
		}
		for _, a := range append(append([]Act(nil), b.Pre...), b.Post...) {
			if a.Sub != nil && a.Sub.stalls() {
				return true
			}
		}
	}
	return false
}

// Serve serves the connections of a phase concurrently and returns the
// records of their requests.
func (l *Lib) Serve(conns []*Conn) [][]*Rec {
	out, fns := l.connTasks(conns)
	rt.K.Run(fns...)
	return out
}

// connTasks returns the tasks that serve the connections and where they will put
// the records.
func (l *Lib) connTasks(conns []*Conn) (out [][]*Rec, fns []func()) {
	out = make([][]*Rec, len(conns))
	l.extra = make([][]*Rec, len(conns))
	n := 0
	for i, c := range conns {
		out[i] = make([]*Rec, len(c.Reqs))
		live := true
		var count []bool
		for j, q := range c.Reqs {
			out[i][j] = &Rec{Req: q}
			if q.stalls() {
				live = false
			}
			count = append(count, live)
			if live {
				n++
			}
		}
		for t := 1; t < c.Times; t++ {
			for _, q := range c.Reqs {
				l.extra[i] = append(l.extra[i], &Rec{Req: q})
			}
		}
		c, recs, extra := c, out[i], l.extra[i]
		fns = append(fns, func() {
			for _, rec := range extra {
				if rec.Req.Gap > 0 {
					rt.SleepFor(rec.Req.Gap)
				}
				l.do(context.Background(), rec.Req, rec)
			}
			for j, q := range c.Reqs {
				if q.Gap > 0 {
					rt.SleepFor(q.Gap)
				}
				l.do(context.Background(), q, recs[j])
				if count[j] {
					l.finished()
				}
			}
		})
	}
	l.setActive(n)
	return out, fns
}

// index finds out which object is which node. It returns what is missing or
// too much.
func (l *Lib) index() (bad string) {
	defer func() {
		if v := recover(); v != nil {
			if rt.IsAbort(v) {
				panic(v)
			}
			bad = "looking the responders up: " + panicStr(v)
		}
	}()
	l.resID = map[*nanomux.Resource]int{}
	l.hostID = map[*nanomux.Host]int{}
	l.names = nil
	for _, n := range l.m.Order {
		if n.Tm != nil {
			for _, v := range n.Tm.ValueNames() {
				if !has(l.names, v) {
					l.names = append(l.names, v)
				}
			}
		}
	}
	sort.Strings(l.names)
	hs := l.ro.Hosts()
	if len(hs) != len(l.m.Hosts) {
		return "the router has " + strconv.Itoa(len(hs)) + " hosts, want " + strconv.Itoa(len(l.m.Hosts))
	}
	for _, n := range l.m.Hosts {
		t := nanomux.Parse(n.Tm.Str(false))
		var hit *nanomux.Host
		for _, h := range hs {
			if h.Template().SimilarityWith(t) == nanomux.TheSame {
				hit = h
			}
		}
		if hit == nil {
			return "host " + n.Tm.Str(false) + " is lost"
		}
		l.hostID[hit] = n.ID
		if o := l.obj[n.ID]; o != nil && o != responder(hit) {
			return "host " + n.Tm.Str(false) + " is another object"
		}
		l.obj[n.ID] = hit
		if s := l.indexKids(n, hit); s != "" {
			return s
		}
	}
	u := "/"
	if l.m.Root != nil && l.m.Root.has(fSec) {
		u = "https:///"
	}
	r := l.ro.RegisteredResource(u)
	if l.m.Root == nil {
		if r != nil && r.HasAnyChildResources() {
			return "unexpected resources below the root"
		}
		if r != nil {
			l.resID[r] = -2
		}
		return ""
	}
	if r == nil {
		return "the root resource is lost"
	}
	l.resID[r] = l.m.Root.ID
	if o := l.obj[l.m.Root.ID]; o != nil && o != responder(r) {
		return "the root resource is another object"
	}
	l.obj[l.m.Root.ID] = r
	return l.indexKids(l.m.Root, r)
}

func (l *Lib) indexKids(n *Node, o responder) string {
	rs := o.ChildResources()
	if len(rs) != len(n.Kids) {
		return l.nodeStr(n) + " has " + strconv.Itoa(len(rs)) + " child resources, want " + strconv.Itoa(len(n.Kids))
	}
	for _, k := range n.Kids {
		t := nanomux.Parse(k.Tm.Str(false))
		var hit *nanomux.Resource
		for _, r := range rs {
			if r.Template().SimilarityWith(t) == nanomux.TheSame {
				hit = r
			}
		}
		if hit == nil {
			return "resource " + l.nodeStr(k) + " is lost"
		}
		l.resID[hit] = k.ID
		if o := l.obj[k.ID]; o != nil && o != responder(hit) {
			return "resource " + l.nodeStr(k) + " is another object"
		}
		l.obj[k.ID] = hit
		if s := l.indexKids(k, hit); s != "" {
			return s
		}
	}
	return ""
}

func (l *Lib) nodeStr(n *Node) string {
	s := ""
	for _, a := range n.chainUp() {
		switch a.Kind {
		case "host":
			s += "//" + a.Tm.Str(true)
		case "res":
			s += "/" + a.Tm.Str(true)
		}
	}
	if s == "" {
		s = "/"
	}
	return s
}
