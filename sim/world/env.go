package world

import (
	"fmt"
	"net/http"
	"net/url"
	"strconv"
	"strings"
)

// Obs is what a handler or middleware sees.
type Obs struct {
	Vals     []KV
	Rem      string
	Host     int
	Res      int
	Impl     int
	Shared   int
	Args     []int
	Marks    []int
	WMarks   []int
	Meth     string
	Loose    bool // model only: values of abandoned parts may be there too
	ArgsOnly bool // model only: nothing but custom arguments is specified
}

// Ev is an event of a request.
type Ev struct {
	T    int
	P    byte // i: in, o: out, r: redirect handler, n: not-found handler, l: a look at the responder
	Ret  bool
	URL  string
	Code int
	Obs  *Obs
	Rq   string // the request the handler or middleware has
	inst *application
	meth string
}

// application is an application of a converted middleware to its next handler.
type application struct {
	late bool // while requests were being served
}

// Rec is the record of a request.
type Rec struct {
	Req     *Req
	Evs     []Ev
	Stat    []int // every decision about the status, in order
	Body    []byte
	Lib     bool // the library's own body (model only)
	Allow   []string
	Loc     []string
	CT      string
	WMarkH  []string
	Panic   string // value that reached the caller
	Done    bool
	Subs    []*Rec
	Steps   int64
	NoModel bool          // model: not specified
	WFailed bool          // a write has failed
	Gone    bool          // the client has gone meanwhile
	first   *http.Request // as it was sent
	lib     *Lib          // whose tree serves it
	at      http.Handler  // serves it, if it's no node
	Pol     bool          // model: answered by a redirect to the proper URL
	PolNode int
	PolVals []KV
}

// PanicVal is what the simulated handlers panic with.
type PanicVal struct{ Tag int }

func panicStr(v interface{}) string {
	switch x := v.(type) {
	case *PanicVal:
		return "P" + strconv.Itoa(x.Tag)
	case PanicVal:
		return "p" + strconv.Itoa(x.Tag)
	case error:
		if x == http.ErrAbortHandler {
			return "abort"
		}
		return "error: " + x.Error()
	}
	return fmt.Sprintf("other: %v", v)
}

// Env is what handlers and middlewares do things with; the simulated world and
// the model implement it.
type Env interface {
	In(tag int)
	Out(tag int, ret bool)
	Set(k, v int)
	Write(status int, body string)
	Sleep(d int64)
	Stall()
	Nest(sub *Req)
	Look()
	Mark(tag int) Env
	Rewrite(b *Beh) Env // changes the request that is passed on
	Decided() bool      // a status has been sent
}

func (q *Req) beh(tag int) *Beh {
	for i := range q.Beh {
		if q.Beh[i].Tag == tag {
			return &q.Beh[i]
		}
	}
	return nil
}

func acts(e Env, as []Act) {
	for _, a := range as {
		switch a.K {
		case "set":
			e.Set(a.A, a.B)
		case "look":
			e.Look()
		case "sleep":
			e.Sleep(int64(a.A))
		case "nest":
			if a.Sub != nil {
				e.Nest(a.Sub)
			}
		}
	}
}

// Behaviours of middlewares: pass, drop, swal, ans, panb, pana, ovr, rec, mark,
// stall, rewr (the next handler gets a changed request), veto (declines if
// nothing was answered), adopt (takes the request in any case).
func runMw(e Env, tag int, std bool, b *Beh, next func(Env) bool) (ret bool) {
	e.In(tag)
	k := ""
	var pre, post []Act
	if b != nil {
		k, pre, post = b.K, b.Pre, b.Post
	}
	acts(e, pre)
	switch k {
	case "drop":
		e.Out(tag, false)
		return false
	case "swal":
		e.Out(tag, true)
		return true
	case "ans":
		e.Write(299, "m"+strconv.Itoa(tag))
		e.Out(tag, true)
		return true
	case "panb":
		panic(&PanicVal{tag})
	case "abt":
		panic(http.ErrAbortHandler)
	case "stall":
		e.Stall()
	case "rec":
		defer func() {
			if v := recover(); v != nil {
				if !isModelOrUserPanic(v) {
					panic(v)
				}
				e.Write(500, "r"+strconv.Itoa(tag))
				ret = true
			}
		}()
	}
	e2 := e
	switch k {
	case "mark":
		e2 = e.Mark(tag)
	case "rewr":
		e2 = e.Rewrite(b)
	}
	ret = next(e2)
	acts(e, post)
	switch k {
	case "pana":
		panic(PanicVal{tag})
	case "ovr":
		if !ret {
			e.Write(298, "o"+strconv.Itoa(tag))
			ret = true
		}
	case "veto":
		if !e.Decided() {
			ret = false
		}
	case "adopt":
		ret = true
	}
	e.Out(tag, ret)
	return ret
}

func isModelOrUserPanic(v interface{}) bool {
	switch x := v.(type) {
	case *PanicVal, PanicVal:
		return true
	case error:
		return x == http.ErrAbortHandler
	}
	return false
}

// Behaviours of handlers: ok, dec, sil, pan, abt, part, multi, stall.
func runHandler(e Env, tag int, b *Beh) bool {
	e.In(tag)
	k := ""
	if b != nil {
		k = b.K
		acts(e, b.Pre)
	}
	switch k {
	case "dec":
		return false
	case "sil":
		return true
	case "pan":
		panic(&PanicVal{tag})
	case "abt":
		panic(http.ErrAbortHandler)
	case "part":
		e.Write(200, "partial"+strconv.Itoa(tag))
		panic(PanicVal{tag})
	case "multi":
		e.Write(201, "a"+strconv.Itoa(tag))
		e.Sleep(1)
		e.Write(0, "b"+strconv.Itoa(tag))
		return true
	case "stall":
		e.Stall()
	}
	e.Write(200+tag%50, "h"+strconv.Itoa(tag))
	return true
}

// nKeys is the number of keys of custom arguments that are used commonly.
// A request that sets many more of them makes all of them watched.
const (
	nKeys   = 10
	allKeys = 70
)

// shownArgs drops the uncommon keys if none of them is set.
func shownArgs(vs []int) []int {
	for _, v := range vs[nKeys:] {
		if v != 0 {
			return vs
		}
	}
	return vs[:nKeys]
}

type keyT struct{ K int }

func keyOf(k int) interface{} {
	switch k % 3 {
	case 0:
		return k / 3
	case 1:
		return "key" + strconv.Itoa(k/3)
	}
	return keyT{k / 3}
}

func intsEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (o *Obs) String() string {
	if o == nil {
		return "-"
	}
	var b strings.Builder
	if o.ArgsOnly {
		fmt.Fprintf(&b, "args=%v", o.Args)
		return b.String()
	}
	fmt.Fprintf(&b, "vals=%q rem=%q host=%d res=%d impl=%d shared=%d args=%v marks=%v/%v meth=%s",
		o.Vals, o.Rem, o.Host, o.Res, o.Impl, o.Shared, o.Args, o.Marks, o.WMarks, o.Meth)
	return b.String()
}

func (e Ev) String() string {
	s := fmt.Sprintf("%c%d", e.P, e.T)
	if e.P == 'o' {
		return s + fmt.Sprintf("=%v", e.Ret)
	}
	if e.P == 'r' {
		s += fmt.Sprintf(" %q %d", e.URL, e.Code)
	}
	return s + " " + e.Obs.String()
}

// Dump prints the record.
func (r *Rec) Dump() string {
	var b strings.Builder
	for _, e := range r.Evs {
		b.WriteString("    " + e.String() + "\n")
	}
	body := string(r.Body)
	if r.Lib {
		body = "(library)" + body
	}
	fmt.Fprintf(&b, "    => status=%v body=%q allow=%v loc=%q panic=%q done=%v\n", r.Stat, body, r.Allow, r.Loc, r.Panic, r.Done)
	for _, s := range r.Subs {
		b.WriteString("  nested:\n" + s.Dump())
	}
	return b.String()
}

// What is compared.
const (
	CmpSeq  = 1 << iota // which handlers and middlewares ran, in which order
	CmpObs              // what they saw
	CmpResp             // the response
	CmpPanic
	CmpArgs // custom arguments only
	CmpAll  = CmpSeq | CmpObs | CmpResp | CmpPanic
)

// diffObs compares what is observed with what the model (or another run)
// expects.
func diffObs(got, want *Obs, model bool) string {
	if got == nil || want == nil {
		return ""
	}
	if !intsEq(got.Args, want.Args) {
		return fmt.Sprintf("custom arguments %v, want %v", got.Args, want.Args)
	}
	if model && want.ArgsOnly {
		return ""
	}
	if got.Rem != want.Rem {
		return fmt.Sprintf("remaining path %q, want %q", got.Rem, want.Rem)
	}
	if got.Host != want.Host || got.Res != want.Res {
		return fmt.Sprintf("host %d resource %d, want %d %d", got.Host, got.Res, want.Host, want.Res)
	}
	if got.Impl != want.Impl || got.Shared != want.Shared {
		return fmt.Sprintf("impl %d shared %d, want %d %d", got.Impl, got.Shared, want.Impl, want.Shared)
	}
	if !intsEq(got.Marks, want.Marks) || !intsEq(got.WMarks, want.WMarks) {
		return fmt.Sprintf("request/writer of middlewares %v/%v, want %v/%v", got.Marks, got.WMarks, want.Marks, want.WMarks)
	}
	if got.Meth != want.Meth {
		return fmt.Sprintf("method %s, want %s", got.Meth, want.Meth)
	}
	if model && want.Loose {
		for _, w := range want.Vals {
			found := false
			for _, g := range got.Vals {
				if g == w {
					found = true
				}
			}
			if !found {
				return fmt.Sprintf("values %q, want at least %q", got.Vals, want.Vals)
			}
		}
		return ""
	}
	if len(got.Vals) != len(want.Vals) {
		return fmt.Sprintf("values %q, want %q", got.Vals, want.Vals)
	}
	for i := range got.Vals {
		if got.Vals[i] != want.Vals[i] {
			return fmt.Sprintf("values %q, want %q", got.Vals, want.Vals)
		}
	}
	return ""
}

// rqStr prints a request. No library may change the request it has been given.
func rqStr(meth, host string, tls bool, u *url.URL) string {
	s := meth + " " + host + " "
	if tls {
		s += "tls "
	}
	if u.Scheme != "" || u.Host != "" || u.User != nil || u.Opaque != "" || u.Fragment != "" {
		s += u.Scheme + ":" + u.Opaque + "//" + u.Host + "#" + u.Fragment
	}
	return s + u.Path + " " + u.RawPath + "?" + u.RawQuery
}

// Diff compares a record with the expected one. It returns "" if they agree,
// else what differs.
func Diff(got, want *Rec, mask int, model bool) string {
	if model && want.NoModel {
		return ""
	}
	if mask&CmpSeq != 0 {
		for i := 0; i < len(got.Evs) || i < len(want.Evs); i++ {
			if i >= len(got.Evs) {
				return fmt.Sprintf("event %d: nothing, want %s", i, want.Evs[i])
			}
			if i >= len(want.Evs) {
				return fmt.Sprintf("event %d: %s, want nothing", i, got.Evs[i])
			}
			g, w := got.Evs[i], want.Evs[i]
			if g.T != w.T || g.P != w.P || g.Ret != w.Ret {
				return fmt.Sprintf("event %d: %s, want %s", i, g, w)
			}
			if g.P == 'l' {
				if !model && mask&CmpObs != 0 && g.URL != w.URL {
					return fmt.Sprintf("event %d: the responder is found as %s, want %s", i, g.URL, w.URL)
				}
				continue
			}
			if mask&CmpResp != 0 && (g.URL != w.URL || g.Code != w.Code) {
				return fmt.Sprintf("event %d: %s, want %s", i, g, w)
			}
			if mask&CmpObs != 0 && g.Rq != w.Rq {
				return fmt.Sprintf("event %d (%c%d): the request is %s, want %s", i, g.P, g.T, g.Rq, w.Rq)
			}
			if mask&CmpObs != 0 {
				if d := diffObs(g.Obs, w.Obs, model); d != "" {
					return fmt.Sprintf("event %d (%c%d): %s", i, g.P, g.T, d)
				}
			} else if mask&CmpArgs != 0 && g.Obs != nil && w.Obs != nil && !intsEq(g.Obs.Args, w.Obs.Args) {
				return fmt.Sprintf("event %d (%c%d): custom arguments %v, want %v", i, g.P, g.T, g.Obs.Args, w.Obs.Args)
			}
		}
	}
	if mask&CmpPanic != 0 && got.Panic != want.Panic {
		return fmt.Sprintf("panic %q, want %q", got.Panic, want.Panic)
	}
	if got.Done != want.Done {
		return fmt.Sprintf("finished=%v, want %v", got.Done, want.Done)
	}
	if mask&CmpResp != 0 {
		if !intsEq(got.Stat, want.Stat) {
			return fmt.Sprintf("response decisions %v, want %v", got.Stat, want.Stat)
		}
		if model && want.Lib {
			// The text of the library's own answers isn't specified, but it
			// mustn't contain anything of a handler.
		} else if string(got.Body) != string(want.Body) {
			return fmt.Sprintf("body %q, want %q", got.Body, want.Body)
		}
		if fmt.Sprint(got.Allow) != fmt.Sprint(want.Allow) {
			return fmt.Sprintf("Allow %q, want %q", got.Allow, want.Allow)
		}
		if fmt.Sprint(got.Loc) != fmt.Sprint(want.Loc) {
			return fmt.Sprintf("Location %q, want %q", got.Loc, want.Loc)
		}
		if fmt.Sprint(got.WMarkH) != fmt.Sprint(want.WMarkH) {
			return fmt.Sprintf("marks %q, want %q", got.WMarkH, want.WMarkH)
		}
	}
	if len(got.Subs) != len(want.Subs) {
		return fmt.Sprintf("%d nested requests, want %d", len(got.Subs), len(want.Subs))
	}
	for i := range got.Subs {
		if d := Diff(got.Subs[i], want.Subs[i], mask, model); d != "" {
			return "nested: " + d
		}
	}
	return ""
}
