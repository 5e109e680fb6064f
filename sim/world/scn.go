package world

import (
	"encoding/json"
	"net/http"
	"strconv"
	"unicode/utf8"

	"verifsim/rt"
)

// Cfg mirrors nanomux.Config.
type Cfg struct {
	Sub    bool `json:"sub,omitempty"`
	Sec    bool `json:"sec,omitempty"`
	Redir  bool `json:"redir,omitempty"`
	TS     bool `json:"ts,omitempty"`
	Strict bool `json:"strict,omitempty"`
	Len    bool `json:"len,omitempty"`
	Unc    bool `json:"unc,omitempty"`
	AsIs   bool `json:"asis,omitempty"`
}

// Op is one semantic configuration step. Steps are listed in the order in
// which the model applies them.
type Op struct {
	ID     int      `json:"id"`
	K      string   `json:"k"`
	N      int      `json:"n"`           // target node, -1: the router
	P      int      `json:"p,omitempty"` // parent node of a new node
	Kind   string   `json:"kind,omitempty"`
	Tm     *Tmpl    `json:"tm,omitempty"`
	Sec    bool     `json:"sec,omitempty"`
	TS     bool     `json:"ts,omitempty"`
	Cfg    *Cfg     `json:"cfg,omitempty"`
	M      string   `json:"m,omitempty"`
	Tag    int      `json:"tag,omitempty"`
	HK     string   `json:"hk,omitempty"` // kind of the handler
	Tags   []int    `json:"tags,omitempty"`
	MKs    []string `json:"mks,omitempty"` // kinds of the middlewares
	Code   int      `json:"code,omitempty"`
	URL    string   `json:"url,omitempty"`
	X      int      `json:"x,omitempty"`    // impl type, shared data id, ...
	Form   int      `json:"form,omitempty"` // how the step is executed
	Refuse string   `json:"refuse,omitempty"`
}

// Kinds of steps.
const (
	OpNode     = "node"    // new host, root or resource
	OpHandler  = "handler" // SetHandlerFor(M)
	OpImpl     = "impl"
	OpPassMw   = "passmw"
	OpHndMw    = "hndmw"
	OpMethMw   = "methmw"
	OpShared   = "shared"
	OpConfig   = "config"
	OpCode     = "code"
	OpRdH      = "rdh"
	OpRdMw     = "rdmw"
	OpRedirect = "redirect"
	OpRedAny   = "redany"
	OpBShared  = "bshared" // bulk settings; N==-1: whole router
	OpBConfig  = "bconfig"
	OpBPassMw  = "bpassmw"
	OpBHndMw   = "bhndmw"
	OpBMethMw  = "bmethmw"
	OpRoPassMw = "ropassmw" // the router's own passer
	OpGCode    = "gcode"
	OpGRdH     = "grdh"
	OpGRdMw    = "grdmw"
	OpGNf      = "gnf"
	OpGNfMw    = "gnfmw"
	OpRefuse   = "refuse" // must panic and change nothing
)

// Act is a side action of a handler or middleware.
type Act struct {
	K   string `json:"k"` // set, sleep, nest
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
	Sub *Req   `json:"sub,omitempty"`
}

// Beh is what a handler or middleware does in one request.
type Beh struct {
	Tag  int    `json:"tag"`
	K    string `json:"k"`
	Pre  []Act  `json:"pre,omitempty"`
	Post []Act  `json:"post,omitempty"`
	RM   string `json:"rm,omitempty"` // rewr: the method
	RH   string `json:"rh,omitempty"` // rewr: the host
	RT   bool   `json:"rt,omitempty"` // rewr: TLS or not, inverted
}

// Fault is what happens to a request's connection.
type Fault struct {
	WriteFailAt int   `json:"wfail,omitempty"`  // bytes after which writes fail, +1
	CancelAt    int64 `json:"cancel,omitempty"` // the client goes away (simulated time, +1)
	PanicAt     int   `json:"wpan,omitempty"`   // the writer panics when the first status is sent: 1 some value, 2 http.ErrAbortHandler
	StallAt     int   `json:"stall,omitempty"`  // the connection stalls: 1 at the response's header, 2 at its body
}

// writerPanic panics if the fault is that of a writer that does.
func (f *Fault) writerPanic() {
	if f == nil {
		return
	}
	switch f.PanicAt {
	case 1:
		panic(&PanicVal{9000})
	case 2:
		panic(http.ErrAbortHandler)
	}
}

// Req is a request.
type Req struct {
	ID      int      `json:"id"`
	Mount   int      `json:"mount"` // -1: router, else the node
	Meth    string   `json:"meth"`
	Host    string   `json:"host"`
	Path    string   `json:"path"` // request target as sent
	Abs     bool     `json:"abs,omitempty"`
	NoHost  bool     `json:"no_host,omitempty"` // the Host field is empty, only the URL has the host
	AbsS    bool     `json:"abs_s,omitempty"`   // the absolute form says https in any case
	Hdr     []string `json:"hdr,omitempty"`     // other headers, nothing may depend on
	Body    string   `json:"body,omitempty"`
	Proto   int      `json:"proto,omitempty"` // 1: HTTP/1.0, 2: HTTP/2
	TLS     bool     `json:"tls,omitempty"`
	Gap     int64    `json:"gap,omitempty"` // pause before it's sent
	Beh     []Beh    `json:"beh,omitempty"`
	Fault   *Fault   `json:"fault,omitempty"`
	Inherit bool     `json:"inherit,omitempty"` // nested: same context
	Tree    int      `json:"tree,omitempty"`    // nested: 1: it's for the other tree
}

// Conn is a client sending requests one after the other.
type Conn struct {
	Reqs  []*Req `json:"reqs"`
	Times int    `json:"times,omitempty"` // how many times they are sent, if more than once
}

// Phase is some configuration followed by some serving.
type Phase struct {
	Ops   []*Op   `json:"ops,omitempty"`
	Conns []*Conn `json:"conns,omitempty"`
}

// Scenario is everything that happens in one simulated run.
type Scenario struct {
	Prop   string    `json:"prop"`
	Seed   uint64    `json:"seed"`
	Style  string    `json:"style,omitempty"` // how the tree is built
	Build  uint64    `json:"build"`           // seed of the way it's built
	Phases []*Phase  `json:"phases"`
	Kern   rt.Config `json:"kern"`
	Note   string    `json:"note,omitempty"`

	Other *Scenario `json:"other,omitempty"` // another tree's, at the same time
	Lag   int       `json:"lag,omitempty"`   // how much later that begins
}

type plainReq Req

// quotedReq is a request with a path JSON can't represent.
type quotedReq struct {
	plainReq
	Path   string `json:"path,omitempty"`
	Quoted string `json:"quoted_path,omitempty"`
}

// MarshalJSON keeps the bytes of the path.
func (q *Req) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(q.Path) {
		return json.Marshal((*plainReq)(q))
	}
	return json.Marshal(quotedReq{plainReq: plainReq(*q), Quoted: strconv.QuoteToASCII(q.Path)})
}

// UnmarshalJSON is the reverse of MarshalJSON.
func (q *Req) UnmarshalJSON(b []byte) error {
	var p quotedReq
	if err := json.Unmarshal(b, &p); err != nil {
		return err
	}
	*q = Req(p.plainReq)
	q.Path = p.Path
	if p.Quoted != "" {
		s, err := strconv.Unquote(p.Quoted)
		if err != nil {
			return err
		}
		q.Path = s
	}
	return nil
}

// Clone makes a deep enough copy for the minimiser.
func (s *Scenario) Clone() *Scenario {
	c := *s
	c.Phases = nil
	for _, p := range s.Phases {
		np := &Phase{Ops: append([]*Op(nil), p.Ops...)}
		for _, cn := range p.Conns {
			np.Conns = append(np.Conns, &Conn{Reqs: append([]*Req(nil), cn.Reqs...), Times: cn.Times})
		}
		c.Phases = append(c.Phases, np)
	}
	c.Kern.Explicit = append([]rt.Switch(nil), s.Kern.Explicit...)
	if s.Other != nil {
		c.Other = s.Other.Clone()
	}
	return &c
}

// Flags of a responder, as in nanomux.
const (
	fSub = 1 << iota
	fSec
	fRedir
	fTS
	fStrict
	fLen
	fUnc
)

func (c *Cfg) flags() int {
	f := 0
	if c == nil {
		return 0
	}
	if c.Sub {
		f |= fSub
	}
	if c.Sec {
		f |= fSec
	}
	if c.Redir {
		f |= fSec | fRedir
	}
	if c.TS {
		f |= fTS
	}
	if c.Strict {
		f |= fStrict
	}
	if c.Len {
		f |= fLen
	}
	if c.Unc {
		f |= fUnc
	}
	if c.AsIs {
		f |= fLen | fUnc
	}
	return f
}
