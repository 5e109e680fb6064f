package world

import (
	"regexp"
	"strings"

	"verifsim/rt"
)

var sigNoise = regexp.MustCompile(`[0-9]+|"[^"]*"|\[[^\]]*\]`)

// Sig identifies a failure while it's minimised.
func (f *Fail) Sig() string {
	if f == nil {
		return ""
	}
	switch f.Class {
	case "configure", "refuse":
		return f.Class + " " + sigNoise.ReplaceAllString(f.Msg, "#")
	}
	return f.Class
}

// without drops a node, what is below it and everything that mentions them.
func (s *Scenario) without(node int) *Scenario {
	gone := map[int]bool{node: true}
	for again := true; again; {
		again = false
		for _, ph := range s.Phases {
			for _, op := range ph.Ops {
				if op.K == OpNode && op.Kind == "res" && gone[op.P] && !gone[op.N] {
					gone[op.N] = true
					again = true
				}
			}
		}
	}
	c := s.Clone()
	for _, ph := range c.Phases {
		var ops []*Op
		for _, op := range ph.Ops {
			if !gone[op.N] {
				ops = append(ops, op)
			}
		}
		ph.Ops = ops
		c.filter(ph, func(q *Req) bool { return !q.usesMount(gone) })
	}
	return c
}

// usesMount tells whether the request, or one that its handlers make, is served
// by one of the nodes directly.
func (q *Req) usesMount(gone map[int]bool) bool {
	if q.Tree == 1 {
		return false
	}
	if q.Mount >= 0 && gone[q.Mount] {
		return true
	}
	for _, b := range q.Beh {
		for _, as := range [][]Act{b.Pre, b.Post} {
			for _, a := range as {
				if a.Sub != nil && a.Sub.usesMount(gone) {
					return true
				}
			}
		}
	}
	return false
}

func (s *Scenario) filter(ph *Phase, keep func(q *Req) bool) {
	var cs []*Conn
	for _, cn := range ph.Conns {
		var qs []*Req
		for _, q := range cn.Reqs {
			if keep(q) {
				qs = append(qs, q)
			}
		}
		if len(qs) > 0 {
			cs = append(cs, &Conn{Reqs: qs, Times: cn.Times})
		}
	}
	ph.Conns = cs
}

// Size measures a scenario.
func (s *Scenario) Size() int {
	n := 0
	for _, ph := range s.Phases {
		n += 10 * len(ph.Ops)
		for _, c := range ph.Conns {
			n += 5
			for _, q := range c.Reqs {
				n += 20 + len(q.Path) + len(q.Host) + 3*c.Times
				for _, b := range q.Beh {
					n += 5 + 5*len(b.Pre) + 5*len(b.Post)
				}
				if q.Fault != nil {
					n += 5
				}
			}
		}
	}
	n += 20 * len(s.Phases)
	if s.Other != nil {
		n += 20 + s.Other.Size()
	}
	return n
}

// Shrink makes the scenario smaller while try says that it still fails in the
// same way. stop is asked now and then.
func Shrink(s *Scenario, try func(*Scenario) bool, stop func() bool) *Scenario {
	if s.Other == nil {
		return shrink(s, try, stop)
	}
	for round := 0; round < 3 && !stop(); round++ {
		before := s.Size()
		s = shrink(s, try, stop)
		c := *s
		shrink(s.Other, func(o *Scenario) bool {
			d := c
			d.Other = o
			if !try(&d) {
				return false
			}
			s = &d
			return true
		}, stop)
		if s.Size() >= before {
			break
		}
	}
	return s
}

func shrink(s *Scenario, try func(*Scenario) bool, stop func() bool) *Scenario {
	cur := s
	attempt := func(c *Scenario) bool {
		if stop() {
			return false
		}
		if try(c) {
			cur = c
			return true
		}
		// Another schedule may do.
		if c.Kern.Strat != rt.StratSerial {
			for i := uint64(1); i <= 3; i++ {
				d := c.Clone()
				d.Kern.Seed = d.Kern.Seed*31 + i
				if stop() {
					return false
				}
				if try(d) {
					cur = d
					return true
				}
			}
		}
		return false
	}
	for round := 0; round < 4 && !stop(); round++ {
		before := cur.Size()
		// The simplest circumstances first.
		for _, f := range []func(c *Scenario) bool{
			func(c *Scenario) bool {
				ch := c.Kern.Strat != rt.StratSerial
				c.Kern.Strat = rt.StratSerial
				return ch
			},
			func(c *Scenario) bool {
				ch := c.Kern.PoolDrop != 0
				c.Kern.PoolDrop = 0
				return ch
			},
			func(c *Scenario) bool {
				ch := c.Kern.PoolMode != rt.PoolLIFO
				c.Kern.PoolMode = rt.PoolLIFO
				return ch
			},
			func(c *Scenario) bool {
				ch := c.Style != ""
				c.Style = ""
				return ch
			},
			func(c *Scenario) bool {
				if len(c.Phases) < 2 {
					return false
				}
				// Everything at once.
				p := &Phase{}
				for _, ph := range c.Phases {
					p.Ops = append(p.Ops, ph.Ops...)
				}
				p.Conns = c.Phases[len(c.Phases)-1].Conns
				c.Phases = []*Phase{p}
				return true
			},
		} {
			c := cur.Clone()
			if f(c) {
				attempt(c)
			}
		}
		for pi := range cur.Phases {
			for ci := range cur.Phases[pi].Conns {
				for _, f := range []func(t int) int{func(int) int { return 0 }, func(t int) int { return t / 8 }, func(t int) int { return t / 2 }, func(t int) int { return t * 3 / 4 }} {
					for {
						c := cur.Clone()
						cn := c.Phases[pi].Conns[ci]
						t := f(cn.Times)
						if t < 2 {
							t = 0
						}
						if t >= cn.Times {
							break
						}
						cn.Times = t
						if !attempt(c) {
							break
						}
					}
				}
			}
			// Clients and requests.
			var ids []int
			for _, cn := range cur.Phases[pi].Conns {
				for _, q := range cn.Reqs {
					ids = append(ids, q.ID)
				}
			}
			ddmin(ids, func(drop []int) bool {
				c := cur.Clone()
				c.filter(c.Phases[pi], func(q *Req) bool { return !hasInt(drop, q.ID) })
				return attempt(c)
			})
		}
		// Nodes.
		var nodes []int
		for _, ph := range cur.Phases {
			for _, op := range ph.Ops {
				if op.K == OpNode {
					nodes = append(nodes, op.N)
				}
			}
		}
		if round == 0 && len(nodes) > 8 {
			ddmin(nodes, func(drop []int) bool {
				c := cur
				for _, n := range drop {
					c = c.without(n)
				}
				return attempt(c)
			})
		} else {
			for i := len(nodes) - 1; i >= 0; i-- {
				attempt(cur.without(nodes[i]))
			}
		}
		// Other steps.
		for pi := range cur.Phases {
			var ids []int
			for _, op := range cur.Phases[pi].Ops {
				if op.K != OpNode {
					ids = append(ids, op.ID)
				}
			}
			ddmin(ids, func(drop []int) bool {
				c := cur.Clone()
				var ops []*Op
				for _, op := range c.Phases[pi].Ops {
					if op.K == OpNode || !hasInt(drop, op.ID) {
						ops = append(ops, op)
					}
				}
				c.Phases[pi].Ops = ops
				return attempt(c)
			})
		}
		// What's in the requests.
		for pi := range cur.Phases {
			for ci := range cur.Phases[pi].Conns {
				if ci >= len(cur.Phases[pi].Conns) {
					break
				}
				for qi := range cur.Phases[pi].Conns[ci].Reqs {
					edit := func(f func(q *Req) bool) {
						c := cur.Clone()
						q := *c.Phases[pi].Conns[ci].Reqs[qi]
						q.Beh = append([]Beh(nil), q.Beh...)
						if f(&q) {
							c.Phases[pi].Conns[ci].Reqs[qi] = &q
							attempt(c)
						}
					}
					get := func() *Req { return cur.Phases[pi].Conns[ci].Reqs[qi] }
					edit(func(q *Req) bool { n := len(q.Beh); q.Beh = nil; return n > 0 })
					for b := len(get().Beh) - 1; b >= 0; b-- {
						edit(func(q *Req) bool { q.Beh = append(append([]Beh(nil), q.Beh[:b]...), q.Beh[b+1:]...); return true })
					}
					for b := range get().Beh {
						edit(func(q *Req) bool { ch := len(q.Beh[b].Pre) > 0; q.Beh[b].Pre = nil; return ch })
						edit(func(q *Req) bool { ch := len(q.Beh[b].Post) > 0; q.Beh[b].Post = nil; return ch })
					}
					edit(func(q *Req) bool { ch := q.Fault != nil; q.Fault = nil; return ch })
					edit(func(q *Req) bool { ch := q.Gap != 0; q.Gap = 0; return ch })
					edit(func(q *Req) bool { ch := q.Abs; q.Abs, q.AbsS = false, false; return ch })
					edit(func(q *Req) bool { ch := len(q.Hdr) > 0; q.Hdr, q.Body = nil, ""; return ch })
					edit(func(q *Req) bool {
						i := strings.IndexByte(q.Path, '?')
						if i < 0 {
							return false
						}
						q.Path = q.Path[:i]
						return true
					})
					edit(func(q *Req) bool { ch := q.Meth != "GET"; q.Meth = "GET"; return ch })
				}
			}
		}
		// What's in the nodes.
		for pi := range cur.Phases {
			for oi := range cur.Phases[pi].Ops {
				op := cur.Phases[pi].Ops[oi]
				if op.Cfg == nil || op.K != OpNode {
					continue
				}
				c := cur.Clone()
				o := *op
				o.Cfg = nil
				c.Phases[pi].Ops[oi] = &o
				attempt(c)
			}
		}
		if cur.Size() >= before {
			break
		}
	}
	return cur
}

// ShrinkSwitches minimises an explicit schedule.
func ShrinkSwitches(s *Scenario, try func(*Scenario) bool, stop func() bool) *Scenario {
	cur := s
	idx := make([]int, len(s.Kern.Explicit))
	for i := range idx {
		idx[i] = i
	}
	left := map[int]bool{}
	for _, i := range idx {
		left[i] = true
	}
	ddmin(idx, func(drop []int) bool {
		if stop() {
			return false
		}
		c := cur.Clone()
		c.Kern.Explicit = nil
		for i, sw := range s.Kern.Explicit {
			if left[i] && !hasInt(drop, i) {
				c.Kern.Explicit = append(c.Kern.Explicit, sw)
			}
		}
		if !try(c) {
			return false
		}
		for _, i := range drop {
			delete(left, i)
		}
		cur = c
		return true
	})
	return cur
}

func hasInt(l []int, x int) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

// ddmin drops ever smaller chunks of the list.
func ddmin(list []int, drop func(chunk []int) bool) {
	n := len(list)
	for size := n; size >= 1; size /= 2 {
		for i := 0; i < len(list); {
			j := i + size
			if j > len(list) {
				j = len(list)
			}
			if drop(list[i:j]) {
				list = append(append([]int(nil), list[:i]...), list[j:]...)
			} else {
				i = j
			}
		}
	}
}
