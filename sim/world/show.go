package world

import (
	"encoding/json"
	"fmt"
	"strings"
)

// String prints a scenario for people.
func (s *Scenario) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "property %s seed %d style %q build %d strategy %d pool %d\n", s.Prop, s.Seed, s.Style, s.Build, s.Kern.Strat, s.Kern.PoolMode)
	for i, ph := range s.Phases {
		fmt.Fprintf(&b, "phase %d\n", i)
		for _, op := range ph.Ops {
			b.WriteString("  " + op.String() + "\n")
		}
		for j, c := range ph.Conns {
			if c.Times > 1 {
				fmt.Fprintf(&b, "  client %d sends its requests %d times\n", j, c.Times)
			}
			for _, q := range c.Reqs {
				fmt.Fprintf(&b, "  client %d: %s", j, reqStr(q))
				if q.Abs {
					b.WriteString(" (absolute)")
				}
				if len(q.Hdr) > 0 {
					fmt.Fprintf(&b, " headers %q", q.Hdr)
				}
				if q.Gap > 0 {
					fmt.Fprintf(&b, " after %dns", q.Gap)
				}
				if len(q.Beh) > 0 {
					x, _ := json.Marshal(q.Beh)
					fmt.Fprintf(&b, " behaviours %s", x)
				}
				if q.Fault != nil {
					x, _ := json.Marshal(q.Fault)
					fmt.Fprintf(&b, " fault %s", x)
				}
				b.WriteString("\n")
			}
		}
	}
	if s.Other != nil {
		fmt.Fprintf(&b, "the other tree, %d later: %s", s.Lag, s.Other)
	}
	return b.String()
}

func (op *Op) String() string {
	s := fmt.Sprintf("step %d: %s", op.ID, op.K)
	if op.K == OpNode {
		s += fmt.Sprintf(" %d (%s)", op.N, op.Kind)
		if op.Kind == "res" {
			s += fmt.Sprintf(" below %d", op.P)
		}
		if op.Tm != nil {
			s += fmt.Sprintf(" %q", op.Tm.Str(false))
		}
	} else {
		s += fmt.Sprintf(" on %d", op.N)
	}
	if op.Sec {
		s += " https"
	}
	if op.TS {
		s += " slash"
	}
	if op.Cfg != nil {
		x, _ := json.Marshal(op.Cfg)
		s += " " + string(x)
	}
	if op.M != "" {
		s += fmt.Sprintf(" %q", op.M)
	}
	if op.Tag != 0 {
		s += fmt.Sprintf(" tag %d%s", op.Tag, op.HK)
	}
	if op.Tags != nil {
		s += fmt.Sprintf(" tags %v%v", op.Tags, op.MKs)
	}
	if op.X != 0 {
		s += fmt.Sprintf(" x %d", op.X)
	}
	if op.URL != "" {
		s += fmt.Sprintf(" url %q", op.URL)
	}
	if op.Code != 0 {
		s += fmt.Sprintf(" code %d", op.Code)
	}
	if op.Refuse != "" {
		s += " " + op.Refuse
	}
	return s
}
