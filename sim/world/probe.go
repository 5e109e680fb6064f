package world

import (
	"verifsim/rt"

	"github.com/shohruhadham/nanomux"
)

// Probe shows a known finding: a genuine defect that isn't repaired. There
// returns what fails, or "" if it doesn't fail any more.
type Probe struct {
	Prop, ID string
	There    func() string
}

// Probes are the known findings, which are listed in known-findings.txt, too.
var Probes = []Probe{
	{"C10", "resource-using-config-host-name", func() string {
		ro := nanomux.NewRouter()
		ro.Host("$name:first.example")
		e := catch(func() {
			ro.ResourceUsingConfig("http://$name:second.example/a", nanomux.Config{})
		})
		if e != "" || len(ro.Hosts()) != 2 {
			return ""
		}
		return "Router.ResourceUsingConfig accepts a new host (http://$name:second.example/a) whose name another host ($name:first.example) has already"
	}},
}

// Run runs the probe in a simulation of its own.
func (p Probe) Run() (s string) {
	rt.ResetGlobals()
	ResetLibrary()
	rt.K.Reset(rt.Config{})
	rt.K.Run(func() { s = p.There() })
	return s
}
