// Package scen holds the simulated workloads and their oracles, one or more per
// property.
package scen

import (
	"os"
	"strings"

	"dst/sim"
)

// Scenario is one kind of run that decides (part of) a property.
type Scenario struct {
	Prop   string
	Name   string
	Weight int
	Fn     func(w *sim.World)
}

// Prop is what the orchestrator needs to know about a property's check.
type Prop struct {
	ID    string
	Quick int    // runs of the quick tier
	Rule  string // what a run is, and when it counts as non-trivial
	Real  string // components that run real code
	Stub  string // components that are simulated
	Scen  []*Scenario
	Wheel []*Scenario // by weight
}

var Props = map[string]*Prop{}

func property(id string, quick int, rule, real string, scens ...*Scenario) {
	p := &Prop{ID: id, Quick: quick, Rule: rule, Real: real,
		Stub: "disk, directory tree, clock, entropy source, terminal, process table, thread scheduler (package dst)"}
	for _, s := range scens {
		s.Prop = id
		p.Scen = append(p.Scen, s)
		for i := 0; i < s.Weight; i++ {
			p.Wheel = append(p.Wheel, s)
		}
	}
	Props[id] = p
}

func sc(name string, weight int, fn func(w *sim.World)) *Scenario {
	return &Scenario{Name: name, Weight: weight, Fn: fn}
}

// ---------------------------------------------------------------- findings

// Findings holds the ids listed as known in the known-findings file.
var Findings = map[string]string{}

// LoadFindings reads lines "known: property=<id> key=<key> <what fails>".
func LoadFindings(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 4 && f[0] == "known:" && strings.HasPrefix(f[1], "property=") && strings.HasPrefix(f[2], "key=") {
			Findings[f[1][9:]+" "+f[2][4:]] = strings.Join(f[3:], " ")
		}
	}
}

// finding: a violation that may be listed.
func finding(w *sim.World, prop, key, class, format string, args ...any) {
	if what, ok := Findings[prop+" "+key]; ok {
		w.Known(key, what)
		return
	}
	sim.Failf(class, format, args...)
}
