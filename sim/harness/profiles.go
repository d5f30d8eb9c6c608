package main

import (
	"math/rand"

	"verifsim/simrt"
)

var profiles = map[string]*Profile{
	"C01": {ID: "C01", Siblings: 2, MinClients: 1, MaxClients: 3, Builders: 0.25, Statements: 0.2, Unresolved: 0.01, KeepPanics: 0.05, Repeat: 0.3, Derive: 3, Continue: 2, Use: 4, Probe: 1, Fresh: 4, GC: 0.05, Drop: true},
	"C02": {ID: "C02", Siblings: 3, Race: true, MinClients: 2, MaxClients: 4, Builders: 0.2, Statements: 0.35, KeepPanics: 0.05, Repeat: 0.1, Derive: 3, Continue: 2, Use: 4, Probe: 2, Fresh: 1},
	"C03": {ID: "C03", Again: 0.1, Siblings: 1, MinClients: 1, MaxClients: 3, Builders: 0.2, Statements: 0.5, Invalid: 0.03, KeepPanics: 0.4, SharedRend: 0.92, Repeat: 0.3, Derive: 1, Continue: 2, Use: 4, Probe: 2, Fresh: 3, Kill: 0.01, Failing: 0.15},
	"C04": {ID: "C04", Refill: 0.4, Siblings: 6, MinClients: 1, MaxClients: 3, Builders: 0.85, Statements: 0.02, KeepPanics: 0.08, Repeat: 0.1, Derive: 1, Continue: 6, Use: 1, Probe: 2},
	"C05": {ID: "C05", Refill: 0.4, Siblings: 6, MinClients: 1, MaxClients: 3, Builders: 0.03, Statements: 0.2, KeepPanics: 0.08, Repeat: 0.05, Derive: 6, Continue: 1, Use: 3, Probe: 2},
	"C06": {ID: "C06", Again: 0.3, Refill: 0.15, Siblings: 2, MinClients: 1, MaxClients: 3, Builders: 0.5, Statements: 0.25, KeepPanics: 0.1, Repeat: 0.75, Derive: 1, Continue: 4, Use: 2, Probe: 3},
	"C07": {ID: "C07", Again: 0.3, Siblings: 3, MinClients: 2, MaxClients: 4, Builders: 0.35, Statements: 0.2, Invalid: 0.06, KeepPanics: 0.8, Repeat: 0.1, Derive: 3, Continue: 3, Use: 3, Probe: 1, Kill: 0.12, Stall: 0.02, Failing: 0.25},
	"C08": {ID: "C08", Adopt: 0.3, Siblings: 2, MinClients: 1, MaxClients: 3, Builders: 0.3, Statements: 0.25, Unresolved: 0.25, KeepPanics: 0.05, SharedRend: 0.2, Repeat: 0.3, Derive: 2, Continue: 2, Use: 4, Probe: 2, Fresh: 3, Clock: 0.5},
	"C09": {ID: "C09", Again: 0.2, Siblings: 2, MinClients: 2, MaxClients: 4, Builders: 0.25, Statements: 0.2, Invalid: 0.12, KeepPanics: 0.9, Repeat: 0.1, Derive: 3, Continue: 2, Use: 3, Probe: 1, Fresh: 3, Kill: 0.04, Stall: 0.15, Failing: 0.25},
	"C10": {ID: "C10", Again: 0.15, Siblings: 2, MinClients: 1, MaxClients: 2, Builders: 0.25, Statements: 0.25, Unresolved: 0.02, Invalid: 0.02, KeepPanics: 0.2, Repeat: 0.2, Derive: 3, Continue: 2, Use: 4, Probe: 1, Fresh: 3, Churn: 0.15, Clock: 0.03, Failing: 0.1},
}

// makeCase makes the simulated execution of a seed.
func makeCase(prof *Profile, seed int64) *Case {
	r := rand.New(rand.NewSource(seed ^ 0x5deece66d))
	cs := &Case{Prog: generate(prof, seed)}
	cs.Drop = prof.Drop && r.Intn(4) > 0
	cs.Retry = r.Intn(4) > 0
	cs.Refill = r.Float64() < prof.Refill
	cs.World = worldJSON{Seed: uint64(seed)*2654435761 + 17, Clock: epoch + int64(r.Intn(1000000))*1e9, Tick: int64(1 + r.Intn(1000000))}
	cs.World.PoolP = 1 + r.Intn(2)
	cs.World.MapMode = r.Intn(2)
	if prof.GC > 0 {
		cs.World.ReuseP = []float64{0.3, 0.8, 1}[r.Intn(3)]
	}
	cs.World.WeakHash = prof.ID == "C10" && r.Intn(3) == 0
	if prof.Clock > 0 && r.Float64() < 4*prof.Clock {
		if r.Intn(2) == 0 {
			_, a := "", int64(0)
			for {
				var act string
				act, a = clockFault(r)
				if act == "clock" {
					break
				}
			}
			cs.World.Clock = a
		}
		cs.World.Tick = []int64{0, 1, 1e6, 1e9, -1e9}[r.Intn(5)]
		cs.World.RandMode = r.Intn(4)
	}
	pol := &policy{Seed: r.Int63(), MaxSw: 50 + r.Intn(2000)}
	pol.Kind = []string{"walk", "walk", "sticky", "pct", "seq"}[r.Intn(5)]
	scale := []float64{0.002, 0.01, 0.05, 0.2}[r.Intn(4)]
	pol.Cold = scale
	pol.Hot = []float64{scale, 0.3, 0.6, 1}[r.Intn(4)]
	if r.Intn(6) == 0 {
		pol.Cold = 0 // switches at stores to shared memory only
		pol.Hot = 0.5
	}
	if prof.GC > 0 {
		pol.GC = prof.GC * []float64{0.1, 0.3, 1}[r.Intn(3)]
	}
	pol.Kill, pol.Stall, pol.Clock, pol.Churn = prof.Kill, prof.Stall, prof.Clock, prof.Churn
	if prof.Kill > 0 && r.Intn(5) == 0 {
		pol.Kill = 0 // failing callers only, no aborts
	}
	if cs.Prog.callers() > 1 && len(focusAt) > 0 && r.Intn(3) == 0 {
		// callers are held up near places that use what they share
		pol.Focus = focusOn(r)
		pol.Cold = []float64{0.002, 0.01, 0.03}[r.Intn(3)]
		pol.Hot = pol.Cold
		if r.Intn(3) == 0 {
			pol.Kind = "walk"
		}
	}
	cs.Sched.Policy = pol
	if prof.Churn > 0 {
		deep := *fTier == "thorough"
		often := 12
		if len(statefulAt) > 0 {
			often = 3
		}
		if r.Intn(often) == 0 {
			if p, s, ok := wrap(r, cs.Prog, deep); ok {
				cs.Prog, cs.Churn = p, []churnSpec{s}
			}
		}
		if cs.Churn == nil {
			cs.Churn = makeChurn(r, cs.Prog, deep)
		}
	}
	if prof.Failing > 0 && r.Float64() < prof.Failing && len(cs.Prog.Ops) > 0 {
		cs.Churn = append(cs.Churn, makeFailing(r, cs.Prog)...)
	}
	if prof.Again > 0 && r.Float64() < prof.Again && len(cs.Prog.Ops) > 0 {
		cs.Again = makeAgain(r, cs.Prog, prof.Failing > 0)
	}
	return cs
}

// focusOn chooses yield points near uses of package variables: a few, or most
// of those near one use.
func focusOn(r *rand.Rand) []int32 {
	var l []int32
	if r.Intn(3) == 0 {
		for _, s := range focusAt[r.Intn(len(focusAt))] {
			if r.Intn(3) > 0 {
				l = append(l, s)
			}
		}
		return l
	}
	for k := 0; k < 1+r.Intn(2); k++ {
		g := focusAt[r.Intn(len(focusAt))]
		s := g[r.Intn(len(g))]
		for t := 0; t < 3 && !simrt.IsHot(s); t++ {
			s = g[r.Intn(len(g))]
		}
		l = append(l, s)
	}
	return l
}
