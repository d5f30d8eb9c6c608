package main

import (
	"encoding/json"
	"os"
	"time"

	"verifsim/simrt"
)

func minimiseFile() {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fatalf("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatalf("%v", err)
	}
	prof := profiles[r.Property]
	want := r.Violation.Kind
	deadline := time.Now().Add(time.Duration(*fSecs * float64(time.Second)))
	test := func(x *Replay) bool {
		res, v := simulate(prof, x.Case)
		if v == nil && want == "fresh" {
			v = freshViolation(x.Case, res)
		}
		if v != nil && v.Kind == want {
			x.Violation = v
			return true
		}
		return false
	}
	if !test(&r) {
		fatalf("does not reproduce")
	}
	shrink(&r, test, deadline)
	writeJSON(*fOut, &r)
}

func cloneCase(c *Case) *Case {
	b, _ := json.Marshal(c)
	var n Case
	json.Unmarshal(b, &n)
	return &n
}

// without removes the operations marked in del; nothing that stays may use them.
func without(c *Case, del []bool) *Case {
	n := cloneCase(c)
	idx := make([]int, len(del))
	var ops []Op
	for i, op := range n.Prog.Ops {
		if del[i] {
			idx[i] = -1
			continue
		}
		idx[i] = len(ops)
		ops = append(ops, op)
	}
	for i := range ops {
		for k := range ops[i].A {
			if s := ops[i].A[k].Slot; s != nil {
				j := idx[*s]
				ops[i].A[k].Slot = &j
			}
		}
	}
	n.Prog.Ops = ops
	n.Again = nil
	for _, s := range c.Again {
		if s.At < len(del) && !del[s.At] {
			s.At = idx[s.At]
			n.Again = append(n.Again, s)
		}
	}
	for k := range n.Churn {
		if n.Churn[k].Phase == 4 {
			at := n.Churn[k].At
			for at < len(del) && del[at] {
				at++ // before the next call
			}
			n.Churn[k].At = len(ops)
			if at < len(del) {
				n.Churn[k].At = idx[at]
			}
		}
	}
	return n
}

// closure extends del by every operation that needs a deleted one.
func closure(c *Case, del []bool) {
	for i, op := range c.Prog.Ops {
		for _, a := range op.A {
			if a.Slot != nil && del[*a.Slot] {
				del[i] = true
			}
		}
	}
}

// shrink makes r smaller as long as test holds.
func shrink(r *Replay, test func(*Replay) bool, deadline time.Time) {
	try := func(c *Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		x := *r
		x.Case = c
		if test(&x) {
			*r = x
			return true
		}
		return false
	}
	for round := 0; round < 12 && time.Now().Before(deadline); round++ {
		progress := false
		// simpler environment
		for _, f := range []func(*Case){
			func(c *Case) { c.Churn = nil },
			func(c *Case) { c.Again = nil },
			func(c *Case) { c.Drop = false },
			func(c *Case) { c.Retry = false },
			func(c *Case) { c.Refill = false },
			func(c *Case) {
				c.World = worldJSON{Clock: epoch, Tick: 1000, Seed: c.World.Seed, ReuseP: c.World.ReuseP, PoolP: c.World.PoolP, MapMode: c.World.MapMode, WeakHash: c.World.WeakHash}
			},
			func(c *Case) { c.World.WeakHash = false },
			func(c *Case) { c.World.ReuseP = 0; c.World.PoolP = 1; c.World.MapMode = 0 },
			func(c *Case) { c.Sched = schedJSON{Segs: []simrt.Seg{}} },
			func(c *Case) {
				for i := range c.Prog.Ops {
					if c.Prog.Ops[i].C != -1 {
						c.Prog.Ops[i].C = 0
					}
				}
				c.Sched = schedJSON{Segs: []simrt.Seg{}}
			},
			func(c *Case) {
				for i := range c.Prog.Ops {
					c.Prog.Ops[i].C = -1
				}
				c.Sched = schedJSON{Segs: []simrt.Seg{}}
			},
		} {
			c := cloneCase(r.Case)
			before, _ := json.Marshal(c)
			f(c)
			after, _ := json.Marshal(c)
			if len(after) < len(before) && try(c) {
				progress = true
			}
		}
		// churn
		for k := len(r.Case.Churn) - 1; k >= 0; k-- {
			c := cloneCase(r.Case)
			c.Churn = append(c.Churn[:k], c.Churn[k+1:]...)
			if try(c) {
				progress = true
				continue
			}
			for d := r.Case.Churn[k].N / 2; d > 0; d /= 2 {
				for r.Case.Churn[k].N > d {
					c := cloneCase(r.Case)
					c.Churn[k].N -= d
					if !try(c) {
						break
					}
					progress = true
				}
			}
			if r.Case.Churn[k].Vary {
				c := cloneCase(r.Case)
				c.Churn[k].Vary = false
				if try(c) {
					progress = true
				}
			}
		}
		for k := len(r.Case.Again) - 1; k >= 0; k-- {
			c := cloneCase(r.Case)
			c.Again = append(c.Again[:k], c.Again[k+1:]...)
			if try(c) {
				progress = true
				continue
			}
			for d := r.Case.Again[k].N / 2; d > 0; d /= 2 {
				for r.Case.Again[k].N > d {
					c := cloneCase(r.Case)
					c.Again[k].N -= d
					if !try(c) {
						break
					}
					progress = true
				}
			}
		}
		// calls: chunks from the end, with what depends on them
		for size := (len(r.Case.Prog.Ops) + 1) / 2; size >= 1; size /= 2 {
			for at := len(r.Case.Prog.Ops); at > 0; {
				lo := at - size
				if lo < 0 {
					lo = 0
				}
				if at > len(r.Case.Prog.Ops) {
					at = len(r.Case.Prog.Ops)
					continue
				}
				del := make([]bool, len(r.Case.Prog.Ops))
				for i := lo; i < at; i++ {
					del[i] = true
				}
				closure(r.Case, del)
				if try(without(r.Case, del)) {
					progress = true
				}
				at = lo
				if time.Now().After(deadline) {
					return
				}
			}
		}
		// schedule: chunks of segments, then joining neighbours, then faults
		for size := (len(r.Case.Sched.Segs) + 1) / 2; size >= 1; size /= 2 {
			for at := len(r.Case.Sched.Segs); at > 0; {
				if at > len(r.Case.Sched.Segs) {
					at = len(r.Case.Sched.Segs)
					continue
				}
				lo := at - size
				if lo < 0 {
					lo = 0
				}
				c := cloneCase(r.Case)
				c.Sched.Segs = append(append([]simrt.Seg{}, c.Sched.Segs[:lo]...), c.Sched.Segs[at:]...)
				if try(c) {
					progress = true
				}
				at = lo
				if time.Now().After(deadline) {
					return
				}
			}
		}
		for i := len(r.Case.Sched.Segs) - 1; i > 0; i-- {
			if i >= len(r.Case.Sched.Segs) {
				continue
			}
			a, b := r.Case.Sched.Segs[i-1], r.Case.Sched.Segs[i]
			if a.Client == b.Client && a.Act == "" && a.Steps > 0 {
				c := cloneCase(r.Case)
				j := b
				if b.Steps > 0 {
					j.Steps = a.Steps + b.Steps
				}
				c.Sched.Segs = append(append(append([]simrt.Seg{}, c.Sched.Segs[:i-1]...), j), c.Sched.Segs[i+1:]...)
				if try(c) {
					progress = true
				}
			}
		}
		for i := range r.Case.Sched.Segs {
			if i < len(r.Case.Sched.Segs) && r.Case.Sched.Segs[i].Act != "" {
				c := cloneCase(r.Case)
				c.Sched.Segs[i].Act, c.Sched.Segs[i].Arg = "", 0
				if try(c) {
					progress = true
				}
			}
		}
		// arguments: drop surplus variadic ones, shorten texts
		for i := len(r.Case.Prog.Ops) - 1; i >= 0; i-- {
			if i >= len(r.Case.Prog.Ops) || r.Case.Prog.Ops[i].F == opRender {
				continue
			}
			id, ok := opByName[r.Case.Prog.Ops[i].F]
			if !ok || !ops[id].vari {
				continue
			}
			fixed := len(ops[id].in) - 1
			if ops[id].recv >= 0 {
				fixed++
			}
			for k := len(r.Case.Prog.Ops[i].A) - 1; k >= fixed; k-- {
				c := cloneCase(r.Case)
				a := c.Prog.Ops[i].A
				c.Prog.Ops[i].A = append(append([]Arg{}, a[:k]...), a[k+1:]...)
				if try(c) {
					progress = true
				}
			}
		}
		if !progress {
			return
		}
	}
}
