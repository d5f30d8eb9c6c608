package main

import (
	"fmt"
	"sort"

	"verifsim/simrt"
)

// treeWeight counts the calls a value was made of, shared ones each time.
func treeWeight(p *Program) []int64 {
	w := make([]int64, len(p.Ops))
	for i := range p.Ops {
		w[i] = 1
		for _, a := range p.Ops[i].A {
			if a.Slot != nil {
				w[i] += w[*a.Slot]
			} else {
				w[i]++
				if a.Str != nil {
					w[i] += int64(len(*a.Str) / 16)
				}
			}
		}
	}
	return w
}

// stepBudget is the number of yield points each call of a program may pass:
// far more than calls of its size take.
func stepBudget(p *Program) int64 {
	m := int64(0)
	for _, w := range treeWeight(p) {
		if w > m {
			m = w
		}
	}
	return 500000 + 1000*m
}

// stepsMode measures how many steps calls take for their size.
func stepsMode() {
	prof := profiles[*fProp]
	type rec struct {
		ratio    float64
		steps, w int64
		f        string
		run      int64
		prog     *Program
		i        int
	}
	var top []rec
	for k := int64(0); k < *fRuns; k++ {
		run := *fFrom + k**fStep
		cs := makeCase(prof, runSeed(*fSeed, run, *fProp))
		resetWorld(refWorld)
		simrt.NoProbs()
		slots := make([]slot, len(cs.Prog.Ops))
		env := execEnv{ids: opByName}
		w := treeWeight(cs.Prog)
		simrt.SetOpBudget(stepBudget(cs.Prog))
		for i := range cs.Prog.Ops {
			perform(cs.Prog, i, slots, &env)
			top = append(top, rec{float64(env.steps) / float64(w[i]+20), env.steps, w[i], cs.Prog.Ops[i].F, run, cs.Prog, i})
		}
		if len(top) > 20000 {
			sort.Slice(top, func(i, j int) bool { return top[i].ratio > top[j].ratio })
			top = top[:25]
		}
	}
	sort.Slice(top, func(i, j int) bool { return top[i].ratio > top[j].ratio })
	for _, t := range top[:25] {
		fmt.Printf("%.0f steps=%d w=%d %s run=%d\n", t.ratio, t.steps, t.w, t.f, t.run)
	}
	for _, t := range top[:1] {
		for _, k := range t.prog.deps(t.i) {
			fmt.Println(t.prog.format()[k])
		}
	}
}

// coverMode tells how often each method is applied more than once to one value.
func coverMode() {
	prof := profiles[*fProp]
	count := map[string]int{}
	used := map[string]int{}
	for k := int64(0); k < *fRuns; k++ {
		p := makeCase(prof, runSeed(*fSeed, *fFrom+k**fStep, *fProp)).Prog
		type key struct {
			f string
			s int
		}
		n := map[key]int{}
		for _, op := range p.Ops {
			used[op.F]++
			if id, ok := opByName[op.F]; ok && ops[id].recv >= 0 && len(op.A) > 1 && op.A[0].Slot != nil {
				q := key{op.F, *op.A[0].Slot}
				n[q]++
				if n[q] == 2 {
					count[op.F]++
				}
			}
		}
	}
	for _, l := range statefulAt {
		fmt.Print("stateful:")
		for i, o := range l {
			if i < 12 {
				fmt.Print(" ", ops[o].name)
			}
		}
		fmt.Println(len(l))
	}
	for b := 0; b < 2; b++ {
		method(b, nil)
		var l []string
		never, unused := 0, 0
		for _, o := range methods[b] {
			if len(ops[o].in) == 0 {
				continue
			}
			l = append(l, ops[o].name)
			if count[ops[o].name] == 0 {
				never++
			}
			if used[ops[o].name] == 0 {
				unused++
			}
		}
		sort.Slice(l, func(i, j int) bool { return count[l[i]] < count[l[j]] })
		fmt.Println(len(l), "methods with parameters; never twice on one value:", never, "never used:", unused)
		for q := 0; q <= 10; q++ {
			i := q * (len(l) - 1) / 10
			fmt.Printf("  %d%%: %d %s (used %d)\n", q*10, count[l[i]], l[i], used[l[i]])
		}
		for i := 0; i < len(l) && i < 60 && count[l[i]] == 0; i++ {
			fmt.Print(" ", l[i], ":", used[l[i]])
		}
		fmt.Println()
	}
	for _, o := range ownMethods {
		if len(ops[o].in) > 0 {
			fmt.Print(ops[o].name, ":", count[ops[o].name], " ")
		}
	}
	fmt.Println()
	for _, f := range []string{"MapExpression.AddEntries", "SortItem.Descending"} {
		fmt.Println(f, count[f], used[f])
	}
}
