package main

import (
	"fmt"
	"os"
	"sort"
)

func auditMode() {
	prof := profiles[*fProp]
	ok, er, pa := map[string]int{}, map[string]int{}, map[string]int{}
	for k := int64(0); k < *fRuns; k++ {
		run := *fFrom + k**fStep
		cs := makeCase(prof, runSeed(*fSeed, run, *fProp))
		res := execute(cs, false)
		for i, o := range res.Outs {
			f := cs.Prog.Ops[i].F
			switch o.Kind {
			case "ok":
				ok[f]++
			case "err":
				er[f]++
			case "panic":
				pa[f]++
			}
		}
	}
	var l []string
	for f := range opByName {
		l = append(l, f)
	}
	sort.Strings(l)
	for _, f := range l {
		if ok[f] == 0 || os.Getenv("AUDIT") != "" {
			fmt.Println(f, ok[f], er[f], pa[f])
		}
	}
}
