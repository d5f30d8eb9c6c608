package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"time"

	"verifsim/simrt"
)

// The second oracle of C10: the same calls in a new operating system process
// that runs the library as it is, without any instrumentation.

type plainJob struct {
	Prog *Program `json:"prog"`
	Ops  []int    `json:"ops"`
	Want []Outcome
	Run  int64
	Seed int64
}

type plainStats struct{ Processes, Jobs, Bad int64 }

// plainJobs picks outcomes of a run to be checked in a new process.
func plainJobs(cs *Case, res *Result, run, seed int64) []plainJob {
	var best []int
	for i, o := range res.Outs {
		if cs.Prog.Ops[i].F == opRender && (o.Kind == "ok" || o.Kind == "err") || o.Kind == "panic" {
			best = append(best, i)
		}
	}
	if len(best) == 0 {
		return nil
	}
	i := best[int(uint64(seed)%uint64(len(best)))]
	return []plainJob{{Prog: cs.Prog, Ops: []int{i}, Want: []Outcome{res.Outs[i]}, Run: run, Seed: seed}}
}

// plainMain is the new process: it performs the calls the operation needs.
func plainMain() {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fatalf("%v", err)
	}
	var j plainJob
	if err := json.Unmarshal(b, &j); err != nil {
		fatalf("%v", err)
	}
	i := j.Ops[0]
	slots := make([]slot, len(j.Prog.Ops))
	env := execEnv{ids: opByName}
	var out Outcome
	for _, k := range j.Prog.deps(i) {
		out = perform(j.Prog, k, slots, &env)
	}
	b, _ = json.Marshal(out)
	os.Stdout.Write(b)
}

// inNewProcess performs operation i of p alone in a new process.
func inNewProcess(p *Program, i int) (Outcome, error) {
	f, err := os.CreateTemp(*fBins, "plain*.json")
	if err != nil {
		return Outcome{}, err
	}
	f.Close()
	defer os.Remove(f.Name())
	b, _ := json.Marshal(plainJob{Prog: p, Ops: []int{i}})
	if err := os.WriteFile(f.Name(), b, 0o644); err != nil {
		return Outcome{}, err
	}
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(*fBins, "plain"), "-mode", "plain", "-file", f.Name())
	out, err := cmd.Output()
	if err != nil {
		return Outcome{}, fmt.Errorf("plain process: %v", err)
	}
	var o Outcome
	if err := json.Unmarshal(out, &o); err != nil {
		return Outcome{}, err
	}
	return o, nil
}

// freshViolation looks for an outcome of a run that a new process disagrees with.
func freshViolation(cs *Case, res *Result) *Violation {
	voc := vocabulary(cs.Prog)
	n := 0
	for i := len(res.Outs) - 1; i >= 0 && n < 24; i-- {
		o := res.Outs[i]
		if !(o.Kind == "ok" && o.Text != "" || o.Kind == "err" || o.Kind == "panic") {
			continue
		}
		n++
		ref, err := inNewProcess(cs.Prog, i)
		if err == nil && !sameText(ref, o, voc) {
			return &Violation{Kind: "fresh", Op: i, Want: ref.String(), Got: o.String(), Info: "a new process gives another result"}
		}
	}
	return nil
}

func (c *checkRun) plainCheck(conf tierConf) (*Replay, plainStats, error) {
	var st plainStats
	var jobs []plainJob
	for k := 0; ; k++ {
		any := false
		for _, o := range c.outs {
			if k < len(o.Plain) {
				jobs = append(jobs, o.Plain[k])
				any = true
			}
		}
		if !any {
			break
		}
	}
	deadline := time.Now().Add(time.Duration(conf.secs / 4 * float64(time.Second)))
	var mu sync.Mutex
	var firstErr error
	var rep *Replay
	next := 0
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= len(jobs) || time.Now().After(deadline) || rep != nil || firstErr != nil {
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				o, err := inNewProcess(j.Prog, j.Ops[0])
				mu.Lock()
				st.Processes++
				if err != nil {
					firstErr = err
				} else {
					st.Jobs++
					if !sameText(o, j.Want[0], vocabulary(j.Prog)) {
						st.Bad++
						cs := c.caseOf(j.Seed, false)
						if cs == nil {
							mu.Unlock()
							continue
						}
						rep = &Replay{Property: c.prof.ID, VerifSeed: *fSeed, Run: j.Run, RunSeed: j.Seed, Case: cs,
							Violation: &Violation{Kind: "fresh", Op: j.Ops[0], Want: o.String(), Got: j.Want[0].String(), Info: "a new process gives another result"}}
					}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	_ = simrt.RaceBuild
	return rep, st, firstErr
}
