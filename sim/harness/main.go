package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verifsim/simrt"
)

func fatalf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "sim: "+f+"\n", a...)
	os.Exit(3)
}

var (
	fMode  = flag.String("mode", "worker", "check, worker, replay, min, plain, dump, selftest")
	fProp  = flag.String("prop", "C01", "property")
	fSeed  = flag.Int64("seed", 1, "VERIF_SEED")
	fFrom  = flag.Int64("from", 0, "first run")
	fStep  = flag.Int64("step", 1, "run stride")
	fRuns  = flag.Int64("runs", 100, "runs")
	fSecs  = flag.Float64("secs", 0, "stop after this many seconds")
	fFile  = flag.String("file", "", "replay file")
	fOut   = flag.String("out", "", "result file")
	fSites = flag.String("sites", "", "site tables, comma separated")
	fTier  = flag.String("tier", "quick", "quick or thorough")
	fBins  = flag.String("bins", "", "directory of the simulator's programs")
	fVerif = flag.String("verif", "/verif", "where evidence and replays go")
)

type siteRec struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Hot  bool   `json:"hot"`
}

var nSites int

func loadSites() {
	max := 0
	var hot []int32
	for _, f := range strings.Split(*fSites, ",") {
		if f == "" {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatalf("%v", err)
		}
		var l []siteRec
		if err := json.Unmarshal(b, &l); err != nil {
			fatalf("%v", err)
		}
		nSites += len(l)
		for _, s := range l {
			if s.ID > max {
				max = s.ID
			}
			if s.Hot {
				hot = append(hot, int32(s.ID))
			}
		}
	}
	simrt.SetSites(max, hot)
}

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string     `json:"property"`
	VerifSeed int64      `json:"verif_seed"`
	Run       int64      `json:"run"`
	RunSeed   int64      `json:"run_seed"`
	Race      bool       `json:"race_build"`
	Case      *Case      `json:"case"`
	Violation *Violation `json:"violation"`
	Readable  []string   `json:"readable,omitempty"`
	Original  string     `json:"original,omitempty"`
	// History lists the runs that have to precede this one in the same process,
	// when the violation needs them.
	History []int64 `json:"history,omitempty"`
	from    int64
}

func runSeed(verifSeed, run int64, prop string) int64 {
	x := uint64(verifSeed)*0x9E3779B97F4A7C15 + uint64(run)*0xBF58476D1CE4E5B9
	for _, c := range prop {
		x = (x ^ uint64(c)) * 0x94D049BB133111EB
	}
	x ^= x >> 31
	return int64(x >> 1)
}

type workerOut struct {
	Runs             int64            `json:"runs"`
	Race             bool             `json:"race"`
	Nontrivial       int64            `json:"nontrivial"`
	Hashes           []uint64         `json:"hashes"`
	NontrivialHashes []uint64         `json:"nontrivial_hashes"`
	Ops              int64            `json:"ops"`
	Renders          int64            `json:"renders"`
	OkTexts          int64            `json:"ok_texts"`
	Errs             int64            `json:"errs"`
	Panics           int64            `json:"panics"`
	Steps            int64            `json:"steps"`
	Switches         int64            `json:"switches"`
	Retries          int64            `json:"retries"`
	Stats            simrt.Stats      `json:"stats"`
	MaxOpSteps       int64            `json:"max_op_steps"`
	SwitchSites      []int            `json:"switch_sites"`
	SitesTotal       int              `json:"sites_total"`
	OutKinds         map[string]int64 `json:"out_kinds"`
	OpsUsed          map[string]int64 `json:"ops_used"`
	Secs             float64          `json:"secs"`
	Violation        *Replay          `json:"violation"`
	From             int64            `json:"from"`
	Step             int64            `json:"step"`
	Sample           []string         `json:"sample"`
	DistinctTxt      int              `json:"distinct_texts"`
	Plain            []plainJob       `json:"plain,omitempty"`
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		fatalf("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatalf("%v", err)
	}
}

// before performs the runs that precede r in its process.
func (r *Replay) before(prof *Profile) {
	for k, run := range r.History {
		simulate(prof, makeCase(prof, runSeed(r.VerifSeed, run, r.Property)))
		if k%64 == 63 {
			runtime.GC()
		}
	}
}

// caseMain writes the case of the seed given as -from. If making it ends the
// process, the calls made so far are left in the file.
func caseMain() {
	beforeGenerated = func(p *Program) {
		q := &Program{Ops: append([]Op(nil), p.Ops...)}
		for i := range q.Ops {
			q.Ops[i].C = -1
		}
		writeJSON(*fOut, &Case{Prog: q, World: worldJSON{Seed: 7, Clock: epoch, Tick: 1000}})
	}
	cs := makeCase(profiles[*fProp], *fFrom)
	beforeGenerated = nil
	writeJSON(*fOut, cs)
}

// simulate performs one run and checks it.
func simulate(prof *Profile, cs *Case) (*Result, *Violation) {
	races := simrt.RaceErrors()
	res := execute(cs, true)
	if n := simrt.RaceErrors(); n > races {
		return res, &Violation{Kind: "race", Op: -1, Info: fmt.Sprintf("%d conflicting accesses", n-races)}
	}
	return res, check(prof, cs, res)
}

func worker() {
	prof := profiles[*fProp]
	if prof == nil {
		fatalf("unknown property %s", *fProp)
	}
	w := &workerOut{Race: simrt.RaceBuild, From: *fFrom, Step: *fStep, OpsUsed: map[string]int64{}, OutKinds: map[string]int64{}}
	hashes := map[uint64]bool{}
	nontriv := map[uint64]bool{}
	texts := map[string]bool{}
	start := time.Now()
	marker := *fOut + ".cur"
	mf, _ := os.Create(marker)
	dir := filepath.Dir(*fOut)
	for k := int64(0); k < *fRuns; k++ {
		if time.Since(start).Seconds() > *fSecs || k%16 == 15 && stopped(dir) {
			break
		}
		run := *fFrom + k**fStep
		seed := runSeed(*fSeed, run, *fProp)
		if mf != nil {
			mf.WriteAt([]byte(fmt.Sprintf("%-20d %-20d", run, seed)), 0)
		}
		cs := makeCase(prof, seed)
		res, v := simulate(prof, cs)
		w.Runs++
		w.Steps += res.Steps
		w.Switches += int64(len(res.Segs))
		w.Retries += int64(res.Retries)
		rendered := 0
		for i, o := range res.Outs {
			w.Ops++
			w.OpsUsed[cs.Prog.Ops[i].F]++
			w.OutKinds[o.Kind]++
			if cs.Prog.Ops[i].F == opRender {
				w.Renders++
				if o.Kind == "ok" {
					rendered++
					if len(texts) < 200000 {
						texts[o.Text] = true
					}
				}
			}
			switch o.Kind {
			case "ok":
				if o.Text != "" {
					w.OkTexts++
				}
			case "err":
				w.Errs++
			case "panic":
				w.Panics++
			}
		}
		if rendered > 0 && !nontriv[res.Hash] {
			w.Nontrivial++
			nontriv[res.Hash] = true
		}
		hashes[res.Hash] = true
		if len(w.Sample) == 0 && rendered > 1 && k > 3 {
			w.Sample = append(cs.Prog.format(), fmt.Sprintf("schedule: %d segments, first: %v", len(res.Segs), head(res.Segs, 12)))
			for i, o := range res.Outs {
				if cs.Prog.Ops[i].F == opRender {
					w.Sample = append(w.Sample, fmt.Sprintf("v%d -> %s", i, o))
				}
			}
		}
		if *fProp == "C10" && len(w.Plain) < 4000 {
			w.Plain = append(w.Plain, plainJobs(cs, res, run, seed)...)
		}
		if v != nil {
			w.Violation = &Replay{Property: *fProp, VerifSeed: *fSeed, Run: run, RunSeed: seed, Race: simrt.RaceBuild, Case: explicit(cs, res), Violation: v, Readable: cs.Prog.format()}
			break
		}
		if k%64 == 63 {
			runtime.GC()
		}
	}
	for h := range hashes {
		w.Hashes = append(w.Hashes, h)
	}
	sort.Slice(w.Hashes, func(i, j int) bool { return w.Hashes[i] < w.Hashes[j] })
	w.DistinctTxt = len(texts)
	w.Stats = simrt.St
	w.MaxOpSteps = simrt.MaxOpSteps()
	for h := range nontriv {
		w.NontrivialHashes = append(w.NontrivialHashes, h)
	}
	w.SwitchSites, w.SitesTotal = simrt.SwitchSites(), nSites
	w.Secs = time.Since(start).Seconds()
	writeJSON(*fOut, w)
	os.Remove(marker)
}

func head(s []simrt.Seg, n int) []simrt.Seg {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// explicit turns the policy of a case into the schedule it produced.
func explicit(cs *Case, res *Result) *Case {
	c := *cs
	c.Sched = schedJSON{Segs: res.Segs}
	return &c
}

func replayFile() {
	b, err := os.ReadFile(*fFile)
	if err != nil {
		fatalf("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatalf("%v", err)
	}
	for i := range r.Case.Prog.Ops {
		if f := r.Case.Prog.Ops[i].F; f != opRender {
			if _, ok := opByName[f]; !ok {
				fatalf("the API has no %s any more", f)
			}
		}
	}
	prof := profiles[r.Property]
	if prof == nil {
		fatalf("unknown property %s", r.Property)
	}
	r.before(prof)
	res, v := simulate(prof, r.Case)
	if v == nil && r.Violation != nil && r.Violation.Kind == "fresh" {
		v = freshViolation(r.Case, res)
	}
	if *fOut != "" {
		writeJSON(*fOut, map[string]interface{}{"violation": v, "hash": res.Hash})
	}
	for i, o := range res.Outs {
		fmt.Printf("v%d %s -> %s\n", i, r.Case.Prog.Ops[i].F, o)
	}
	if v == nil {
		fmt.Println("no violation")
		os.Exit(0)
	}
	fmt.Println("VIOLATED:", v)
	os.Exit(1)
}

func main() {
	flag.Parse()
	if *fMode == "check" {
		loadAPI()
		loadSites()
		checkMain()
		return
	}
	if *fMode == "plain" {
		loadAPI()
		plainMain()
		return
	}
	runtime.GOMAXPROCS(1)
	if simrt.RaceBuild {
		debug.SetGCPercent(-1)
	} else {
		debug.SetGCPercent(-1)
	}
	debug.SetMemoryLimit(1500 << 20)
	debug.SetMaxStack(2 << 30)
	loadSites()
	loadAPI()
	switch *fMode {
	case "worker":
		worker()
	case "case":
		caseMain()
	case "replay":
		replayFile()
	case "min":
		minimiseFile()
	case "dump":
		dump()
	case "cover":
		coverMode()
	case "steps":
		stepsMode()
	case "audit":
		auditMode()
	case "selftest":
		selftest()
	default:
		fatalf("unknown mode")
	}
}

func dump() {
	prof := profiles[*fProp]
	seed := runSeed(*fSeed, *fFrom, *fProp)
	cs := makeCase(prof, seed)
	fmt.Println(strings.Join(cs.Prog.format(), "\n"))
	res, v := simulate(prof, cs)
	for i, o := range res.Outs {
		fmt.Printf("v%d -> %s\n", i, o)
	}
	fmt.Println(len(res.Segs), "segments", res.Steps, "steps; violation:", v)
}

// selftest prints the trace hash of each run.
func selftest() {
	prof := profiles[*fProp]
	for k := int64(0); k < *fRuns; k++ {
		run := *fFrom + k**fStep
		cs := makeCase(prof, runSeed(*fSeed, run, *fProp))
		res := execute(cs, true)
		b, _ := json.Marshal(cs.Prog)
		h := uint64(14695981039346656037)
		for _, c := range b {
			h = (h ^ uint64(c)) * 1099511628211
		}
		fmt.Printf("%d %x %x %d\n", run, h, res.Hash, len(res.Segs))
	}
}
