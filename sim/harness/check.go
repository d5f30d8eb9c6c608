package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// The driver of one check: it starts workers (one process each, so that a
// process killed by the library is noticed), collects what they covered,
// minimises and verifies a violation in fresh processes and writes the
// evidence.

type tierConf struct {
	secs    float64 // of simulation
	minSecs float64 // of minimisation
}

var tiers = map[string]tierConf{
	"quick":    {secs: 120, minSecs: 60},
	"thorough": {secs: 900, minSecs: 240},
}

const goraceOpts = "halt_on_error=0 atexit_sleep_ms=0 exitcode=0 suppress_equal_stacks=0 suppress_equal_addresses=0"

func childEnv(race bool, log string) []string {
	env := os.Environ()
	if race {
		env = append(env, "GORACE="+goraceOpts+" log_path="+log)
	}
	return env
}

func (c *checkRun) bin(race bool) string {
	if race {
		return filepath.Join(*fBins, "simrace")
	}
	return filepath.Join(*fBins, "sim")
}

type checkRun struct {
	prof    *Profile
	tmp     string
	workers int
	outs    []*workerOut
	start   time.Time
	deaths  []string
}

func (c *checkRun) cmd(ctx context.Context, race bool, args ...string) *exec.Cmd {
	args = append(args, "-sites", *fSites, "-bins", *fBins, "-prop", c.prof.ID, "-seed", fmt.Sprint(*fSeed), "-tier", *fTier)
	cmd := exec.CommandContext(ctx, c.bin(race), args...)
	cmd.Env = childEnv(race, filepath.Join(c.tmp, "race"))
	cmd.WaitDelay = 5 * time.Second
	return cmd
}

type violationFound struct {
	rep   *Replay
	death string
}

func checkMain() {
	prof := profiles[*fProp]
	if prof == nil {
		fatalf("unknown property %s", *fProp)
	}
	conf, ok := tiers[*fTier]
	if !ok {
		fatalf("unknown tier %s", *fTier)
	}
	if *fSecs > 0 {
		conf.secs = *fSecs
	}
	tmp, err := os.MkdirTemp(*fBins, "check")
	if err != nil {
		fatalf("%v", err)
	}
	c := &checkRun{prof: prof, tmp: tmp, workers: runtime.NumCPU(), start: time.Now()}
	if c.workers > 8 {
		c.workers = 8
	}
	var mu sync.Mutex
	var found []violationFound
	var broken []string
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	// once one worker has a violation the others go on for a while only: they
	// may have one that is easier to show
	var once sync.Once
	enough := func() {
		once.Do(func() {
			time.AfterFunc(10*time.Second, func() { os.WriteFile(filepath.Join(tmp, "stop"), nil, 0o644) })
		})
	}
	var wg sync.WaitGroup
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			from := int64(w)
			// with the race detector a run takes eight times as long; races
			// of the other kind are looked for without it
			race := prof.Race && w%2 == 0
			left := conf.secs
			for part := 0; part < 20 && left > 0.5 && !stopped(tmp); part++ {
				out := filepath.Join(tmp, fmt.Sprintf("w%d.%d.json", w, part))
				t0 := time.Now()
				pctx, pcancel := context.WithTimeout(ctx, time.Duration(left*float64(time.Second))+120*time.Second)
				cmd := c.cmd(pctx, race, "-mode", "worker", "-from", fmt.Sprint(from), "-step", fmt.Sprint(c.workers), "-runs", "1000000000", "-secs", fmt.Sprint(left), "-out", out)
				var stderr bytes.Buffer
				cmd.Stderr = &limited{w: &stderr, n: 64 << 10}
				err := cmd.Run()
				timedOut := pctx.Err() == context.DeadlineExceeded
				pcancel()
				left -= time.Since(t0).Seconds()
				if b, e := os.ReadFile(out); e == nil {
					var o workerOut
					if json.Unmarshal(b, &o) == nil {
						mu.Lock()
						c.outs = append(c.outs, &o)
						if o.Violation != nil {
							o.Violation.from = o.From
							found = append(found, violationFound{rep: o.Violation})
							enough()
						}
						mu.Unlock()
						return
					}
				}
				if ctx.Err() != nil {
					return
				}
				run, seed, okm := readMarker(out + ".cur")
				mu.Lock()
				if !okm {
					broken = append(broken, fmt.Sprintf("worker %d: %v: %s", w, err, tail(stderr.String(), 2000)))
					mu.Unlock()
					return
				}
				if timedOut {
					// a real blocking operation the simulator does not own
					broken = append(broken, fmt.Sprintf("worker %d made no progress in run %d (seed %d)", w, run, seed))
					mu.Unlock()
					return
				}
				c.deaths = append(c.deaths, fmt.Sprintf("run %d (seed %d): %v: %s", run, seed, err, head1(stderr.String())))
				mu.Unlock()
				if v := c.confirmDeath(run, seed, race); v != nil {
					mu.Lock()
					found = append(found, *v)
					enough()
					mu.Unlock()
					return
				}
				from = run + int64(c.workers)
			}
		}(w)
	}
	wg.Wait()
	var plain plainStats
	if len(found) == 0 && prof.ID == "C10" {
		v, st, err := c.plainCheck(conf)
		plain = st
		if err != nil {
			broken = append(broken, err.Error())
		}
		if v != nil {
			found = append(found, violationFound{rep: v})
		}
	}
	sort.Slice(found, func(i, j int) bool { return found[i].rep.Run < found[j].rep.Run })
	var reported *Replay
	path := ""
	if len(found) > 0 {
		reported, path = c.report(found, conf)
	}
	c.evidence(reported, plain)
	if reported != nil {
		fmt.Printf("%s\n", reported.Violation)
		for _, l := range reported.Readable {
			fmt.Println("  " + l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prof.ID, path)
		os.RemoveAll(tmp)
		os.Exit(1)
	}
	if len(broken) > 0 || len(found) > 0 {
		for _, b := range broken {
			fmt.Fprintln(os.Stderr, "sim:", b)
		}
		if len(found) > 0 {
			fmt.Fprintln(os.Stderr, "sim: a run failed but did not replay:", found[0].rep.Violation, "run", found[0].rep.Run)
			b, _ := json.Marshal(found[0].rep)
			fmt.Fprintln(os.Stderr, string(b))
		}
		os.RemoveAll(tmp)
		os.Exit(3)
	}
	os.RemoveAll(tmp)
	fmt.Printf("%s: %d runs, no violation\n", prof.ID, c.total(func(o *workerOut) int64 { return o.Runs }))
}

func stopped(dir string) bool {
	_, err := os.Stat(filepath.Join(dir, "stop"))
	return err == nil
}

type limited struct {
	w *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func head1(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error") || strings.HasPrefix(l, "panic") || strings.HasPrefix(l, "runtime:") {
			return l
		}
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return strings.ReplaceAll(s, "\n", " | ")
}

func readMarker(path string) (run, seed int64, ok bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	n, _ := fmt.Sscan(string(b), &run, &seed)
	return run, seed, n == 2
}

// runCase executes a case in a fresh process; died tells that the process did
// not survive it.
func (c *checkRun) runCase(rep *Replay, limit time.Duration) (v *Violation, died string, err error) {
	f, err := os.CreateTemp(c.tmp, "case*.json")
	if err != nil {
		return nil, "", err
	}
	f.Close()
	defer os.Remove(f.Name())
	writeJSON(f.Name(), rep)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	out := f.Name() + ".out"
	defer os.Remove(out)
	cmd := c.cmd(ctx, rep.Race, "-mode", "replay", "-file", f.Name(), "-out", out)
	var stderr bytes.Buffer
	cmd.Stderr = &limited{w: &stderr, n: 64 << 10}
	cmd.Stdout = nil
	runErr := cmd.Run()
	var o struct {
		Violation *Violation `json:"violation"`
	}
	if b, e := os.ReadFile(out); e == nil && json.Unmarshal(b, &o) == nil {
		return o.Violation, "", nil
	}
	if ctx.Err() != nil {
		return nil, "", fmt.Errorf("the replay made no progress")
	}
	if ee, ok := runErr.(*exec.ExitError); ok && ee.ExitCode() != 3 {
		return nil, fmt.Sprintf("%v: %s", runErr, head1(stderr.String())), nil
	}
	return nil, "", fmt.Errorf("replay: %v: %s", runErr, tail(stderr.String(), 500))
}

// caseOf makes the case of a seed in a process of its own, which may die.
func (c *checkRun) caseOf(seed int64, race bool) *Case {
	out := filepath.Join(c.tmp, fmt.Sprintf("case.%d.json", seed))
	defer os.Remove(out)
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c.cmd(ctx, race, "-mode", "case", "-from", fmt.Sprint(seed), "-out", out).Run()
	b, err := os.ReadFile(out)
	if err != nil {
		return nil
	}
	var cs Case
	if json.Unmarshal(b, &cs) != nil || cs.Prog == nil {
		return nil
	}
	return &cs
}

// confirmDeath repeats a run that ended its process.
func (c *checkRun) confirmDeath(run, seed int64, race bool) *violationFound {
	rep := &Replay{Property: c.prof.ID, VerifSeed: *fSeed, Run: run, RunSeed: seed, Race: race, Case: c.caseOf(seed, race)}
	if rep.Case == nil {
		return nil
	}
	v, died, err := c.runCase(rep, 120*time.Second)
	if err != nil || died == "" {
		if v != nil {
			rep.Violation = v
			rep.Readable = rep.Case.Prog.format()
			return &violationFound{rep: rep}
		}
		return nil
	}
	rep.Violation = &Violation{Kind: "death", Op: -1, Info: "the process is killed: " + died}
	rep.Readable = rep.Case.Prog.format()
	return &violationFound{rep: rep, death: died}
}

// report minimises and verifies one of the violations.
func (c *checkRun) report(found []violationFound, conf tierConf) (*Replay, string) {
	for _, f := range found {
		rep := f.rep
		v, died, err := c.runCase(rep, 120*time.Second)
		if died != "" {
			v = &Violation{Kind: "death", Op: -1, Info: "the process is killed: " + died}
		}
		if err != nil || v == nil {
			// does it depend on the runs before it in the same process?
			fmt.Fprintf(os.Stderr, "sim: run %d did not replay on its own: %v %v\n", rep.Run, rep.Violation, err)
			if v = c.withHistory(rep); v == nil {
				continue
			}
			rep.Violation = v
			return rep, c.save(rep)
		}
		rep.Violation = v
		min := c.minimise(rep, conf.minSecs)
		v2, died2, err2 := c.runCase(min, 120*time.Second)
		if err2 != nil || (v2 == nil && died2 == "") {
			min = rep
		} else if v2 != nil {
			min.Violation = v2
		}
		min.Readable = min.Case.Prog.format()
		min.Original = fmt.Sprintf("run %d of VERIF_SEED=%d: %d calls, %d segments", rep.Run, rep.VerifSeed, len(rep.Case.Prog.Ops), len(rep.Case.Sched.Segs))
		return min, c.save(min)
	}
	return nil, ""
}

func (c *checkRun) save(rep *Replay) string {
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", c.prof.ID, *fSeed, rep.Run))
	writeJSON(path, rep)
	return path
}

// withHistory looks for the runs which must precede rep in the same process:
// the last few, more, or all its worker made.
func (c *checkRun) withHistory(rep *Replay) *Violation {
	if rep.Violation.Kind == "death" {
		return nil
	}
	var all []int64
	for r := rep.from; r < rep.Run; r += int64(c.workers) {
		all = append(all, r)
	}
	end := time.Now().Add(4 * time.Minute)
	for n := 1; time.Now().Before(end); n *= 8 {
		if n > len(all) {
			n = len(all)
		}
		rep.History = all[len(all)-n:]
		if v, _, err := c.runCase(rep, 4*time.Minute); err == nil && v != nil {
			return v
		}
		if n == len(all) {
			break
		}
	}
	rep.History = nil
	return nil
}

// minimise shrinks in a child process, because the child may die.
func (c *checkRun) minimise(rep *Replay, secs float64) *Replay {
	in := filepath.Join(c.tmp, "min.in.json")
	out := filepath.Join(c.tmp, "min.out.json")
	if rep.Violation.Kind == "death" {
		return c.minimiseDeath(rep, secs)
	}
	writeJSON(in, rep)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration((secs+60)*float64(time.Second)))
	defer cancel()
	cmd := c.cmd(ctx, rep.Race, "-mode", "min", "-file", in, "-out", out, "-secs", fmt.Sprint(secs))
	cmd.Run()
	var m Replay
	if b, err := os.ReadFile(out); err == nil && json.Unmarshal(b, &m) == nil && m.Case != nil {
		return &m
	}
	return rep
}

func (c *checkRun) minimiseDeath(rep *Replay, secs float64) *Replay {
	deadline := time.Now().Add(time.Duration(secs * float64(time.Second)))
	best := *rep
	shrink(&best, func(x *Replay) bool {
		_, died, err := c.runCase(x, 60*time.Second)
		return err == nil && died != ""
	}, deadline)
	return &best
}

func (c *checkRun) total(f func(*workerOut) int64) (n int64) {
	for _, o := range c.outs {
		n += f(o)
	}
	return
}
