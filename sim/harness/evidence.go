package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"verifsim/simrt"
)

const ruleText = "one evaluation is one simulated run: a program of typed calls drawn from the public API by the run's seed, distributed over callers, executed under a seeded scheduler that may switch at every statement of the library, with the faults of the profile injected, every outcome compared with the same call executed alone in a fresh state. Non-trivial: at least one statement rendered and the (interleaving, faults, outcomes) hash differs from every other run."

func (c *checkRun) evidence(rep *Replay, plain plainStats) {
	hashes := map[uint64]bool{}
	opsUsed := map[string]int64{}
	nontrivial := map[uint64]bool{}
	var st simrt.Stats
	var steps, segs, retries, calls, renders, oktexts, errs, panics, maxOp int64
	var samples []interface{}
	sitesHit, sitesTotal := 0, 0
	var simSecs float64
	hit := map[int]bool{}
	kinds := map[string]int64{}
	for _, o := range c.outs {
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		for _, h := range o.NontrivialHashes {
			nontrivial[h] = true
		}
		for k, n := range o.OpsUsed {
			opsUsed[k] += n
		}
		for _, s := range o.SwitchSites {
			hit[s] = true
		}
		sitesTotal = o.SitesTotal
		st.Add(&o.Stats)
		steps += o.Steps
		segs += o.Switches
		retries += o.Retries
		calls += o.Ops
		renders += o.Renders
		oktexts += o.OkTexts
		errs += o.Errs
		panics += o.Panics
		if o.MaxOpSteps > maxOp {
			maxOp = o.MaxOpSteps
		}
		for k, n := range o.OutKinds {
			kinds[k] += n
		}
		simSecs += o.Secs
		if len(samples) < 3 && len(o.Sample) > 0 {
			samples = append(samples, o.Sample)
		}
	}
	sitesHit = len(hit)
	runs := c.total(func(o *workerOut) int64 { return o.Runs })
	wall := time.Since(c.start).Seconds()
	apiTotal, apiReach := len(ops), 0
	for k := range opsUsed {
		if k != opRender {
			apiReach++
		}
	}
	perHour := int64(0)
	if wall > 0 {
		perHour = int64(float64(runs) / wall * 3600)
	}
	cov := map[string]interface{}{
		"evaluations":         runs,
		"distinct_nontrivial": len(nontrivial),
		"rule":                ruleText,
		"samples":             samples,
		"runs_per_hour":       perHour,
		"worker_processes":    c.workers,
		"runs_with_race_detector": c.total(func(o *workerOut) int64 {
			if o.Race {
				return o.Runs
			}
			return 0
		}),
		"worker_seconds":            simSecs,
		"distinct_executions":       len(hashes),
		"scheduler_segments":        segs,
		"yield_points_passed":       steps,
		"switch_sites_hit":          sitesHit,
		"switch_sites_total":        sitesTotal,
		"api_operations_exercised":  apiReach,
		"api_operations_total":      apiTotal,
		"calls_performed":           calls,
		"renders":                   renders,
		"texts_observed":            oktexts,
		"outcomes":                  kinds,
		"retries_after_abort":       retries,
		"longest_call_yield_points": maxOp,
		"simulated_seconds":         float64(st.SimNanos) / 1e9,
		"faults_injected": map[string]int64{
			"garbage_collections":                      st.GCs,
			"addresses_of_dead_reused":                 st.AddrReused,
			"pool_items_reused":                        st.PoolReused,
			"pool_items_dropped":                       st.PoolDropped,
			"callers_aborted":                          st.Kills,
			"callers_stalled":                          st.Stalls,
			"clock_changes":                            st.ClockJumps,
			"randomness_mode_changes":                  st.RandModes,
			"elements_churned":                         st.ChurnedElements,
			"lock_waits":                               st.LockWaits,
			"map_iterations_permuted":                  st.MapRanges,
			"argument_slices_checked":                  st.ArgSlices,
			"argument_slices_refilled":                 st.Refills,
			"calls_repeated_or_aborted_on_same_values": st.Again,
			"library_goroutines_simulated":             st.Goroutines,
			"hashes_weakened":                          st.WeakHashes,
			"file_reads_answered":                      st.FileReads,
			"file_reads_failed_or_short":               st.FileFaults,
			"timers_fired":                             st.Timers,
			"errors_returned_by_library":               errs,
			"panics_raised_by_library":                 panics,
		},
		"real_code":              []string{"every package of /repo (instrumented copy of the working tree)", "github.com/rs/xid (instrumented copy)", "golang.org/x/xerrors, Go standard library and runtime (allocator, collector, maps, slices, strings)"},
		"simulated":              []string{"scheduling of callers", "time.Now and timers", "math/rand and crypto/rand", "process id, host name and the files that describe the machine", "numeric addresses printed or converted (C01: reuse decided by the simulator among really collected objects)", "sync.Mutex, RWMutex, Once, Pool, Map, Cond, WaitGroup, goroutines, channels, select", "32 bit hashes (weak in some worlds), hash/maphash seeds", "iteration order of maps"},
		"library_process_deaths": c.deaths,
	}
	if c.prof.ID == "C10" {
		cov["fresh_process_references"] = plain.Jobs
		cov["fresh_process_disagreements"] = plain.Bad
	}
	level := "exploration"
	viol := 0
	if rep != nil {
		viol = 1
		cov["violation"] = rep.Violation
	}
	ev := map[string]interface{}{
		"property": c.prof.ID,
		"tier":     *fTier,
		"seed":     *fSeed,
		"level":    level,
		"coverage": cov,
		"assumptions": []string{
			"callers are switched between statements of the library and around atomic operations, locks and read-modify-writes, not inside a single machine operation",
			"dependencies other than xid and the standard library are not instrumented",
			"sampling: no violation in these runs is evidence, not proof",
		},
		"wall_s":     wall,
		"violations": viol,
	}
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0o755)
	writeJSON(filepath.Join(dir, c.prof.ID+".json"), ev)
	fmt.Printf("%s: %d runs (%d distinct), %d segments, %.1f s; faults: %s\n", c.prof.ID, runs, len(hashes), segs, wall, faultLine(&st))
}

func faultLine(st *simrt.Stats) string {
	var l []string
	add := func(n string, v int64) {
		if v > 0 {
			l = append(l, fmt.Sprintf("%s=%d", n, v))
		}
	}
	add("gc", st.GCs)
	add("reuse", st.AddrReused)
	add("kill", st.Kills)
	add("stall", st.Stalls)
	add("clock", st.ClockJumps)
	add("churn", st.ChurnedElements)
	if len(l) == 0 {
		return "none"
	}
	return strings.Join(l, " ")
}
