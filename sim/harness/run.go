package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
	"github.com/rs/xid"
	"verifsim/simrt"
)

const epoch = int64(1760000000) * 1e9

func resetWorld(w simrt.World) {
	simrt.ResetWorld(w)
	xid.SimReset()
	cypher.SimReset()
}

var refWorld = simrt.World{Seed: 3, Clock: epoch, Tick: 1000}

// Case is one simulated execution: everything that decides it.
type Case struct {
	Prog  *Program    `json:"program"`
	World worldJSON   `json:"world"`
	Sched schedJSON   `json:"schedule"`
	Drop  bool        `json:"drop,omitempty"`
	Churn []churnSpec `json:"churn,omitempty"` // earlier use of the process
	Retry bool        `json:"retry,omitempty"`

	Again []againSpec `json:"again,omitempty"` // calls made many times on the same values

	Refill bool `json:"refill,omitempty"` // callers use their argument slices for other things after a call
}

type worldJSON struct {
	Seed     uint64  `json:"seed"`
	Clock    int64   `json:"clock"`
	Tick     int64   `json:"tick"`
	RandMode int     `json:"rand_mode"`
	ReuseP   float64 `json:"reuse_p"`
	PoolP    int     `json:"pool_p"`
	MapMode  int     `json:"map_mode"`
	WeakHash bool    `json:"weak_hash,omitempty"`
}

func (w worldJSON) world() simrt.World {
	return simrt.World{Seed: w.Seed, Clock: w.Clock, Tick: w.Tick, RandMode: w.RandMode, ReuseP: w.ReuseP, PoolP: w.PoolP, MapMode: w.MapMode, WeakHash: w.WeakHash}
}

// schedJSON is either a seeded policy or an explicit list of segments.
type schedJSON struct {
	Policy *policy     `json:"policy,omitempty"`
	Segs   []simrt.Seg `json:"segs,omitempty"`
}

type policy struct {
	Seed  int64   `json:"seed"`
	Kind  string  `json:"kind"` // walk, sticky, pct, seq
	Cold  float64 `json:"cold"`
	Hot   float64 `json:"hot"`
	GC    float64 `json:"gc"`
	Kill  float64 `json:"kill"`
	Stall float64 `json:"stall"`
	Clock float64 `json:"clock"`
	Churn float64 `json:"churn"`
	MaxSw int     `json:"max_switches"`
	Focus []int32 `json:"focus,omitempty"` // yield points at which callers are held up
}

type seeded struct {
	p       policy
	r       *rand.Rand
	last    *simrt.Client
	stalled map[int]int
	prio    []int
	lower   map[int]int
	change  map[int]bool
	n       int
	stalls  int64
	kills   int
}

func newSeeded(p policy, nc int) *seeded {
	s := &seeded{p: p, r: rand.New(rand.NewSource(p.Seed)), stalled: map[int]int{}, change: map[int]bool{}, lower: map[int]int{}}
	s.prio = s.r.Perm(nc)
	for i := 0; i < 3; i++ {
		s.change[s.r.Intn(40)] = true
	}
	return s
}

func (s *seeded) Next(ready []*simrt.Client) (*simrt.Client, int64) {
	s.n++
	if s.p.MaxSw > 0 && s.n > s.p.MaxSw {
		simrt.NoProbs()
	}
	cand := ready
	if len(s.stalled) > 0 {
		var l []*simrt.Client
		for _, c := range ready {
			if s.stalled[c.ID] <= 0 {
				l = append(l, c)
			}
		}
		for _, c := range ready {
			if s.stalled[c.ID] > 0 {
				s.stalled[c.ID]--
				if s.stalled[c.ID] == 0 {
					delete(s.stalled, c.ID)
				}
			}
		}
		if len(l) > 0 {
			cand = l
		} // else: everybody else is done; the stalled ones resume
	}
	pick := cand[s.r.Intn(len(cand))]
	switch s.p.Kind {
	case "sticky":
		if s.last != nil && s.r.Intn(4) > 0 {
			for _, c := range cand {
				if c == s.last {
					pick = c
				}
			}
		}
	case "pct":
		if s.change[s.n] && s.last != nil {
			s.lower[s.last.ID] = -s.n
		}
		pick = cand[0]
		for _, c := range cand {
			if s.priority(c.ID) > s.priority(pick.ID) {
				pick = c
			}
		}
		if s.r.Intn(10) == 0 {
			pick = cand[s.r.Intn(len(cand))]
		}
	case "seq":
		pick = cand[0]
	}
	s.last = pick
	return pick, -1
}

func (s *seeded) priority(id int) int {
	if p, ok := s.lower[id]; ok {
		return p
	}
	if id < len(s.prio) {
		return s.prio[id]
	}
	return int((uint64(id)*2654435761 + uint64(s.p.Seed)) >> 7 % 4) // a goroutine of the library
}

func (s *seeded) Fault(c *simrt.Client) (string, int64) {
	if s.p.MaxSw > 0 && s.n > s.p.MaxSw {
		return "", 0 // faults stop; everybody finishes
	}
	x := s.r.Float64()
	if x < s.p.GC {
		return "gc", 0
	}
	x -= s.p.GC
	if c.State == simrt.Ready && len(s.p.Focus) > 0 && simrt.AtFocus(c) && s.r.Intn(2) == 0 {
		s.stalled[c.ID] = 1 + s.r.Intn(12)
		if s.r.Intn(3) == 0 {
			s.stalled[c.ID] = 1 + s.r.Intn(80)
		}
		return "stall", int64(c.ID)
	}
	if x < s.p.Kill {
		if c.State != simrt.Done && c.ID < simrt.FirstGoroutine && s.kills < 6 {
			s.kills++
			return "kill", int64(c.ID)
		}
		return "", 0
	}
	x -= s.p.Kill
	if x < s.p.Stall {
		if c.State != simrt.Done {
			n := 1 + s.r.Intn(30)
			if s.r.Intn(3) == 0 {
				n = 1 << 20 // until everybody else is done
			}
			s.stalled[c.ID] = n
			return "stall", int64(c.ID)
		}
		return "", 0
	}
	x -= s.p.Stall
	if x < s.p.Clock {
		return clockFault(s.r)
	}
	x -= s.p.Clock
	if x < s.p.Churn {
		return "churn", int64(1 + s.r.Intn(400))
	}
	return "", 0
}

func clockFault(r *rand.Rand) (string, int64) {
	switch r.Intn(6) {
	case 0:
		return "tick", 0 // frozen
	case 1:
		return "tick", int64(r.Intn(2000000000))
	case 2:
		return "tick", -int64(r.Intn(2000000000))
	case 3:
		return "rand", int64(r.Intn(4))
	}
	years := []int64{0, 1, -1, -86400, -86400 * 365 * 30, -9000000000, 9200000000, 86400 * 365 * 20, 1300000000, 1341576000, 1500000000, 1760000000, 4102444800, 4294967295, 4294967297, 9000000000}
	return "clock", years[r.Intn(len(years))]*1e9 + int64(r.Intn(1000000000))
}

// replaying runs explicit segments; afterwards everybody finishes in order.
type replaying struct {
	segs []simrt.Seg
	i    int
	act  string
	arg  int64
}

func (s *replaying) Next(ready []*simrt.Client) (*simrt.Client, int64) {
	for s.i < len(s.segs) {
		sg := s.segs[s.i]
		s.i++
		for _, c := range ready {
			if c.ID == sg.Client {
				s.act, s.arg = sg.Act, sg.Arg
				if sg.Steps == 0 {
					return c, 1 // a client that blocked at once
				}
				return c, sg.Steps
			}
		}
	}
	s.act, s.arg = "", 0
	return ready[0], -1
}

func (s *replaying) Fault(c *simrt.Client) (string, int64) { return s.act, s.arg }

// Violation is a broken property.
type Violation struct {
	Kind string `json:"kind"` // text, retained, race, deadlock, budget, name, fresh, death
	Op   int    `json:"op"`
	Want string `json:"want,omitempty"`
	Got  string `json:"got,omitempty"`
	Info string `json:"info,omitempty"`
}

func (v *Violation) String() string {
	return fmt.Sprintf("%s at v%d: want %q got %q %s", v.Kind, v.Op, v.Want, v.Got, v.Info)
}

// Result of one simulated execution.
type Result struct {
	Outs     []Outcome
	Segs     []simrt.Seg
	Steps    int64
	Hash     uint64
	V        *Violation
	Retries  int
	Deadlock bool
}

type runState struct {
	p     *Program
	slots []slot
	outs  []Outcome
	raws  []string
	drop  [][]int // values to forget after an operation
	retry bool
	tries []int
	again []againSpec
}

// exec1 performs operation i for a caller, again if it was interrupted.
func (rs *runState) exec1(i int, env *execEnv, c *simrt.Client) {
	for k := range rs.again {
		if rs.again[k].At == i {
			rs.again[k].run(rs, env)
		}
	}
	env.raw = ""
	out := perform(rs.p, i, rs.slots, env)
	if out.Kind == "killed" {
		rs.tries[i]++
		rs.slots[i] = slot{}
		if rs.retry {
			env.raw = ""
			for n := 0; n < 8; n++ {
				out = perform(rs.p, i, rs.slots, env)
				if out.Kind != "killed" {
					break
				}
				rs.tries[i]++
				rs.slots[i] = slot{}
			}
		}
	}
	rs.outs[i] = out
	rs.raws[i] = env.raw
	for _, d := range rs.drop[i] {
		rs.slots[d] = slot{}
	}
}

// execute runs the case in a fresh world.
func execute(cs *Case, rec bool) *Result {
	p := cs.Prog
	n := len(p.Ops)
	rs := &runState{p: p, slots: make([]slot, n), outs: make([]Outcome, n), raws: make([]string, n), drop: make([][]int, n), retry: cs.Retry, tries: make([]int, n), again: cs.Again}
	if cs.Drop {
		rs.drop = lastUses(p)
	}
	resetWorld(cs.World.world())
	simrt.SetOpBudget(stepBudget(p))
	churnAt := func(ph int, n int64) {
		for k := range cs.Churn {
			if cs.Churn[k].Phase == ph {
				m := cs.Churn[k].N
				if ph == 3 {
					m = n
				}
				cs.Churn[k].run(m)
			}
		}
	}
	simrt.NoProbs()
	var env execEnv
	env.ids = opByName
	env.groups = newGroups(p)
	env.refill = cs.Refill
	groups := env.groups
	res := &Result{}
	nc := 0
	churnAt(0, 0)
	for i := range p.Ops {
		if p.Ops[i].C == -1 {
			for k := range cs.Churn {
				if s := &cs.Churn[k]; s.Phase == 4 && s.At == i {
					s.run(s.N)
				}
			}
			rs.exec1(i, &env, nil)
		}
		if p.Ops[i].C >= nc {
			nc = p.Ops[i].C + 1
		}
	}
	churnAt(1, 0)
	if nc > 0 {
		fns := make([]func(*simrt.Client), nc)
		for c := 0; c < nc; c++ {
			var mine []int
			for i := range p.Ops {
				if p.Ops[i].C == c {
					mine = append(mine, i)
				}
			}
			fns[c] = func(cl *simrt.Client) {
				var env execEnv
				env.ids = opByName
				env.groups = groups
				env.refill = cs.Refill
				for _, i := range mine {
					rs.exec1(i, &env, cl)
				}
			}
		}
		var sch simrt.Scheduler
		if cs.Sched.Policy != nil {
			sch = newSeeded(*cs.Sched.Policy, nc)
			simrt.SetProbs(uint64(cs.Sched.Policy.Seed)*2654435761+99, cs.Sched.Policy.Cold, cs.Sched.Policy.Hot)
			simrt.Focus(cs.Sched.Policy.Focus)
		} else {
			sch = &replaying{segs: cs.Sched.Segs}
			simrt.NoProbs()
		}
		rr := simrt.Run(fns, sch, func(act string, arg int64, cl []*simrt.Client) {
			if act == "churn" {
				churnAt(3, arg)
				return
			}
			applyFault(act, arg, cl)
		})
		simrt.NoProbs()
		res.Segs, res.Steps, res.Hash, res.Deadlock = rr.Segs, rr.Steps, rr.Hash, rr.Deadlock
	}
	if !res.Deadlock {
		churnAt(2, 0)
		for i := range p.Ops {
			if p.Ops[i].C == -2 {
				rs.exec1(i, &env, nil)
			}
		}
	}
	for _, t := range rs.tries {
		res.Retries += t
	}
	res.Outs = append([]Outcome(nil), rs.outs...)
	// texts handed out must not have changed since
	for i := range p.Ops {
		if res.Outs[i].Kind == "ok" && rs.raws[i] != "" && rs.raws[i] != res.Outs[i].Text {
			res.V = &Violation{Kind: "retained", Op: i, Want: res.Outs[i].Text, Got: strings.Clone(rs.raws[i]), Info: "a text returned earlier has changed"}
			break
		}
	}
	if !res.Deadlock && res.V == nil {
		if i, bad := groups.check(p, rs.slots); bad {
			res.V = &Violation{Kind: "argslice", Op: i, Info: "the library wrote into an argument slice of the caller, which other calls use too"}
		}
	}
	for i := range res.Outs {
		for j := 0; j < len(res.Outs[i].Text); j++ {
			res.Hash ^= uint64(res.Outs[i].Text[j])
			res.Hash *= 1099511628211
		}
		for j := 0; j < len(res.Outs[i].Kind); j++ {
			res.Hash ^= uint64(res.Outs[i].Kind[j])
			res.Hash *= 1099511628211
		}
	}
	return res
}

func applyFault(act string, arg int64, cs []*simrt.Client) {
	switch act {
	case "gc":
		simrt.GC()
	case "kill":
		for _, c := range cs {
			if c.ID == int(arg) && c.State != simrt.Done {
				c.Kill()
				simrt.St.Kills++
			}
		}
	case "stall":
		simrt.St.Stalls++
	case "clock":
		simrt.ClockSet(arg)
	case "tick":
		simrt.ClockTick(arg)
		simrt.St.ClockJumps++
	case "rand":
		simrt.SetRandMode(int(arg))
	}
}

// lastUses lists, per operation, the values of the same caller that nobody
// needs afterwards.
func lastUses(p *Program) [][]int {
	last := make([]int, len(p.Ops))
	multi := make([]bool, len(p.Ops))
	for i := range last {
		last[i] = i
	}
	for i := range p.Ops {
		for _, a := range p.Ops[i].A {
			if a.Slot != nil {
				if p.Ops[i].C != p.Ops[*a.Slot].C {
					multi[*a.Slot] = true
				}
				last[*a.Slot] = i
			}
		}
	}
	d := make([][]int, len(p.Ops))
	for i, l := range last {
		if !multi[i] {
			d[l] = append(d[l], i)
		}
	}
	return d
}

// reference computes what operation i yields when only what it needs is done,
// alone, in a new process state.
func reference(p *Program, i int, substitute bool) Outcome {
	slots := make([]slot, len(p.Ops))
	var env execEnv
	env.ids = opByName
	resetWorld(refWorld)
	simrt.SetOpBudget(stepBudget(p))
	simrt.NoProbs()
	var out Outcome
	ph := 0
	for _, k := range p.deps(i) {
		if substitute && p.Ops[k].F == "SymbolicNameUnResolve" {
			slots[k] = slot{cypher.SymbolicNameCreate(fmt.Sprintf(placeholder+"%dx", ph)), true}
			ph++
			continue
		}
		out = perform(p, k, slots, &env)
	}
	return out
}

// vocabulary of a program: texts the user wrote.
func vocabulary(p *Program) map[string]bool {
	v := map[string]bool{}
	for _, op := range p.Ops {
		for _, a := range op.A {
			if a.Str != nil {
				for _, t := range tokens(*a.Str) {
					v[t] = true
				}
				v[*a.Str] = true
			}
		}
	}
	return v
}

func isWord(c rune) bool { return c == '_' || unicode.IsLetter(c) || unicode.IsDigit(c) }

func tokens(s string) []string {
	var out []string
	start := -1
	for i, c := range s {
		if isWord(c) {
			if start < 0 {
				start = i
			}
			continue
		}
		if start >= 0 {
			out = append(out, s[start:i])
			start = -1
		}
		out = append(out, string(c))
	}
	if start >= 0 {
		out = append(out, s[start:])
	}
	return out
}

func validIdent(s string) bool {
	for i, c := range s {
		if !(c == '_' || unicode.IsLetter(c) || (i > 0 && unicode.IsDigit(c))) {
			return false
		}
	}
	return s != "" && !reserved[strings.ToUpper(s)]
}

// reserved are the words openCypher does not let a variable be called.
var reserved = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range strings.Fields("ADD ALL AND AS ASC ASCENDING BY CASE CONSTRAINT CONTAINS CREATE DELETE DESC DESCENDING DETACH DISTINCT DO DROP ELSE END ENDS EXISTS FALSE FOR IN IS LIMIT MANDATORY MATCH MERGE NOT NULL OF ON OPTIONAL OR ORDER REMOVE REQUIRE RETURN SCALAR SET SKIP STARTS THEN TRUE UNION UNIQUE UNWIND WHEN WHERE WITH XOR") {
		m[w] = true
	}
	return m
}()

// libWords are the words of the library's own source.
var libWords = func() map[string]bool {
	m := map[string]bool{"true": true, "false": true, "NaN": true, "Inf": true}
	for _, w := range cypher.SimWords {
		for _, t := range tokens(w) {
			m[t] = true
		}
	}
	return m
}()

// generated tells whether a token can only be a name the library made up.
func generated(t string, voc map[string]bool) bool {
	if len(t) < 2 || voc[t] || libWords[t] {
		return false
	}
	digits, letters := 0, 0
	for _, c := range t {
		if !isWord(c) {
			return false
		}
		if unicode.IsDigit(c) {
			digits++
		} else {
			letters++
		}
	}
	return letters > 0 && digits > 0
}

// sameText compares two outcomes; names the library made up may differ as long
// as they correspond one to one.
func sameText(a, b Outcome, voc map[string]bool) bool {
	if a == b {
		return true
	}
	if a.Kind != b.Kind {
		return false
	}
	ta, tb := tokens(a.Text), tokens(b.Text)
	if len(ta) != len(tb) {
		return false
	}
	ab, ba := map[string]string{}, map[string]string{}
	for i := range ta {
		if !generated(ta[i], voc) || !generated(tb[i], voc) {
			if ta[i] != tb[i] {
				return false
			}
			continue
		}
		x, ok := ab[ta[i]]
		y, ok2 := ba[tb[i]]
		if ok != ok2 || (ok && (x != tb[i] || y != ta[i])) {
			return false
		}
		ab[ta[i]] = tb[i]
		ba[tb[i]] = ta[i]
	}
	return true
}

func usesUnresolved(p *Program, i int) bool {
	for _, k := range p.deps(i) {
		if p.Ops[k].F == "SymbolicNameUnResolve" {
			return true
		}
	}
	return false
}

// element is the placeholder of the element a name was made up for.
func element(s string) string {
	s, _, _ = strings.Cut(s, "A")
	return s
}

// checkNames compares a text with generated names against the same statement
// with names chosen by the user.
func checkNames(p *Program, i int, out Outcome, voc map[string]bool) *Violation {
	if p.Ops[i].F == "SymbolicNameUnResolve" {
		return nil
	}
	model := reference(p, i, true)
	bad := func(info string) *Violation {
		return &Violation{Kind: "name", Op: i, Want: model.String(), Got: out.String(), Info: info}
	}
	if model.Kind != out.Kind {
		return bad("naming the elements changes the outcome")
	}
	if out.Kind != "ok" || p.Ops[i].F != opRender {
		return nil
	}
	tm, to := tokens(model.Text), tokens(out.Text)
	if len(tm) != len(to) {
		return bad("the texts differ in more than the generated names")
	}
	mo, om := map[string]string{}, map[string]string{}
	for k := range tm {
		if strings.HasPrefix(tm[k], placeholder) {
			if !validIdent(to[k]) && !(k > 0 && k+1 < len(to) && to[k-1] == "`" && to[k+1] == "`") {
				return bad(fmt.Sprintf("generated name %q is not a valid identifier", to[k]))
			}
			if voc[to[k]] {
				return bad(fmt.Sprintf("generated name %q is one the user chose", to[k]))
			}
			x, ok := mo[tm[k]]
			if ok && x != to[k] {
				return bad(fmt.Sprintf("one element is called %q and %q", x, to[k]))
			}
			y, ok := om[to[k]]
			if ok && element(y) != element(tm[k]) {
				return bad(fmt.Sprintf("two different elements are both called %q", to[k]))
			}
			mo[tm[k]] = to[k]
			om[to[k]] = tm[k]
			continue
		}
		if generated(tm[k], voc) && generated(to[k], voc) {
			continue
		}
		if tm[k] != to[k] {
			return bad("the texts differ in more than the generated names")
		}
	}
	return nil
}

// check compares every outcome of a run with its reference.
func check(prof *Profile, cs *Case, res *Result) *Violation {
	if res.Deadlock {
		return &Violation{Kind: "deadlock", Op: -1, Info: "every caller that is left waits for one that makes no progress"}
	}
	if res.V != nil {
		return res.V
	}
	p := cs.Prog
	voc := vocabulary(p)
	for i := range p.Ops {
		o := res.Outs[i]
		switch o.Kind {
		case "killed":
			continue
		case "deadlock":
			return &Violation{Kind: "deadlock", Op: i, Info: "the call waits for a lock nobody will release"}
		case "skip":
			killed := false
			for _, k := range p.deps(i) {
				if res.Outs[k].Kind == "killed" {
					killed = true
				}
			}
			if killed {
				continue
			}
		case "budget":
			if prof.ID == "C09" {
				return &Violation{Kind: "budget", Op: i, Info: fmt.Sprintf("the call did not end within %d steps", simrt.OpBudget())}
			}
		}
		if o.Kind == "ok" && o.Text == "" && p.Ops[i].F != opRender {
			// nothing to see; but the reference must not fail either
			if !prof.Race && i%4 != 0 {
				continue
			}
		}
		un := usesUnresolved(p, i)
		ref := reference(p, i, false)
		if prof.ID == "C09" && ref.Kind == "budget" {
			return &Violation{Kind: "budget", Op: i, Info: fmt.Sprintf("alone, the call did not end within %d steps", simrt.OpBudget())}
		}
		if !sameText(ref, o, voc) {
			return &Violation{Kind: "text", Op: i, Want: ref.String(), Got: o.String()}
		}
		if prof.ID == "C08" && un {
			if v := checkNames(p, i, o, voc); v != nil {
				return v
			}
		}
	}
	return nil
}
