package main

import (
	"math/rand"
	"strconv"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
	"verifsim/simrt"
)

// churnSpec is an amount of earlier use of the process: what other code built,
// rendered and forgot before (or between) the calls of the program.
type churnSpec struct {
	Phase int    `json:"phase"` // 0 before the prologue, 1 before the callers, 2 before the epilogue, 3 at churn faults, 4 before call At
	At    int    `json:"at,omitempty"`
	N     int64  `json:"n"` // number of calls
	Seed  uint64 `json:"seed"`
	Ops   []Op   `json:"ops,omitempty"`  // calls to repeat; none: a mixture of usual ones
	Last  bool   `json:"last,omitempty"` // prepare once, repeat the last call only
	Vary  bool   `json:"vary,omitempty"` // another text at each repetition
	Kill  bool   `json:"kill,omitempty"` // abort the last call at a seeded point
}

// run performs the calls. Nothing of them is kept, but for a few results.
func (s *churnSpec) run(n int64) {
	if n <= 0 {
		return
	}
	if len(s.Ops) == 0 {
		churn(n, s.Seed)
		return
	}
	simrt.St.ChurnedElements += n
	p := &Program{Ops: append([]Op(nil), s.Ops...)}
	for i := range p.Ops {
		p.Ops[i].A = append([]Arg(nil), p.Ops[i].A...)
		p.Ops[i].G = 0
	}
	slots := make([]slot, len(p.Ops))
	env := execEnv{ids: opByName}
	last := len(p.Ops) - 1
	var keep [16]interface{}
	rng := s.Seed | 1
	long := int64(8)
	// one makes call i; false if it waits for somebody who does not run now.
	one := func(i int, k int64) bool {
		if s.Vary {
			for a := range p.Ops[i].A {
				if str := s.Ops[i].A[a].Str; str != nil {
					v := *str + strconv.FormatInt(k, 10)
					p.Ops[i].A[a].Str = &v
				}
			}
		}
		slots[i] = slot{}
		if s.Kill && i == last {
			rng ^= rng << 13
			rng ^= rng >> 7
			rng ^= rng << 17
			simrt.SoloKill(1 + int64(rng%uint64(long)))
			out := perform(p, i, slots, &env)
			simrt.SoloKill(0)
			if env.steps >= long {
				long = env.steps + 1
			}
			simrt.St.Kills++
			return !waits(out)
		}
		return !waits(perform(p, i, slots, &env))
	}
	if s.Last {
		for i := 0; i < last; i++ {
			if !one(i, 0) {
				return
			}
		}
		for k := int64(0); k < n; k++ {
			if !one(last, k) {
				return
			}
			keep[uint64(k)*7%16] = slots[last].v
		}
		return
	}
	for k := int64(0); k < n; {
		for i := range p.Ops {
			if !one(i, k) {
				return
			}
			k++
		}
		keep[uint64(k)*7%16] = slots[last].v
	}
}

// makeChurn decides how much use a process has seen before and between the
// calls of a program.
func makeChurn(r *rand.Rand, p *Program, deep bool) []churnSpec {
	var l []churnSpec
	for ph := 0; ph < 4; ph++ {
		s := churnSpec{Phase: ph, Seed: uint64(r.Int63())}
		kind := r.Intn(3)
		if kind > 0 && len(p.Ops) > 0 {
			i := r.Intn(len(p.Ops))
			for t := 0; len(statefulAt) > 0 && t < 6 && !stateful[p.Ops[i].F]; t++ {
				i = r.Intn(len(p.Ops))
			}
			for t := 0; kind == 1 && t < 4 && !plainOp(p, i); t++ {
				i = r.Intn(len(p.Ops))
			}
			s.Ops = extract(p, i)
			s.Last = kind == 1
			s.Vary = r.Intn(2) == 0
		}
		switch x := r.Intn(40); {
		case ph == 3:
			s.N = -1 // the fault decides
		case x < 14:
		case x < 26:
			s.N = int64(r.Intn(40))
		case x < 37:
			s.N = int64(r.Intn(2500))
		case x < 39:
			s.N = 1<<uint(8+r.Intn(6)) - int64(r.Intn(24))
		default:
			// around the wrap of a 16 bit counter: cheap calls, counted exactly
			for t := 0; t < 20; t++ {
				if i := r.Intn(len(p.Ops)); plainOp(p, i) && ops[opByName[p.Ops[i].F]].out != tRenderer {
					s.Ops, s.Last, s.Vary = extract(p, i), true, r.Intn(4) == 0
					break
				}
			}
			s.N = 1<<16 - int64(r.Intn(24))
			if r.Intn(4) == 0 {
				s.N /= int64(1 + r.Intn(4))
			}
			if deep && r.Intn(20) == 0 {
				s.N = 1<<20 - int64(r.Intn(24))
			}
		}
		if s.N != 0 {
			l = append(l, s)
		}
	}
	for n := r.Intn(2) * r.Intn(5); n > 0 && len(p.Ops) > 0; n-- {
		l = append(l, near(r, p))
	}
	return l
}

// makeFailing makes many earlier calls that fail or are aborted.
func makeFailing(r *rand.Rand, p *Program) []churnSpec {
	var bad []int
	for i, b := range p.bad {
		if b {
			bad = append(bad, i)
		}
	}
	var l []churnSpec
	for k := 0; k < 1+r.Intn(2); k++ {
		s := churnSpec{Phase: r.Intn(3), Seed: uint64(r.Int63()), Last: r.Intn(3) > 0}
		var i int
		if len(bad) > 0 && r.Intn(3) > 0 {
			i = bad[r.Intn(len(bad))]
		} else {
			i = r.Intn(len(p.Ops))
			s.Kill = true
		}
		s.Ops = extract(p, i)
		s.Vary = r.Intn(4) == 0
		switch r.Intn(8) {
		case 0, 1, 2, 3:
			s.N = int64(1 + r.Intn(12))
		case 4, 5:
			s.N = int64(1 + r.Intn(80))
		case 6:
			s.N = int64(1 + r.Intn(300))
		default:
			s.N = 1<<uint(3+r.Intn(8)) + int64(r.Intn(3))
		}
		l = append(l, s)
	}
	return l
}

// plainOp: a call that needs nothing made before.
func plainOp(p *Program, i int) bool {
	if p.Ops[i].F == opRender {
		return false
	}
	for _, a := range p.Ops[i].A {
		if a.Slot != nil {
			return false
		}
	}
	return true
}

// extract copies the calls operation i needs, i last.
func extract(p *Program, i int) []Op {
	idx := map[int]int{}
	var l []Op
	for _, k := range p.deps(i) {
		op := p.Ops[k]
		op.A = append([]Arg(nil), op.A...)
		for a := range op.A {
			if s := op.A[a].Slot; s != nil {
				op.A[a] = op.A[a].of(idx[*s])
			}
		}
		op.C, op.G = -1, 0
		idx[k] = len(l)
		l = append(l, op)
	}
	return l
}

// churn builds and forgets about n elements (no yield points are taken).
func churn(n int64, seed uint64) {
	simrt.St.ChurnedElements += n
	r := seed | 1
	var keep [16]interface{}
	for i := int64(0); i < n; i++ {
		r ^= r << 13
		r ^= r >> 7
		r ^= r << 17
		simrt.OpBegin()
		v, ok := churnOne(int(r>>8) % 64)
		if !ok || simrt.Crowded() {
			break
		}
		keep[r%16] = v
	}
	simrt.OpEnd()
}

// waits: the call would go on when somebody else did, or left too many
// goroutines waiting.
func waits(out Outcome) bool {
	return out.Kind == "budget" || out.Kind == "deadlock" || simrt.Crowded()
}

func churnOne(k int) (v interface{}, ok bool) {
	defer func() {
		switch recover().(type) {
		case simrt.BudgetSignal, simrt.DeadlockSignal:
		default:
			ok = true
		}
	}()
	switch k {
	case 0:
		n := cypher.ANode("Churn").NamedByString("n")
		st, err := cypher.Match(n).Returning(n.Property("a")).Build()
		if err == nil {
			s, _ := cypher.NewRenderer().Render(st)
			return s, true
		}
	case 1:
		n := cypher.ANode("C1").NamedByString("n")
		st, _ := cypher.Match(n.RelationshipTo(cypher.AnyNode(), "T").Named("r")).Where(n.Property("x").IsEqualTo(cypher.LiteralOf(1)).Get()).Returning(n.As("q")).Build()
		s, _ := cypher.NewRenderer().Render(st)
		return s, true
	case 2:
		return cypher.NewRenderer(), true
	case 3:
		return cypher.ANode(""), true
	case 4, 5, 6, 7:
		return cypher.ANode("Churn"), true
	case 8, 9:
		return cypher.LiteralOf("text"), true
	}
	return cypher.ASymbolic("c"), true
}

// againSpec: the caller makes call At many times before the time that counts,
// on the same values, and aborts each of them if Kill is set.
type againSpec struct {
	At   int    `json:"at"`
	N    int    `json:"n"`
	Kill bool   `json:"kill,omitempty"`
	Seed uint64 `json:"seed"`
}

func (s *againSpec) run(rs *runState, env *execEnv) {
	rng := s.Seed | 1
	long := int64(8)
	for k := 0; k < s.N; k++ {
		if s.Kill {
			rng ^= rng << 13
			rng ^= rng >> 7
			rng ^= rng << 17
			simrt.KillAt(1 + int64(rng%uint64(long)))
			simrt.St.Kills++
		}
		env.raw = ""
		out := perform(rs.p, s.At, rs.slots, env)
		simrt.KillAt(0)
		rs.slots[s.At] = slot{}
		simrt.St.Again++
		if env.steps >= long {
			long = env.steps + 1
		}
		if waits(out) || out.Kind == "skip" {
			return
		}
	}
}

// makeAgain chooses calls to be made again and again.
func makeAgain(r *rand.Rand, p *Program, kill bool) []againSpec {
	var bad, stm []int
	for i := range p.Ops {
		switch {
		case i < len(p.bad) && p.bad[i]:
			bad = append(bad, i)
		case p.Ops[i].F == opRender:
			stm = append(stm, i)
		}
	}
	var l []againSpec
	for k := 0; k < 1+r.Intn(3); k++ {
		s := againSpec{At: r.Intn(len(p.Ops)), Seed: uint64(r.Int63()), Kill: kill && r.Intn(3) > 0}
		switch x := r.Intn(6); {
		case x < 2 && len(bad) > 0:
			s.At, s.Kill = bad[r.Intn(len(bad))], false
			if r.Intn(5) == 0 {
				// what a failing call leaves behind may add up for long
				s.N = 1<<uint(9+r.Intn(6)) + r.Intn(3)
				l = append(l, s)
				continue
			}
		case x < 4 && len(stm) > 0:
			s.At = stm[r.Intn(len(stm))]
		}
		switch r.Intn(8) {
		case 0, 1, 2:
			s.N = 1 + r.Intn(4)
		case 3, 4, 5:
			s.N = 1 + r.Intn(20)
		case 6:
			s.N = 1 + r.Intn(80)
		default:
			s.N = 1<<uint(3+r.Intn(6)) + r.Intn(3)
			if r.Intn(6) == 0 {
				s.N = 1<<uint(9+r.Intn(4)) + r.Intn(3)
			}
		}
		l = append(l, s)
	}
	return l
}
