package main

import (
	"math"
	"math/rand"
	"sort"
	"strings"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
	"verifsim/simrt"
)

// Profile is the mix of workload and faults of a check.
type Profile struct {
	ID          string
	Race        bool
	MinClients  int
	MaxClients  int
	Builders    float64 // chance that a shared value is an unfinished statement
	Statements  float64 // ... a finished statement
	Unresolved  float64 // chance that a name is left to the library
	Invalid     float64 // chance of an invalid argument
	Refill      float64 // chance that callers reuse their argument slices
	KeepPanics  float64
	SharedRend  float64 // chance that a Render uses a shared renderer
	Repeat      float64 // chance that Build/Render is repeated
	Derive      float64 // weight of actions
	Continue    float64
	Use         float64
	Probe       float64
	Fresh       float64
	Siblings    float64
	GC          float64 // fault rates per switch
	Kill        float64
	Stall       float64
	Clock       float64
	Churn       float64
	Adopt       float64 // chance that a name the library made up before is used
	Again       float64 // chance of calls made many times on the same values
	Failing     float64 // chance of many failing or aborted calls before
	Drop        bool    // forget values after their last use
	Phases      bool
	DropAtStart bool
}

type genSlot struct {
	typ    int
	weight int
	owner  int
	bad    bool
}

type gen struct {
	r       *rand.Rand
	prof    *Profile
	p       Program
	info    []genSlot
	slots   []slot
	env     execEnv
	owner   int
	enabled []bool
	names   []string
	rends   []int // shared renderers
	maxOps  int
	fail    bool
	groups  []argSlice
	group   int
	fav     map[int]int // operation callers like to apply to a shared value
	big     bool        // long texts, long lists, large statements
	maxW    int
	bulk    int // so many names left open in the next list that takes them
}

type argSlice struct {
	typ   int
	args  []Arg
	owner int
}

const maxWeight = 260

var namePool = []string{"n", "m", "r", "x", "y", "a1", "person", "p_2", "movie", "b", "c", "d", "name", "age", "id", "t0", "nm", "N", "x1", "x11", "Person", "r0", "type", "count"}
var labelPool = []string{"Person", "Movie", "ACTED_IN", "KNOWS", "Äb", "City", "LIKES", "Country", "T1", "T2", "person", "PERSON", "a b", "a_b", "Set", "1", "true", "T11"}
var oddPool = []string{"with space", "tick`y", "it's", "1st", "a-b", "\\", "new\nline", "", "日本", "apoc.load.json", "db.labels", "'quoted'", "`t`", "a.b", "a:b", "say \"x\"", "tab\there", "$p", "0", "null",
	"\xff", "a\xff\xfeb", "\x00", "x\u2028y", "e\u0301", "\U0001F600", "\u01c5", "\u0130", "\ufeffn", "n\u200b", "\ufffd", "%s", "%!d", "a``b", "//", "/*", ";", "{", "[", "(", "a,b", "a|b", "a, b", "x;y", "r/s", "n:m", "m.n"}

func (g *gen) str() Arg {
	x := g.r.Float64()
	if g.big && g.r.Intn(12) == 0 {
		return strArg(g.longStr())
	}
	switch {
	case x < 0.55:
		return strArg(g.names[g.r.Intn(len(g.names))])
	case x < 0.92:
		return strArg(labelPool[g.r.Intn(len(labelPool))])
	case x < 0.98:
		return strArg(oddPool[g.r.Intn(len(oddPool))])
	default:
		return strArg(string(rune('A'+g.r.Intn(26))) + string(rune('a'+g.r.Intn(26))))
	}
}

// longStr makes a long text; some differ late, or in one place only.
func (g *gen) longStr() string {
	n := []int{16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 5000, 70000}[g.longest()]
	b := []byte(strings.Repeat([]string{"a", "ab", "x1"}[g.r.Intn(3)], n))[:n]
	switch g.r.Intn(5) {
	case 0:
		b[n-1] = byte('a' + g.r.Intn(3))
	case 1:
		b[n/2] = byte('a' + g.r.Intn(3))
	case 2:
		b[n/2] = '`'
	case 3:
		b[g.r.Intn(n)] = '\''
	}
	return string(b)
}

// longest picks a length; very long texts are rare.
func (g *gen) longest() int {
	if g.r.Intn(40) == 0 {
		return 16
	}
	return g.r.Intn(16)
}

func (g *gen) literal(t int, depth int) Arg {
	if g.prof.Invalid > 0 && g.r.Float64() < g.prof.Invalid*0.2 {
		switch cypher.SimTypes[t].Name {
		case "string":
			return strArg("")
		case "int":
			return intArg(-1 - g.r.Intn(3))
		}
	}
	switch cypher.SimTypes[t].Name {
	case "string":
		return g.str()
	case "int", "rune", "int32", "uint":
		if g.r.Intn(12) == 0 {
			return intArg(-g.r.Intn(3))
		}
		if g.r.Intn(40) == 0 && cypher.SimTypes[t].Name == "int" {
			return intArg([]int{math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 40, 1000000, 127, 128, 255, 256, 65535, 65536, 100, 10}[g.r.Intn(14)])
		}
		return intArg(g.r.Intn(12))
	case "int64":
		return i64Arg([]int64{int64(g.r.Intn(1000)), int64(g.r.Intn(1000)), int64(g.r.Intn(1000)), 0, -1, math.MaxInt64, math.MinInt64, 1 << 40}[g.r.Intn(8)])
	case "float64":
		return g.float()
	case "bool":
		return boolArg(g.r.Intn(2) == 0)
	case "*time.Location":
		s := []string{"UTC", "Europe/Berlin", "Asia/Tokyo"}[g.r.Intn(3)]
		return Arg{Loc: &s}
	case "error":
		if g.r.Intn(8) == 0 {
			return Arg{Nil: true}
		}
		s := []string{"caller's error", "another error", "error %d"}[g.r.Intn(3)]
		return Arg{Err: &s}
	}
	return g.anyArg(depth)
}

func (g *gen) float() Arg {
	if g.r.Intn(6) > 0 {
		return fltArg([]float64{0.5, 1, 1.5, 2.25, -3, 100}[g.r.Intn(6)])
	}
	return fltArg([]float64{math.NaN(), math.Inf(1), math.Inf(-1), math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, 1e21, 0.1 + 0.2, 0}[g.r.Intn(9)])
}

// anyArg makes a value for an interface{} parameter.
func (g *gen) anyArg(depth int) Arg {
	switch x := g.r.Intn(20); {
	case x < 6:
		return g.str()
	case x < 9:
		return intArg(g.r.Intn(100))
	case x < 10:
		return boolArg(true)
	case x < 11:
		return g.float()
	case x < 12 && g.prof.Invalid > 0:
		return i64Arg(5)
	case x < 13 && g.prof.Invalid > 0:
		return Arg{Nil: true}
	default:
		if t, ok := typeID["Expression"]; ok {
			if s, ok := g.value(t, depth-1); ok {
				return slotArg(s)
			}
		}
		return g.str()
	}
}

// add appends an operation and performs it; reports whether it was kept.
func (g *gen) add(f string, args []Arg, typ int) (int, bool) {
	w := 1
	for _, a := range args {
		if a.Slot != nil {
			w += g.info[*a.Slot].weight
		} else if a.Str != nil {
			w += len(*a.Str) / 16
		}
	}
	if w > g.maxW || len(g.p.Ops) >= g.maxOps {
		g.fail = len(g.p.Ops) >= g.maxOps
		return -1, false
	}
	i := len(g.p.Ops)
	g.p.Ops = append(g.p.Ops, Op{F: f, A: args, C: g.owner})
	g.slots = append(g.slots, slot{})
	if beforeGenerated != nil {
		beforeGenerated(&g.p)
	}
	out := perform(&g.p, i, g.slots, &g.env)
	if calibrating {
		for _, s := range simrt.Touched() {
			if touches[s] == nil {
				touches[s] = map[string]bool{}
			}
			touches[s][f] = true
		}
		for _, n := range simrt.Near() {
			if nearSites[n[0]] == nil {
				nearSites[n[0]] = map[int32]bool{}
			}
			nearSites[n[0]][n[1]] = true
		}
	}
	bad := out.Kind != "ok"
	if !bad {
		if e, ok := g.slots[i].v.(interface{ GetError() error }); ok {
			func() {
				defer func() {
					if recover() != nil {
						bad = true
					}
				}()
				if e.GetError() != nil {
					bad = true
				}
			}()
		}
	}
	keep := true
	if bad {
		keep = g.r.Float64() < g.prof.KeepPanics
	}
	if !keep {
		g.p.Ops = g.p.Ops[:i]
		g.slots = g.slots[:i]
		return -1, false
	}
	g.info = append(g.info, genSlot{typ, w, g.owner, bad})
	return i, true
}

// visible: values of the current caller and those made before.
func (g *gen) visible(i int) bool {
	o := g.info[i].owner
	return o == g.owner || o == -1 || g.owner == -2
}

// pick chooses an existing value assignable to t.
func (g *gen) pick(t int) (int, bool) {
	n, best := 0, -1
	for i := range g.info {
		if !g.visible(i) || g.info[i].typ < 0 || !assignable[t][g.info[i].typ] || g.info[i].weight > g.maxW/2 {
			continue
		}
		if g.info[i].bad && g.r.Float64() > 0.1 {
			continue
		}
		n++
		if g.r.Intn(n) == 0 {
			best = i
		}
	}
	return best, best >= 0
}

// value makes or picks a value of type t.
func (g *gen) value(t, depth int) (int, bool) {
	if s, ok := g.pick(t); ok && g.r.Float64() < 0.65 {
		return s, true
	}
	if g.prof.Unresolved > 0 && g.r.Float64() < g.prof.Unresolved {
		if id, ok := opByName["SymbolicNameUnResolve"]; ok && assignable[t][ops[id].out] {
			return g.add(ops[id].name, nil, ops[id].out)
		}
	}
	for try := 0; try < 6; try++ {
		o := g.producer(t, depth)
		if o < 0 {
			return g.pick(t)
		}
		if s, ok := g.call(o, -1, depth-1); ok {
			return s, true
		}
		if g.fail {
			return -1, false
		}
	}
	return g.pick(t)
}

func (g *gen) producer(t, depth int) int {
	limit := math.Max(float64(depth), typeCost[t])
	total := 0.0
	sel := -1
	for _, o := range producers[t] {
		if ops[o].cost > limit || (!g.enabled[o] && ops[o].cost > typeCost[t]) {
			continue
		}
		w := ops[o].weight
		if ops[o].cost > 2 {
			w *= 0.7
		}
		total += w
		if g.r.Float64()*total < w {
			sel = o
		}
	}
	return sel
}

// call generates a call of operation o; force >= 0 is a slot that must be used
// as receiver or argument.
func (g *gen) call(o, force, depth int) (int, bool) {
	op := &ops[o]
	var args []Arg
	used := force < 0
	g.group = 0
	take := func(t int, last bool) (Arg, bool) {
		if isLiteralType(t) {
			if !used && t == tIface && (last || g.r.Intn(2) == 0) {
				used = true
				return slotArg(force), true
			}
			if g.prof.Adopt > 0 && t == tString && naming(op.name) && g.r.Float64() < g.prof.Adopt {
				if a, ok := g.adopted(); ok {
					return a, true
				}
			}
			if t == tString && strings.HasPrefix(op.name, "SortItems") && g.r.Intn(8) > 0 {
				return strArg(labelPool[g.r.Intn(len(labelPool))] + [...]string{" ASC", " DESC", " ASC", " DESC", " "}[g.r.Intn(5)]), true
			}
			return g.literal(t, depth), true
		}
		if !used && assignable[t][g.info[force].typ] && (last || g.r.Intn(3) > 0) {
			used = true
			return slotArg(force), true
		}
		if g.prof.Invalid > 0 && g.r.Float64() < g.prof.Invalid && cypher.SimTypes[t].Iface {
			return Arg{Nil: true}, true
		}
		s, ok := g.value(t, depth)
		if !ok {
			return Arg{}, false
		}
		return slotArg(s), true
	}
	// the last parameter the forced value can go to
	lastPos := -2
	if force >= 0 {
		ft := g.info[force].typ
		if op.recv >= 0 && op.recv == ft {
			lastPos = -1
		}
		for k, t := range op.in {
			if !isLiteralType(t) && assignable[t][ft] {
				if lastPos == -1 && g.r.Intn(4) > 0 {
					continue
				}
				lastPos = k
			}
		}
		if lastPos == -2 {
			return -1, false
		}
	}
	if op.recv >= 0 {
		if !used && lastPos == -1 {
			used = true
			args = append(args, slotArg(force))
		} else {
			s, ok := g.value(op.recv, depth)
			if !ok {
				return -1, false
			}
			args = append(args, slotArg(s))
		}
	}
	for k, t := range op.in {
		if op.vari && k == len(op.in)-1 {
			n := []int{0, 1, 1, 1, 2, 2, 3, 3, 4, 5 + g.r.Intn(5)}[g.r.Intn(10)]
			if g.big && g.r.Intn(5) == 0 {
				n = 8 + g.r.Intn(60)
			}
			must := !used && lastPos == k
			if !must && len(g.groups) > 0 && g.r.Float64() < 0.35 {
				if args2, id, ok := g.shareArgs(t); ok {
					g.group = id
					args = append(args, args2...)
					continue
				}
			}
			tail := len(args)
			if must && n == 0 {
				n = 1
			}
			if g.bulk > 0 && !must && t != tIface {
				if l := g.openNames(t); l != nil {
					args = append(args, l...)
					continue
				}
			}
			if t == tIface {
				args = append(args, g.anyList(o, n, depth)...)
				if must && !used {
					args = append(args, strArg("k"), slotArg(force))
					used = true
				}
				g.noteArgs(t, args[tail:])
				continue
			}
			for j := 0; j < n; j++ {
				a, ok := take(t, must && j == n-1)
				if !ok {
					return -1, false
				}
				args = append(args, a)
			}
			g.noteArgs(t, args[tail:])
			continue
		}
		a, ok := take(t, lastPos == k)
		if !ok {
			return -1, false
		}
		args = append(args, a)
	}
	if !used {
		return -1, false
	}
	grp := g.group
	g.group = 0
	i, ok := g.add(op.name, args, op.out)
	if ok && op.vari {
		g.p.Ops[i].G = grp
	}
	return i, ok
}

// openNames makes a long list of names left to the library.
func (g *gen) openNames(t int) []Arg {
	id, ok := opByName["SymbolicNameUnResolve"]
	if !ok || !assignable[t][ops[id].out] {
		return nil
	}
	n := g.bulk
	g.bulk = 0
	g.maxOps += n
	g.maxW += 4 * n
	var l []Arg
	for i := 0; i < n; i++ {
		if s, ok := g.add(ops[id].name, nil, ops[id].out); ok {
			l = append(l, slotArg(s))
		}
	}
	return l
}

// shareArgs finds an argument slice of an earlier call to pass again.
func (g *gen) shareArgs(t int) ([]Arg, int, bool) {
	n, sel := 0, -1
	for i, s := range g.groups {
		if s.typ == t && (s.owner == -1 || s.owner == g.owner) {
			n++
			if g.r.Intn(n) == 0 {
				sel = i
			}
		}
	}
	if sel < 0 {
		return nil, 0, false
	}
	return append([]Arg(nil), g.groups[sel].args...), sel + 1, true
}

// noteArgs remembers an argument slice.
func (g *gen) noteArgs(t int, args []Arg) {
	g.group = 0
	if len(args) == 0 || len(g.groups) >= maxGroups-1 || g.r.Intn(3) > 0 {
		return
	}
	g.groups = append(g.groups, argSlice{t, append([]Arg(nil), args...), g.owner})
	g.group = len(g.groups)
}

// anyList makes the arguments of a variadic interface{} parameter: mostly
// key/value pairs, entries of a projection, or raw values.
func (g *gen) anyList(o, n, depth int) []Arg {
	name := ops[o].name
	var l []Arg
	et, okE := typeID["Expression"]
	pair := func() {
		l = append(l, g.str())
		if okE {
			if s, ok := g.value(et, depth); ok {
				l = append(l, slotArg(s))
				return
			}
		}
		l = append(l, g.str())
	}
	for i := 0; i < n; i++ {
		switch {
		case strings.Contains(name, "Project"):
			if g.r.Intn(3) == 0 {
				pair()
			} else if g.r.Intn(4) == 0 {
				l = append(l, g.anyArg(depth))
			} else {
				l = append(l, g.str())
			}
		case strings.Contains(name, "Raw") && strings.Contains(name, "List"):
			l = append(l, g.anyArg(depth))
		default:
			if g.r.Intn(15) == 0 {
				l = append(l, g.anyArg(depth))
			} else {
				pair()
			}
		}
	}
	return l
}

// step applies an operation to slot s that leads to a type from which a
// statement can be reached; closer asks for one that gets closer.
func (g *gen) step(s int, closer bool, recvOnly bool) (int, bool) {
	t := g.info[s].typ
	for try := 0; try < 8; try++ {
		total := 0.0
		sel := -1
		own := !closer && g.r.Intn(2) == 0 // a method of the value
		for _, o := range consumers[t] {
			op := &ops[o]
			d := dist[op.out]
			if math.IsInf(d, 1) || (closer && d >= dist[t]) {
				continue
			}
			if own && op.recv != t && try < 4 {
				continue
			}
			if !g.enabled[o] && !closer {
				continue
			}
			w := op.weight
			if op.recv == t {
				w *= 6
			} else if recvOnly {
				continue
			}
			if op.cost > 6 {
				w *= 0.3
			}
			total += w
			if g.r.Float64()*total < w {
				sel = o
			}
		}
		if sel < 0 {
			if own && try < 4 {
				continue
			}
			return -1, false
		}
		if n, ok := g.call(sel, s, 3); ok {
			return n, true
		}
		if g.fail {
			return -1, false
		}
	}
	return -1, false
}

// finish turns slot s into a rendered statement.
func (g *gen) finish(s int, wander int) {
	st, ok := g.toStatement(s, wander)
	if ok {
		g.render(st)
	}
}

func (g *gen) toStatement(s int, wander int) (int, bool) {
	for hops := 0; hops < 12; hops++ {
		t := g.info[s].typ
		if t == tStatement {
			return s, true
		}
		if math.IsInf(dist[t], 1) {
			return -1, false
		}
		closer := wander <= 0 || g.r.Float64() < 0.3
		wander--
		n, ok := g.step(s, closer, false)
		if !ok {
			n, ok = g.step(s, true, false)
		}
		if !ok {
			return -1, false
		}
		if g.prof.Repeat > 0 && g.info[n].typ == tStatement && g.r.Float64() < g.prof.Repeat {
			// build again from the same value
			last := g.p.Ops[n]
			g.add(last.F, last.A, tStatement)
		}
		s = n
	}
	return s, g.info[s].typ == tStatement
}

func (g *gen) render(st int) {
	rd := -1
	if len(g.rends) > 0 && g.r.Float64() < g.prof.SharedRend {
		rd = g.rends[g.r.Intn(len(g.rends))]
	} else if s, ok := g.call(opByName["NewRenderer"], -1, 0); ok {
		rd = s
	}
	if rd < 0 {
		return
	}
	g.add(opRender, []Arg{slotArg(rd), slotArg(st)}, -1)
	if g.r.Float64() < g.prof.Repeat {
		if g.r.Intn(2) == 0 {
			if s, ok := g.call(opByName["NewRenderer"], -1, 0); ok {
				rd = s
			}
		}
		g.add(opRender, []Arg{slotArg(rd), slotArg(st)}, -1)
	}
}

// storm lets a caller make a few small calls, renderings mostly, again and
// again while the others do the same.
func (g *gen) storm(dense bool) {
	var cand []int
	for i := range g.p.Ops {
		op := &g.p.Ops[i]
		if !g.visible(i) || g.info[i].weight > 40 || op.F != opRender && !stateful[op.F] {
			continue
		}
		ok := true
		for _, a := range op.A {
			if a.Slot != nil && !g.visible(*a.Slot) {
				ok = false
			}
		}
		if ok {
			cand = append(cand, i)
		}
	}
	if len(cand) == 0 {
		return
	}
	g.maxOps = len(g.p.Ops) + 40
	turn := make([]int, 1+g.r.Intn(3))
	for i := range turn {
		turn[i] = cand[g.r.Intn(len(cand))]
	}
	k := 3 + g.r.Intn(10)
	if dense {
		k += 6 + g.r.Intn(12)
	}
	for ; k > 0; k-- {
		i := turn[k%len(turn)]
		g.add(g.p.Ops[i].F, append([]Arg(nil), g.p.Ops[i].A...), g.info[i].typ)
	}
}

// selfOp picks an operation that can be applied to its own result.
func (g *gen) selfOp(s int, recvOnly bool) int {
	t := g.info[s].typ
	total := 0.0
	sel := -1
	for _, o := range consumers[t] {
		op := &ops[o]
		if math.IsInf(dist[op.out], 1) || op.cost > 5 && g.r.Intn(3) > 0 {
			continue
		}
		again := op.recv >= 0 && op.recv == t && assignable[op.recv][op.out]
		if !recvOnly && !again {
			for _, p := range op.in {
				if !isLiteralType(p) && assignable[p][op.out] && assignable[p][t] {
					again = true
				}
			}
		}
		if !again {
			continue
		}
		total += op.weight
		if g.r.Float64()*total < op.weight {
			sel = o
		}
	}
	return sel
}

// naming: calls whose text becomes the name of an element.
func naming(f string) bool {
	if f == "ASymbolic" || f == "SymbolicNameCreate" || f == "AnyNodeNamed" {
		return true
	}
	f = f[strings.LastIndex(f, ".")+1:]
	return f == "As" || f == "Named" || f == "NamedByString"
}

// adopted is a name the library made up in an earlier text and the user now
// uses for an element.
func (g *gen) adopted() (Arg, bool) {
	var c []int
	for i := range g.info {
		if g.p.Ops[i].F == opRender && g.visible(i) && !g.info[i].bad && usesUnresolved(&g.p, i) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return Arg{}, false
	}
	n := g.r.Intn(3)
	return Arg{Slot: &c[g.r.Intn(len(c))], Nth: &n}, true
}

// cycle picks two or three methods which, called one after the other, lead back
// to the type of the value: on create and set, when and then, with and match.
func (g *gen) cycle(s int) []int {
	t := g.info[s].typ
	pick := func(t int, ok func(out int) bool) int {
		total, sel := 0.0, -1
		for _, o := range consumers[t] {
			op := &ops[o]
			if op.recv != t || math.IsInf(dist[op.out], 1) || op.out == tStatement || !ok(op.out) {
				continue
			}
			w := op.weight
			if op.cost > 5 {
				w *= 0.3
			}
			total += w
			if g.r.Float64()*total < w {
				sel = o
			}
		}
		return sel
	}
	for try := 0; try < 4; try++ {
		f := pick(t, func(out int) bool { return out != t })
		if f < 0 {
			return nil
		}
		u := ops[f].out
		if h := pick(u, func(out int) bool { return assignable[t][out] }); h >= 0 {
			return []int{f, h}
		}
		h := pick(u, func(out int) bool { return out != u })
		if h < 0 {
			continue
		}
		if i := pick(ops[h].out, func(out int) bool { return assignable[t][out] }); i >= 0 {
			return []int{f, h, i}
		}
	}
	return nil
}

// repeat applies one operation, or a few in turn, several times in a row: lists
// of particular lengths, deep nesting.
func (g *gen) repeat(s int) int {
	o := g.selfOp(s, g.r.Intn(3) > 0)
	if o < 0 || g.r.Intn(4) == 0 {
		if c := g.cycle(s); c != nil {
			for k := 1 + g.r.Intn(7); k > 0; k-- {
				x := s
				for _, o := range c {
					y, ok := g.call(o, x, 1)
					if !ok {
						return s
					}
					x = y
				}
				s = x
			}
			if g.r.Intn(2) == 0 && ops[c[0]].recv == g.info[s].typ {
				g.fav[s] = c[0]
			}
			return s
		}
	}
	if o < 0 {
		return s
	}
	turn := []int{o}
	for n := g.r.Intn(4); n > 1; n-- {
		if x := g.selfOp(s, true); x >= 0 {
			turn = append(turn, x)
		}
	}
	k := 1 + g.r.Intn(9)
	if g.r.Intn(8) == 0 {
		k = 10 + g.r.Intn(25)
	}
	if g.big && g.r.Intn(3) == 0 {
		k = 30 + g.r.Intn(100)
	}
	for i := 0; i < k; i++ {
		x, ok := g.call(turn[i%len(turn)], s, 1)
		if !ok {
			break
		}
		s = x
	}
	return s
}

// siblings applies one operation to one value more than once, with different
// arguments, and uses all of the results.
func (g *gen) siblings(s int) {
	if g.r.Intn(2) == 0 {
		s = g.repeat(s)
	}
	t := g.info[s].typ
	o := -1
	if f, ok := g.fav[s]; ok && g.r.Intn(3) > 0 {
		o = f
	} else {
		total := 0.0
		own := g.r.Intn(5) > 1
		for pass := 0; pass < 2 && o < 0; pass++ {
			for _, c := range consumers[t] {
				op := &ops[c]
				if math.IsInf(dist[op.out], 1) || own && op.recv != t {
					continue
				}
				w := op.weight
				if op.recv == t {
					w *= 8
					if op.out == t {
						w *= 3
					}
				}
				total += w
				if g.r.Float64()*total < w {
					o = c
				}
			}
			own = false
		}
		if o >= 0 {
			g.fav[s] = o
		}
	}
	if o < 0 {
		return
	}
	var made []int
	for k := 0; k < 2+g.r.Intn(2); k++ {
		if x, ok := g.call(o, s, 2); ok {
			made = append(made, x)
		}
	}
	g.r.Shuffle(len(made), func(i, j int) { made[i], made[j] = made[j], made[i] })
	for _, x := range made {
		if g.r.Intn(3) == 0 {
			x = g.grow(x, g.r.Intn(2))
		}
		if g.info[x].typ == tStatement {
			g.render(x)
			continue
		}
		g.finish(x, g.r.Intn(2))
	}
}

// grow derives a few times in a row, staying on types with methods.
func (g *gen) grow(s, n int) int {
	for i := 0; i < n; i++ {
		if g.r.Intn(5) == 0 {
			s = g.repeat(s)
			continue
		}
		x, ok := g.step(s, false, true)
		if !ok || g.info[x].typ == tStatement {
			break
		}
		s = x
	}
	return s
}

func isBuilderType(t int) bool {
	n := cypher.SimTypes[t].Name
	return cypher.SimTypes[t].Iface && dist[t] > 0 && !math.IsInf(dist[t], 1) &&
		(strings.Contains(n, "Ongoing") || strings.Contains(n, "Exposes") || strings.Contains(n, "Build") || strings.Contains(n, "Terminal"))
}

// sharedValue makes one value of the prologue.
func (g *gen) sharedValue() int {
	x := g.r.Float64()
	depth := 3 + g.r.Intn(3)
	switch {
	case x < g.prof.Statements:
		b := g.startBuilder(depth)
		if b < 0 {
			return -1
		}
		if s, ok := g.toStatement(b, g.r.Intn(5)); ok {
			return s
		}
		return -1
	case x < g.prof.Statements+g.prof.Builders:
		if g.r.Intn(4) == 0 {
			if s := g.focusedBuilder(); s >= 0 {
				return s
			}
		}
		b := g.startBuilder(depth)
		if b < 0 {
			return -1
		}
		return g.grow(b, g.r.Intn(6))
	}
	if g.r.Intn(10) < 3 {
		if s := g.focused(depth); s >= 0 {
			return s
		}
	}
	// a fragment: any type from which a statement can be reached
	typed := g.r.Float64() < 0.6
	for try := 0; try < 10; try++ {
		o := g.r.Intn(len(ops))
		if typed {
			o = g.typedProducer()
		}
		t := ops[o].out
		if math.IsInf(ops[o].cost, 1) || math.IsInf(dist[t], 1) || t == tStatement || isBuilderType(t) || isLiteralType(t) {
			continue
		}
		if !typed && g.r.Float64() > ops[o].weight {
			continue
		}
		s, ok := g.call(o, -1, depth)
		if !ok {
			continue
		}
		n := 0
		if g.r.Intn(2) == 0 {
			n = 1 + g.r.Intn(5)
		}
		for i := 0; i < n; i++ {
			if g.r.Intn(4) == 0 {
				y := g.repeat(s)
				if !isBuilderType(g.info[y].typ) && g.info[y].typ != tStatement {
					s = y
				}
				continue
			}
			y, ok := g.step(s, false, true)
			if !ok || isBuilderType(g.info[y].typ) || g.info[y].typ == tStatement {
				break
			}
			s = y
		}
		return s
	}
	return -1
}

// methods are the operations callers may apply to a fragment, or to an
// unfinished statement.
var methods [2][]int
var methodNames [2][][]int
var ownMethods []int // those of fragments which are not promoted from an embedded value

func method(builder int, r *rand.Rand) int {
	if len(statefulAt) > 0 && r != nil && r.Intn(4) == 0 {
		o := anyStateful(r)
		if t := ops[o].recv; t >= 0 && !isLiteralType(t) && !math.IsInf(ops[o].cost, 1) && !math.IsInf(dist[ops[o].out], 1) && !math.IsInf(typeCost[t], 1) && isBuilderType(t) == (builder == 1) {
			return o
		}
	}
	if methods[0] == nil {
		for i := range ops {
			t := ops[i].recv
			if t < 0 || t == tStatement || isLiteralType(t) || math.IsInf(ops[i].cost, 1) || math.IsInf(dist[ops[i].out], 1) || math.IsInf(typeCost[t], 1) {
				continue
			}
			k := 0
			if isBuilderType(t) {
				k = 1
			}
			methods[k] = append(methods[k], i)
			if k == 0 && !cypher.SimOps[ops[i].id].Promoted && !cypher.SimTypes[t].Iface {
				ownMethods = append(ownMethods, i)
			}
		}
		for k := range methods {
			by := map[string]int{}
			for _, i := range methods[k] {
				n := ops[i].name[strings.LastIndex(ops[i].name, ".")+1:]
				j, ok := by[n]
				if !ok {
					j = len(methodNames[k])
					by[n] = j
					methodNames[k] = append(methodNames[k], nil)
				}
				methodNames[k][j] = append(methodNames[k][j], i)
			}
		}
	}
	if r == nil || len(methods[builder]) == 0 {
		return -1
	}
	if builder == 0 && len(ownMethods) > 0 && r.Intn(2) == 0 {
		return ownMethods[r.Intn(len(ownMethods))]
	}
	if r.Intn(3) > 0 { // many types have the same comparisons
		l := methodNames[builder][r.Intn(len(methodNames[builder]))]
		return l[r.Intn(len(l))]
	}
	return methods[builder][r.Intn(len(methods[builder]))]
}

// focused makes a value for one method, any of them as likely, and lets callers
// prefer that method.
func (g *gen) focused(depth int) int {
	for try := 0; try < 4; try++ {
		o := method(0, g.r)
		if o < 0 {
			return -1
		}
		if ops[o].weight < 0.2 && g.r.Intn(3) > 0 {
			continue
		}
		t := ops[o].recv
		for k := 0; k < 4; k++ {
			p := g.producer(t, depth)
			if p < 0 {
				break
			}
			s, ok := g.call(p, -1, depth)
			if !ok {
				continue
			}
			if g.info[s].typ == t {
				for n := g.r.Intn(5); n > 0 && assignable[t][ops[o].out]; n-- {
					y, ok := g.call(o, s, 1)
					if !ok {
						break
					}
					s = y
				}
			}
			if g.info[s].typ == t {
				g.fav[s] = o
			}
			return s
		}
	}
	return -1
}

// focusedBuilder does so for an unfinished statement: it walks towards the type
// the method belongs to.
func (g *gen) focusedBuilder() int {
	for try := 0; try < 3; try++ {
		o := method(1, g.r)
		if o < 0 {
			return -1
		}
		t := ops[o].recv
		p := g.producer(t, 8)
		if p < 0 {
			continue
		}
		s, ok := g.call(p, -1, 8)
		if !ok {
			continue
		}
		if g.info[s].typ == t {
			g.fav[s] = o
		}
		if g.r.Intn(2) == 0 {
			s = g.repeat(s)
		}
		return s
	}
	return -1
}

// fragTypes are the types of fragments, each with the operations making it.
var fragTypes [][]int

// typedProducer picks a type of fragment first, so that the many operations
// with one result type do not crowd out the others.
func (g *gen) typedProducer() int {
	if fragTypes == nil {
		by := map[int]int{}
		for i := range ops {
			t := ops[i].out
			if math.IsInf(ops[i].cost, 1) || math.IsInf(dist[t], 1) || t == tStatement || isBuilderType(t) || isLiteralType(t) {
				continue
			}
			k, ok := by[t]
			if !ok {
				k = len(fragTypes)
				by[t] = k
				fragTypes = append(fragTypes, nil)
			}
			fragTypes[k] = append(fragTypes[k], i)
		}
	}
	l := fragTypes[g.r.Intn(len(fragTypes))]
	total, sel := 0.0, l[0]
	for _, o := range l {
		total += ops[o].weight
		if g.r.Float64()*total < ops[o].weight {
			sel = o
		}
	}
	return sel
}

var starters []int

func (g *gen) startBuilder(depth int) int {
	if starters == nil {
		for i := range ops {
			if ops[i].recv < 0 && isBuilderType(ops[i].out) && !math.IsInf(ops[i].cost, 1) && !strings.HasPrefix(ops[i].name, "Default") {
				starters = append(starters, i)
			}
		}
	}
	for try := 0; try < 6; try++ {
		if s, ok := g.call(starters[g.r.Intn(len(starters))], -1, depth); ok {
			return s
		}
	}
	return -1
}

// look asks values for what they say about themselves: texts, errors, flags.
func (g *gen) look(n int) {
	if lookers == nil {
		lookers = make([][]int, len(dist))
		for i := range ops {
			if t := ops[i].recv; t >= 0 && t != tRenderer && math.IsInf(dist[ops[i].out], 1) && !math.IsInf(ops[i].cost, 1) {
				lookers[t] = append(lookers[t], i)
			}
		}
	}
	for try := 0; n > 0 && try < 12 && len(g.info) > 0; try++ {
		i := g.r.Intn(len(g.info))
		t := g.info[i].typ
		if t < 0 || !g.visible(i) || len(lookers[t]) == 0 {
			continue
		}
		g.call(lookers[t][g.r.Intn(len(lookers[t]))], i, 1)
		n--
	}
}

var lookers [][]int // by type: methods whose results no statement is made of

// action generates one thing a caller does.
func (g *gen) action(shared []int) {
	p := g.prof
	if g.r.Intn(9) == 0 {
		g.echo()
		return
	}
	if g.r.Intn(4) == 0 {
		g.look(1 + g.r.Intn(3))
	}
	x := g.r.Float64() * (p.Derive + p.Continue + p.Use + p.Probe + p.Fresh + p.Siblings)
	pickShared := func() int {
		if len(shared) == 0 {
			return -1
		}
		return shared[g.r.Intn(len(shared))]
	}
	s := pickShared()
	if s < 0 {
		x = math.MaxFloat64
	}
	switch {
	case x >= p.Derive+p.Continue+p.Use+p.Probe+p.Fresh && s >= 0:
		g.siblings(s)
	case x < p.Derive:
		n, ok := g.step(s, false, g.r.Intn(4) > 0)
		if !ok {
			return
		}
		n = g.grow(n, g.r.Intn(3))
		if g.r.Float64() < 0.85 {
			g.finish(n, g.r.Intn(2))
		}
	case x < p.Derive+p.Continue:
		if g.info[s].typ == tStatement {
			g.render(s)
			return
		}
		g.finish(g.grow(s, g.r.Intn(5)), g.r.Intn(3))
	case x < p.Derive+p.Continue+p.Use:
		if g.info[s].typ == tStatement && g.r.Intn(2) == 0 {
			g.render(s)
			return
		}
		g.finish(s, g.r.Intn(5))
	case x < p.Derive+p.Continue+p.Use+p.Probe:
		g.finish(s, 0)
	default:
		b := g.startBuilder(4)
		if b >= 0 {
			g.finish(b, g.r.Intn(5))
		}
	}
}

// Some operations use package variables that may change. For each place which
// does so, and is not reached by nearly everything: the operations reaching it.
var (
	stateful    map[string]bool
	statefulAt  [][]int
	calibrating bool

	beforeGenerated func(*Program) // called before a call of the program being made is performed
	touches         map[int32]map[string]bool
	nearSites       map[int32]map[int32]bool
	focusAt         [][]int32 // groups of yield points near such places
)

// calibrate finds them and makes them more likely.
func calibrate() {
	stateful = map[string]bool{}
	touches = map[int32]map[string]bool{}
	nearSites = map[int32]map[int32]bool{}
	simrt.Near()
	calibrating = true
	simrt.RecordTouched(true)
	simrt.Touched()
	used := map[string]bool{}
	for k := int64(0); k < 250; k++ {
		p := generate(profiles[[]string{"C05", "C04", "C03"}[k%3]], 1000+k)
		for _, op := range p.Ops {
			used[op.F] = true
		}
	}
	simrt.RecordTouched(false)
	calibrating = false
	var at []int
	for s := range touches {
		at = append(at, int(s))
	}
	sort.Ints(at)
	for _, s := range at {
		m := touches[int32(s)]
		near := []int32{int32(s)}
		if len(m)*4 > len(used) {
			focusAt = append(focusAt, near)
			continue
		}
		for n := range nearSites[int32(s)] {
			near = append(near, n)
		}
		sort.Slice(near, func(i, j int) bool { return near[i] < near[j] })
		focusAt = append(focusAt, near)
		var l []int
		for i := range ops {
			if m[ops[i].name] {
				stateful[ops[i].name] = true
				l = append(l, i)
			}
		}
		if len(l) > 0 {
			statefulAt = append(statefulAt, l)
		}
	}
	for i := range ops {
		if stateful[ops[i].name] {
			ops[i].weight *= 4
		}
	}
}

func anyStateful(r *rand.Rand) int {
	l := statefulAt[r.Intn(len(statefulAt))]
	return l[r.Intn(len(l))]
}

// generate makes the program of a seed.
func generate(prof *Profile, seed int64) *Program {
	if stateful == nil {
		calibrate()
	}
	resetWorld(simrt.World{Seed: 7, Clock: epoch, Tick: 1000})
	simrt.SetOpBudget(5000000)
	simrt.NoProbs()
	g := &gen{r: rand.New(rand.NewSource(seed)), prof: prof, maxOps: 90}
	g.env.ids = opByName
	g.maxW = maxWeight
	mult := 1
	if g.r.Intn(25) == 0 {
		g.big = true
		g.maxW = 3000
		mult = 4
	}
	g.fav = map[int]int{}
	g.enabled = make([]bool, len(ops))
	pEn := 0.4 + 0.6*g.r.Float64()
	for i := range g.enabled {
		g.enabled[i] = g.r.Float64() < pEn
	}
	g.names = append([]string(nil), namePool...)
	g.r.Shuffle(len(g.names), func(i, j int) { g.names[i], g.names[j] = g.names[j], g.names[i] })
	g.names = g.names[:3+g.r.Intn(6)]
	g.owner = -1
	var shared []int
	if prof.SharedRend > 0 {
		for i := 0; i < 1+g.r.Intn(2); i++ {
			if s, ok := g.call(opByName["NewRenderer"], -1, 0); ok {
				g.rends = append(g.rends, s)
			}
		}
	}
	g.maxOps = 45 * mult
	n := 1 + g.r.Intn(4)
	for i := 0; i < n*2 && len(shared) < n; i++ {
		if s := g.sharedValue(); s >= 0 {
			shared = append(shared, s)
		}
	}
	g.maxOps = 60 * mult
	if g.r.Intn(3) == 0 {
		for _, s := range shared {
			g.finish(s, 0)
		}
	}
	if prof.Unresolved > 0.1 && g.r.Intn(25) == 0 {
		g.bulk = 5 + g.r.Intn(60)
		if g.r.Intn(5) == 0 {
			g.bulk = 200 + g.r.Intn(900)
		}
	}
	nc := prof.MinClients + g.r.Intn(prof.MaxClients-prof.MinClients+1)
	storm := nc > 1 && g.r.Intn(6) == 0
	// dense: little else than that, with as many callers as there may be
	dense := storm && g.r.Intn(3) > 0
	if dense {
		nc = prof.MaxClients
		for _, s := range shared {
			if g.info[s].typ == tStatement {
				g.render(s)
			} else {
				g.finish(s, 0)
			}
		}
	}
	for c := 0; c < nc; c++ {
		g.owner = c
		g.fail = false
		g.maxOps = len(g.p.Ops) + 45*mult
		na := 1 + g.r.Intn(4)
		if dense {
			na = g.r.Intn(5) / 4
		}
		var own []int
		for a := 0; a < na; a++ {
			before := len(g.p.Ops)
			g.action(append(append([]int(nil), shared...), own...))
			// some of its own unfinished values are continued later
			for i := before; i < len(g.p.Ops); i++ {
				if t := g.info[i].typ; t >= 0 && t != tStatement && !math.IsInf(dist[t], 1) && g.r.Intn(6) == 0 {
					own = append(own, i)
				}
			}
		}
		if storm {
			g.storm(dense)
		}
	}
	g.owner = -2
	g.fail = false
	g.maxOps = len(g.p.Ops) + 60*mult
	for _, s := range shared {
		if g.info[s].typ == tStatement {
			g.render(s)
		} else {
			g.finish(s, 0)
		}
	}
	// and some values the callers made
	for k := 0; k < 4; k++ {
		i := g.r.Intn(len(g.info) + 1)
		if i >= len(g.info) || g.info[i].owner < 0 {
			continue
		}
		if t := g.info[i].typ; t == tStatement {
			g.render(i)
		} else if t >= 0 && !math.IsInf(dist[t], 1) {
			g.finish(i, 0)
		}
	}
	g.look(g.r.Intn(4))
	for _, x := range g.info {
		g.p.bad = append(g.p.bad, x.bad)
	}
	return &g.p
}
