package main

import (
	"math/rand"
	"strconv"
	"strings"
	"unicode"
)

// Statements which nearly equal one another: whatever the library remembers of
// one must not be taken for the other.

// similar operations: same parameters and result.
var similarOps map[string][]int

func opShape(o *opInfo) string {
	b := make([]byte, 0, 40)
	b = strconv.AppendInt(b, int64(o.recv), 10)
	for _, t := range o.in {
		b = append(b, ',')
		b = strconv.AppendInt(b, int64(t), 10)
	}
	if o.vari {
		b = append(b, '*')
	}
	b = append(b, '>')
	b = strconv.AppendInt(b, int64(o.out), 10)
	return string(b)
}

// mutateStr makes a text that is easily taken for s.
func mutateStr(r *rand.Rand, s string) string {
	switch r.Intn(14) {
	case 12, 13:
		if t := collide(r, s); t != s {
			return t
		}
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return s + string(rune('a'+r.Intn(26)))
	case 3:
		if u := strings.ToUpper(s); u != s {
			return u
		}
		return strings.ToLower(s)
	case 4:
		if len(s) > 1 {
			return s[:len(s)-1]
		}
	case 5, 6:
		rs := []rune(s)
		if len(rs) > 0 {
			k := r.Intn(len(rs))
			switch {
			case unicode.IsUpper(rs[k]):
				rs[k] = unicode.ToLower(rs[k])
			case unicode.IsLower(rs[k]) && r.Intn(2) == 0:
				rs[k] = unicode.ToUpper(rs[k])
			default:
				rs[k] = rune('a' + r.Intn(26))
			}
			return string(rs)
		}
	case 7:
		return s + "`"
	case 8:
		return strings.Map(func(c rune) rune {
			if c == ' ' {
				return '_'
			}
			if c == '_' {
				return ' '
			}
			return c
		}, s) + map[bool]string{true: "", false: "_"}[strings.ContainsAny(s, " _")]
	case 9:
		if len(s) > 2 {
			k := r.Intn(len(s) - 1)
			return s[:k] + s[k+1:k+2] + s[k:k+1] + s[k+2:]
		}
	case 10:
		return s + strings.Repeat("x", 1+r.Intn(70))
	}
	return s + strconv.Itoa(r.Intn(10))
}

var separators = []string{" ", ",", ":", ".", "|", ", ", "", "/", "-", "_", ";", "\x00", "`", "#", "\n"}

func separates(c rune) bool { return strings.ContainsRune(" ,:.|/-_;\x00`#\n", c) }

// redivide moves what is between two texts when they are joined.
func redivide(r *rand.Rand, p, q string) (string, string, bool) {
	if c := strings.IndexFunc(p, separates); c > 0 && (r.Intn(2) == 0 || !strings.ContainsAny(q, " ,:.|/-_;\x00`#\n")) {
		return p[:c], p[c+1:] + p[c:c+1] + q, true
	}
	if c := strings.IndexFunc(q, separates); c > 0 && c+1 < len(q) {
		return p + q[c:c+1] + q[:c], q[c+1:], true
	}
	return "", "", false
}

// mutateOps changes one of the calls a little; args of later calls may refer to
// earlier ones of the list. It returns the index, or -1.
func mutateOps(r *rand.Rand, l []Op) int {
	for try := 0; try < 12; try++ {
		i := r.Intn(len(l))
		op := &l[i]
		id, ok := opByName[op.F]
		if op.F == opRender || !ok {
			continue
		}
		o := &ops[id]
		if r.Intn(5) == 0 { // another operation of the same kind
			if similarOps == nil {
				similarOps = map[string][]int{}
				for k := range ops {
					s := opShape(&ops[k])
					similarOps[s] = append(similarOps[s], k)
				}
			}
			s := similarOps[opShape(o)]
			if k := s[r.Intn(len(s))]; k != id && len(s) > 1 {
				op.F = ops[k].name
				return i
			}
			continue
		}
		fixed := 0
		if o.recv >= 0 {
			fixed = 1
		}
		n := len(op.A)
		if n == fixed {
			continue
		}
		vari := fixed + len(o.in) - 1
		if o.vari && n > vari && r.Intn(5) == 0 {
			switch r.Intn(3) {
			case 0:
				op.A = op.A[:n-1]
				return i
			case 1:
				op.A = append(op.A, op.A[vari+r.Intn(n-vari)])
				return i
			case 2:
				a, b := vari+r.Intn(n-vari), vari+r.Intn(n-vari)
				if a != b {
					op.A[a], op.A[b] = op.A[b], op.A[a]
					return i
				}
			}
			continue
		}
		k := fixed + r.Intn(n-fixed)
		a := &op.A[k]
		pt := o.in[len(o.in)-1]
		if k-fixed < len(o.in) {
			pt = o.in[k-fixed]
		}
		switch {
		case a.Str != nil:
			if k+1 < n && op.A[k+1].Str != nil && r.Intn(3) == 0 {
				// the same letters, divided differently
				if s := *a.Str; len(s) > 0 {
					*a, op.A[k+1] = strArg(s[:len(s)-1]), strArg(s[len(s)-1:]+*op.A[k+1].Str)
					return i
				}
			}
			if k+1 < n && op.A[k+1].Str != nil && r.Intn(3) == 0 {
				// the same text when joined
				if p, q, ok := redivide(r, *a.Str, *op.A[k+1].Str); ok {
					*a, op.A[k+1] = strArg(p), strArg(q)
					return i
				}
			}
			if o.vari && k >= vari && r.Intn(4) == 0 {
				if k+1 < n && op.A[k+1].Str != nil && r.Intn(3) > 0 {
					sep := separators[r.Intn(len(separators))]
					*a = strArg(*a.Str + sep + *op.A[k+1].Str)
					op.A = append(op.A[:k+1], op.A[k+2:]...)
					return i
				}
				if c := strings.IndexFunc(*a.Str, separates); c > 0 && c+1 < len(*a.Str) {
					p, q := (*a.Str)[:c], (*a.Str)[c+1:]
					op.A = append(op.A[:k+1:k+1], op.A[k:]...)
					op.A[k], op.A[k+1] = strArg(p), strArg(q)
					return i
				}
			}
			if pt == tIface && r.Intn(3) == 0 {
				if v, err := strconv.Atoi(*a.Str); err == nil {
					*a = intArg(v)
					return i
				}
			}
			*a = strArg(mutateStr(r, *a.Str))
		case a.Int != nil:
			switch v := *a.Int; r.Intn(6) {
			case 0:
				*a = intArg(v + 256)
			case 1:
				*a = intArg(v + 65536)
			case 2:
				*a = intArg(-v - 1)
			case 3:
				if pt == tIface {
					*a = strArg(strconv.Itoa(v))
					break
				}
				*a = intArg(v * 10)
			default:
				*a = intArg(v + 1)
			}
		case a.I64 != nil:
			*a = i64Arg(*a.I64 + 1)
		case a.Flt != nil:
			*a = fltArg(*a.Flt + []float64{0.5, 1, 0.0000001, -2}[r.Intn(4)])
		case a.Bool != nil:
			*a = boolArg(!*a.Bool)
		case a.Slot != nil:
			// another value of the same kind
			var c []int
			for j := 0; j < i; j++ {
				if id, ok := opByName[l[j].F]; ok && j != *a.Slot && assignable[pt][ops[id].out] {
					c = append(c, j)
				}
			}
			if len(c) == 0 {
				continue
			}
			*a = slotArg(c[r.Intn(len(c))])
		default:
			continue
		}
		return i
	}
	return -1
}

// near makes earlier use of the process that nearly does what the program does.
func near(r *rand.Rand, p *Program) churnSpec {
	var obs []int
	for i := range p.Ops {
		if p.Ops[i].F == opRender {
			obs = append(obs, i)
		}
	}
	i := r.Intn(len(p.Ops))
	if len(obs) > 0 && r.Intn(5) > 0 {
		i = obs[r.Intn(len(obs))]
	}
	s := churnSpec{Phase: r.Intn(3), Seed: uint64(r.Int63()), Ops: extract(p, i)}
	for n := 1 + r.Intn(2)*r.Intn(3); n > 0; n-- {
		mutateOps(r, s.Ops)
	}
	s.N = int64(len(s.Ops)) * int64(1+r.Intn(2)*r.Intn(3))
	return s
}

// wrap makes a program of one text, in which as much use of the process comes
// between two calls of one kind as makes a counter come round. The second of
// them is made several times in a row, with a text for each, so that the number
// need not be met exactly.
func wrap(r *rand.Rand, p *Program, deep bool) (*Program, churnSpec, bool) {
	// the operations that share some state of the package
	var group map[string]bool
	if len(statefulAt) > 0 && r.Intn(5) > 0 {
		group = map[string]bool{}
		for _, o := range statefulAt[r.Intn(len(statefulAt))] {
			group[ops[o].name] = true
		}
	}
	for try := 0; try < 40; try++ {
		i := r.Intn(len(p.Ops))
		if p.Ops[i].F != opRender {
			continue
		}
		l := extract(p, i)
		if len(l) > 60 {
			continue
		}
		if try >= 30 {
			group = nil
		}
		by := map[string][]int{}
		var many []string
		for k := range l {
			f := l[k].F
			if id, ok := opByName[f]; !ok || ops[id].out == tRenderer {
				continue
			}
			if group != nil {
				if !group[f] {
					continue
				}
				f = "" // one kind
			}
			by[f] = append(by[f], k)
			if len(by[f]) == 2 {
				many = append(many, f)
			}
		}
		if len(many) == 0 {
			continue
		}
		same := by[many[r.Intn(len(many))]]
		q := same[1+r.Intn(len(same)-1)]
		use := same[r.Intn(len(same))]
		for t := 0; t < 6 && !plainOp(&Program{Ops: l}, use); t++ {
			use = same[r.Intn(len(same))]
		}
		// the others must not need it
		concerned := make([]bool, len(l))
		for k := range l {
			concerned[k] = k == q || l[k].F == "NewRenderer"
			for _, a := range l[k].A {
				if a.Slot != nil && concerned[*a.Slot] {
					concerned[k] = true
				}
			}
		}
		n := &Program{}
		idx := make([]int, len(l))
		put := func(k int) {
			op := l[k]
			op.C = -1
			op.A = append([]Arg(nil), op.A...)
			for a := range op.A {
				if s := op.A[a].Slot; s != nil {
					op.A[a] = op.A[a].of(idx[*s])
				}
			}
			idx[k] = len(n.Ops)
			n.Ops = append(n.Ops, op)
		}
		for k := range l {
			if !concerned[k] {
				put(k)
			}
		}
		at := len(n.Ops)
		if r.Intn(2) == 0 { // make it differ from the first
			one := []Op{l[q]}
			one[0].A = append([]Arg(nil), l[q].A...)
			for a := range one[0].A {
				if s := one[0].A[a].Str; s != nil {
					one[0].A[a] = strArg(mutateStr(r, *s))
				}
			}
			l[q].A = one[0].A
		}
		const row = 24
		var cand [row]int
		for t := range cand {
			put(q)
			cand[t] = idx[q]
		}
		for t := range cand {
			for k := range l {
				if concerned[k] && k != q {
					put(k)
				}
				if k == q {
					idx[q] = cand[t]
				}
			}
		}
		s := churnSpec{Phase: 4, At: at, Seed: uint64(r.Int63()), Ops: extract(&Program{Ops: l}, use), Last: true}
		size := int64(1 << 16)
		switch x := r.Intn(10); {
		case x < 2:
			size = 1 << 8
		case x < 4:
			size = 1 << uint(6+r.Intn(10))
		case x < 5:
			size = []int64{50, 100, 200, 500, 1000, 2000, 5000, 10000}[r.Intn(8)]
		}
		if deep && r.Intn(40) == 0 {
			size = 1 << 20
		}
		s.N = size - row/2 - int64(r.Intn(row/2))
		return n, s, true
	}
	return nil, churnSpec{}, false
}

// echo repeats the calls of an earlier text with a small change.
func (g *gen) echo() {
	var c []int
	for i := range g.info {
		if g.visible(i) && (g.p.Ops[i].F == opRender || g.info[i].typ == tStatement) && g.info[i].weight < g.maxW/2 {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return
	}
	i := c[g.r.Intn(len(c))]
	d := g.p.deps(i)
	if len(d) > 40 {
		return
	}
	for _, k := range d {
		if !g.visible(k) {
			return
		}
	}
	l := extract(&g.p, i)
	m := mutateOps(g.r, l)
	if m < 0 {
		return
	}
	part := g.r.Intn(2) == 0 // what is not concerned is used again
	idx := make([]int, len(l))
	touched := make([]bool, len(l))
	last := -1
	for k := range l {
		touched[k] = k == m
		for _, a := range l[k].A {
			if a.Slot != nil && touched[*a.Slot] {
				touched[k] = true
			}
		}
		if !touched[k] && (part || l[k].F == "NewRenderer") {
			idx[k] = d[k]
			continue
		}
		args := append([]Arg(nil), l[k].A...)
		for a := range args {
			if args[a].Slot != nil {
				args[a] = args[a].of(idx[*args[a].Slot])
			}
		}
		typ := g.info[d[k]].typ
		n, ok := g.add(l[k].F, args, typ)
		if !ok {
			return
		}
		idx[k] = n
		last = n
	}
	if last >= 0 && g.info[last].typ == tStatement {
		g.render(last)
	}
}
