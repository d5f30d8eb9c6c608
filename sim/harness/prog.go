package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
	"unsafe"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
	"verifsim/simrt"
)

// Arg is an argument: the value of an earlier operation, or a literal.
type Arg struct {
	Slot *int     `json:"s,omitempty"`
	Str  *string  `json:"str,omitempty"`
	Int  *int     `json:"i,omitempty"`
	I64  *int64   `json:"i64,omitempty"`
	Flt  *float64 `json:"f,omitempty"`
	Bool *bool    `json:"b,omitempty"`
	Loc  *string  `json:"loc,omitempty"`
	Err  *string  `json:"err,omitempty"`
	Nil  bool     `json:"nil,omitempty"`
	Nth  *int     `json:"nth,omitempty"` // the n-th name the library made up in the text in Slot
}

type argJSON Arg

// MarshalJSON keeps texts that are not valid UTF-8 and numbers that are none.
func (a Arg) MarshalJSON() ([]byte, error) {
	j := struct {
		argJSON
		Hex *string `json:"hex,omitempty"`
		Odd *string `json:"odd,omitempty"`
	}{argJSON: argJSON(a)}
	if a.Flt != nil && (math.IsNaN(*a.Flt) || math.IsInf(*a.Flt, 0)) {
		f := strconv.FormatFloat(*a.Flt, 'g', -1, 64)
		j.Flt, j.Odd = nil, &f
	}
	if a.Str != nil && !utf8.ValidString(*a.Str) {
		h := hex.EncodeToString([]byte(*a.Str))
		j.Str, j.Hex = nil, &h
	}
	return json.Marshal(j)
}

// UnmarshalJSON is the opposite of MarshalJSON.
func (a *Arg) UnmarshalJSON(b []byte) error {
	j := struct {
		argJSON
		Hex *string `json:"hex,omitempty"`
		Odd *string `json:"odd,omitempty"`
	}{}
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*a = Arg(j.argJSON)
	if j.Odd != nil {
		f, err := strconv.ParseFloat(*j.Odd, 64)
		if err != nil {
			return err
		}
		a.Flt = &f
	}
	if j.Hex != nil {
		raw, err := hex.DecodeString(*j.Hex)
		if err != nil {
			return err
		}
		s := string(raw)
		a.Str = &s
	}
	return nil
}

// Op is one call of the public API; its result is the value of its index.
type Op struct {
	F string `json:"f"`
	A []Arg  `json:"a,omitempty"`
	C int    `json:"c"`           // -1 before the clients, -2 after them, else the client
	G int    `json:"g,omitempty"` // calls with the same G>0 pass one and the same argument slice
}

// Program is a set of DSL calls forming a graph, distributed over callers.
type Program struct {
	Ops []Op   `json:"ops"`
	bad []bool // which failed when they were generated
}

func slotArg(i int) Arg    { return Arg{Slot: &i} }
func strArg(s string) Arg  { return Arg{Str: &s} }
func intArg(i int) Arg     { return Arg{Int: &i} }
func i64Arg(i int64) Arg   { return Arg{I64: &i} }
func fltArg(f float64) Arg { return Arg{Flt: &f} }
func boolArg(b bool) Arg   { return Arg{Bool: &b} }

// of is the argument with the value of another operation.
func (a Arg) of(i int) Arg { a.Slot = &i; return a }

// adopt returns the n-th name the library made up in a text. A placeholder for
// such a name becomes one for the user's.
func adopt(text string, slot, n int) string {
	var l []string
	seen := map[string]bool{}
	for _, t := range tokens(text) {
		if !seen[t] && generated(t, poolWords) {
			seen[t] = true
			l = append(l, t)
		}
	}
	if len(l) == 0 {
		return "own" + strconv.Itoa(n)
	}
	t := l[n%len(l)]
	if strings.HasPrefix(t, placeholder) && !strings.Contains(t, "A") {
		t += "A" + strconv.Itoa(slot)
	}
	return t
}

const placeholder = "simPh"

var poolWords = func() map[string]bool {
	m := map[string]bool{}
	for _, l := range [][]string{namePool, labelPool, oddPool} {
		for _, s := range l {
			for _, t := range tokens(s) {
				m[t] = true
			}
		}
	}
	return m
}()

func (a Arg) value(slots []slot) (interface{}, bool) {
	switch {
	case a.Slot != nil:
		s := &slots[*a.Slot]
		if a.Nth != nil && s.ok {
			if t, ok := s.v.(string); ok {
				return ownString(adopt(t, *a.Slot, *a.Nth)), true
			}
		}
		return s.v, s.ok
	case a.Str != nil:
		return ownString(*a.Str), true
	case a.Int != nil:
		return *a.Int, true
	case a.I64 != nil:
		return *a.I64, true
	case a.Flt != nil:
		return *a.Flt, true
	case a.Bool != nil:
		return *a.Bool, true
	case a.Loc != nil:
		if *a.Loc == "UTC" {
			return time.UTC, true
		}
		return time.FixedZone(*a.Loc, 3600), true
	case a.Err != nil:
		return errors.New(*a.Err), true
	}
	return nil, true
}

// ownString is s as a caller makes it at run time: an object of its own, which
// dies when nobody uses it any more.
func ownString(s string) string {
	if s == "" {
		return s
	}
	b := make([]byte, len(s), len(s)+17) // not one of the runtime's tiny objects
	copy(b, s)
	return unsafe.String(&b[0], len(b))
}

type slot struct {
	v  interface{}
	ok bool
}

// Outcome is what the caller of an operation can see.
type Outcome struct {
	Kind string `json:"kind"` // ok err panic skip budget deadlock killed
	Text string `json:"text,omitempty"`
}

func (o Outcome) String() string { return o.Kind + " " + o.Text }

var hexAddr = regexp.MustCompile(`0x[0-9a-fA-F]{4,}`)

// perform performs operation i. It never panics.
func perform(p *Program, i int, slots []slot, env *execEnv) (out Outcome) {
	op := &p.Ops[i]
	env.steps = 0
	args := make([]interface{}, len(op.A))
	for k, a := range op.A {
		v, ok := a.value(slots)
		if !ok {
			return Outcome{Kind: "skip"}
		}
		args[k] = v
	}
	simrt.OpBegin()
	defer func() {
		env.steps = simrt.OpEnd()
		if r := recover(); r != nil {
			switch r := r.(type) {
			case simrt.KillSignal:
				out = Outcome{Kind: "killed"}
			case simrt.BudgetSignal:
				out = Outcome{Kind: "budget"}
			case simrt.DeadlockSignal:
				out = Outcome{Kind: "deadlock"}
			case error:
				out = Outcome{Kind: "panic", Text: hexAddr.ReplaceAllString(r.Error(), "0x?")}
			default:
				out = Outcome{Kind: "panic", Text: hexAddr.ReplaceAllString(fmt.Sprint(r), "0x?")}
			}
		}
		if simrt.Aborted() && out.Kind != "killed" {
			out = Outcome{Kind: "killed"} // something (fmt) recovered on the way
			slots[i] = slot{}
			env.raw = ""
		}
	}()
	if op.F == opRender {
		text, err := args[0].(*cypher.CypherRenderer).Render(toStatement(args[1]))
		if err != nil {
			return Outcome{Kind: "err", Text: errText(err)}
		}
		env.raw = text
		slots[i] = slot{text, true}
		return Outcome{Kind: "ok", Text: strings.Clone(text)}
	}
	so := &cypher.SimOps[env.opID(op.F)]
	var vs interface{}
	if op.G > 0 && env.groups != nil {
		vs = env.groups.slice(p, i, so, args)
	}
	refilled := false
	if env.refill && vs == nil && so.Slice != nil {
		if v := so.Slice(args, spareCap); reflect.ValueOf(v).Len() > 0 {
			vs, refilled = v, true
		}
	}
	res := so.Call(args, vs)
	if refilled {
		refill(vs)
	}
	if len(res) == 2 && res[1] != nil {
		slots[i] = slot{res[0], true}
		if res[0] == nil {
			slots[i].ok = false
		}
		return Outcome{Kind: "err", Text: errText(res[1].(error))}
	}
	slots[i] = slot{res[0], true}
	switch v := res[0].(type) {
	case string:
		env.raw = v
		return Outcome{Kind: "ok", Text: strings.Clone(v)}
	case error:
		return Outcome{Kind: "ok", Text: "error: " + errText(v)}
	case bool, int, int64, float64:
		return Outcome{Kind: "ok", Text: fmt.Sprint(v)}
	case nil:
		return Outcome{Kind: "ok", Text: "nil"}
	case []string:
		return Outcome{Kind: "ok", Text: fmt.Sprintf("%q", v)}
	}
	return Outcome{Kind: "ok"}
}

func toStatement(x interface{}) (s cypher.Statement) {
	if x != nil {
		s = x.(cypher.Statement)
	}
	return
}

func errText(err error) string {
	return hexAddr.ReplaceAllString(err.Error(), "0x?")
}

// execEnv is private to one caller.
type execEnv struct {
	raw   string
	steps int64
	ids   map[string]int // read only

	groups *argGroups
	refill bool // the caller uses its argument slices for other things after a call
}

// refill is what a caller may do with the slice it passed, once the call is
// back: it belongs to the caller.
func refill(vs interface{}) {
	v := reflect.ValueOf(vs)
	v = v.Slice3(0, v.Cap(), v.Cap())
	for j := 0; j < v.Len(); j++ {
		v.Index(j).SetZero()
	}
	simrt.St.Refills++
}

// argGroups are the argument slices a user passes to more than one call. They
// have spare capacity, as slices made with append do.
type argGroups struct {
	ok  [maxGroups]bool
	val [maxGroups]interface{}
	was [maxGroups]reflect.Value // the elements as they were passed
}

const maxGroups = 32
const spareCap = 3

// newGroups decides which groups may share: all calls by one caller, or the
// first of them before the callers start.
func newGroups(p *Program) *argGroups {
	var g argGroups
	var first [maxGroups]int
	var same [maxGroups]bool
	var tails [maxGroups]string
	bad := [maxGroups]bool{}
	for i := range p.Ops {
		k := p.Ops[i].G
		if k <= 0 || k >= maxGroups {
			continue
		}
		if t := variTail(&p.Ops[i]); !g.ok[k] {
			tails[k] = t
		} else if t != tails[k] {
			bad[k] = true
		}
		if !g.ok[k] {
			g.ok[k], first[k], same[k] = true, p.Ops[i].C, true
		} else if p.Ops[i].C != first[k] {
			same[k] = false
		}
	}
	for k := range g.ok {
		if bad[k] {
			g.ok[k] = false
		}
		if g.ok[k] && first[k] != -1 && !same[k] {
			g.ok[k] = false
		}
	}
	return &g
}

// variTail describes the variadic part of a call: type and values.
func variTail(op *Op) string {
	id, ok := opByName[op.F]
	if !ok || !ops[id].vari {
		return "?"
	}
	o := &ops[id]
	fixed := len(o.in) - 1
	if o.recv >= 0 {
		fixed++
	}
	b, _ := json.Marshal(op.A[fixed:])
	return fmt.Sprint(o.in[len(o.in)-1], string(b))
}

//go:norace
func (g *argGroups) get(k int) (interface{}, bool) { return g.val[k], g.ok[k] }

//go:norace
func (g *argGroups) set(k int, v interface{}) {
	rv := reflect.ValueOf(v)
	g.was[k] = reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
	reflect.Copy(g.was[k], rv)
	g.val[k] = v
}

func (g *argGroups) slice(p *Program, i int, so *cypher.SimOp, args []interface{}) interface{} {
	k := p.Ops[i].G
	if k >= maxGroups || so.Slice == nil {
		return nil
	}
	v, ok := g.get(k)
	if !ok {
		return nil
	}
	if v == nil {
		v = so.Slice(args, spareCap)
		g.set(k, v)
	}
	return v
}

// sameWords tells whether two elements are the same word by word, which says
// so for numbers that do not equal themselves and for functions as well.
func sameWords(a, b reflect.Value) bool {
	n := a.Type().Size()
	bytes := func(v reflect.Value) []byte {
		return unsafe.Slice((*byte)(v.Addr().UnsafePointer()), n)
	}
	return n == 0 || string(bytes(a)) == string(bytes(b))
}

// check tells whether the library wrote into a shared argument slice.
func (g *argGroups) check(p *Program, slots []slot) (int, bool) {
	seen := [maxGroups]bool{}
	for i := range p.Ops {
		k := p.Ops[i].G
		if k <= 0 || k >= maxGroups || seen[k] || g.val[k] == nil {
			continue
		}
		seen[k] = true
		op := &p.Ops[i]
		id, ok := opByName[op.F]
		if !ok {
			continue
		}
		simrt.St.ArgSlices++
		fixed := len(ops[id].in) - 1
		if ops[id].recv >= 0 {
			fixed++
		}
		rv := reflect.ValueOf(g.val[k])
		full := rv.Slice3(0, rv.Cap(), rv.Cap())
		for j := 0; j < full.Len(); j++ {
			e := full.Index(j)
			if j >= rv.Len() {
				if !e.IsZero() {
					return i, true
				}
				continue
			}
			want, ok := op.A[fixed+j].value(slots)
			if !ok {
				continue // forgotten by its owner
			}
			if !sameWords(e, g.was[k].Index(j)) && !reflect.DeepEqual(e.Interface(), want) {
				return i, true
			}
		}
	}
	return -1, false
}

func (e *execEnv) opID(name string) int {
	id, ok := e.ids[name]
	if !ok {
		panic("no operation " + name)
	}
	return id
}

// observed tells whether an operation's outcome is text the user sees.
func observed(op *Op) bool { return true }

// callers is how many callers there are.
func (p *Program) callers() int {
	n := 0
	for i := range p.Ops {
		if p.Ops[i].C >= n {
			n = p.Ops[i].C + 1
		}
	}
	return n
}

// deps returns the operations i depends on, i included, in order.
func (p *Program) deps(i int) []int {
	need := make([]bool, i+1)
	need[i] = true
	for k := i; k >= 0; k-- {
		if !need[k] {
			continue
		}
		for _, a := range p.Ops[k].A {
			if a.Slot != nil {
				need[*a.Slot] = true
			}
		}
	}
	var l []int
	for k, n := range need {
		if n {
			l = append(l, k)
		}
	}
	return l
}

// format writes the program as readable pseudo code.
func (p *Program) format() []string {
	var out []string
	for i, op := range p.Ops {
		var as []string
		for _, a := range op.A {
			switch {
			case a.Slot != nil && a.Nth != nil:
				as = append(as, fmt.Sprintf("name %d in v%d", *a.Nth, *a.Slot))
			case a.Slot != nil:
				as = append(as, fmt.Sprintf("v%d", *a.Slot))
			case a.Str != nil:
				as = append(as, fmt.Sprintf("%q", *a.Str))
			case a.Int != nil:
				as = append(as, fmt.Sprint(*a.Int))
			case a.I64 != nil:
				as = append(as, fmt.Sprintf("int64(%d)", *a.I64))
			case a.Flt != nil:
				as = append(as, fmt.Sprint(*a.Flt))
			case a.Bool != nil:
				as = append(as, fmt.Sprint(*a.Bool))
			case a.Loc != nil:
				as = append(as, *a.Loc)
			case a.Err != nil:
				as = append(as, fmt.Sprintf("errors.New(%q)", *a.Err))
			default:
				as = append(as, "nil")
			}
		}
		who := "before"
		if op.C == -2 {
			who = "after"
		} else if op.C >= 0 {
			who = fmt.Sprintf("caller %d", op.C)
		}
		out = append(out, fmt.Sprintf("[%s] v%d = %s(%s)", who, i, op.F, strings.Join(as, ", ")))
	}
	return out
}
