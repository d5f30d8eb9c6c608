package main

import (
	"math"
	"strings"

	cypher "github.com/manhcuongbk56/cypher-go-dsl"
)

// The static view of the public API: which operations produce which types, and
// how far each type is from a finished statement.

type opInfo struct {
	id     int
	name   string
	recv   int
	in     []int
	vari   bool
	out    int
	hasErr bool
	weight float64
	cost   float64
}

var (
	ops        []opInfo
	opByName   = map[string]int{}
	typeID     = map[string]int{}
	assignable [][]bool  // [to][from]
	producers  [][]int   // type -> ops whose result is assignable to it
	typeCost   []float64 // cheapest way to make a value
	dist       []float64 // steps to a Statement
	consumers  [][]int   // type -> ops that take it (receiver or parameter)
	tStatement = -1
	tIface     = -1
	tString    = -1
	tRenderer  = -1
)

// Special operations of the harness.
const (
	opRender = "!render"
)

var basicKinds = map[string]bool{"string": true, "int": true, "int64": true, "float64": true, "bool": true, "interface{}": true, "any": true, "*time.Location": true, "rune": true, "int32": true, "error": true, "uint": true}

func isLiteralType(t int) bool { return basicKinds[cypher.SimTypes[t].Name] }

func loadAPI() {
	nt := len(cypher.SimTypes)
	assignable = make([][]bool, nt)
	for i, t := range cypher.SimTypes {
		typeID[t.Name] = i
		assignable[i] = make([]bool, nt)
		for _, f := range t.From {
			assignable[i][f] = true
		}
		switch t.Name {
		case "Statement":
			tStatement = i
		case "interface{}", "any":
			tIface = i
		case "string":
			tString = i
		case "*CypherRenderer":
			tRenderer = i
		}
	}
	if tStatement < 0 || tRenderer < 0 {
		fatalf("the API has no Statement or no renderer")
	}
	for i, o := range cypher.SimOps {
		w := 1.0
		n := o.Name
		if k := strings.LastIndex(n, "."); k >= 0 {
			n = n[k+1:]
		}
		switch {
		case strings.HasPrefix(o.Name, "var:"), strings.HasPrefix(o.Name, "const:"):
			w = 0.3
		case strings.HasSuffix(n, "Error") && len(o.In) == 1 && cypher.SimTypes[o.In[0]].Name == "error":
			w = 0.05
		case strings.Contains(n, "Create") && n != "Create" && n != "OnCreate" && o.Recv < 0:
			w = 0.15
		case strings.HasPrefix(n, "Is") && n != "IsPatternElement":
			w = 0.4
		case strings.HasPrefix(n, "Get") || n == "IsPatternElement" || n == "AsString":
			w = 0.1
		case n == "Render":
			w = 0.05
		}
		ops = append(ops, opInfo{id: i, name: o.Name, recv: o.Recv, in: o.In, vari: o.Variadic, out: o.Out[0], hasErr: len(o.Out) == 2, weight: w, cost: math.Inf(1)})
		opByName[o.Name] = i
	}
	typeCost = make([]float64, nt)
	dist = make([]float64, nt)
	for i := range typeCost {
		typeCost[i] = math.Inf(1)
		dist[i] = math.Inf(1)
		if isLiteralType(i) {
			typeCost[i] = 0
		}
	}
	for changed := true; changed; {
		changed = false
		for i := range ops {
			o := &ops[i]
			c := 1.0
			if o.recv >= 0 {
				c = math.Max(c, 1+typeCost[o.recv])
			}
			for k, p := range o.in {
				if o.vari && k == len(o.in)-1 {
					continue
				}
				c = math.Max(c, 1+typeCost[p])
			}
			if c < o.cost {
				o.cost = c
				changed = true
			}
			for t := range typeCost {
				if assignable[t][o.out] && !isLiteralType(t) && o.cost < typeCost[t] {
					typeCost[t] = o.cost
					changed = true
				}
			}
		}
	}
	producers = make([][]int, nt)
	consumers = make([][]int, nt)
	for i := range ops {
		o := &ops[i]
		if math.IsInf(o.cost, 1) {
			continue
		}
		for t := range producers {
			if assignable[t][o.out] && !isLiteralType(t) {
				producers[t] = append(producers[t], i)
			}
		}
		seen := map[int]bool{}
		add := func(t int) {
			if !seen[t] {
				seen[t] = true
				consumers[t] = append(consumers[t], i)
			}
		}
		if o.recv >= 0 {
			add(o.recv)
		}
		for _, p := range o.in {
			if isLiteralType(p) {
				continue
			}
			for t := 0; t < nt; t++ {
				if assignable[p][t] && !isLiteralType(t) {
					add(t)
				}
			}
		}
	}
	dist[tStatement] = 0
	for changed := true; changed; {
		changed = false
		for t := range dist {
			for _, i := range consumers[t] {
				if d := dist[ops[i].out] + 1; d < dist[t] {
					dist[t] = d
					changed = true
				}
			}
		}
	}
}
