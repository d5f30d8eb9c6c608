// simgen copies the packages of a Go module into a scratch module, instrumented
// for the simulator: a yield point before every statement, a yield point
// between the load and the store of every read-modify-write, and the
// simulator's seams in place of clocks, randomness, addresses, locks, pools and
// map iteration. It also writes a table of the public API (simapi) that the
// harness draws its programs from.
//
// usage: simgen -src DIR -dst DIR [-api] [-sites FILE] [-base N]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type listed struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Module     *struct{ Path string }
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Hot  bool   `json:"hot,omitempty"`
}

var (
	srcDir    = flag.String("src", "", "module to instrument")
	dstDir    = flag.String("dst", "", "output module")
	wantAPI   = flag.Bool("api", false, "write the API table into the root package")
	sitesFile = flag.String("sites", "", "site table to write")
	plain     = flag.Bool("plain", false, "copy without instrumenting")
	base      = flag.Int("base", 1, "first site id")
	sites     []site
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "simgen: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Module", "./...")
	cmd.Dir = *srcDir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list in %s: %v", *srcDir, err)
	}
	exports := map[string]string{}
	var pkgs []listed
	dec := json.NewDecoder(bytes.NewReader(out))
	abs, _ := filepath.Abs(*srcDir)
	if r, err := filepath.EvalSymlinks(abs); err == nil {
		abs = r
	}
	modPath := ""
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		exports[l.ImportPath] = l.Export
		d := l.Dir
		if r, err := filepath.EvalSymlinks(d); err == nil {
			d = r
		}
		if l.Module != nil && (d == abs || strings.HasPrefix(d, abs+"/")) && len(l.GoFiles) > 0 && l.Name != "main" {
			pkgs = append(pkgs, l)
			modPath = l.Module.Path
		}
	}
	if len(pkgs) == 0 {
		fatal("no packages in %s", *srcDir)
	}
	os.MkdirAll(*dstDir, 0o755)
	for _, p := range pkgs {
		d := p.Dir
		if r, err := filepath.EvalSymlinks(d); err == nil {
			d = r
		}
		rel, _ := filepath.Rel(abs, d)
		instrument(p, filepath.Join(*dstDir, rel), exports, *wantAPI && rel == ".")
	}
	_ = modPath
	if *sitesFile != "" {
		b, _ := json.Marshal(sites)
		if err := os.WriteFile(*sitesFile, b, 0o644); err != nil {
			fatal("%v", err)
		}
	}
	fmt.Printf("%d sites, %d packages\n", len(sites), len(pkgs))
}

type inst struct {
	mutable map[types.Object]bool
	fset    *token.FileSet
	info    *types.Info
	pkg     *types.Package
	files   []*ast.File
	names   []string
	fn      string
	fname   string
	tmp     int
	used    bool // simrt used in this file
	repl    map[ast.Expr]ast.Expr
	recvs   map[ast.Expr]string // channel receives and how to replace them

	exempt map[ast.Expr]bool // addresses that must stay real
}

func instrument(l listed, dst string, exports map[string]string, api bool) {
	in := &inst{fset: token.NewFileSet(), repl: map[ast.Expr]ast.Expr{}, exempt: map[ast.Expr]bool{}}
	for _, f := range l.GoFiles {
		file, err := parser.ParseFile(in.fset, filepath.Join(l.Dir, f), nil, parser.SkipObjectResolution)
		if err != nil {
			fatal("%v", err)
		}
		in.files = append(in.files, file)
		in.names = append(in.names, f)
	}
	imp := importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	in.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Scopes: map[ast.Node]*types.Scope{},
	}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(l.ImportPath, in.fset, in.files, in.info)
	if err != nil {
		fatal("type check %s: %v", l.ImportPath, err)
	}
	in.pkg = pkg
	if api {
		in.mutable = mutableGlobals(pkg, in.info, in.files)
	}
	if err := os.MkdirAll(dst, 0o755); err != nil {
		fatal("%v", err)
	}

	// Where each package-level initialiser lives.
	fileOf := func(p token.Pos) int {
		for i, f := range in.files {
			if f.FileStart <= p && p <= f.FileEnd {
				return i
			}
		}
		return 0
	}
	type initRec struct {
		file int
		lhs  []string
		rhs  ast.Expr
	}
	var inits []initRec
	initialised := map[types.Object]bool{}
	for _, iz := range in.info.InitOrder {
		var names []string
		blank := true
		for _, v := range iz.Lhs {
			names = append(names, v.Name())
			initialised[v] = true
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		inits = append(inits, initRec{fileOf(iz.Lhs[0].Pos()), names, iz.Rhs})
	}
	// Zero-valued variables.
	type zeroRec struct {
		file int
		name string
		typ  ast.Expr
	}
	var zeros []zeroRec
	var initFuncs []string
	initStubs := make([]int, len(in.files))
	for fi, f := range in.files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for _, n := range vs.Names {
						if n.Name == "_" || vs.Type == nil {
							continue
						}
						if o := in.info.Defs[n]; o != nil && !initialised[o] {
							zeros = append(zeros, zeroRec{fi, n.Name, vs.Type})
						}
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					name := fmt.Sprintf("simInitFn%d_%d", fi, initStubs[fi])
					initStubs[fi]++
					d.Name = ast.NewIdent(name)
					initFuncs = append(initFuncs, name)
				}
			}
		}
	}

	// Generated API table first: it needs the untouched syntax only.
	if api {
		writeAPI(in, dst, l.Name)
	}

	if *plain {
		for _, f := range in.names {
			b, err := os.ReadFile(filepath.Join(l.Dir, f))
			if err == nil {
				err = os.WriteFile(filepath.Join(dst, f), b, 0o644)
			}
			if err != nil {
				fatal("%v", err)
			}
		}
		stub := "package " + l.Name + "\n\n// SimReset does nothing: the process is new.\nfunc SimReset() {}\n"
		if err := os.WriteFile(filepath.Join(dst, "zz_sim_reset.go"), []byte(stub), 0o644); err != nil {
			fatal("%v", err)
		}
		return
	}
	for fi, f := range in.files {
		in.fname = in.names[fi]
		in.used = false
		// 1. substitute seams in all expressions
		for _, d := range f.Decls {
			in.seams(d)
		}
		// 2. statements
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				in.fn = d.Name.Name
				if d.Recv != nil && len(d.Recv.List) > 0 {
					in.fn = typeName(d.Recv.List[0].Type) + "." + in.fn
				}
				if d.Body != nil {
					in.block(d.Body)
				}
			case *ast.GenDecl:
				in.fn = "init"
				in.lits(d)
			}
		}
		var buf bytes.Buffer
		f.Comments = nil
		if in.used {
			addImport(f, "verifsim/simrt", "simrt")
		}
		dropUnusedImports(in, f)
		if err := format.Node(&buf, in.fset, f); err != nil {
			fatal("print %s: %v", in.fname, err)
		}
		// initialisers of this file
		for i := 0; i < initStubs[fi]; i++ {
			fmt.Fprintf(&buf, "\nfunc init() { simInitFn%d_%d() }\n", fi, i)
		}
		for i, r := range inits {
			if r.file != fi {
				continue
			}
			fmt.Fprintf(&buf, "\nfunc simVarInit%d() { %s = ", i, strings.Join(r.lhs, ", "))
			if x, ok := in.repl[r.rhs]; ok {
				r.rhs = x
			}
			if err := format.Node(&buf, in.fset, r.rhs); err != nil {
				fatal("print: %v", err)
			}
			buf.WriteString(" }\n")
		}
		for i, z := range zeros {
			if z.file != fi {
				continue
			}
			fmt.Fprintf(&buf, "\nfunc simVarZero%d() { %s = *new(", i, z.name)
			if x, ok := in.repl[z.typ]; ok {
				z.typ = x
			}
			if err := format.Node(&buf, in.fset, z.typ); err != nil {
				fatal("print: %v", err)
			}
			buf.WriteString(") }\n")
		}
		if err := os.WriteFile(filepath.Join(dst, in.fname), buf.Bytes(), 0o644); err != nil {
			fatal("%v", err)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\n// SimReset puts every package-level variable back to its initial value.\nfunc SimReset() {\n", l.Name)
	for i := range zeros {
		fmt.Fprintf(&b, "\tsimVarZero%d()\n", i)
	}
	for i := range inits {
		fmt.Fprintf(&b, "\tsimVarInit%d()\n", i)
	}
	for _, n := range initFuncs {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	if err := os.WriteFile(filepath.Join(dst, "zz_sim_reset.go"), b.Bytes(), 0o644); err != nil {
		fatal("%v", err)
	}
}

func typeName(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.StarExpr:
		return typeName(e.X)
	case *ast.Ident:
		return e.Name
	case *ast.IndexExpr:
		return typeName(e.X)
	case *ast.IndexListExpr:
		return typeName(e.X)
	}
	return "?"
}

func addImport(f *ast.File, path, name string) {
	spec := &ast.ImportSpec{Name: ast.NewIdent(name), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(path)}}
	f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
}

// dropUnusedImports blanks the imports the substitutions left unused.
func dropUnusedImports(in *inst, f *ast.File) {
	usedNames := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedNames[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			is := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(is.Path.Value)
			name := ""
			if is.Name != nil {
				name = is.Name.Name
			} else {
				for _, imp := range in.pkg.Imports() {
					if imp.Path() == p {
						name = imp.Name()
					}
				}
			}
			if name == "" || name == "_" || name == "." {
				continue
			}
			if !usedNames[name] {
				is.Name = ast.NewIdent("_")
			}
		}
	}
}

// --- expression substitution ---

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

// rewrite applies fn to every expression below n, children first.
func rewrite(n ast.Node, fn func(ast.Expr) ast.Expr) { rewriteValue(reflect.ValueOf(n), fn) }

func rewriteValue(v reflect.Value, fn func(ast.Expr) ast.Expr) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		rewriteValue(v.Elem(), fn)
		if v.CanSet() && v.Type() == exprType {
			if e, ok := v.Interface().(ast.Expr); ok && e != nil {
				v.Set(reflect.ValueOf(fn(e)))
			}
		}
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup, *ast.ImportSpec:
			return
		}
		rewriteValue(v.Elem(), fn)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			rewriteValue(v.Field(i), fn)
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rewriteValue(v.Index(i), fn)
		}
	}
}

func (in *inst) sim(name string) ast.Expr {
	in.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}

func (in *inst) simCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: in.sim(name), Args: args}
}

func (in *inst) qualified(e ast.Expr) (pkg, name string) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	return pn.Imported().Path(), s.Sel.Name
}

var subst = map[string]string{
	"time.Now": "TimeNow", "time.Since": "TimeSince", "time.Until": "TimeUntil", "time.Sleep": "TimeSleep",
	"runtime.SetFinalizer": "SetFinalizer", "os.Getpid": "Getpid", "os.Hostname": "Hostname",
	"os.ReadFile": "ReadFile", "io/ioutil.ReadFile": "ReadFile",
	"sync.Mutex": "Mutex", "sync.RWMutex": "RWMutex", "sync.Once": "Once", "sync.Pool": "Pool",
	"fmt.Sprint": "Sprint", "fmt.Sprintf": "Sprintf", "fmt.Sprintln": "Sprintln",
	"time.After": "TimeAfter", "time.AfterFunc": "AfterFunc", "time.NewTimer": "NewTimer", "time.Timer": "Timer",
	"time.NewTicker": "NewTicker", "time.Ticker": "Ticker", "time.Tick": "TimeTick", "runtime.Gosched": "Gosched",
	"sync.NewCond": "NewCond", "sync.Cond": "Cond",
	"hash/fnv.New32": "Fnv32", "hash/fnv.New32a": "Fnv32a", "hash/crc32.ChecksumIEEE": "Crc32", "hash/crc32.Checksum": "Crc32Table",
	"hash/crc32.NewIEEE": "Crc32IEEE", "hash/adler32.Checksum": "Adler32", "hash/adler32.New": "Adler32New",
	"hash/maphash.Hash": "MapHash", "hash/maphash.Seed": "MapHashSeed", "hash/maphash.MakeSeed": "MapHashMakeSeed",
	"hash/maphash.String": "MapHashString", "hash/maphash.Bytes": "MapHashBytes",
	"sync.WaitGroup": "WaitGroup", "sync.Map": "Map", "sync.OnceFunc": "OnceFunc", "sync.OnceValue": "OnceValue", "sync.OnceValues": "OnceValues",
}

func (in *inst) seams(n ast.Node) {
	in.recvs = map[ast.Expr]string{}
	in.exempts(n)
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CommClause:
			if x.Comm == nil {
				return true
			}
			ast.Inspect(x.Comm, func(y ast.Node) bool {
				if u, ok := y.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					if _, done := in.recvs[u]; !done {
						in.recvs[u] = ""
					}
				}
				return true
			})
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := x.Rhs[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					if _, done := in.recvs[u]; !done {
						in.recvs[u] = "Recv2"
					}
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := x.Values[0].(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					in.recvs[u] = "Recv2"
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				if _, done := in.recvs[x]; !done {
					in.recvs[x] = "Recv"
				}
			}
		}
		return true
	})
	rewrite(n, func(e ast.Expr) ast.Expr {
		r := in.seam(e)
		if r != e {
			in.repl[e] = r
		}
		return r
	})
}

// headerData: the Data field of a reflect.StringHeader or SliceHeader.
func (in *inst) headerData(s *ast.SelectorExpr) bool {
	if s.Sel.Name != "Data" {
		return false
	}
	sel := in.info.Selections[s]
	if sel == nil {
		return false
	}
	return isHeader(sel.Recv())
}

func isHeader(t types.Type) bool {
	if t == nil {
		return false
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && (n.Obj().Name() == "StringHeader" || n.Obj().Name() == "SliceHeader")
}

// memoryWord: a value holding integers read through a converted unsafe.Pointer,
// such as the words of a string, which may be addresses.
func (in *inst) memoryWord(e ast.Expr) bool {
	var x ast.Expr
	switch y := e.(type) {
	case *ast.StarExpr:
		x = y.X
	case *ast.SelectorExpr:
		if in.info.Selections[y] == nil {
			return false
		}
		x = y.X
	case *ast.IndexExpr:
		x = y.X
	default:
		return false
	}
	tv, ok := in.info.Types[e]
	if !ok || !tv.IsValue() || !hasUintptr(tv.Type, 0) {
		return false
	}
	for {
		switch y := ast.Unparen(x).(type) {
		case *ast.StarExpr:
			x = y.X
			continue
		case *ast.SelectorExpr:
			x = y.X
			continue
		case *ast.IndexExpr:
			x = y.X
			continue
		case *ast.CallExpr:
			if len(y.Args) != 1 {
				return false
			}
			if f, ok := in.info.Types[y.Fun]; !ok || !f.IsType() {
				return false
			}
			at, ok := in.info.Types[y.Args[0]]
			if !ok || at.Type == nil {
				return false
			}
			b, ok := at.Type.Underlying().(*types.Basic)
			return ok && b.Kind() == types.UnsafePointer
		}
		return false
	}
}

func hasUintptr(t types.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.Uintptr || u.Kind() == types.Uint64 || u.Kind() == types.Uint || u.Kind() == types.Int || u.Kind() == types.Int64
	case *types.Array:
		return hasUintptr(u.Elem(), depth+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasUintptr(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// exempts marks the addresses that are used to reach memory, and so have to be
// the real ones.
func (in *inst) exempts(n ast.Node) {
	mark := func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			if e, ok := x.(ast.Expr); ok {
				in.exempt[e] = true
			}
			return true
		})
	}
	ast.Inspect(n, func(x ast.Node) bool {
		switch x := x.(type) {
		case *ast.CallExpr:
			if tv, ok := in.info.Types[x.Fun]; ok && tv.IsType() {
				if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					mark(x)
				}
			}
		case *ast.CompositeLit:
			if tv, ok := in.info.Types[x]; ok && isHeader(tv.Type) {
				mark(x)
			}
		case *ast.IncDecStmt:
			in.exempt[x.X] = true
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				mark(x.X)
			}
		case *ast.SliceExpr:
			in.exempt[ast.Unparen(x.X)] = true
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				for e := ast.Unparen(l); e != nil; {
					in.exempt[e] = true
					switch y := e.(type) {
					case *ast.SelectorExpr:
						e = ast.Unparen(y.X)
					case *ast.IndexExpr:
						e = ast.Unparen(y.X)
					default:
						e = nil
					}
				}
				if s, ok := l.(*ast.SelectorExpr); ok && in.headerData(s) {
					mark(x)
				}
			}
		}
		return true
	})
}

func (in *inst) seam(e ast.Expr) ast.Expr {
	{
		if p, name := in.qualified(e); p != "" {
			if s, ok := subst[p+"."+name]; ok {
				return in.sim(s)
			}
			if p == "math/rand" || p == "math/rand/v2" {
				if _, isFunc := in.info.Uses[e.(*ast.SelectorExpr).Sel].(*types.Func); isFunc && !strings.HasPrefix(name, "New") {
					r := "Rand"
					if p == "math/rand/v2" {
						r = "RandV2"
					}
					if name != "N" && name != "Seed" {
						return &ast.SelectorExpr{X: in.simCall(r), Sel: ast.NewIdent(name)}
					}
				}
			}
			return e
		}
		if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			if r := in.recvs[u]; r != "" {
				return in.simCall(r, u.X)
			}
			return e
		}
		if s, ok := e.(*ast.SelectorExpr); ok && in.headerData(s) && !in.exempt[e] {
			return in.simCall("AddrD", e)
		}
		if !in.exempt[e] && in.memoryWord(e) {
			return in.simCall("AddrM", e)
		}
		call, ok := e.(*ast.CallExpr)
		if !ok {
			return e
		}
		if p, _ := in.qualified(call.Fun); p == "fmt" {
			in.percentP(call)
			return e
		}
		if s, ok := call.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Sprintf" {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == "simrt" {
				in.percentP(call)
				return e
			}
		}
		if tv, ok := in.info.Types[call.Fun]; ok && tv.IsType() && len(call.Args) == 1 {
			if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr && !in.exempt[e] {
				if at, ok := in.info.Types[call.Args[0]]; ok {
					if ab, ok := at.Type.Underlying().(*types.Basic); ok && ab.Kind() == types.UnsafePointer {
						call.Args[0] = in.simCall("AddrU", call.Args[0])
					}
				}
			}
			return e
		}
		if s, ok := call.Fun.(*ast.SelectorExpr); ok {
			if sel := in.info.Selections[s]; sel != nil && len(call.Args) == 0 {
				if n, ok := sel.Recv().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
					if s.Sel.Name == "Pointer" || s.Sel.Name == "UnsafeAddr" {
						return in.simCall("AddrV", s.X)
					}
				}
			}
		}
		if in.isAtomic(call.Fun) {
			if tv, ok := in.info.Types[e]; ok && tv.IsValue() && !isEmptyTuple(tv.Type) {
				if _, tuple := tv.Type.(*types.Tuple); !tuple {
					return in.simCall("After", e, &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(in.newSite(e.Pos(), true))})
				}
			}
		}
		return e
	}
}

func isEmptyTuple(t types.Type) bool {
	tp, ok := t.(*types.Tuple)
	return ok && tp.Len() == 0
}

func (in *inst) isAtomic(fun ast.Expr) bool {
	if ix, ok := fun.(*ast.IndexExpr); ok {
		fun = ix.X
	}
	if p, _ := in.qualified(fun); p == "sync/atomic" {
		return true
	}
	if s, ok := fun.(*ast.SelectorExpr); ok {
		if f, ok := in.info.Uses[s.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync/atomic" {
			return true
		}
	}
	return false
}

// percentP wraps the arguments printed with %p.
func (in *inst) percentP(call *ast.CallExpr) {
	if call.Ellipsis.IsValid() {
		return
	}
	for i, a := range call.Args {
		tv, ok := in.info.Types[a]
		if !ok || tv.Value == nil || !strings.Contains(tv.Value.String(), "%") {
			continue
		}
		f, err := strconv.Unquote(tv.Value.ExactString())
		if err != nil {
			continue
		}
		arg := i + 1
		for j := 0; j < len(f); j++ {
			if f[j] != '%' {
				continue
			}
			j++
			for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
				j++
			}
			if j >= len(f) {
				break
			}
			if f[j] == '%' {
				continue
			}
			if f[j] == 'p' && arg < len(call.Args) {
				call.Args[arg] = in.simCall("Ptr", call.Args[arg])
			}
			arg++
		}
		return
	}
}

// --- statements ---

func (in *inst) newSite(pos token.Pos, hot bool) int {
	p := in.fset.Position(pos)
	id := *base + len(sites)
	sites = append(sites, site{ID: id, File: in.fname, Line: p.Line, Func: in.fn, Hot: hot})
	return id
}

func (in *inst) yield(pos token.Pos, hot bool) ast.Stmt {
	id := in.newSite(pos, hot)
	return &ast.ExprStmt{X: in.simCall("Y", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)})}
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.stmts(b.List)
	if len(b.List) == 0 && b.Pos().IsValid() {
		b.List = []ast.Stmt{in.yield(b.Pos(), false)}
	}
}

// lits instruments the function literals inside n.
func (in *inst) lits(n ast.Node) {
	if n == nil || reflect.ValueOf(n).IsNil() {
		return
	}
	ast.Inspect(n, func(x ast.Node) bool {
		if fl, ok := x.(*ast.FuncLit); ok {
			in.block(fl.Body)
			return false
		}
		return true
	})
}

func pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.UnaryExpr, *ast.TypeAssertExpr:
			ok = false
		}
		return ok
	})
	return ok
}

// shared tells whether a store to e may be seen by another caller.
func (in *inst) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.ParenExpr:
		return in.shared(e.X)
	case *ast.Ident:
		o := in.info.Uses[e]
		v, ok := o.(*types.Var)
		return ok && v.Parent() == in.pkg.Scope()
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if _, isPkg := in.info.Uses[id].(*types.PkgName); isPkg {
				return true
			}
		}
		if tv, ok := in.info.Types[e.X]; ok {
			if _, isPtr := tv.Type.Underlying().(*types.Pointer); isPtr {
				return true
			}
		}
		return in.shared(e.X)
	case *ast.IndexExpr:
		if tv, ok := in.info.Types[e.X]; ok {
			switch tv.Type.Underlying().(type) {
			case *types.Slice, *types.Map, *types.Pointer:
				return true
			}
		}
		return in.shared(e.X)
	}
	return false
}

func (in *inst) stmts(list []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range list {
		if _, empty := s.(*ast.EmptyStmt); empty {
			out = append(out, s)
			continue
		}
		hot := false
		if a, ok := s.(*ast.AssignStmt); ok {
			for _, l := range a.Lhs {
				if in.shared(l) {
					hot = true
				}
			}
		}
		if d, ok := s.(*ast.IncDecStmt); ok && in.shared(d.X) {
			hot = true
		}
		if !in.canFail(s) {
			y := in.yield(s.Pos(), hot).(*ast.ExprStmt)
			y.X.(*ast.CallExpr).Fun = in.sim("YN")
			out = append(out, y)
		} else if in.mentions(s) {
			y := in.yield(s.Pos(), true).(*ast.ExprStmt)
			y.X.(*ast.CallExpr).Fun = in.sim("YG")
			out = append(out, y)
		} else {
			out = append(out, in.yield(s.Pos(), hot))
		}
		out = append(out, in.stmt(s)...)
	}
	return out
}

// canFail tells whether the statement (of a compound one the part performed
// first) can panic: only there can a call be aborted.
func (in *inst) canFail(s ast.Stmt) bool {
	var parts []ast.Node
	add := func(n ast.Node) { parts = append(parts, n) }
	switch s := s.(type) {
	case *ast.DeferStmt, *ast.BranchStmt, *ast.DeclStmt, *ast.EmptyStmt, *ast.BlockStmt, *ast.SelectStmt:
		if d, ok := s.(*ast.DeclStmt); ok {
			add(d)
		}
	case *ast.LabeledStmt:
		return in.canFail(s.Stmt)
	case *ast.IfStmt:
		if s.Init != nil {
			add(s.Init)
		}
		add(s.Cond)
	case *ast.ForStmt:
		if s.Init != nil {
			add(s.Init)
		}
		if s.Cond != nil {
			add(s.Cond)
		}
	case *ast.RangeStmt:
		add(s.X)
	case *ast.SwitchStmt:
		if s.Init != nil {
			add(s.Init)
		}
		if s.Tag != nil {
			add(s.Tag)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			add(s.Init)
		}
		add(s.Assign)
	default:
		add(s)
	}
	fails := false
	for _, n := range parts {
		ast.Inspect(n, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.CallExpr:
				if in.isAtomic(x.Fun) {
					return true
				}
				if tv, ok := in.info.Types[x.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
					return true
				}
				if p, _ := in.qualified(x.Fun); p == "runtime" || p == "time" || p == "sync" {
					return true
				}
				if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
					if f, ok := in.info.Uses[sel.Sel].(*types.Func); ok && f.Pkg() != nil && f.Pkg().Path() == "sync" {
						return true
					}
				}
				if id, ok := x.Fun.(*ast.SelectorExpr); ok {
					if y, ok := id.X.(*ast.Ident); ok && y.Name == "simrt" {
						return true
					}
				}
				fails = true
			case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr:
				fails = true
			case *ast.BinaryExpr:
				if x.Op == token.QUO || x.Op == token.REM {
					fails = true
				}
			case *ast.SelectorExpr:
				if tv, ok := in.info.Types[x.X]; ok {
					if _, isPtr := tv.Type.Underlying().(*types.Pointer); isPtr {
						if _, own := x.X.(*ast.Ident); !own {
							fails = true
						}
					}
				}
			}
			return !fails
		})
	}
	return fails
}

func (in *inst) temp() *ast.Ident {
	in.tmp++
	return ast.NewIdent(fmt.Sprintf("simTmp%d", in.tmp))
}

func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(s)
	case *ast.IfStmt:
		in.inner(s.Init)
		in.lits(s.Cond)
		in.block(s.Body)
		if s.Else != nil {
			switch e := s.Else.(type) {
			case *ast.BlockStmt:
				in.block(e)
			default:
				in.stmt(e)
			}
		}
	case *ast.ForStmt:
		in.inner(s.Init)
		if s.Cond != nil {
			in.lits(s.Cond)
		}
		in.inner(s.Post)
		in.block(s.Body)
	case *ast.RangeStmt:
		in.lits(s.X)
		in.block(s.Body)
		return in.rangeMap(s, s)
	case *ast.SwitchStmt:
		in.inner(s.Init)
		if s.Tag != nil {
			in.lits(s.Tag)
		}
		in.clauses(s.Body)
	case *ast.TypeSwitchStmt:
		in.inner(s.Init)
		in.clauses(s.Body)
	case *ast.SelectStmt:
		return in.selectStmt(s, nil)
	case *ast.LabeledStmt:
		if r, ok := s.Stmt.(*ast.RangeStmt); ok {
			in.lits(r.X)
			in.block(r.Body)
			return in.rangeMap(r, s)
		}
		if r, ok := s.Stmt.(*ast.SelectStmt); ok {
			return in.selectStmt(r, s)
		}
		in.stmt(s.Stmt)
	case *ast.SendStmt:
		in.lits(s.Value)
		in.lits(s.Chan)
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: in.simCall("Send", s.Chan), Args: []ast.Expr{s.Value}}}}
	case *ast.GoStmt:
		in.lits(s.Call)
		return in.goStmt(s)
	case *ast.IncDecStmt:
		if in.shared(s.X) && pure(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			t := in.temp()
			return []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BinaryExpr{X: s.X, Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}},
				in.yield(s.Pos(), true),
				&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
			}
		}
	case *ast.AssignStmt:
		for _, e := range s.Rhs {
			in.lits(e)
		}
		for _, e := range s.Lhs {
			in.lits(e)
		}
		return in.assign(s)
	default:
		in.lits(s)
	}
	return []ast.Stmt{s}
}

// inner instruments the literals of a simple statement that must stay whole.
func (in *inst) inner(s ast.Stmt) {
	if s != nil {
		in.lits(s)
	}
}

func (in *inst) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		switch c := c.(type) {
		case *ast.CaseClause:
			for _, e := range c.List {
				in.lits(e)
			}
			c.Body = in.stmts(c.Body)
		case *ast.CommClause:
			c.Body = in.stmts(c.Body)
		}
	}
}

func isAppend(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	id, ok := c.Fun.(*ast.Ident)
	return ok && id.Name == "append"
}

// assign splits `x op= e` and `x = append(...)` on shared x.
func (in *inst) assign(s *ast.AssignStmt) []ast.Stmt {
	if len(s.Lhs) != 1 || len(s.Rhs) != 1 || !in.shared(s.Lhs[0]) || !pure(s.Lhs[0]) {
		return []ast.Stmt{s}
	}
	t := in.temp()
	var rhs ast.Expr
	switch s.Tok {
	case token.ASSIGN:
		if !isAppend(s.Rhs[0]) {
			return []ast.Stmt{s}
		}
		rhs = s.Rhs[0]
	case token.DEFINE:
		return []ast.Stmt{s}
	default:
		ops := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
		op, ok := ops[s.Tok]
		if !ok {
			return []ast.Stmt{s}
		}
		rhs = &ast.BinaryExpr{X: s.Lhs[0], Op: op, Y: &ast.ParenExpr{X: s.Rhs[0]}}
	}
	return []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{rhs}},
		in.yield(s.Pos(), true),
		&ast.AssignStmt{Lhs: []ast.Expr{s.Lhs[0]}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}},
	}
}

// rangeMap makes the order of map iteration the simulator's choice.
func (in *inst) rangeMap(r *ast.RangeStmt, whole ast.Stmt) []ast.Stmt {
	tv, ok := in.info.Types[r.X]
	if !ok {
		return []ast.Stmt{whole}
	}
	if _, ok := tv.Type.Underlying().(*types.Chan); ok {
		return in.rangeChan(r, whole)
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return []ast.Stmt{whole}
	}
	m, k, v, okv := in.temp(), in.temp(), in.temp(), in.temp()
	pre := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}}
	var body []ast.Stmt
	body = append(body,
		&ast.AssignStmt{Lhs: []ast.Expr{v, okv}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: okv}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
	set := func(dst ast.Expr, src ast.Expr) {
		if dst == nil {
			return
		}
		if id, ok := dst.(*ast.Ident); ok && id.Name == "_" {
			return
		}
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{dst}, Tok: r.Tok, Rhs: []ast.Expr{src}})
		if r.Tok == token.DEFINE {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{dst}})
		}
	}
	set(r.Key, k)
	set(r.Value, v)
	r.Body.List = append(body, r.Body.List...)
	r.Key = ast.NewIdent("_")
	r.Value = k
	r.Tok = token.DEFINE
	r.X = in.simCall("MapKeys", m)
	return []ast.Stmt{pre, whole}
}

// rangeChan makes `for x := range c` receive under the scheduler.
func (in *inst) rangeChan(r *ast.RangeStmt, whole ast.Stmt) []ast.Stmt {
	m, v, ok := in.temp(), in.temp(), in.temp()
	pre := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{r.X}}
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{in.simCall("Recv2", m)}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
	}
	if id, isId := r.Key.(*ast.Ident); r.Key != nil && !(isId && id.Name == "_") {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{r.Key}, Tok: r.Tok, Rhs: []ast.Expr{v}})
		if r.Tok == token.DEFINE {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.Key}})
		}
	}
	f := &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, r.Body.List...)}}
	if l, ok := whole.(*ast.LabeledStmt); ok {
		l.Stmt = f
		return []ast.Stmt{pre, l}
	}
	return []ast.Stmt{pre, f}
}

// selectStmt makes the simulator choose the case.
func (in *inst) selectStmt(s *ast.SelectStmt, label *ast.LabeledStmt) []ast.Stmt {
	var pre []ast.Stmt
	var cases []ast.Expr
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	var dflt *ast.CaseClause
	for _, c := range s.Body.List {
		c := c.(*ast.CommClause)
		body := in.stmts(c.Body)
		if c.Comm == nil {
			hasDefault = "true"
			dflt = &ast.CaseClause{Body: body}
			continue
		}
		t := in.temp()
		clause := &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(cases))}}}
		var mk ast.Expr
		switch cm := c.Comm.(type) {
		case *ast.SendStmt:
			in.lits(cm.Chan)
			in.lits(cm.Value)
			mk = &ast.CallExpr{Fun: in.simCall("SendOf", cm.Chan), Args: []ast.Expr{cm.Value}}
		case *ast.ExprStmt:
			mk = in.simCall("RecvOf", ast.Unparen(cm.X).(*ast.UnaryExpr).X)
		case *ast.AssignStmt:
			mk = in.simCall("RecvOf", ast.Unparen(cm.Rhs[0]).(*ast.UnaryExpr).X)
			rhs := []ast.Expr{&ast.SelectorExpr{X: t, Sel: ast.NewIdent("V")}}
			if len(cm.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: t, Sel: ast.NewIdent("Ok")})
			}
			clause.Body = append(clause.Body, &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: rhs})
		}
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
		cases = append(cases, t)
		clause.Body = append(clause.Body, body...)
		sw.Body.List = append(sw.Body.List, clause)
	}
	if dflt == nil {
		dflt = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}}
	}
	sw.Body.List = append(sw.Body.List, dflt)
	sw.Tag = in.simCall("Select", append([]ast.Expr{ast.NewIdent(hasDefault)}, cases...)...)
	if label != nil {
		label.Stmt = sw
		return append(pre, label)
	}
	return append(pre, sw)
}

func (in *inst) goStmt(s *ast.GoStmt) []ast.Stmt {
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: in.simCall("Go", fl)}}
	}
	var out []ast.Stmt
	var args []ast.Expr
	for _, a := range s.Call.Args {
		t := in.temp()
		out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
		args = append(args, t)
	}
	call := &ast.CallExpr{Fun: s.Call.Fun, Args: args, Ellipsis: s.Call.Ellipsis}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	return append(out, &ast.ExprStmt{X: in.simCall("Go", fl)})
}

// --- API table ---

type apiType struct {
	t    types.Type
	name string
}

// assertable returns the interfaces of the package that the values of type t,
// an empty one, can be asserted to: those that every type with a method
// returning t implements.
func assertable(pkg *types.Package, t types.Type) []*types.Named {
	var makers []types.Type
	var ifaces []*types.Named
	for _, n := range pkg.Scope().Names() {
		o, ok := pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || o.IsAlias() {
			continue
		}
		nt, ok := o.Type().(*types.Named)
		if !ok || nt.TypeParams().Len() > 0 {
			continue
		}
		if u, ok := nt.Underlying().(*types.Interface); ok {
			if o.Exported() && !u.Empty() && u.IsMethodSet() {
				ifaces = append(ifaces, nt)
			}
			continue
		}
		ms := types.NewMethodSet(nt)
		for i := 0; i < ms.Len(); i++ {
			res := ms.At(i).Type().(*types.Signature).Results()
			if res.Len() > 0 && types.Identical(res.At(0).Type(), t) {
				makers = append(makers, nt)
				break
			}
		}
	}
	var out []*types.Named
	for _, y := range ifaces {
		all := len(makers) > 0
		for _, m := range makers {
			all = all && types.Implements(m, y.Underlying().(*types.Interface))
		}
		if all {
			out = append(out, y)
		}
	}
	return out
}

func writeAPI(in *inst, dst, pkgName string) {
	pkg := in.pkg
	imports := map[string]string{}
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		imports[p.Path()] = p.Name()
		return p.Name()
	}
	var typs []apiType
	idx := map[string]int{}
	var tid func(t types.Type) int
	tid = func(t types.Type) int {
		n := types.TypeString(t, qual)
		if i, ok := idx[n]; ok {
			return i
		}
		i := len(typs)
		idx[n] = i
		typs = append(typs, apiType{t, n})
		return i
	}
	errT := types.Universe.Lookup("error").Type()
	// ok tells whether user code can name and supply a parameter of type t.
	var okParam func(t types.Type) bool
	okParam = func(t types.Type) bool {
		switch u := t.(type) {
		case *types.Basic:
			return u.Kind() != types.UnsafePointer
		case *types.Named:
			if u.Obj().Pkg() == nil {
				return true // error
			}
			return u.Obj().Exported()
		case *types.Alias:
			return okParam(types.Unalias(u))
		case *types.Interface:
			return u.Empty()
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok {
				return n.Obj().Pkg() != pkg
			}
			return false
		}
		return false
	}
	type op struct {
		name     string
		recv     int
		in       []int
		variadic bool
		list     bool // the last parameter is a slice
		spread   bool // the last parameter is a slice the library returned
		at       int  // its place in the real parameters
		promoted bool // a method of an embedded value
		out      []int
		call     string // expression, with %s for argument list
		expr     string
	}
	var ops []op
	addFunc := func(name, expr string, recv int, sig *types.Signature) bool {
		o := op{name: name, recv: recv, variadic: sig.Variadic(), expr: expr}
		// One parameter may be a slice; it comes last in o.in.
		n := sig.Params().Len()
		o.at = n - 1
		for i := n - 1; i >= 0 && !o.variadic; i-- {
			if _, ok := sig.Params().At(i).Type().(*types.Slice); ok {
				o.at, o.list, o.variadic = i, !sig.Variadic(), true
			}
		}
		for i := 0; i < n; i++ {
			if i == o.at && o.variadic {
				continue
			}
			t := sig.Params().At(i).Type()
			if !okParam(t) {
				return false
			}
			o.in = append(o.in, tid(t))
		}
		if o.variadic {
			t := sig.Params().At(o.at).Type().(*types.Slice).Elem()
			if !okParam(t) {
				return false
			}
			o.in = append(o.in, tid(t))
		}
		if sig.Results().Len() == 0 || sig.Results().Len() > 2 {
			return false
		}
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			if sl, ok := t.(*types.Slice); ok && !okParam(sl.Elem()) {
				return false
			}
			o.out = append(o.out, tid(t))
		}
		if sig.Results().Len() == 2 && !types.Identical(sig.Results().At(1).Type(), errT) {
			return false
		}
		if sig.TypeParams().Len() > 0 || sig.RecvTypeParams().Len() > 0 {
			return false
		}
		ops = append(ops, o)
		return true
	}
	skipFunc := func(n string) bool {
		return n == "VisitIfNotNull"
	}
	names := pkg.Scope().Names()
	sort.Strings(names)
	for _, n := range names {
		o := pkg.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.Func:
			if !skipFunc(n) {
				addFunc(n, n, -1, o.Type().(*types.Signature))
			}
		case *types.Var:
			if okParam(o.Type()) {
				ops = append(ops, op{name: "var:" + n, recv: -1, out: []int{tid(o.Type())}, expr: n})
			}
		case *types.Const:
			if nt, ok := o.Type().(*types.Named); ok {
				ops = append(ops, op{name: "const:" + n, recv: -1, out: []int{tid(nt)}, expr: n})
			}
		}
	}
	// Methods of every type that appears, until nothing new appears.
	skipMethod := map[string]bool{"PrepareVisit": true, "PreEnter": true, "BuildImpl": true, "AddWith": true, "BuildListOfVisitable": true, "Update": true, "OngoingOnAfterMerge": true}
	for i := 0; i < len(typs); i++ {
		t := typs[i].t
		if types.Identical(t, errT) {
			continue
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != pkg {
			continue
		}
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok && n.Obj().Pkg() != pkg {
				continue
			}
		}
		if _, ok := t.(*types.Basic); ok {
			continue
		}
		if u, ok := t.Underlying().(*types.Interface); ok && u.Empty() && typs[i].name != "interface{}" && typs[i].name != "any" {
			// of no use but for what the caller knows to be in it
			for _, y := range assertable(pkg, t) {
				ops = append(ops, op{name: typs[i].name + ".(" + y.Obj().Name() + ")", recv: i, out: []int{tid(y)}, expr: "(" + y.Obj().Name() + ")"})
			}
		}
		ms := types.NewMethodSet(t)
		for j := 0; j < ms.Len(); j++ {
			m := ms.At(j)
			if !m.Obj().Exported() || skipMethod[m.Obj().Name()] {
				continue
			}
			if addFunc(typs[i].name+"."+m.Obj().Name(), m.Obj().Name(), i, m.Type().(*types.Signature)) {
				ops[len(ops)-1].promoted = len(m.Index()) > 1
			}
		}
	}
	// Slices the library returns: their elements, and the slice as it is for the
	// last arguments of a call.
	for i, n := 0, len(ops); i < len(typs); i++ {
		sl, ok := typs[i].t.(*types.Slice)
		if !ok {
			continue
		}
		e := tid(sl.Elem())
		ops = append(ops, op{name: typs[i].name + ".[first]", recv: i, out: []int{e}, expr: "[0]"})
		ops = append(ops, op{name: typs[i].name + ".[last]", recv: i, out: []int{e}, expr: "[-1]"})
		for _, o := range ops[:n] {
			if !o.variadic || o.in[len(o.in)-1] != e {
				continue
			}
			o.name += "..."
			o.in = append(append([]int(nil), o.in[:len(o.in)-1]...), i)
			o.variadic, o.spread = false, true
			ops = append(ops, o)
		}
	}
	var b bytes.Buffer
	var body bytes.Buffer
	fmt.Fprintf(&body, "// SimOp is one operation of the public API.\ntype SimOp struct {\n\tName string\n\tRecv int\n\tIn []int\n\tVariadic bool\n\tOut []int\n\tSlice func(a []interface{}, spare int) interface{}\n\tCall func(a []interface{}, v interface{}) []interface{}\n\tPromoted bool\n}\n\n")
	fmt.Fprintf(&body, "// SimType is a static type of the public API; From lists the types assignable to it.\ntype SimType struct {\n\tName string\n\tIface bool\n\tFrom []int\n}\n\n")
	for i, t := range typs {
		fmt.Fprintf(&body, "func simTo%d(x interface{}) (v %s) { if x != nil { v = x.(%s) }; return }\n", i, t.name, t.name)
	}
	fmt.Fprintf(&body, "\nvar SimTypes = []SimType{\n")
	for _, t := range typs {
		var from []string
		for j, s := range typs {
			if types.AssignableTo(s.t, t.t) {
				from = append(from, strconv.Itoa(j))
			}
		}
		fmt.Fprintf(&body, "\t{%q, %v, []int{%s}},\n", t.name, types.IsInterface(t.t), strings.Join(from, ","))
	}
	fmt.Fprintf(&body, "}\n\nvar SimOps = []SimOp{\n")
	ints := func(l []int) string {
		var s []string
		for _, x := range l {
			s = append(s, strconv.Itoa(x))
		}
		return "[]int{" + strings.Join(s, ",") + "}"
	}
	for _, o := range ops {
		slice := "nil"
		if o.variadic {
			k := len(o.in) - 1
			if o.recv >= 0 {
				k++
			}
			et := o.in[len(o.in)-1]
			slice = fmt.Sprintf("func(a []interface{}, spare int) interface{} { v := make([]%s, 0, len(a)-%d+spare); for _, x := range a[%d:] { v = append(v, simTo%d(x)) }; return v }", typs[et].name, k, k, et)
		}
		fmt.Fprintf(&body, "\t{%q, %d, %s, %v, %s, %s, func(a []interface{}, vs interface{}) []interface{} {\n", o.name, o.recv, ints(o.in), o.variadic, ints(o.out), slice)
		if strings.HasPrefix(o.name, "var:") || strings.HasPrefix(o.name, "const:") {
			fmt.Fprintf(&body, "\t\treturn []interface{}{%s}\n\t}, false},\n", o.expr)
			continue
		}
		k := 0
		fun := o.expr
		if o.recv >= 0 {
			fun = fmt.Sprintf("simTo%d(a[0]).%s", o.recv, o.expr)
			k = 1
			if o.expr[0] == '[' {
				at := "0"
				if o.expr == "[-1]" {
					at = "len(v)-1"
				}
				fmt.Fprintf(&body, "\t\tv := simTo%d(a[0])\n\t\treturn []interface{}{v[%s]}\n\t}, false},\n", o.recv, at)
				continue
			}
			if o.expr[0] == '(' {
				fmt.Fprintf(&body, "\t\treturn []interface{}{%s}\n\t}, false},\n", fun)
				continue
			}
		}
		var args []string
		fixed := len(o.in)
		if o.variadic {
			fixed--
		}
		for i := 0; i < fixed; i++ {
			args = append(args, fmt.Sprintf("simTo%d(a[%d])", o.in[i], k+i))
		}
		if o.variadic {
			et := o.in[fixed]
			fmt.Fprintf(&body, "\t\tv, _ := vs.([]%s)\n\t\tif vs == nil { for _, x := range a[%d:] { v = append(v, simTo%d(x)) } }\n", typs[et].name, k+fixed, et)
			v := "v..."
			if o.list {
				v = "v"
			}
			args = append(args[:o.at], append([]string{v}, args[o.at:]...)...)
		}
		if o.spread { // its place in the real parameters
			last := args[len(args)-1]
			if !o.list {
				last += "..."
			}
			args = append(args[:len(args)-1:len(args)-1], "")
			copy(args[o.at+1:], args[o.at:])
			args[o.at] = last
		}
		call := fmt.Sprintf("%s(%s)", fun, strings.Join(args, ", "))
		if len(o.out) == 2 {
			fmt.Fprintf(&body, "\t\tr0, r1 := %s\n\t\treturn []interface{}{r0, r1}\n\t}, %v},\n", call, o.promoted)
		} else {
			fmt.Fprintf(&body, "\t\treturn []interface{}{%s}\n\t}, %v},\n", call, o.promoted)
		}
	}
	fmt.Fprintf(&body, "}\n\n// SimWords are the texts the package's source contains.\nvar SimWords = []string{\n")
	words := map[string]bool{}
	for _, f := range in.files {
		ast.Inspect(f, func(n ast.Node) bool {
			if l, ok := n.(*ast.BasicLit); ok && (l.Kind == token.STRING || l.Kind == token.CHAR) {
				if w, err := strconv.Unquote(l.Value); err == nil {
					words[w] = true
				}
			}
			return true
		})
	}
	var wl []string
	for w := range words {
		wl = append(wl, w)
	}
	sort.Strings(wl)
	for _, w := range wl {
		fmt.Fprintf(&body, "\t%q,\n", w)
	}
	fmt.Fprintf(&body, "}\n")
	fmt.Fprintf(&b, "package %s\n\n", pkgName)
	var ips []string
	for p := range imports {
		ips = append(ips, p)
	}
	sort.Strings(ips)
	for _, p := range ips {
		fmt.Fprintf(&b, "import %s %q\n", imports[p], p)
	}
	b.Write(body.Bytes())
	src, err := format.Source(b.Bytes())
	if err != nil {
		os.WriteFile(filepath.Join(dst, "zz_sim_api.go.bad"), b.Bytes(), 0o644)
		fatal("api: %v", err)
	}
	if err := os.WriteFile(filepath.Join(dst, "zz_sim_api.go"), src, 0o644); err != nil {
		fatal("%v", err)
	}
}
