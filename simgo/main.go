// Command simgo copies packages of the repository into a scratch directory and
// rewrites every source of nondeterminism in them (goroutines, channels,
// selects, timers, clocks, random numbers, locks, pools, map iteration,
// sockets, process state) to calls of verif/simrt. It works on the typed syntax
// tree, so it does not depend on how the code is written, and it leaves all
// other code as it is.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

type listed struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Imports    []string
	Name       string
	DepOnly    bool
	Error      *struct{ Err string }
}

const modPath = "github.com/yangl1996/rateless-set-reconcile"

var (
	src   = flag.String("src", "/repo", "repository")
	out   = flag.String("out", "", "output directory")
	pkgsF = flag.String("pkgs", "", "comma separated package dirs")
	raceF = flag.String("race", "", "comma separated package dirs to instrument for race detection")
	extF  = flag.String("ext", "", "comma separated modulepath=dir of dependencies (single-package modules) to rewrite as well, into OUT/ext")
	hookF = flag.String("hook", "", "comma separated package dirs whose exported functions get observers")
)

// hookSkip are exported functions that are hot and never observed.
var hookSkip = map[string]bool{"XOR": true, "Hash": true, "Data": true, "Serialized": true, "Len": true, "Less": true, "Swap": true, "Push": true, "Pop": true, "Error": true, "HasDecoded": true, "NumTransactionsReceived": true}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simgo: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *out == "" || *pkgsF == "" {
		die("need -out and -pkgs")
	}
	// copy module files and every non-test go file of the needed packages
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(*src, f))
		if err != nil {
			die("%v", err)
		}
		must(os.MkdirAll(*out, 0o755))
		must(os.WriteFile(filepath.Join(*out, f), b, 0o644))
	}
	var roots []string
	seen := map[string]bool{}
	var copyPkg func(rel string)
	copyPkg = func(rel string) {
		if seen[rel] {
			return
		}
		seen[rel] = true
		ents, err := os.ReadDir(filepath.Join(*src, rel))
		if err != nil {
			die("%v", err)
		}
		must(os.MkdirAll(filepath.Join(*out, rel), 0o755))
		for _, e := range ents {
			if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(*src, rel, e.Name()))
			must(err)
			must(os.WriteFile(filepath.Join(*out, rel, e.Name()), b, 0o644))
			f, err := parser.ParseFile(token.NewFileSet(), e.Name(), b, parser.ImportsOnly)
			if err != nil {
				die("%v", err)
			}
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				if strings.HasPrefix(p, modPath+"/") {
					copyPkg(strings.TrimPrefix(p, modPath+"/"))
				}
			}
		}
	}
	for _, p := range strings.Split(*pkgsF, ",") {
		roots = append(roots, "./"+p)
		copyPkg(p)
	}

	ext := map[string]bool{}
	if *extF != "" {
		gm, err := os.ReadFile(filepath.Join(*out, "go.mod"))
		must(err)
		for _, e := range strings.Split(*extF, ",") {
			mp, dir, _ := strings.Cut(e, "=")
			ext[mp] = true
			to := filepath.Join(*out, "ext", filepath.Base(mp))
			must(os.MkdirAll(to, 0o755))
			ents, err := os.ReadDir(dir)
			must(err)
			for _, x := range ents {
				if x.Name() == "go.mod" || strings.HasSuffix(x.Name(), ".go") && !strings.HasSuffix(x.Name(), "_test.go") {
					b, err := os.ReadFile(filepath.Join(dir, x.Name()))
					must(err)
					if x.Name() == "go.mod" {
						b = regexp.MustCompile(`(?m)^go [0-9.]+$`).ReplaceAll(b, []byte("go 1.20"))
					}
					must(os.WriteFile(filepath.Join(to, x.Name()), b, 0o644))
				}
			}
			if _, err := os.Stat(filepath.Join(to, "go.mod")); err != nil {
				must(os.WriteFile(filepath.Join(to, "go.mod"), []byte("module "+mp+"\n\ngo 1.20\n"), 0o644))
			}
			gm = append(gm, []byte("\nreplace "+mp+" => ./ext/"+filepath.Base(mp)+"\n")...)
		}
		must(os.WriteFile(filepath.Join(*out, "go.mod"), gm, 0o644))
	}

	args := append([]string{"list", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Imports,Name,Error"}, roots...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *out
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	if err := cmd.Run(); err != nil {
		die("go list: %v\n%s", err, stderr.String())
	}
	var order []*listed
	exports := map[string]string{}
	dec := json.NewDecoder(&stdout)
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[l.ImportPath] = l.Export
		if l.ImportPath == modPath || ext[l.ImportPath] || strings.HasPrefix(l.ImportPath, modPath+"/") {
			c := l
			order = append(order, &c)
		}
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &mixed{gc: gc, local: map[string]*types.Package{}}
	inSet := func(list, path string) bool {
		rel := strings.TrimPrefix(path, modPath+"/")
		for _, x := range strings.Split(list, ",") {
			if x == rel {
				return true
			}
		}
		return false
	}
	var ps []*pkg
	for _, l := range order {
		p := &pkg{l: l, fset: fset, race: inSet(*raceF, l.ImportPath), hook: inSet(*hookF, l.ImportPath)}
		for _, f := range l.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(l.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				die("%v", err)
			}
			p.files = append(p.files, af)
			p.names = append(p.names, f)
		}
		p.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{}}
		conf := types.Config{Importer: imp, GoVersion: "go1.20", Sizes: types.SizesFor("gc", "amd64")}
		tp, err := conf.Check(l.ImportPath, fset, p.files, p.info)
		if err != nil {
			die("type check %s: %v", l.ImportPath, err)
		}
		p.types = tp
		imp.local[l.ImportPath] = tp
		ps = append(ps, p)
	}
	local := map[string]bool{}
	for _, p := range ps {
		local[p.l.ImportPath] = true
	}
	for i, p := range ps {
		p.idx = i
		p.local = local
		p.all = ps
		p.rewrite()
	}
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

type mixed struct {
	gc    types.Importer
	local map[string]*types.Package
}

func (m *mixed) Import(path string) (*types.Package, error) {
	if p := m.local[path]; p != nil {
		return p, nil
	}
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	return m.gc.Import(path)
}

type pkg struct {
	l     *listed
	fset  *token.FileSet
	files []*ast.File
	names []string
	info  *types.Info
	types *types.Package
	idx   int
	race  bool
	hook  bool
	local map[string]bool
	all   []*pkg

	// per-file state
	file     *ast.File
	usesSim  bool
	recvCall map[*ast.CallExpr]ast.Expr // recv call -> channel expr
	sendCall map[*ast.CallExpr]bool
	isGlob   map[types.Object]bool
	captured map[types.Object]bool
	skip     map[ast.Expr]bool
	write    map[ast.Expr]bool
	inits    int
	initFns  []string
	tmp      int
}

// simPkgs are the packages rewritten code may refer to.
var simPkgs = map[string]string{"simrt": "verif/simrt", "simssh": "verif/simx/ssh", "simexec": "verif/simx/exec"}

var overrides = map[string]map[string]string{
	"time": same("Now", "Since", "Until", "Sleep", "After", "AfterFunc", "NewTimer", "NewTicker", "Tick", "Timer", "Ticker"),
	"math/rand": pre("Rand", "NewSource", "Seed", "Int", "Intn", "Int31", "Int31n", "Int63", "Int63n", "Uint32", "Uint64", "Float32", "Float64",
		"NormFloat64", "ExpFloat64", "Perm", "Shuffle", "Read"),
	"math/rand/v2": {"Int": "RandInt", "IntN": "RandIntn", "Int64": "RandInt63", "Int64N": "RandInt63n", "Int32": "RandInt31", "Int32N": "RandInt31n",
		"Uint32": "RandUint32", "Uint64": "RandUint64", "Float64": "RandFloat64", "Float32": "RandFloat32", "NormFloat64": "RandNormFloat64",
		"ExpFloat64": "RandExpFloat64", "Perm": "RandPerm", "Shuffle": "RandShuffle"},
	"crypto/rand": {"Read": "RandRead", "Reader": "CryptoReader"},
	"sync":        same("Mutex", "RWMutex", "WaitGroup", "Once", "Cond", "NewCond", "Map", "Pool", "Locker", "OnceFunc", "OnceValue"),
	"net":         {"Listen": "NetListen", "ListenConfig": "NetListenConfig", "Dialer": "NetDialer", "Dial": "NetDial", "DialTimeout": "NetDialTimeout", "TCPConn": "TCPConn"},
	"log": pre("Log", "Printf", "Println", "Print", "Fatalf", "Fatalln", "Fatal", "Panicf", "Panicln", "Panic", "SetFlags", "SetPrefix", "SetOutput",
		"New", "Default"),
	"flag": pre("Flag", "Bool", "Int", "Int64", "Uint", "Uint64", "Float64", "String", "Duration", "BoolVar", "IntVar", "Int64Var", "UintVar", "Uint64Var",
		"Float64Var", "StringVar", "DurationVar", "Var", "Func", "VisitAll", "Visit", "Args", "Arg", "NArg", "NFlag", "Lookup", "PrintDefaults", "Usage", "Parsed", "Parse", "NewFlagSet", "FlagSet"),
	"fmt": pre("Fmt", "Printf", "Println", "Print", "Scanln", "Scan", "Scanf"),
	"os": pre("Os", "Exit", "Stdin", "Stdout", "Stderr", "Open", "OpenFile", "Create", "ReadFile", "WriteFile", "Getenv", "LookupEnv", "Hostname", "Getpid",
		"UserHomeDir", "Remove", "Rename", "Stat", "MkdirAll", "Mkdir"),
	"io/ioutil":               pre("Os", "ReadFile", "WriteFile"),
	"golang.org/x/crypto/ssh": pre("simssh.", "Dial", "Client", "Session", "PublicKeys", "NewClient"),
	"os/exec":                 pre("simexec.", "Command", "CommandContext", "Cmd", "LookPath"),
	"runtime":                 same("Gosched", "ReadMemStats", "NumGoroutine", "NumCPU", "GOMAXPROCS"),
	"encoding/gob":            {"NewEncoder": "NewGobEncoder", "NewDecoder": "NewGobDecoder", "Encoder": "GobEncoder", "Decoder": "GobDecoder"},
	"golang.org/x/sys/unix":   {"SetsockoptInt": "SetsockoptInt"},
	"syscall":                 {"SetsockoptInt": "SetsockoptInt"},
}

func init() {
	overrides["log"]["Logger"] = "Logger"
	overrides["os"]["File"] = "File"
}

func same(ns ...string) map[string]string {
	m := map[string]string{}
	for _, n := range ns {
		m[n] = n
	}
	return m
}

func pre(p string, ns ...string) map[string]string {
	m := map[string]string{}
	for _, n := range ns {
		m[n] = p + n
	}
	return m
}

func id(n string) *ast.Ident { return ast.NewIdent(n) }

func (p *pkg) sim(name string) ast.Expr {
	if a, b, ok := strings.Cut(name, "."); ok {
		return &ast.SelectorExpr{X: id(a), Sel: id(b)}
	}
	p.usesSim = true
	return &ast.SelectorExpr{X: id("simrt"), Sel: id(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr { return &ast.CallExpr{Fun: f, Args: args} }
func sel(x ast.Expr, n string) ast.Expr               { return &ast.SelectorExpr{X: x, Sel: id(n)} }
func str(s string) ast.Expr                           { return &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(s)} }
func expr(x ast.Expr) ast.Stmt                        { return &ast.ExprStmt{X: x} }
func amp(x ast.Expr) ast.Expr                         { return &ast.UnaryExpr{Op: token.AND, X: x} }

func (p *pkg) pos(n ast.Node) string {
	at := token.NoPos
	ast.Inspect(n, func(m ast.Node) bool {
		if m == nil || at != token.NoPos {
			return false
		}
		switch y := m.(type) {
		case *ast.Ident:
			at = y.NamePos
		case *ast.BasicLit:
			at = y.ValuePos
		}
		return true
	})
	if at == token.NoPos {
		at = n.Pos()
	}
	ps := p.fset.Position(at)
	return filepath.Base(filepath.Dir(ps.Filename)) + "/" + filepath.Base(ps.Filename) + ":" + strconv.Itoa(ps.Line)
}

func (p *pkg) typeOf(e ast.Expr) types.Type {
	if tv, ok := p.info.Types[e]; ok {
		return tv.Type
	}
	if i, ok := e.(*ast.Ident); ok {
		if o := p.info.ObjectOf(i); o != nil {
			return o.Type()
		}
	}
	return nil
}

func under(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		if c := coreType(tp); c != nil {
			return c
		}
	}
	return u
}

func coreType(tp *types.TypeParam) types.Type {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || it.NumEmbeddeds() != 1 {
		return nil
	}
	if u, ok := it.EmbeddedType(0).(*types.Union); ok && u.Len() == 1 {
		return u.Term(0).Type().Underlying()
	}
	return nil
}

func isChan(t types.Type) bool { _, ok := under(t).(*types.Chan); return ok }
func isMap(t types.Type) bool  { _, ok := under(t).(*types.Map); return ok }

// ptrKey tells whether map keys of type t have no canonical order of their own.
func ptrKey(t types.Type) bool {
	switch u := under(t).(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if ptrKey(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return ptrKey(u.Elem())
	}
	return false
}

func (p *pkg) rewrite() {
	p.isGlob = map[types.Object]bool{}
	sc := p.types.Scope()
	for _, n := range sc.Names() {
		if v, ok := sc.Lookup(n).(*types.Var); ok {
			p.isGlob[v] = true
		}
	}
	// type expressions of globals must be computed from types
	if p.race {
		p.findCaptured()
	}
	// remember initialisers by value expression slots
	type slot struct {
		vs *ast.ValueSpec
		i  int
		f  int
	}
	slots := map[ast.Expr]slot{}
	for fi, f := range p.files {
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					vs := s.(*ast.ValueSpec)
					for i, v := range vs.Values {
						slots[v] = slot{vs, i, fi}
					}
				}
			}
		}
	}
	type initEntry struct {
		lhs []*types.Var
		s   slot
	}
	var initOrder []initEntry
	for _, in := range p.info.InitOrder {
		s, ok := slots[in.Rhs]
		if !ok {
			die("initialiser not found in %s", p.l.ImportPath)
		}
		initOrder = append(initOrder, initEntry{in.Lhs, s})
	}
	initDecls := make([][]ast.Decl, len(p.files))
	fileSim := make([]bool, len(p.files))
	for fi, f := range p.files {
		p.file = f
		p.usesSim = false
		p.recvCall = map[*ast.CallExpr]ast.Expr{}
		p.sendCall = map[*ast.CallExpr]bool{}
		p.skip = map[ast.Expr]bool{}
		p.write = map[ast.Expr]bool{}
		if p.race {
			p.markAccess(f)
		}
		ast.Inspect(f, func(n ast.Node) bool {
			mark := func(e ast.Expr) {
				if ix, ok := unparen(e).(*ast.IndexExpr); ok {
					lhsMaps[ix] = true
				}
			}
			switch x := n.(type) {
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(x.X)
			}
			return true
		})
		var keep []ast.Decl
		for _, d := range f.Decls {
			p.apply(reflect.ValueOf(&d).Elem())
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok == token.VAR {
					continue
				}
			case *ast.FuncDecl:
				if x.Recv == nil && x.Name.Name == "init" {
					p.inits++
					x.Name.Name = fmt.Sprintf("simUserInit%d", p.inits)
					p.initFns = append(p.initFns, x.Name.Name)
				}
				if x.Recv == nil && x.Name.Name == "main" && p.l.Name == "main" {
					x.Name.Name = "Main"
					var args []ast.Expr
					for _, q := range p.all {
						if q.idx <= p.idx {
							args = append(args, str(q.l.ImportPath))
						}
					}
					x.Body.List = append([]ast.Stmt{expr(call(p.sim("RunInits"), args...))}, x.Body.List...)
				}
				if w := p.wrapHook(x); w != nil {
					keep = append(keep, w)
				}
			}
			keep = append(keep, d)
		}
		f.Decls = keep
		fileSim[fi] = p.usesSim
	}
	// per-process package state
	var names []string
	for i, e := range initOrder {
		n := fmt.Sprintf("simVarInit%d", i)
		names = append(names, n)
		var lhs []ast.Expr
		for _, v := range e.lhs {
			if v.Name() == "_" {
				lhs = append(lhs, id("_"))
			} else {
				lhs = append(lhs, sel(call(id("simG")), v.Name()))
			}
		}
		if len(lhs) == 0 {
			lhs = []ast.Expr{id("_")}
		}
		fd := &ast.FuncDecl{Name: id(n), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{e.s.vs.Values[e.s.i]}}}}}
		initDecls[e.s.f] = append(initDecls[e.s.f], fd)
	}
	name := p.l.Name
	if name == "main" {
		name = filepath.Base(p.l.ImportPath)
	}
	name = strings.ReplaceAll(name, "-", "_")
	for fi, f := range p.files {
		f.Decls = append(f.Decls, initDecls[fi]...)
		f.Name.Name = name
		p.fixImports(f, fileSim[fi])
		f.Comments = nil
		var buf bytes.Buffer
		if err := format.Node(&buf, p.fset, f); err != nil {
			die("print %s: %v", p.names[fi], err)
		}
		must(os.WriteFile(filepath.Join(p.l.Dir, p.names[fi]), buf.Bytes(), 0o644))
	}
	// globals file
	tw := &typeWriter{pkg: p.types, imports: map[string]string{}}
	var fields bytes.Buffer
	for _, n := range sc.Names() {
		v, ok := sc.Lookup(n).(*types.Var)
		if !ok || n == "_" {
			continue
		}
		fmt.Fprintf(&fields, "\t%s %s\n", n, tw.str(v.Type()))
	}
	var g bytes.Buffer
	fmt.Fprintf(&g, "package %s\n\nimport simrt \"verif/simrt\"\n", name)
	var paths []string
	for k := range tw.imports {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		fmt.Fprintf(&g, "import %s %q\n", tw.imports[k], k)
	}
	for _, n := range []string{"simssh", "simexec"} {
		if strings.Contains(fields.String(), n+".") {
			fmt.Fprintf(&g, "import %s %q\n", n, simPkgs[n])
		}
	}
	fmt.Fprintf(&g, "\ntype simGlobals struct {\n%s}\n\nfunc simG() *simGlobals { return simrt.Globals[simGlobals](%d, simInit) }\n\nfunc SimG() *simGlobals { return simG() }\n\nfunc simInit(*simGlobals) {\n", fields.String(), p.idx)
	for _, n := range append(names, p.initFns...) {
		fmt.Fprintf(&g, "\t%s()\n", n)
	}
	fmt.Fprintf(&g, "}\n\nfunc init() { simrt.RegisterInit(%q, func() { simG() }) }\n", p.l.ImportPath)
	must(os.WriteFile(filepath.Join(p.l.Dir, "zz_sim_globals.go"), g.Bytes(), 0o644))
}

// fixImports drops imports that are no longer used and adds simrt.
func (p *pkg) fixImports(f *ast.File, usesSim bool) {
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok {
				if pn, ok := p.info.Uses[i].(*types.PkgName); ok {
					used[pn.Imported().Path()+" "+i.Name] = true
				}
			}
		}
		return true
	})
	need := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if i, ok := s.X.(*ast.Ident); ok && simPkgs[i.Name] != "" {
				need[i.Name] = true
			}
		}
		return true
	})
	var specs []ast.Spec
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		keep := false
		if im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".") {
			keep = true
		}
		for k := range used {
			if strings.HasPrefix(k, path+" ") {
				n := strings.TrimPrefix(k, path+" ")
				if im.Name == nil || im.Name.Name == n {
					keep = true
				}
			}
		}
		if keep {
			specs = append(specs, &ast.ImportSpec{Name: im.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: im.Path.Value}})
		}
	}
	for _, n := range []string{"simrt", "simssh", "simexec"} {
		if need[n] {
			specs = append(specs, &ast.ImportSpec{Name: id(n), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(simPkgs[n])}})
		}
	}
	var decls []ast.Decl
	for _, s := range specs {
		decls = append(decls, &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{s}})
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		decls = append(decls, d)
	}
	f.Decls = decls
	f.Imports = nil
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeT = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// apply rewrites the tree below v (a settable value) in post-order.
func (p *pkg) apply(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		el := v.Elem()
		if el.Kind() == reflect.Pointer {
			p.children(el)
		}
		n := v.Interface()
		switch v.Type() {
		case exprT:
			e := n.(ast.Expr)
			r := p.expr(e)
			if r != e {
				if tv, ok := p.info.Types[e]; ok {
					if _, dup := p.info.Types[r]; !dup {
						p.info.Types[r] = tv
					}
				}
				v.Set(reflect.ValueOf(r))
			}
		case stmtT:
			s := n.(ast.Stmt)
			r := p.stmt(s)
			if r != s {
				v.Set(reflect.ValueOf(r))
			}
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		p.children(v)
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			p.apply(v.Index(i))
		}
	}
}

func (p *pkg) children(ptr reflect.Value) {
	if ptr.IsNil() {
		return
	}
	switch n := ptr.Interface().(type) {
	case *ast.Ident, *ast.BasicLit, *ast.ImportSpec, *ast.Object, *ast.Scope, *ast.CommentGroup:
		return
	case *ast.SelectorExpr:
		p.apply(reflect.ValueOf(n).Elem().FieldByName("X"))
		return
	case *ast.KeyValueExpr:
		// struct field names are not expressions
		if k, ok := n.Key.(*ast.Ident); ok {
			if v, ok := p.info.Uses[k].(*types.Var); ok && v.IsField() {
				p.apply(reflect.ValueOf(n).Elem().FieldByName("Value"))
				return
			}
		}
	case *ast.GoStmt:
		// the call of a go statement is not an expression of its own
		p.children(reflect.ValueOf(n.Call))
		return
	case *ast.DeferStmt:
		p.children(reflect.ValueOf(n.Call))
		if r := p.expr(n.Call); r != ast.Expr(n.Call) {
			n.Call = r.(*ast.CallExpr)
		}
		return
	case *ast.LabeledStmt:
		p.apply(reflect.ValueOf(n).Elem().FieldByName("Stmt"))
		return
	case *ast.BranchStmt:
		return
	}
	e := ptr.Elem()
	if e.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < e.NumField(); i++ {
		f := e.Field(i)
		switch f.Kind() {
		case reflect.Interface:
			if f.Type() == exprT || f.Type() == stmtT {
				p.apply(f)
			} else if f.Type().Implements(nodeT) && !f.IsNil() {
				p.children(f.Elem())
			}
		case reflect.Pointer:
			if f.Type().Implements(nodeT) && !f.IsNil() {
				p.children(f)
			}
		case reflect.Slice:
			et := f.Type().Elem()
			if et.Implements(nodeT) || et.Kind() == reflect.Interface {
				for j := 0; j < f.Len(); j++ {
					x := f.Index(j)
					if x.Kind() == reflect.Interface && (x.Type() == exprT || x.Type() == stmtT) {
						p.apply(x)
					} else if x.Kind() == reflect.Interface && !x.IsNil() {
						p.children(x.Elem())
					} else if x.Kind() == reflect.Pointer {
						p.children(x)
					}
				}
			}
		}
	}
}

func (p *pkg) pkgNameOf(e ast.Expr) *types.PkgName {
	if i, ok := e.(*ast.Ident); ok {
		if pn, ok := p.info.Uses[i].(*types.PkgName); ok {
			return pn
		}
	}
	return nil
}

func (p *pkg) builtin(e ast.Expr) string {
	for {
		pe, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = pe.X
	}
	if i, ok := e.(*ast.Ident); ok {
		if b, ok := p.info.Uses[i].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (p *pkg) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ChanType:
		return &ast.StarExpr{X: &ast.IndexExpr{X: p.sim("Chan"), Index: x.Value}}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			c := call(sel(call(p.sim("C"), x.X), "Recv"))
			p.recvCall[c] = x.X
			return c
		}
	case *ast.CallExpr:
		return p.callExpr(x)
	case *ast.SelectorExpr:
		if pn := p.pkgNameOf(x.X); pn != nil {
			path := pn.Imported().Path()
			if path == "os" && x.Sel.Name == "Args" {
				return call(p.sim("OsArgs"))
			}
			if m := overrides[path]; m != nil {
				if r, ok := m[x.Sel.Name]; ok {
					return p.sim(r)
				}
			}
			if p.local[path] {
				if v, ok := p.info.Uses[x.Sel].(*types.Var); ok && !v.IsField() {
					return p.access(e, sel(call(sel(x.X, "SimG")), x.Sel.Name))
				}
			}
			return e
		}
		return p.access(e, e)
	case *ast.Ident:
		if o := p.info.Uses[x]; o != nil && p.isGlob[o] {
			return p.access(e, sel(call(id("simG")), x.Name))
		}
		if p.race {
			if o := p.info.Uses[x]; o != nil && p.captured[o] {
				return p.access(e, e)
			}
		}
	case *ast.IndexExpr:
		return p.index(x)
	case *ast.StarExpr:
		if tv, ok := p.info.Types[e]; ok && tv.IsValue() {
			return p.access(e, e)
		}
	case *ast.CompositeLit:
		if t := p.typeOf(x); t != nil {
			if m, ok := under(t).(*types.Map); ok && ptrKey(m.Key()) {
				for _, el := range x.Elts {
					if kv, ok := el.(*ast.KeyValueExpr); ok {
						kv.Key = call(p.sim("NoteKey"), kv.Key)
					}
				}
			}
		}
	}
	return e
}

func (p *pkg) callExpr(x *ast.CallExpr) ast.Expr {
	switch p.builtin(x.Fun) {
	case "make":
		t := p.typeOf(x.Args[0])
		if !isChan(t) {
			return x
		}
		var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
		if len(x.Args) > 1 {
			n = call(id("int"), x.Args[1])
		}
		if st, ok := x.Args[0].(*ast.StarExpr); ok {
			if ix, ok := st.X.(*ast.IndexExpr); ok {
				return call(&ast.IndexExpr{X: p.sim("MakeChan"), Index: ix.Index}, n)
			}
		}
		el := under(t).(*types.Chan).Elem()
		return call(x.Args[0], call(&ast.IndexExpr{X: p.sim("MakeChan"), Index: p.typeAST(el)}, n))
	case "close":
		return call(sel(call(p.sim("C"), x.Args[0]), "Close"))
	case "len":
		if isChan(p.typeOf(x.Args[0])) {
			return call(sel(call(p.sim("C"), x.Args[0]), "Len"))
		}
		if p.race && isMap(p.typeOf(x.Args[0])) {
			x.Args[0] = call(p.sim("MapR"), x.Args[0], str(p.pos(x)))
		}
		return x
	case "cap":
		if isChan(p.typeOf(x.Args[0])) {
			return call(sel(call(p.sim("C"), x.Args[0]), "Cap"))
		}
		return x
	case "delete":
		if p.race {
			x.Args[0] = call(p.sim("MapW"), x.Args[0], str(p.pos(x)))
		}
		return x
	case "":
	default:
		return x
	}
	f, ok := x.Fun.(*ast.SelectorExpr)
	if !ok {
		return x
	}
	if pn := p.pkgNameOf(f.X); pn != nil {
		if pn.Imported().Path() == "sync/atomic" && len(x.Args) > 0 {
			if fn, ok := p.info.Uses[f.Sel].(*types.Func); ok && fn != nil {
				x.Args[0] = call(p.sim("AtomicPt"), x.Args[0])
			}
		}
		return x
	}
	if s := p.info.Selections[f]; s != nil && s.Kind() == types.MethodVal {
		fn := s.Obj().(*types.Func)
		if fn.Pkg() == nil {
			return x
		}
		path := fn.Pkg().Path()
		if fn.FullName() == "(context.Context).Done" {
			return call(p.sim("CtxDone"), f.X)
		}
		recv := s.Recv()
		_, isPtr := recv.Underlying().(*types.Pointer)
		_, isIf := recv.Underlying().(*types.Interface)
		direct := len(s.Index()) == 1
		if path == "sync/atomic" {
			if isPtr {
				f.X = call(p.sim("AtomicPt"), f.X)
			} else if direct && p.addressable(f.X) {
				f.X = call(p.sim("AtomicPt"), amp(f.X))
			} else {
				x.Args = append([]ast.Expr{}, x.Args...)
			}
			return x
		}
		ext := false
		if q, ok := f.X.(*ast.SelectorExpr); ok {
			if id, ok := q.X.(*ast.Ident); ok {
				// a variable of another package is not part of the node's state
				if pn, ok := p.info.Uses[id].(*types.PkgName); ok && !p.local[pn.Imported().Path()] {
					ext = true
				}
			}
		}
		if sg, ok := fn.Type().(*types.Signature); ok && sg.Recv() != nil && !isIf {
			if _, ptr := sg.Recv().Type().Underlying().(*types.Pointer); !ptr {
				ext = true // works on a copy
			}
		}
		if p.race && !ext && !p.local[path] && !safe(path) {
			site := str(p.pos(x))
			if isPtr || isIf {
				f.X = call(p.sim("Obj"), f.X, site)
			} else if direct && p.addressable(f.X) {
				f.X = call(p.sim("Obj"), amp(f.X), site)
			}
		}
	}
	return x
}

// safePkg are packages whose objects may be used by several goroutines, or that
// are replaced by simrt.
var safePkg = map[string]bool{"sync": true, "sync/atomic": true, "time": true, "log": true, "net": true, "flag": true, "context": true, "os": true, "io": true, "reflect": true, "encoding/gob": true, "errors": true, "fmt": true, "syscall": true, "runtime": true, "regexp": true,
	"net/http": true, "net/url": true, "os/exec": true, "golang.org/x/crypto/ssh": true}

// safe tells whether the objects of a package may be shared by goroutines.
func safe(path string) bool {
	return safePkg[path] || strings.HasPrefix(path, "github.com/aws/aws-sdk-go/")
}

func (p *pkg) addressable(e ast.Expr) bool {
	tv, ok := p.info.Types[e]
	return ok && tv.Addressable()
}

// access wraps a memory access for race detection.
func (p *pkg) access(orig, now ast.Expr) ast.Expr {
	if !p.race || p.skip[orig] {
		return now
	}
	tv, ok := p.info.Types[orig]
	if !ok {
		// identifiers used as variables
		if i, isID := orig.(*ast.Ident); isID {
			if _, isV := p.info.Uses[i].(*types.Var); !isV {
				return now
			}
		} else {
			return now
		}
	} else if !tv.Addressable() {
		return now
	}
	if s, ok := orig.(*ast.SelectorExpr); ok {
		sl := p.info.Selections[s]
		if sl == nil {
			if p.pkgNameOf(s.X) == nil {
				return now
			}
		} else if sl.Kind() != types.FieldVal {
			return now
		}
	}
	fn := "Rd"
	if p.write[orig] {
		fn = "Wr"
	}
	return &ast.ParenExpr{X: &ast.StarExpr{X: call(p.sim(fn), amp(now), str(p.pos(orig)))}}
}

func (p *pkg) index(x *ast.IndexExpr) ast.Expr {
	tv, ok := p.info.Types[x.X]
	if !ok || !tv.IsValue() {
		return x
	}
	if m, ok := under(tv.Type).(*types.Map); ok {
		if p.write[x] || p.mapWrite(x) {
			if ptrKey(m.Key()) {
				x.Index = call(p.sim("NoteKey"), x.Index)
			}
		}
		if p.race {
			fn := "MapR"
			if p.write[x] {
				fn = "MapW"
			}
			x.X = call(p.sim(fn), x.X, str(p.pos(x)))
		}
		return x
	}
	switch under(tv.Type).(type) {
	case *types.Slice, *types.Array, *types.Pointer:
		return p.access(x, x)
	}
	return x
}

var lhsMaps = map[*ast.IndexExpr]bool{}

func (p *pkg) mapWrite(x *ast.IndexExpr) bool { return lhsMaps[x] }

func (p *pkg) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		c := call(sel(call(p.sim("C"), x.Chan), "Send"), x.Value)
		p.sendCall[c] = true
		return expr(c)
	case *ast.GoStmt:
		return p.goStmt(x)
	case *ast.AssignStmt:
		if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			p.toRecv2(x.Rhs[0])
		}
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					p.toRecv2(vs.Values[0])
				}
			}
		}
	case *ast.RangeStmt:
		return p.rangeStmt(x)
	case *ast.ForStmt:
		x.Body = prologue(x.Body, expr(call(p.sim("Tick_"))))
	case *ast.SelectStmt:
		return p.selectStmt(x)
	}
	return s
}

func unparen(e ast.Expr) ast.Expr {
	for {
		x, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = x.X
	}
}

func (p *pkg) toRecv2(e ast.Expr) {
	if c, ok := unparen(e).(*ast.CallExpr); ok {
		if _, ok := p.recvCall[c]; ok {
			c.Fun.(*ast.SelectorExpr).Sel = id("Recv2")
		}
	}
}

func (p *pkg) goStmt(x *ast.GoStmt) ast.Stmt {
	name := str(p.pos(x))
	c := x.Call
	if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
		return expr(call(p.sim("Go"), name, fl))
	}
	if b := p.builtin(c.Fun); b != "" {
		nc := p.callExpr(c)
		return expr(call(p.sim("Go"), name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{expr(nc)}}}))
	}
	var lhs, rhs []ast.Expr
	hoist := true
	switch f := unparen(c.Fun).(type) {
	case *ast.Ident:
		if _, ok := p.info.Uses[f].(*types.Func); ok {
			hoist = false
		}
	case *ast.SelectorExpr:
		if i, ok := f.X.(*ast.Ident); ok && (i.Name == "simrt" || p.pkgNameOf(i) != nil) {
			hoist = false
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		if tv, ok := p.info.Types[f]; ok && tv.IsValue() {
			if ix, ok := f.(*ast.IndexExpr); ok {
				if tv2, ok := p.info.Types[ix.X]; ok {
					if _, isSig := under(tv2.Type).(*types.Signature); isSig {
						hoist = false
					}
				}
			}
		}
	}
	p.tmp++
	if hoist {
		n := fmt.Sprintf("simf%d", p.tmp)
		lhs = append(lhs, id(n))
		rhs = append(rhs, c.Fun)
		c.Fun = id(n)
	}
	for i, a := range c.Args {
		tv, ok := p.info.Types[a]
		if ok && (tv.Value != nil || tv.IsNil()) {
			continue
		}
		n := fmt.Sprintf("sima%d_%d", p.tmp, i)
		lhs = append(lhs, id(n))
		rhs = append(rhs, a)
		c.Args[i] = id(n)
	}
	goCall := expr(call(p.sim("Go"), name, &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{expr(c)}}}))
	if len(lhs) == 0 {
		return goCall
	}
	return &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}, goCall}}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	i, ok := e.(*ast.Ident)
	return ok && i.Name == "_"
}

func (p *pkg) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := p.typeOf(x.X)
	switch {
	case t != nil && isChan(t):
		one := func(e ast.Expr) ast.Expr {
			if isBlank(e) {
				return id("_")
			}
			return e
		}
		def := x.Tok == token.DEFINE || x.Key == nil
		var v ast.Expr = id("simv")
		body := x.Body
		if def {
			v = one(x.Key)
			if i, ok := v.(*ast.Ident); ok && i.Name != "_" {
				body = prologue(body, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(i.Name)}})
			}
		} else {
			body = prologue(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{id("simv")}})
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id("simch"), v, id("simok")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(p.sim("RangeStart"), x.X)}},
			Cond: id("simok"),
			Post: &ast.AssignStmt{Lhs: []ast.Expr{v, id("simok")}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sel(id("simch"), "Recv2"))}},
			Body: body,
		}
	case t != nil && isMap(t):
		m := x.X
		if p.race {
			m = call(p.sim("MapR"), m, str(p.pos(x)))
		}
		var k, v ast.Expr = id("_"), id("_")
		var pk, pv ast.Expr = id("nil"), id("nil")
		body := x.Body
		if x.Tok == token.DEFINE {
			if !isBlank(x.Key) {
				k, pk = x.Key, amp(x.Key)
			}
			if !isBlank(x.Value) {
				v, pv = x.Value, amp(x.Value)
			}
		} else {
			var st []ast.Stmt
			if !isBlank(x.Key) {
				st = append(st, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sel(id("simit"), "Key"))}})
			}
			if !isBlank(x.Value) {
				st = append(st, &ast.AssignStmt{Lhs: []ast.Expr{x.Value}, Tok: token.ASSIGN, Rhs: []ast.Expr{call(sel(id("simit"), "Val"))}})
			}
			body = prologue(body, st...)
		}
		return &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{id("simit"), k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{call(p.sim("MapIter"), m)}},
			Cond: call(sel(id("simit"), "Next"), pk, pv),
			Body: body,
		}
	}
	return x
}

func prologue(b *ast.BlockStmt, st ...ast.Stmt) *ast.BlockStmt {
	if len(st) == 0 {
		return b
	}
	return &ast.BlockStmt{List: append(st, b.List...)}
}

func (p *pkg) selectStmt(x *ast.SelectStmt) ast.Stmt {
	p.tmp++
	base := p.tmp
	var lhs, rhs []ast.Expr
	hasDef := false
	var clauses []ast.Stmt
	args := []ast.Expr{nil}
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		n := fmt.Sprintf("simc%d_%d", base, len(lhs))
		var body []ast.Stmt
		switch st := cc.Comm.(type) {
		case *ast.ExprStmt:
			cl := unparen(st.X).(*ast.CallExpr)
			if p.sendCall[cl] {
				cl.Fun.(*ast.SelectorExpr).Sel = id("SendCase")
				rhs = append(rhs, cl)
			} else {
				ch, ok := p.recvCall[cl]
				if !ok {
					die("%s: select case not understood", p.pos(cc))
				}
				rhs = append(rhs, call(p.sim("RecvCase"), call(p.sim("C"), ch)))
			}
		case *ast.AssignStmt:
			cl := unparen(st.Rhs[0]).(*ast.CallExpr)
			ch, ok := p.recvCall[cl]
			if !ok {
				die("%s: select case not understood", p.pos(cc))
			}
			rhs = append(rhs, call(p.sim("RecvCase"), call(p.sim("C"), ch)))
			m := "Val"
			if len(st.Lhs) == 2 {
				m = "Val2"
			}
			blank := true
			for _, l := range st.Lhs {
				if !isBlank(l) {
					blank = false
				}
			}
			tok := st.Tok
			if blank {
				tok = token.ASSIGN
			}
			body = append(body, &ast.AssignStmt{Lhs: st.Lhs, Tok: tok, Rhs: []ast.Expr{call(sel(id(n), m))}})
		default:
			die("%s: select case not understood", p.pos(cc))
		}
		lhs = append(lhs, id(n))
		args = append(args, id(n))
		clauses = append(clauses, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(lhs) - 1)}}, Body: append(body, cc.Body...)})
	}
	if !hasDef {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{expr(call(id("panic"), str("unreachable")))}})
		args[0] = id("false")
	} else {
		args[0] = id("true")
	}
	sw := &ast.SwitchStmt{Tag: call(p.sim("Select"), args...), Body: &ast.BlockStmt{List: clauses}}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	return sw
}

// ---------------------------------------------------------------- hooks

func (p *pkg) wrapHook(fd *ast.FuncDecl) ast.Decl {
	isMsg := fd.Name.Name == "HandleMessage" && fd.Recv != nil
	if !p.hook && !isMsg {
		return nil
	}
	if !fd.Name.IsExported() || fd.Body == nil || hookSkip[fd.Name.Name] || fd.Name.Name == "Main" {
		return nil
	}
	orig := fd.Name.Name
	short := filepath.Base(p.l.ImportPath)
	recvName := ""
	var recv *ast.FieldList
	var selfArg ast.Expr = id("nil")
	if fd.Recv != nil {
		t := fd.Recv.List[0].Type
		tt := t
		if s, ok := tt.(*ast.StarExpr); ok {
			tt = s.X
		}
		switch y := tt.(type) {
		case *ast.IndexExpr:
			tt = y.X
		case *ast.IndexListExpr:
			tt = y.X
		}
		recvName = tt.(*ast.Ident).Name
		recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id("simself")}, Type: t}}}
		selfArg = id("simself")
	}
	key := short + "." + orig
	if recvName != "" {
		key = short + "." + recvName + "." + orig
	}
	var params []*ast.Field
	var fwd, hargs []ast.Expr
	ell := token.NoPos
	n := 0
	for _, f := range fd.Type.Params.List {
		k := len(f.Names)
		if k == 0 {
			k = 1
		}
		for i := 0; i < k; i++ {
			nm := fmt.Sprintf("simp%d", n)
			n++
			params = append(params, &ast.Field{Names: []*ast.Ident{id(nm)}, Type: f.Type})
			fwd = append(fwd, id(nm))
			hargs = append(hargs, id(nm))
			if _, ok := f.Type.(*ast.Ellipsis); ok {
				ell = 1
			}
		}
	}
	var results []*ast.Field
	var rs, rp, rr []ast.Expr
	if fd.Type.Results != nil {
		m := 0
		for _, f := range fd.Type.Results.List {
			k := len(f.Names)
			if k == 0 {
				k = 1
			}
			for i := 0; i < k; i++ {
				nm := fmt.Sprintf("simr%d", m)
				m++
				results = append(results, &ast.Field{Type: f.Type})
				rs = append(rs, id(nm))
				rp = append(rp, amp(id(nm)))
				rr = append(rr, id(nm))
			}
		}
	}
	newName := "simorig_" + orig
	fd.Name = id(newName)
	var target ast.Expr
	if recv != nil {
		target = sel(id("simself"), newName)
	} else {
		target = id(newName)
		if tp := fd.Type.TypeParams; tp != nil {
			var ids []ast.Expr
			for _, f := range tp.List {
				for _, nm := range f.Names {
					ids = append(ids, id(nm.Name))
				}
			}
			if len(ids) == 1 {
				target = &ast.IndexExpr{X: target, Index: ids[0]}
			} else {
				target = &ast.IndexListExpr{X: target, Indices: ids}
			}
		}
	}
	cl := &ast.CallExpr{Fun: target, Args: fwd, Ellipsis: ell}
	var body []ast.Stmt
	body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{id("simh")}, Tok: token.DEFINE, Rhs: []ast.Expr{call(p.sim("HookEnter"), append([]ast.Expr{str(key), selfArg}, hargs...)...)}})
	if len(rs) > 0 {
		body = append(body, &ast.AssignStmt{Lhs: rs, Tok: token.DEFINE, Rhs: []ast.Expr{cl}})
	} else {
		body = append(body, expr(cl))
	}
	body = append(body, expr(call(sel(id("simh"), "Exit"), rp...)))
	if len(rs) > 0 {
		body = append(body, &ast.ReturnStmt{Results: rr})
	}
	ft := &ast.FuncType{TypeParams: fd.Type.TypeParams, Params: &ast.FieldList{List: params}}
	if len(results) > 0 {
		ft.Results = &ast.FieldList{List: results}
	}
	return &ast.FuncDecl{Recv: recv, Name: id(orig), Type: ft, Body: &ast.BlockStmt{List: body}}
}

// ---------------------------------------------------------------- race marks

func (p *pkg) findCaptured() {
	p.captured = map[types.Object]bool{}
	for _, f := range p.files {
		var stack []ast.Node
		var fns []ast.Node // enclosing functions
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				switch top.(type) {
				case *ast.FuncLit, *ast.FuncDecl:
					fns = fns[:len(fns)-1]
				}
				return true
			}
			stack = append(stack, n)
			switch x := n.(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				fns = append(fns, n)
			case *ast.Ident:
				v, ok := p.info.Uses[x].(*types.Var)
				if !ok || v.IsField() || p.isGlob[v] || len(fns) == 0 {
					return true
				}
				in := fns[len(fns)-1]
				if lit, ok := in.(*ast.FuncLit); ok {
					if v.Pos() < lit.Pos() || v.Pos() > lit.End() {
						p.captured[v] = true
					}
				}
			}
			return true
		})
	}
}

func (p *pkg) markAccess(f *ast.File) {
	var markPath func(e ast.Expr)
	markPath = func(e ast.Expr) {
		// e is only used as an address
		p.skip[e] = true
		switch x := e.(type) {
		case *ast.ParenExpr:
			markPath(x.X)
		}
	}
	lhs := func(e ast.Expr) {
		for {
			if pe, ok := e.(*ast.ParenExpr); ok {
				e = pe.X
				continue
			}
			break
		}
		p.write[e] = true
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				markPath(x.X)
			}
		case *ast.SelectorExpr:
			if s := p.info.Selections[x]; s != nil {
				if s.Kind() == types.FieldVal {
					// struct value operand: part of the path
					if t := p.typeOf(x.X); t != nil {
						if _, ok := t.Underlying().(*types.Struct); ok {
							markPath(x.X)
						}
					}
				} else if s.Kind() == types.MethodVal {
					if fn, ok := s.Obj().(*types.Func); ok {
						if sg := fn.Type().(*types.Signature); sg.Recv() != nil {
							_, wantsPtr := sg.Recv().Type().Underlying().(*types.Pointer)
							t := p.typeOf(x.X)
							if t != nil {
								_, isPtr := t.Underlying().(*types.Pointer)
								if wantsPtr && !isPtr || len(s.Index()) > 1 && !isPtr {
									markPath(x.X)
								}
							}
						}
					}
				}
			}
		case *ast.IndexExpr:
			if t := p.typeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					markPath(x.X)
				}
			}
		case *ast.SliceExpr:
			if t := p.typeOf(x.X); t != nil {
				if _, ok := t.Underlying().(*types.Array); ok {
					markPath(x.X)
				}
			}
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				if x.Tok == token.DEFINE {
					markPath(l)
				} else {
					lhs(l)
				}
			}
		case *ast.IncDecStmt:
			lhs(x.X)
		case *ast.RangeStmt:
			if x.Key != nil {
				if x.Tok == token.DEFINE {
					markPath(x.Key)
				} else {
					lhs(x.Key)
				}
			}
			if x.Value != nil {
				if x.Tok == token.DEFINE {
					markPath(x.Value)
				} else {
					lhs(x.Value)
				}
			}
			// ranging over an array by value reads it as a whole: fine
		}
		return true
	})
}

// ---------------------------------------------------------------- types

type typeWriter struct {
	pkg     *types.Package
	imports map[string]string
}

func (w *typeWriter) q(pk *types.Package) string {
	if pk == w.pkg {
		return ""
	}
	a, ok := w.imports[pk.Path()]
	if !ok {
		a = fmt.Sprintf("simi%d", len(w.imports))
		w.imports[pk.Path()] = a
	}
	return a + "."
}

func (w *typeWriter) str(t types.Type) string {
	switch x := t.(type) {
	case *types.Named:
		o := x.Obj()
		s := o.Name()
		if o.Pkg() != nil {
			if m := overrides[o.Pkg().Path()]; m != nil {
				if r, ok := m[o.Name()]; ok {
					if strings.Contains(r, ".") {
						return r
					}
					return "simrt." + r
				}
			}
			s = w.q(o.Pkg()) + o.Name()
		}
		if a := x.TypeArgs(); a != nil && a.Len() > 0 {
			var l []string
			for i := 0; i < a.Len(); i++ {
				l = append(l, w.str(a.At(i)))
			}
			s += "[" + strings.Join(l, ", ") + "]"
		}
		return s
	case *types.Alias:
		return w.str(types.Unalias(x))
	case *types.Pointer:
		return "*" + w.str(x.Elem())
	case *types.Slice:
		return "[]" + w.str(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), w.str(x.Elem()))
	case *types.Map:
		return "map[" + w.str(x.Key()) + "]" + w.str(x.Elem())
	case *types.Chan:
		return "*simrt.Chan[" + w.str(x.Elem()) + "]"
	case *types.Basic:
		if x.Kind() == types.UnsafePointer {
			return w.q(types.Unsafe) + "Pointer"
		}
		return types.Default(x).String()
	case *types.Signature:
		return "func" + w.sig(x)
	case *types.Struct:
		var b strings.Builder
		b.WriteString("struct{")
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			if !f.Embedded() {
				b.WriteString(f.Name() + " ")
			}
			b.WriteString(w.str(f.Type()) + "; ")
		}
		b.WriteString("}")
		return b.String()
	case *types.Interface:
		if x.NumMethods() == 0 && x.NumEmbeddeds() == 0 {
			return "interface{}"
		}
		var b strings.Builder
		b.WriteString("interface{")
		for i := 0; i < x.NumExplicitMethods(); i++ {
			m := x.ExplicitMethod(i)
			b.WriteString(m.Name() + w.sig(m.Type().(*types.Signature)) + "; ")
		}
		for i := 0; i < x.NumEmbeddeds(); i++ {
			b.WriteString(w.str(x.EmbeddedType(i)) + "; ")
		}
		b.WriteString("}")
		return b.String()
	case *types.TypeParam:
		return x.Obj().Name()
	}
	die("type %v not supported for package state", t)
	return ""
}

func (w *typeWriter) sig(s *types.Signature) string {
	var ps, rs []string
	for i := 0; i < s.Params().Len(); i++ {
		t := s.Params().At(i).Type()
		if s.Variadic() && i == s.Params().Len()-1 {
			ps = append(ps, "..."+w.str(t.(*types.Slice).Elem()))
		} else {
			ps = append(ps, w.str(t))
		}
	}
	for i := 0; i < s.Results().Len(); i++ {
		rs = append(rs, w.str(s.Results().At(i).Type()))
	}
	r := "(" + strings.Join(ps, ", ") + ")"
	if len(rs) > 0 {
		r += " (" + strings.Join(rs, ", ") + ")"
	}
	return r
}

// typeAST is used only for elements of named channel types.
func (p *pkg) typeAST(t types.Type) ast.Expr {
	w := &typeWriter{pkg: p.types, imports: map[string]string{}}
	s := w.str(t)
	if len(w.imports) > 0 {
		// use the names under which this file imports the packages
		for _, im := range p.file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if a, ok := w.imports[path]; ok {
				n := filepath.Base(path)
				if im.Name != nil {
					n = im.Name.Name
				}
				s = strings.ReplaceAll(s, a+".", n+".")
			}
		}
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		die("type %s: %v", s, err)
	}
	return e
}
