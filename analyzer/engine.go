package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Config adapts the engine to one specification.
type Config struct {
	maxRec     int
	tabulate   bool
	foldLists  bool
	foldKinds  bool // kinds of nodes are joined like numbers, not told apart
	intercept  func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool)
	callback   func(e *Engine, st *State, cb VCallback, args []Value, pos token.Pos) ([]resv, []panicRes)
	ifaceCall  func(e *Engine, st *State, recv Value, m *types.Func, args []Value, pos token.Pos) ([]resv, bool)
	external   func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, bool)
	genElem    func(e *Engine, st *State, t types.Type, a *Atom, off Lin, pos token.Pos) []resv
	nodeCheck  func(e *Engine, st *State, s VStruct) string
	budget     int  // steps
	failFast   bool // a node that fails nodeCheck ends the exploration
	nonEmpty   bool // nodeCheck admits no node with an empty text
	nodeLine   func(st *State, text Seq) (Lin, bool)
	monitor    func(e *Engine, st *State) []*State
	knownNode  func(st *State, text Seq) bool
	dropNode   func(e *Engine, st *State, id ObjID)
	foldElem   func(e *Engine, st *State, o *Object, el LElem) (LElem, bool)
	onAppend   func(e *Engine, st *State, args []Value, pos token.Pos)
	unkEq      func(e *Engine, st *State, x Value, u VUnk) []boolRes
	atHeader   func(e *Engine, u *Unit, st *State)
	onTab      func(e *Engine, u *Unit, st *State, fn *ssa.Function, args []Value, pos token.Pos)
	propagateP bool
	spare      int                                   // slices grown by append have room for as many more elements
	noFold     bool                                  // explicit nodes stay explicit
	isNot      func(st *State, s Seq, c string) bool // a text that is known to be none of some words
	keepPreds  bool                                  // answers to questions about texts are remembered
	onEvent    func(e *Engine, st *State, ev Event)
	onStore    func(e *Engine, st *State, o *Object, path string, pos token.Pos)
	derefUnk   func(e *Engine, st *State, u VUnk, t types.Type, pos token.Pos) ([]resv, []panicRes)
	preFold    func(e *Engine, st *State)
	onNode     func(e *Engine, st *State, from, id ObjID, forward bool) []*State // a node of a run was exposed
}

// Program is the loaded source of the repository.
type Program struct {
	dir     string
	module  string
	fset    *token.FileSet
	pkgs    []*packages.Package // packages of the module
	prog    *ssa.Program
	byPath  map[string]*ssa.Package
	root    *ssa.Package
	funcs   map[*ssa.Function]bool
	infos   map[*ssa.Function]*FnInfo
	scc     map[*ssa.Function]int
	sccSize map[int]int
	selfRec map[*ssa.Function]bool
	modFns  []*ssa.Function
	parity  bool // the module asks whether numbers are odd
}

// Roles are the node fields, found through the accessor methods.
type Roles struct {
	node                         types.Type
	kind_                        types.Type
	prev, next, text, line, kind int
	nfields                      int
}

// Engine runs the abstract interpretation.
type Engine struct {
	*Program
	cfg     *Config
	globals map[*ssa.Global]ObjID
	base    map[ObjID]*Object
	baseMax ObjID
	baseSt  *State
	role    Roles
	joining bool
	stored  Value // what an object is to hold, during onStore
	find    Findings
	budget  int
	memAt   int  // the step at which the memory was measured
	full    bool // the memory is used up
	began   time.Time
	limit   time.Duration
	steps   int
	aborted bool
	touched map[*ssa.Function]bool

	pushedByIntrinsic bool
	errSeq            int
	nshapes           int
	debugHeads        bool

	kindIdx  map[string]int
	kindName []string
	kindText []string
	tab      map[string]*Unit
	queue    []*Unit
	calls    int
}

func load(dir string) (*Program, error) {
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=readonly", "GOWORK=off", "CGO_ENABLED=0")
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: dir, Env: env, Fset: fset, Tests: false}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{dir: dir, fset: fset, byPath: map[string]*ssa.Package{}, infos: map[*ssa.Function]*FnInfo{}}
	for _, pk := range pkgs {
		tests := 0
		for _, f := range pk.GoFiles {
			if strings.HasSuffix(f, "_test.go") {
				tests++
			}
		}
		if tests == len(pk.GoFiles) {
			continue // nothing but tests, and what they left behind
		}
		if len(pk.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", pk.PkgPath, pk.Errors[0])
		}
		if pk.Module != nil && p.module == "" {
			p.module = pk.Module.Path
		}
		p.pkgs = append(p.pkgs, pk)
	}
	if p.module == "" {
		return nil, fmt.Errorf("no module found in %s", dir)
	}
	prog, _ := ssautil.AllPackages(p.pkgs, ssa.InstantiateGenerics)
	p.prog = prog
	for _, sp := range prog.AllPackages() {
		p.byPath[sp.Pkg.Path()] = sp
		if sp.Pkg.Path() == p.module || strings.HasPrefix(sp.Pkg.Path(), p.module+"/") {
			sp.Build()
		}
	}
	for _, pk := range p.pkgs {
		sp := p.byPath[pk.PkgPath]
		if sp == nil {
			return nil, fmt.Errorf("package %s not built", pk.PkgPath)
		}
	}
	p.root = p.byPath[p.module]
	if p.root == nil {
		return nil, fmt.Errorf("package %s not found", p.module)
	}
	return p, nil
}

func (p *Program) posStr(pos token.Pos) string {
	if pos == token.NoPos {
		return "-"
	}
	q := p.fset.Position(pos)
	f := strings.TrimPrefix(q.Filename, p.dir+"/")
	return fmt.Sprintf("%s:%d:%d", f, q.Line, q.Column)
}

func (p *Program) info(fn *ssa.Function) *FnInfo {
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	fi := newFnInfo(fn)
	p.infos[fn] = fi
	return fi
}

func pkgOf(fn *ssa.Function) *types.Package {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if o := fn.Object(); o != nil {
		return o.Pkg()
	}
	return nil
}

func (p *Program) modulePath(path string) bool {
	return path == p.module || strings.HasPrefix(path, p.module+"/")
}

func (p *Program) inModule(fn *ssa.Function) bool {
	if k := pkgOf(fn); k != nil {
		return p.modulePath(k.Path())
	}
	// wrappers and bound methods: judged by their only callee
	return fn.Synthetic != ""
}

var purePkgs = map[string]bool{"strings": true, "bytes": true, "slices": true, "maps": true, "cmp": true, "unicode/utf8": true, "unicode": true, "sort": true, "iter": true, "errors": false}

func (p *Program) inlinable(fn *ssa.Function) bool {
	k := pkgOf(fn)
	if k == nil || !purePkgs[k.Path()] {
		return false
	}
	for f := fn; f != nil; f = f.Parent() {
		g := f
		if g.Origin() != nil {
			g = g.Origin()
		}
		if g.Pkg != nil {
			g.Pkg.Build()
		}
	}
	return fn.Blocks != nil
}

// recursive reports whether a function can reach itself through static calls and closures.
func (p *Program) recursive(fn *ssa.Function) bool {
	if p.scc == nil {
		p.buildSCC()
	}
	id, ok := p.scc[fn]
	return ok && (p.sccSize[id] > 1 || p.selfRec[fn])
}

func (p *Program) buildSCC() {
	p.scc = map[*ssa.Function]int{}
	p.sccSize = map[int]int{}
	p.selfRec = map[*ssa.Function]bool{}
	all := ssautil.AllFunctions(p.prog)
	var fns []*ssa.Function
	for f := range all {
		if f.Blocks != nil && p.inModule(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	p.modFns = fns
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if o, ok := in.(*ssa.BinOp); ok && (o.Op == token.REM && isConstInt(o.Y, 2) || o.Op == token.AND && isConstInt(o.Y, 1)) {
					p.parity = true
				}
			}
		}
	}
	index, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n, nscc := 0, 0
	succ := func(f *ssa.Function) []*ssa.Function {
		var r []*ssa.Function
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					if g, ok := (*o).(*ssa.Function); ok && g.Blocks != nil && p.inModule(g) {
						r = append(r, g)
					}
				}
			}
		}
		return r
	}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		index[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, g := range succ(f) {
			if g == f {
				p.selfRec[f] = true
			}
			if index[g] == 0 {
				visit(g)
				if low[g] < low[f] {
					low[f] = low[g]
				}
			} else if on[g] && index[g] < low[f] {
				low[f] = index[g]
			}
		}
		if low[f] == index[f] {
			nscc++
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				p.scc[g] = nscc
				p.sccSize[nscc]++
				if g == f {
					break
				}
			}
		}
	}
	for _, f := range fns {
		if index[f] == 0 {
			visit(f)
		}
	}
	// closures do not make their parent recursive unless they call it; a parent that only creates a closure
	// which does not reach the parent is in a component of its own
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// newEngine evaluates the package initialisers of the module and returns an engine for one specification.
func (p *Program) newEngine(cfg *Config) (*Engine, error) {
	e0 := os.Getenv("GOAST_BUDGET")
	if cfg.maxRec == 0 {
		cfg.maxRec = 12
	}
	e := &Engine{Program: p, cfg: cfg, globals: map[*ssa.Global]ObjID{}, base: map[ObjID]*Object{}, touched: map[*ssa.Function]bool{},
		tab: map[string]*Unit{}, budget: 60_000_000, began: time.Now(), limit: 400 * time.Second,
		find: Findings{panics: map[string]*PanicExit{}, undecided: map[string]*State{}, bad: map[string]*State{}}}
	if cfg.budget > 0 {
		e.budget = cfg.budget
	}
	if n, err := strconv.Atoi(e0); err == nil {
		e.budget = n
	}
	e.debugHeads = os.Getenv("GOAST_HEADS") != ""
	if err := e.findTypes(); err != nil {
		return nil, err
	}
	st := &State{e: e, heap: map[ObjID]*Object{}, zone: newZone(), srcs: map[SrcID]*Src{}, kinds: map[KSym]KindSet{}, ghost: map[string]Value{}}
	var paths []string
	for path := range p.byPath {
		if p.modulePath(path) {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		var names []string
		for n, m := range p.byPath[path].Members {
			if _, ok := m.(*ssa.Global); ok {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		for _, n := range names {
			g := p.byPath[path].Members[n].(*ssa.Global)
			t := deref(g.Type())
			e.globals[g] = st.alloc(&Object{kind: oPlain, typ: t, val: e.zero(t)})
		}
	}
	// init of every package of the module; imported packages first by the init functions themselves
	save := cfg.intercept
	cfg2 := *cfg
	cfg2.callback, cfg2.genElem, cfg2.atHeader, cfg2.onAppend = nil, nil, nil, nil
	cfg2.intercept = func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if fn.Name() == "init" && fn.Pkg != nil && fn.Synthetic != "" && !p.modulePath(fn.Pkg.Pkg.Path()) {
			return one(st, VTuple{}), nil, true
		}
		return nil, nil, false
	}
	_ = save
	e.cfg = &cfg2
	for _, path := range paths {
		fn := p.byPath[path].Func("init")
		u := &Unit{e: e, name: "init " + path, fn: fn, headers: map[string]*headGroup{}, symbolic: map[string]bool{}}
		s := st.clone()
		e.push(s, VFunc{Fn: fn}, nil, false)
		u.work = []*State{s}
		u.final = func(s *State, res Value) { st = s }
		e.run(u)
		if len(u.panics) > 0 {
			return nil, fmt.Errorf("package initialisation of %s panics: %s", path, u.panics[0].msg)
		}
		for m := range e.find.undecided {
			return nil, fmt.Errorf("package initialisation of %s: %s", path, m)
		}
		if u.nfinal != 1 {
			return nil, fmt.Errorf("package initialisation of %s has %d outcomes", path, u.nfinal)
		}
	}
	e.cfg = cfg
	for id, o := range st.heap {
		e.base[id] = o
		if id > e.baseMax {
			e.baseMax = id
		}
	}
	e.baseSt = st
	e.joining = true
	e.touched = map[*ssa.Function]bool{}
	e.steps = 0
	if err := e.findKinds(); err != nil {
		return nil, err
	}
	e.cfg = &cfg2
	if err := e.findRoles(); err != nil {
		return nil, err
	}
	e.cfg = cfg
	return e, nil
}

// newState makes an initial state.
func (e *Engine) newState() *State {
	return &State{e: e, heap: map[ObjID]*Object{}, zone: newZone(), srcs: map[SrcID]*Src{}, kinds: map[KSym]KindSet{},
		ghost: map[string]Value{}, nextObj: e.baseMax}
}

func (e *Engine) isNode(t types.Type) bool { return t != nil && types.Identical(t, e.role.node) }
func (e *Engine) isKindType(t types.Type) bool {
	return t != nil && types.Identical(t, e.role.kind_)
}

// findTypes finds the node and kind types.
func (e *Engine) findTypes() error {
	obj := e.root.Pkg.Scope().Lookup("Node")
	if obj == nil {
		return fmt.Errorf("type Node not found")
	}
	e.role.node = obj.Type()
	st, ok := obj.Type().Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("Node is not a struct")
	}
	e.role.nfields = st.NumFields()
	k := e.method("Node", "Kind")
	if k == nil {
		return fmt.Errorf("method Node.Kind not found")
	}
	e.role.kind_ = k.Signature.Results().At(0).Type()
	e.role.prev, e.role.next, e.role.text, e.role.line, e.role.kind = -1, -1, -1, -1, -1
	return nil
}

// findRoles identifies the fields of Node by what the accessor methods return for a node with distinct fields.
func (e *Engine) findRoles() error {
	nst := e.role.node.Underlying().(*types.Struct)
	role := func(m string) (int, error) {
		fn := e.method("Node", m)
		if fn == nil {
			return 0, fmt.Errorf("method Node.%s not found", m)
		}
		st := e.newState()
		var fs []Value
		for i := 0; i < nst.NumFields(); i++ {
			t := nst.Field(i).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				fs = append(fs, st.allocVal(p.Elem(), e.zero(p.Elem())))
				continue
			}
			fs = append(fs, e.fresh(st, t, nst.Field(i).Name()))
		}
		n := st.allocVal(e.role.node, VStruct{fs})
		found := -1
		var err error
		u := e.explore("role "+m, fn, st, []Value{n}, func(st *State, res Value) {
			hit := -1
			for i, f := range fs {
				if sameValue(f, res) {
					hit = i
				}
			}
			if hit < 0 || found >= 0 && found != hit {
				err = fmt.Errorf("%s: Node.%s does not return one field of the node (%s)", e.posStr(fn.Pos()), m, showVal(res))
			}
			found = hit
		})
		for msg := range e.find.undecided {
			return 0, fmt.Errorf("%s", msg)
		}
		if err == nil && (found < 0 || len(u.panics) > 0) {
			err = fmt.Errorf("%s: Node.%s does not return a field of the node", e.posStr(fn.Pos()), m)
		}
		return found, err
	}
	var err error
	set := func(dst *int, m string) {
		i, er := role(m)
		if er != nil && err == nil {
			err = er
		}
		*dst = i
	}
	var r Roles = e.role
	set(&r.prev, "Prev")
	set(&r.next, "Next")
	set(&r.text, "Text")
	set(&r.line, "Line")
	set(&r.kind, "Kind")
	e.role = r
	if err == nil && e.role.prev == e.role.next {
		err = fmt.Errorf("%s: Node.Prev and Node.Next return the same link", e.posStr(e.method("Node", "Prev").Pos()))
	}
	return err
}

func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x == y
	case VInt:
		y, ok := b.(VInt)
		return ok && x.L.eq(y.L)
	case VKind:
		y, ok := b.(VKind)
		return ok && x == y
	case VStr:
		y, ok := b.(VStr)
		return ok && len(x.S) == 1 && len(y.S) == 1 && x.S[0].Src == y.S[0].Src && x.S[0].A.eq(y.S[0].A) && x.S[0].B.eq(y.S[0].B)
	}
	return false
}

// reachFns lists a function and the module functions it statically calls, up to a depth.
func (p *Program) reachFns(fn *ssa.Function, depth int) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var rec func(f *ssa.Function, d int)
	rec = func(f *ssa.Function, d int) {
		if seen[f] || f == nil || d < 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && p.inModule(g) {
						rec(g, d-1)
					}
				}
			}
		}
	}
	rec(fn, depth)
	return out
}

// method finds a method of a named type of the root package (or of a pointer to it).
func (p *Program) method(typ, name string) *ssa.Function {
	return p.methodIn(p.root, typ, name)
}

func (p *Program) methodIn(pk *ssa.Package, typ, name string) *ssa.Function {
	o := pk.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	for _, t := range []types.Type{o.Type(), types.NewPointer(o.Type())} {
		sel := p.prog.MethodSets.MethodSet(t).Lookup(pk.Pkg, name)
		if sel == nil {
			continue
		}
		if m := p.prog.MethodValue(sel); m != nil && m.Synthetic == "" {
			return m
		}
	}
	return nil
}

func (p *Program) funcIn(rel, name string) *ssa.Function {
	path := p.module
	if rel != "" {
		path += "/" + rel
	}
	pk := p.byPath[path]
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func kindKey(s VStruct) (string, bool) {
	var parts []string
	for _, f := range s.F {
		t, ok := f.(VStr)
		if !ok {
			return "", false
		}
		c, ok := t.S.constVal()
		if !ok {
			return "", false
		}
		parts = append(parts, c)
	}
	return strings.Join(parts, "\x00"), true
}

// findKinds numbers the node kinds the module declares.
func (e *Engine) findKinds() error {
	e.kindIdx = map[string]int{}
	var gs []*ssa.Global
	for g := range e.globals {
		if types.Identical(deref(g.Type()), e.role.kind_) {
			gs = append(gs, g)
		}
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		s, ok := e.base[e.globals[g]].val.(VStruct)
		if !ok {
			return fmt.Errorf("kind %s has no constant value", g.Name())
		}
		k, ok := kindKey(s)
		if !ok {
			return fmt.Errorf("kind %s has no constant value", g.Name())
		}
		if _, dup := e.kindIdx[k]; !dup {
			e.kindIdx[k] = len(e.kindName)
			e.kindName = append(e.kindName, g.Name())
			e.kindText = append(e.kindText, strings.Split(k, "\x00")[0])
		}
	}
	if len(e.kindName) > 62 {
		return fmt.Errorf("too many kinds (%d)", len(e.kindName))
	}
	return nil
}

func (e *Engine) kindIndex(s VStruct) int {
	k, ok := kindKey(s)
	if !ok {
		return 63
	}
	if i, ok := e.kindIdx[k]; ok {
		return i
	}
	return 63
}

func (e *Engine) kindSetNames(names ...string) KindSet {
	var r KindSet
	for i, n := range e.kindName {
		for _, m := range names {
			if m == n {
				r |= 1 << i
			}
		}
	}
	return r
}

// kindValue returns the kind value a package variable of the kind package holds.
func (e *Engine) kindValue(name string) (VStruct, bool) {
	pk := e.byPath[e.module+"/kind"]
	if pk == nil {
		return VStruct{}, false
	}
	g, ok := pk.Members[name].(*ssa.Global)
	if !ok {
		return VStruct{}, false
	}
	s, ok := e.base[e.globals[g]].val.(VStruct)
	return s, ok
}

// externalGlobal gives a value to a global of a package outside the module.
func (e *Engine) externalGlobal(st *State, g *ssa.Global) (Value, bool) {
	t := deref(g.Type())
	name := g.Pkg.Pkg.Path() + "." + g.Name()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		switch name {
		case "io/fs.ErrNotExist", "internal/oserror.ErrNotExist":
			name = "os.ErrNotExist"
		}
		return VErr{Tags: name}, true
	}
	return nil, false
}

// --- exploration of a root function --------------------------------------------------------

func (u *Unit) addExit(st *State, res Value) {
	u.nfinal++
	if u.final != nil {
		u.final(st, res)
		return
	}
	u.e.tabExit(u, st, res)
}

// explore runs fn from a state; final is called with every outcome.
func (e *Engine) explore(name string, fn *ssa.Function, st *State, args []Value, final func(st *State, res Value)) *Unit {
	u := &Unit{e: e, name: name, fn: fn, headers: map[string]*headGroup{}, symbolic: map[string]bool{}, final: final}
	e.push(st, VFunc{Fn: fn}, args, false)
	e.touched[fn] = true
	u.work = []*State{st}
	e.drain(u)
	return u
}

func (e *Engine) drain(u *Unit) {
	e.run(u)
	for len(e.queue) > 0 {
		q := e.queue[len(e.queue)-1]
		e.queue = e.queue[:len(e.queue)-1]
		q.queued = false
		e.run(q)
		e.run(u)
	}
}

// --- tabulated recursion ----------------------------------------------------------------------

type dependent struct {
	u    *Unit
	st   *State // suspended at the call
	cz   *canonizer
	n    int
	t    *Unit // the summary it waits for
	gone bool
}

func (u *Unit) enqueue() {
	if !u.queued {
		u.queued = true
		u.e.queue = append(u.e.queue, u)
	}
}

func entryTuple(c *canonical) VTuple {
	var t VTuple
	for i := 0; i < c.n; i++ {
		t.V = append(t.V, VInt{linS(Sym(i + 1))})
	}
	for _, id := range c.cz.order {
		t.V = append(t.V, VPtr{Obj: c.cz.objs[id]})
	}
	for _, id := range c.cz.sorder {
		t.V = append(t.V, VByte{c.cz.srcs[id], linC(0)})
	}
	for _, id := range c.cz.korder {
		t.V = append(t.V, VKind{c.cz.ks[id]})
	}
	return t
}

// site is a recursive call in one shape of the calling state.
type site struct {
	c     *canonical
	joins int
	dep   *dependent
}

// callTab calls a recursive function through its summary. The caller's state is canonical at the call, so that
// states of the same shape share one suspended caller.
func (e *Engine) callTab(u *Unit, st *State, fv VFunc, args []Value, pos token.Pos) []resv {
	if e.cfg.monitor == nil {
		return e.callTab1(u, st, fv, args, pos)
	}
	var out []resv
	for _, s := range e.cfg.monitor(e, st) {
		out = append(out, e.callTab1(u, s, fv, args, pos)...)
	}
	return out
}

func (e *Engine) callTab1(u *Unit, st *State, fv VFunc, args []Value, pos token.Pos) []resv {
	e.calls++
	if e.cfg.onTab != nil {
		e.cfg.onTab(e, u, st, fv.Fn, args, pos)
	}
	st.ghost["!call"] = VTuple{append([]Value{fv}, args...)}
	cc := e.canon(st, "call\n")
	cc.cz = nil
	if u.sites == nil {
		u.sites = map[string]*site{}
	}
	s := u.sites[cc.shape]
	switch {
	case s == nil:
		s = &site{c: cc}
		u.sites[cc.shape] = s
	case cc.leq(s.c):
		return nil
	default:
		s.joins++
		s.c = joinCanon(s.c, cc, s.joins > 3)
		s.c.st.trace = cc.st.trace
	}
	st = s.c.st.clone()
	call := st.ghost["!call"].(VTuple)
	delete(st.ghost, "!call")
	fv, args = call.V[0].(VFunc), call.V[1:]
	cs := st.clone()
	cs.frames = nil
	cs.events = nil
	cs.bad = nil
	delete(cs.ghost, "!entry")
	e.push(cs, fv, args, false)
	c := e.canon(cs, fv.Fn.String()+"\n")
	if len(c.cz.unk) > 0 {
		e.undecided(st, pos, "recursive call of %s with an unknown value", fv.Fn)
	}
	t := e.tab[c.shape]
	cz := c.cz
	c.cz = nil
	if t == nil {
		t = &Unit{e: e, name: fv.Fn.String(), fn: fv.Fn, headers: map[string]*headGroup{}, symbolic: map[string]bool{},
			exitKeys: map[string]*Exit{}, tab: true, ent: &headEntry{c: c}}
		e.tab[c.shape] = t
		s := c.st.clone()
		s.ghost["!entry"] = entryTupleOf(c, cz)
		t.work = append(t.work, s)
		t.enqueue()
	} else if !c.leq(t.ent.c) {
		t.ent.joins++
		tr := c.st.trace
		t.ent.c = joinCanon(t.ent.c, c, t.ent.joins > 2)
		s := t.ent.c.st.clone()
		s.trace = tr
		s.ghost["!entry"] = entryTupleOf(c, cz)
		t.work = append(t.work, s)
		t.enqueue()
	}
	d := &dependent{u: u, st: st.clone(), cz: cz, n: c.n}
	if s.dep != nil && s.dep.t == t {
		*s.dep = *d
		d = s.dep
	} else {
		if s.dep != nil {
			s.dep.gone = true
		}
		t.deps = append(t.deps, d)
		s.dep = d
	}
	d.t = t
	var out []resv
	for _, k := range t.exitOrder {
		if r, ok := e.instantiate(d, t.exitKeys[k]); ok {
			out = append(out, r)
		}
	}
	return out
}

func entryTupleOf(c *canonical, cz *canonizer) VTuple {
	c.cz = cz
	t := entryTuple(c)
	c.cz = nil
	return t
}

func (e *Engine) tabExit(u *Unit, st *State, res Value) {
	if e.cfg.monitor == nil {
		e.tabExit1(u, st, res)
		return
	}
	for _, s := range e.cfg.monitor(e, st) {
		e.tabExit1(u, s, res)
	}
}

func (e *Engine) tabExit1(u *Unit, st *State, res Value) {
	st.ghost["!res"] = res
	c := e.canon(st, "exit\n")
	var fk []string
	for k, s := range c.facts {
		if _, ok := s.single(); ok && (e.cfg.monitor == nil || !c.aboutLabels(k)) {
			fk = append(fk, fmt.Sprint(k, s))
		}
	}
	sort.Strings(fk)
	key := c.shape + strings.Join(fk, ";")
	if len(u.exitOrder) > 60 {
		key = c.shape
	}
	c.cz = nil
	x := u.exitKeys[key]
	if x == nil {
		x = &Exit{c: c}
		u.exitKeys[key] = x
		u.exitOrder = append(u.exitOrder, key)
	} else {
		if c.leq(x.c) {
			return
		}
		x.ver++
		x.c = joinCanon(x.c, c, x.ver > 3)
	}
	for _, d := range append([]*dependent(nil), u.deps...) {
		if d.gone {
			continue
		}
		if r, ok := e.instantiate(d, x); ok {
			d.u.work = append(d.u.work, e.afterCall(d.u, r.st, false, r.val)...)
			d.u.enqueue()
		}
	}
}

// instantiate applies an exit of a summary to a suspended caller.
func (e *Engine) instantiate(d *dependent, x *Exit) (resv, bool) {
	st := d.st.clone()
	xs := x.c.st
	ent := xs.ghost["!entry"].(VTuple)
	lins := map[Sym]Lin{}
	objs := map[ObjID]ObjID{}
	srcs := map[SrcID]SrcID{}
	ks := map[KSym]KSym{}
	var eqs [][2]Lin
	j := 0
	for i := 0; i < d.n; i++ {
		v, ok := ent.V[j].(VInt)
		if !ok {
			e.undecided(st, 0, "summary entry lost an integer")
		}
		if s, ok := symOf(v.L); ok {
			if old, dup := lins[s]; dup {
				eqs = append(eqs, [2]Lin{old, d.cz.slots[i]})
			} else {
				lins[s] = d.cz.slots[i]
			}
		} else {
			eqs = append(eqs, [2]Lin{v.L, d.cz.slots[i]})
		}
		j++
	}
	for _, id := range d.cz.order {
		objs[ent.V[j].(VPtr).Obj] = id
		j++
	}
	for _, id := range d.cz.sorder {
		srcs[ent.V[j].(VByte).Src] = id
		j++
	}
	for _, id := range d.cz.korder {
		if k, ok := ent.V[j].(VKind); ok {
			ks[k.K] = id
		}
		j++
	}
	lin := func(s Sym) Lin {
		if l, ok := lins[s]; ok {
			return l
		}
		l := st.newInt()
		lins[s] = l
		return l
	}
	m := &mapper{
		lin: func(l Lin) Lin { return l.subst(lin) },
		obj: func(id ObjID) ObjID {
			if _, ok := e.base[id]; ok {
				return id
			}
			if n, ok := objs[id]; ok {
				return n
			}
			n := st.alloc(nil)
			objs[id] = n
			return n
		},
		k: func(k KSym) KSym {
			if n, ok := ks[k]; ok {
				return n
			}
			n := st.newKind(xs.kinds[k]).K
			ks[k] = n
			return n
		},
		unk: map[int]int{},
		st:  st,
	}
	m.src = func(id SrcID) SrcID {
		if id == 0 {
			return 0
		}
		if n, ok := srcs[id]; ok {
			return n
		}
		s := xs.srcs[id]
		n := st.newSrcMeta(s.name, s.list, m.lin(s.length), nil)
		srcs[id] = n
		st.setBase(n, m.lin(s.nl0))
		if s.parts != nil {
			ps := append([]part(nil), s.parts...)
			for k := range ps {
				ps[k].end = m.lin(ps[k].end)
			}
			st.setParts(n, ps)
		}
		if s.meta != nil {
			st.setMeta(n, m.val(s.meta))
		}
		return n
	}
	// zone
	var fresh []Sym
	for i, si := range xs.zone.ids {
		if i > 0 {
			if l := lin(si); len(l.t) == 1 && st.zone.idx(l.t[0].s) < 0 {
				fresh = append(fresh, l.t[0].s)
			}
		}
	}
	st.zone.addSyms(fresh)
	for i, si := range xs.zone.ids {
		for k, sk := range xs.zone.ids {
			if i == k {
				continue
			}
			c := xs.zone.at(i, k)
			if c >= inf {
				continue
			}
			var li, lk Lin
			if i != 0 {
				li = lin(si)
			}
			if k != 0 {
				lk = lin(sk)
			}
			if !st.zone.assumeLE(li.sub(lk).addC(-c)) {
				return resv{}, false
			}
		}
	}
	for _, q := range eqs {
		if !st.zone.assumeEQ(m.lin(q[0]), q[1]) {
			return resv{}, false
		}
	}
	for id, o := range xs.heap {
		st.heap[m.obj(id)] = m.object(o)
	}
	for k, set := range xs.kinds {
		n := m.k(k)
		st.kinds[n] = set
	}
	for _, f := range xs.bytes {
		if !st.restrictByte(m.src(f.src), m.lin(f.off), f.set) {
			return resv{}, false
		}
	}
	for _, f := range xs.nls {
		src, off, v := m.src(f.src), m.lin(f.off), m.lin(f.val)
		if old, ok := st.nlTry(src, off); ok {
			if !st.zone.assumeEQ(old, v) {
				return resv{}, false
			}
			continue
		}
		st.nls = append(st.nls, nFact{src, off, v})
	}
	for _, f := range xs.elems {
		g := elemFact{src: m.src(f.src), off: m.lin(f.off), line: m.val(f.line), kind: m.val(f.kind)}
		st.elems = append(st.elems, g)
	}
	for k, v := range xs.ghost {
		if k == "!entry" || k == "!res" {
			continue
		}
		st.ghost[k] = m.val(v)
	}
	for _, ev := range xs.events {
		st.events = append(st.events, Event{ev.Name, m.vals(ev.Args), ev.Pos})
	}
	for _, b := range xs.bad {
		st.bad = addBad(st.bad, b)
	}
	st.note(token.NoPos, "return from %s", d.n_name(x))
	return resv{st, m.val(xs.ghost["!res"])}, true
}

func (d *dependent) n_name(x *Exit) string { return "recursive call" }

func symOf(l Lin) (Sym, bool) {
	if l.c == 0 && len(l.t) == 1 && l.t[0].k == 1 {
		return l.t[0].s, true
	}
	return 0, false
}

// mapper renames a value from one state into another.
type mapper struct {
	lin func(Lin) Lin
	obj func(ObjID) ObjID
	src func(SrcID) SrcID
	k   func(KSym) KSym
	unk map[int]int
	st  *State
}

func (m *mapper) seq(s Seq) Seq {
	var r Seq
	for _, a := range s {
		if !a.isConst() {
			a = Atom{Src: m.src(a.Src), Rev: a.Rev, A: m.lin(a.A), B: m.lin(a.B)}
		}
		r = append(r, a)
	}
	return r
}

func (m *mapper) vals(vs []Value) []Value {
	if vs == nil {
		return nil
	}
	r := make([]Value, len(vs))
	for i, v := range vs {
		r[i] = m.val(v)
	}
	return r
}

func (m *mapper) val(v Value) Value {
	switch v := v.(type) {
	case VInt:
		return VInt{m.lin(v.L)}
	case VPtr:
		return VPtr{m.obj(v.Obj), v.Path}
	case VElemPtr:
		return VElemPtr{m.obj(v.Obj), m.lin(v.Idx)}
	case VBytePtr:
		return VBytePtr{m.seq(v.S), m.lin(v.Off)}
	case VStr:
		return VStr{m.seq(v.S)}
	case VBytes:
		return VBytes{m.seq(v.S)}
	case VBuf:
		return VBuf{m.seq(v.S)}
	case VByte:
		return VByte{m.src(v.Src), m.lin(v.Off)}
	case VIface:
		return VIface{v.T, m.val(v.V)}
	case VFunc:
		return VFunc{v.Fn, m.vals(v.Bind)}
	case VStruct:
		return VStruct{m.vals(v.F)}
	case VTuple:
		return VTuple{m.vals(v.V)}
	case VSlice:
		return VSlice{m.obj(v.Obj), m.lin(v.Off), m.lin(v.Len), v.Full}
	case VMap:
		return VMap{m.obj(v.Obj)}
	case VKind:
		return VKind{m.k(v.K)}
	case VUnk:
		if v.ID <= 0 {
			return v
		}
		n, ok := m.unk[v.ID]
		if !ok {
			n = m.st.newUnk(v.T).ID
			m.unk[v.ID] = n
		}
		return VUnk{n, v.T}
	case VRange:
		return VRange{m.obj(v.Obj)}
	}
	return v
}

func (m *mapper) object(o *Object) *Object {
	n := *o
	switch o.kind {
	case oPlain:
		n.val = m.val(o.val)
	case oSeg:
		n.text = m.seq(o.text)
		n.prev, n.next = m.val(o.prev), m.val(o.next)
	case oList:
		n.elems = nil
		for _, el := range o.elems {
			if el.sum {
				el.seq, el.n = m.seq(el.seq), m.lin(el.n)
			} else {
				el.val = m.val(el.val)
			}
			n.elems = append(n.elems, el)
		}
	case oMap:
		n.keys, n.vals = m.vals(o.keys), m.vals(o.vals)
	case oIter:
		it := *o.iter
		if it.m != 0 {
			it.m = m.obj(it.m)
		}
		if it.isStr {
			it.str, it.off = m.seq(it.str), m.lin(it.off)
		}
		n.iter = &it
	}
	return &n
}

func (p *Program) recursiveInit() {
	if p.scc == nil {
		p.buildSCC()
	}
}

// exported lists the exported functions and methods of the module.
func (p *Program) exported() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range p.moduleFuncs() {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Origin() != nil {
			continue
		}
		o := fn.Object()
		if o == nil {
			continue
		}
		recv := fn.Signature.Recv()
		if recv == nil && !o.Exported() || recv != nil && !o.Exported() {
			continue
		}
		out = append(out, fn)
	}
	return out
}

// mutationBoundary: see spec_classify.go

func isConstInt(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return false
	}
	x, exact := constant.Int64Val(c.Value)
	return exact && x == n
}
