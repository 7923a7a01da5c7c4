package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// --- panics: every function behind parsing is explored with unknown arguments ----------------------------------

// panicWorld decides for functions, one at a time, whether they can panic. Calls of functions that cannot panic,
// whatever they are given, are replaced by unknown results.
type panicWorld struct {
	p     *Program
	e0    *Engine
	r     *Report
	state map[*ssa.Function]int // 1: being decided, 2: cannot panic, 3: may panic
	why   map[*ssa.Function][]failure
	outs  map[*ssa.Function]int
	skip  map[*ssa.Function]bool // decided elsewhere
	links map[*ssa.Function]bool // may change the links of nodes
	rule  *wordRule              // panics do not matter, but the kinds that nodes are given
}

// total decides whether a function cannot panic, whatever it is given.
func (w *panicWorld) total(fn *ssa.Function) bool {
	switch w.state[fn] {
	case 1, 2:
		return true // a panic of a function that is being decided is found there
	case 3:
		return false
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	w.state[fn] = 1
	w.state[fn] = w.decide(fn)
	return w.state[fn] == 2
}

func (w *panicWorld) decide(fn *ssa.Function) int {
	var first []failure
	for _, deep := range []bool{false, true} {
		fs, n := w.try(fn, deep)
		if len(fs) == 0 {
			w.outs[fn] = n
			return 2
		}
		if first == nil {
			first = fs
		}
		if os.Getenv("GOAST_DEBUG") == "2" {
			for _, f := range fs {
				fmt.Fprintln(os.Stderr, "panic?", fn, deep, f.msg, w.e0.posStr(f.where))
			}
		}
	}
	w.why[fn] = first
	return 3
}

// small functions may be looked into instead of being replaced by an unknown result.
func (w *panicWorld) small(fn *ssa.Function) bool {
	return len(fn.Blocks) > 0 && len(fn.Blocks) <= 30 && !w.p.recursive(fn)
}

// config makes the settings to explore a function with unknown arguments and unknown results of what it calls.
func (w *panicWorld) config(deep bool) *Config {
	cfg := &Config{foldLists: true, keepPreds: true, budget: 400_000, maxRec: 2}
	cfg.genElem = func(e *Engine, st *State, t types.Type, a *Atom, off Lin, pos token.Pos) []resv {
		return one(st, e.unknownArg(st, t))
	}
	cfg.foldElem = func(e *Engine, st *State, o *Object, el LElem) (LElem, bool) {
		if _, ok := o.typ.Underlying().(*types.Signature); ok {
			return el, false
		}
		return LElem{sum: true, n: linC(1)}, true
	}
	cfg.callback = func(e *Engine, st *State, cb VCallback, args []Value, pos token.Pos) ([]resv, []panicRes) {
		e.havoc(st)
		if v, ok := st.ghost["sig:"+cb.Name].(VUnk); ok {
			if sig, ok := v.T.(*types.Signature); ok {
				return one(st, e.unknownResults(st, sig)), nil
			}
		}
		return []resv{{st, VUnk{-3, nil}}}, nil
	}
	cfg.ifaceCall = func(e *Engine, st *State, recv Value, m *types.Func, args []Value, pos token.Pos) ([]resv, bool) {
		e.havoc(st)
		return one(st, e.unknownResults(st, m.Type().(*types.Signature))), true
	}
	cfg.derefUnk = func(e *Engine, st *State, u VUnk, t types.Type, pos token.Pos) ([]resv, []panicRes) {
		var pan []panicRes
		if isNil, known := st.unkB[u.ID]; !known || isNil {
			pan = append(pan, panicRes{st.clone(), "nil pointer dereference"})
			if known {
				return nil, pan
			}
		}
		v := st.allocVal(t, e.unknownArg(st, t))
		if u.ID > 0 {
			st.replaceUnk(u.ID, v)
		}
		return one(st, v), pan
	}
	cfg.unkEq = func(e *Engine, st *State, x Value, u VUnk) []boolRes {
		if _, ok := x.(VNil); !ok || u.ID <= 0 {
			return nil
		}
		return e.truth(st, u) // remembered: nil or not
	}
	cfg.intercept = func(e *Engine, st *State, g *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		quiet := func() ([]resv, []panicRes, bool) {
			e.havoc(st)
			if w.links[g] {
				e.forgetNodes(st)
			}
			return one(st, e.unknownResults(st, g.Signature)), nil, true
		}
		if !e.inModule(g) {
			if g.Pkg != nil {
				switch g.Pkg.Pkg.Path() {
				case "strings", "bytes", "slices", "errors", "unicode", "unicode/utf8":
					return nil, nil, false
				}
			}
			return quiet()
		}
		if w.skip[g] && nilFunc(st, args) {
			return nil, []panicRes{{st, "a nil function may be called"}}, true
		}
		if w.skip[g] || g.Synthetic != "" && g.Parent() == nil && len(g.Blocks) == 0 {
			return quiet()
		}
		if g.Parent() != nil && w.small(g) && !w.p.recursive(g) {
			return nil, nil, false // a local function: its effects on captured variables matter
		}
		if deep && w.small(g) {
			return nil, nil, false
		}
		if !nilFunc(st, args) && w.total(g) {
			return quiet()
		}
		return nil, nil, false
	}
	return cfg
}

func (w *panicWorld) try(fn *ssa.Function, deep bool) ([]failure, int) {
	cfg := w.config(deep)
	if w.rule != nil {
		w.rule.tune(cfg)
	}
	e, err := w.p.newEngine(cfg)
	if err != nil {
		return []failure{{msg: err.Error(), where: fn.Pos()}}, 0
	}
	e.limit = 30 * time.Second
	st := e.newState()
	var args, binds []Value
	for i, p := range fn.Params {
		v := e.unknownArg(st, p.Type())
		if pt, ok := p.Type().Underlying().(*types.Pointer); ok && i == 0 && fn.Signature.Recv() != nil && !e.isNodePtr(p.Type()) {
			v = st.allocVal(pt.Elem(), e.unknownArg(st, pt.Elem())) // methods are called on objects
		}
		if w.rule != nil {
			v = w.rule.refine(e, st, p, v)
		}
		args = append(args, v)
	}
	for _, p := range fn.FreeVars {
		v := e.unknownArg(st, p.Type())
		if pt, ok := p.Type().(*types.Pointer); ok && !e.isNodePtr(p.Type()) {
			v = st.allocVal(pt.Elem(), e.unknownArg(st, pt.Elem())) // a captured variable
		}
		if w.rule != nil {
			v = w.rule.refine(e, st, p, v)
		}
		binds = append(binds, v)
	}
	n := 0
	u := &Unit{e: e, name: fn.Name(), fn: fn, headers: map[string]*headGroup{}, symbolic: map[string]bool{}}
	u.final = func(st *State, res Value) { n++ }
	e.touched[fn] = true
	e.push(st, VFunc{Fn: fn, Bind: binds}, args, false)
	u.work = []*State{st}
	e.drain(u)
	var fs []failure
	if w.rule != nil {
		fs, u.panics = w.rule.found, nil
		w.rule.found = nil
	}
	for _, p := range u.panics {
		fs = append(fs, failure{p.msg, p.pos, p.st.traceLines(30)})
	}
	var ms []string
	for m := range e.find.undecided {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		fs = append(fs, failure{"cannot be decided: " + m, fn.Pos(), e.find.undecided[m].traceLines(30)})
	}
	w.r.Counters["abstract_steps"] += e.steps
	w.r.Counters["outcomes"] += n
	return fs, n
}

// unknownArg is an unknown value of a type; pointers may be nil.
func (e *Engine) unknownArg(st *State, t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Signature:
		k := 0
		for st.ghost[fmt.Sprintf("sig:f%d", k)] != nil {
			if v, ok := st.ghost[fmt.Sprintf("sig:f%d", k)].(VUnk); ok && types.Identical(v.T, u) {
				break
			}
			k++
		}
		name := fmt.Sprintf("f%d", k)
		st.ghost["sig:"+name] = VUnk{-4, u}
		return VCallback{name}
	case *types.Struct:
		if e.isKindType(t) || isBufType(t) {
			break
		}
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.unknownArg(st, u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = e.unknownArg(st, u.At(i).Type())
		}
		return VTuple{f}
	}
	return e.fresh(st, t, "value")
}

func (e *Engine) unknownResults(st *State, sig *types.Signature) Value {
	if sig.Results().Len() == 1 {
		return e.unknownArg(st, sig.Results().At(0).Type())
	}
	return e.unknownArg(st, sig.Results())
}

// havoc forgets the variables that a local function may have changed meanwhile.
func (e *Engine) havoc(st *State) {
	st.forgetLists()
	seen := map[ObjID]bool{}
	var objs func(id ObjID)
	var vals func(v Value)
	vals = func(v Value) {
		switch v := v.(type) {
		case VFunc:
			for i, b := range v.Bind {
				if i < len(v.Fn.FreeVars) && storesTo(v.Fn.FreeVars[i], 0) {
					if p, ok := b.(VPtr); ok && p.Path == "" {
						if o := st.obj(p.Obj); o != nil && o.kind == oPlain && st.heap[p.Obj] != nil {
							n := *o
							n.val = e.unknownArg(st, o.typ)
							st.set(p.Obj, &n)
						}
					}
				}
				vals(b)
			}
		case VStruct:
			for _, f := range v.F {
				vals(f)
			}
		case VTuple:
			for _, f := range v.V {
				vals(f)
			}
		case VIface:
			vals(v.V)
		case VPtr:
			objs(v.Obj)
		case VSlice:
			objs(v.Obj)
		case VMap:
			objs(v.Obj)
		}
	}
	objs = func(id ObjID) {
		if seen[id] || st.heap[id] == nil {
			return
		}
		seen[id] = true
		o := st.obj(id)
		vals(o.val)
		for _, el := range o.elems {
			if !el.sum {
				vals(el.val)
			}
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			vals(v)
		}
		for _, v := range f.bind {
			vals(v)
		}
	}
}

// nilFunc reports whether a nil function is in a list among some values, or in a list that a local function among
// them uses: what is given it may call it.
func nilFunc(st *State, args []Value) bool {
	for _, a := range args {
		switch v := a.(type) {
		case VFunc:
			for _, b := range v.Bind {
				p, ok := b.(VPtr)
				if !ok {
					continue
				}
				if o := st.obj(p.Obj); o != nil && o.kind == oPlain && o.val != nil && nilFunc(st, []Value{o.val}) {
					return true
				}
			}
		case VSlice:
			o := st.obj(v.Obj)
			if o == nil || o.kind != oList {
				continue
			}
			if _, ok := o.typ.Underlying().(*types.Signature); !ok {
				continue
			}
			for _, el := range o.elems {
				if _, isNil := el.val.(VNil); !el.sum && isNil {
					return true
				}
			}
		}
	}
	return false
}

// forgetNodes forgets the contents of all nodes.
func (e *Engine) forgetNodes(st *State) {
	for id, o := range st.heap {
		if o.kind == oPlain && e.isNode(o.typ) {
			n := *o
			n.val = e.unknownArg(st, o.typ)
			st.set(id, &n)
		}
	}
}

// replaceUnk puts a value in the place of an unknown one everywhere.
func (st *State) replaceUnk(id int, by Value) {
	var val func(v Value) Value
	vals := func(vs []Value) []Value {
		r := make([]Value, len(vs))
		for i, v := range vs {
			if v != nil {
				r[i] = val(v)
			}
		}
		return r
	}
	val = func(v Value) Value {
		switch v := v.(type) {
		case VUnk:
			if v.ID == id {
				return by
			}
		case VStruct:
			return VStruct{vals(v.F)}
		case VTuple:
			return VTuple{vals(v.V)}
		case VIface:
			return VIface{v.T, val(v.V)}
		case VFunc:
			if v.Bind != nil {
				return VFunc{v.Fn, vals(v.Bind)}
			}
		}
		return v
	}
	for i, f := range st.frames {
		g := *f
		g.regs, g.bind = vals(f.regs), vals(f.bind)
		g.defers = nil
		for _, d := range f.defers {
			g.defers = append(g.defers, deferred{val(d.fn), vals(d.args), d.call})
		}
		st.frames[i] = &g
	}
	for oid, o := range st.heap {
		n := *o
		if o.val != nil {
			n.val = val(o.val)
		}
		n.elems = append([]LElem(nil), o.elems...)
		for i, el := range n.elems {
			if !el.sum && el.val != nil {
				n.elems[i].val = val(el.val)
			}
		}
		if o.keys != nil {
			n.keys, n.vals = vals(o.keys), vals(o.vals)
		}
		st.set(oid, &n)
	}
}

// storesTo reports whether a captured variable may be changed by the function that captures it.
func storesTo(v ssa.Value, depth int) bool {
	refs := v.Referrers()
	if refs == nil || depth > 6 {
		return true
	}
	for _, in := range *refs {
		switch in := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn, ok := in.Fn.(*ssa.Function)
			if !ok {
				return true
			}
			for i, b := range in.Bindings {
				if b == v && storesTo(fn.FreeVars[i], depth+1) {
					return true
				}
			}
		case *ssa.FieldAddr:
			if storesTo(in, depth+1) {
				return true
			}
		default:
			return true
		}
	}
	return false
}

func checkC09(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	w := &panicWorld{p: p, e0: e, r: r, state: map[*ssa.Function]int{}, why: map[*ssa.Function][]failure{}, outs: map[*ssa.Function]int{}, skip: map[*ssa.Function]bool{}}
	var roots []*ssa.Function
	for _, name := range []string{"ParseScope", "ParseAst", "NewAst", "NewScope"} {
		f := p.root.Func(name)
		if f == nil {
			r.fail("anchor:"+name, "-", "function "+name+" not found", nil)
			continue
		}
		roots = append(roots, f)
	}
	for _, in := range []string{"Scope", "Ast"} {
		for _, t := range p.implementations(in) {
			ms := p.prog.MethodSets.MethodSet(t)
			for i := 0; i < ms.Len(); i++ {
				if f := p.prog.MethodValue(ms.At(i)); f != nil && ms.At(i).Obj().Exported() && f.Synthetic == "" {
					roots = append(roots, f)
				}
			}
		}
	}
	w.links = map[*ssa.Function]bool{}
	writes := p.linkStores(e, e.role.prev, e.role.next)
	for fn := range p.funcs {
		if !p.inModule(fn) {
			continue
		}
		for _, g := range p.bfs(fn) {
			if len(writes[g]) > 0 {
				w.links[fn] = true
			}
		}
	}
	if tok := e.tokenizer(); tok != nil {
		w.skip[tok] = true
	} else {
		r.fail("anchor:split", "-", "the function that splits texts was not found", nil)
	}
	seen := map[*ssa.Function]bool{}
	var region []*ssa.Function
	work := append([]*ssa.Function(nil), roots...)
	via := map[*ssa.Function]*ssa.Function{}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] || w.skip[f] {
			continue
		}
		seen[f] = true
		if o, ok := f.Object().(*types.Func); ok && p.isNodeMethod(e, f) && o.Exported() {
			w.skip[f] = true // a property of its own
			continue
		}
		region = append(region, f)
		for _, g := range p.callees(f) {
			if !seen[g] && via[g] == nil {
				via[g] = f
			}
			work = append(work, g)
		}
	}
	isRoot := map[*ssa.Function]bool{}
	for _, f := range roots {
		isRoot[f] = true
	}
	callers := map[*ssa.Function]int{}
	for _, f := range region {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						callers[g]++
					}
				}
			}
		}
	}
	for _, f := range region {
		r.Units[f.String()]++
		ok := w.total(f)
		if !ok && !isRoot[f] && w.onlyCalled(region, f) {
			// its callers were decided with it looked into
			allOK := true
			for _, g := range region {
				for _, h := range p.callees(g) {
					if h == f && !w.total(g) {
						allOK = false
					}
				}
			}
			ok = allOK && callers[f] > 0 && !p.recursive(f)
		}
		if ok {
			r.ob(true, "", "", nil, "")
			continue
		}
		r.Obligations++
		for _, x := range w.why[f] {
			var path []string
			for g := f; g != nil && len(path) < 12; g = via[g] {
				path = append([]string{g.Name()}, path...)
			}
			r.fail("panic:"+f.String()+":"+stripPos(strings.TrimPrefix(x.msg, "cannot be decided: ")), e.posStr(x.where), fmt.Sprintf("%s, reached by %s, may panic: %s", f, strings.Join(path, " -> "), x.msg), x.trace)
		}
	}
	r.Counters["functions_in_region"] = len(region)
	r.ob(len(region) > len(roots), "anchor:region", "-", nil, "no function was found behind the parser")
	return nil
}

// onlyCalled reports whether a function is only ever called directly.
func (w *panicWorld) onlyCalled(region []*ssa.Function, f *ssa.Function) bool {
	for _, g := range region {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, isCall := in.(ssa.CallInstruction)
				for _, o := range in.Operands(nil) {
					if *o == ssa.Value(f) && !(isCall && o == &c.Common().Value) {
						return false
					}
				}
			}
		}
	}
	return true
}
