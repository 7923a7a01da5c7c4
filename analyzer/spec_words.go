package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// --- which nodes get the kind of a name ------------------------------------------------------------------------

// nameKinds are the kinds that are found by the place of a node, not by its text.
var nameKinds = []string{"FuncName", "TypeName", "ParamName", "MethodReceiverName", "MethodReceiverType"}

// wordRule says which nodes may be given which kinds after splitting. It is used by panicWorld.
type wordRule struct {
	w      *panicWorld
	stores map[*ssa.Function]bool // store kinds into nodes themselves
	acts   map[*ssa.Function]bool // may give kinds to nodes
	sets   map[ssa.Value]KindSet
	busy   map[ssa.Value]bool
	fields map[string]KindSet
	names  KindSet // kinds of names
	given  KindSet // kinds that may be given
	words  KindSet // kinds that may become kinds of names
	found  []failure
	sites  map[token.Pos]bool
}

func (wr *wordRule) tune(cfg *Config) {
	wr.found = nil
	old := cfg.intercept
	cfg.intercept = func(e *Engine, st *State, g *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if e.inModule(g) && wr.w.p.isNodeMethod(e, g) && (wr.acts[g] && wr.w.small(g) || wr.plain(g)) {
			return nil, nil, false
		}
		return old(e, st, g, args, pos)
	}
	call := cfg.callback
	cfg.callback = func(e *Engine, st *State, cb VCallback, args []Value, pos token.Pos) ([]resv, []panicRes) {
		e.forgetNodes(st)
		return call(e, st, cb, args, pos)
	}
	cfg.onStore = wr.store
}

// passesOn reports whether a function leaves the kinds of nodes to other functions, which are all right with any node.
func (wr *wordRule) passesOn(e *Engine, f *ssa.Function, total func(*ssa.Function) bool) bool {
	if wr.stores[f] {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.MakeClosure); ok {
				if g, ok := c.Fn.(*ssa.Function); ok && g.Synthetic != "" {
					return false // a method value
				}
			}
		}
	}
	var others []*ssa.Function
	for _, g := range wr.w.p.callees(f) {
		if !wr.acts[g] && !wr.stores[g] || g == f {
			continue
		}
		if wr.w.p.isNodeMethod(e, g) || !e.inModule(g) || g.Synthetic != "" {
			return false
		}
		others = append(others, g)
	}
	for _, g := range others {
		if !total(g) {
			return false
		}
	}
	wr.w.state[f] = 2
	return true
}

// plain functions only read.
func (wr *wordRule) plain(g *ssa.Function) bool {
	if len(g.Blocks) == 0 || len(g.Blocks) > 8 || len(wr.w.p.callees(g)) > 0 {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in.(type) {
			case *ssa.Store, *ssa.Call, *ssa.MapUpdate, *ssa.Send, *ssa.Defer, *ssa.Go:
				return false
			}
		}
	}
	return true
}

// store is told about every write into an object.
func (wr *wordRule) store(e *Engine, st *State, o *Object, path string, pos token.Pos) {
	if !e.isNode(o.typ) || path != "" && path != pathAppend("", e.role.kind) {
		return
	}
	was, ok1 := o.val.(VStruct)
	now, ok2 := e.stored.(VStruct)
	if !ok1 || !ok2 {
		return
	}
	prev, next := st.kindSetOf(was.F[e.role.kind]), st.kindSetOf(now.F[e.role.kind])
	if k, ok := was.F[e.role.kind].(VStruct); ok && e.isZeroKind(k) {
		return // a new node
	}
	if x, ok := was.F[e.role.kind].(VKind); ok {
		if y, ok := now.F[e.role.kind].(VKind); ok && x.K == y.K {
			return
		}
	}
	at := pos
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if !wr.w.p.isNodeMethod(e, f.fn) {
			if i+1 < len(st.frames) {
				at = f.fn.Blocks[f.block].Instrs[f.pc].Pos()
			}
			break
		}
	}
	if !at.IsValid() {
		at = pos
	}
	wr.sites[at] = true
	pos = at
	if os.Getenv("GOAST_DEBUG") == "2" {
		fmt.Fprintln(os.Stderr, "kind", e.posStr(pos), e.kindList(prev), "->", e.kindList(next))
	}
	if next&^wr.given != 0 {
		wr.found = append(wr.found, failure{"a node gets the kind " + e.kindList(next&^wr.given), pos, st.traceLines(30)})
	} else if next&wr.names != 0 && prev&^wr.words != 0 {
		wr.found = append(wr.found, failure{"a node that is no word gets the kind " + e.kindList(next&wr.names) + ": it may be " + e.kindList(prev&^wr.words), pos, st.traceLines(30)})
	}
	// another node may be the same one
	for id, x := range st.heap {
		if x != o && x.kind == oPlain && e.isNode(x.typ) {
			s, ok := x.val.(VStruct)
			if !ok || e.base[id] != nil {
				continue
			}
			n := *x
			f := append([]Value(nil), s.F...)
			f[e.role.kind] = st.newKind(allKinds)
			n.val = VStruct{f}
			st.set(id, &n)
		}
	}
}

func (e *Engine) isZeroKind(v VStruct) bool {
	z, ok := e.zero(e.role.kind_).(VStruct)
	if !ok {
		return false
	}
	a, ok1 := kindKey(v)
	b, ok2 := kindKey(z)
	return ok1 && ok2 && a == b
}

// refine limits the kinds among the arguments to those that the callers give.
func (wr *wordRule) refine(e *Engine, st *State, v ssa.Value, x Value) Value {
	t := v.Type()
	if e.isKindType(t) {
		if k, ok := x.(VKind); ok {
			return st.newKind(wr.kindsOf(e, v) & st.kinds[k.K])
		}
		return x
	}
	if p, ok := x.(VPtr); ok && p.Path == "" {
		if o := st.obj(p.Obj); o != nil && o.kind == oPlain && !e.isNode(o.typ) {
			n := *o
			switch s := o.val.(type) {
			case VKind:
				n.val = st.newKind(wr.cell(e, v))
			case VStruct:
				if !e.isKindType(o.typ) {
					n.val = wr.refineFields(e, st, o.typ, s)
				}
			}
			st.set(p.Obj, &n)
		}
		return x
	}
	if s, ok := x.(VStruct); ok {
		return wr.refineFields(e, st, t, s)
	}
	return x
}

func (wr *wordRule) refineFields(e *Engine, st *State, t types.Type, s VStruct) Value {
	u, ok := t.Underlying().(*types.Struct)
	if !ok || e.isNode(t) || u.NumFields() != len(s.F) {
		return s
	}
	f := append([]Value(nil), s.F...)
	for i := range f {
		if _, ok := f[i].(VKind); ok {
			f[i] = st.newKind(wr.field(e, t, i))
		}
	}
	return VStruct{f}
}

// kindsOf gives the kinds that a value may have, wherever it comes from.
func (wr *wordRule) kindsOf(e *Engine, v ssa.Value) KindSet {
	if s, ok := wr.sets[v]; ok {
		return s
	}
	if wr.busy[v] {
		return 0
	}
	wr.busy[v] = true
	s := wr.kindsOf1(e, v)
	delete(wr.busy, v)
	if len(wr.busy) == 0 {
		wr.sets[v] = s
	}
	return s
}

func (wr *wordRule) kindsOf1(e *Engine, v ssa.Value) KindSet {
	switch v := v.(type) {
	case *ssa.Const:
		return e.kindSetNames("None")
	case *ssa.Phi:
		var s KindSet
		for _, x := range v.Edges {
			s |= wr.kindsOf(e, x)
		}
		return s
	case *ssa.ChangeType:
		return wr.kindsOf(e, v.X)
	case *ssa.Field:
		return wr.field(e, v.X.Type(), v.Field)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return wr.cell(e, v.X)
		}
	case *ssa.Parameter:
		return wr.param(e, v)
	case *ssa.Call:
		return wr.result(e, v, 0)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return wr.result(e, c, v.Index)
		}
	}
	return allKinds
}

// result gives the kinds that a call may answer with.
func (wr *wordRule) result(e *Engine, c *ssa.Call, i int) KindSet {
	g := c.Common().StaticCallee()
	if g == nil || !e.inModule(g) || len(g.Blocks) == 0 || e.isKindOf(g) {
		return allKinds
	}
	var s KindSet
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ret, ok := in.(*ssa.Return); ok {
				if i >= len(ret.Results) {
					return allKinds
				}
				s |= wr.kindsOf(e, ret.Results[i])
			}
		}
	}
	return s
}

// cell gives the kinds that a variable may hold.
func (wr *wordRule) cell(e *Engine, a ssa.Value) KindSet {
	switch a := a.(type) {
	case *ssa.Global:
		if o := e.base[e.globals[a]]; o != nil {
			if s, ok := o.val.(VStruct); ok && a.Pkg != nil && e.inModulePkg(a.Pkg) && !wr.assigned(a) {
				return KindSet(1) << e.kindIndex(s)
			}
		}
		return allKinds
	case *ssa.FieldAddr:
		return wr.field(e, deref(a.X.Type()), a.Field)
	case *ssa.FreeVar:
		return wr.bound(e, a, func(b ssa.Value) KindSet { return wr.cell(e, b) })
	case *ssa.Alloc:
		s, ok := wr.storesInto(e, a, 0)
		if !ok {
			return allKinds
		}
		return s | wr.zeroFirst(e, a)
	}
	return allKinds
}

// bound asks about everything that a captured variable may be.
func (wr *wordRule) bound(e *Engine, f *ssa.FreeVar, ask func(ssa.Value) KindSet) KindSet {
	if wr.busy[f] {
		return 0
	}
	wr.busy[f] = true
	defer delete(wr.busy, f)
	fn := f.Parent()
	var s KindSet
	found := false
	for _, g := range wr.w.p.moduleFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if m, ok := in.(*ssa.MakeClosure); ok && m.Fn == fn {
					for i, x := range fn.FreeVars {
						if x == f {
							found = true
							s |= ask(m.Bindings[i])
						}
					}
				}
			}
		}
	}
	if !found {
		return allKinds
	}
	return s
}

// assigned reports whether a variable is written outside the initialisation of its package.
func (wr *wordRule) assigned(g *ssa.Global) bool {
	for _, fn := range wr.w.p.moduleFuncs() {
		if fn.Pkg == g.Pkg && fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, o := range in.Operands(nil) {
					if *o != ssa.Value(g) {
						continue
					}
					if u, ok := in.(*ssa.UnOp); !ok || u.Op != token.MUL {
						return true
					}
				}
			}
		}
	}
	return false
}

// storesInto collects what is stored into a local variable, also by the functions that capture it.
func (wr *wordRule) storesInto(e *Engine, a ssa.Value, depth int) (KindSet, bool) {
	refs := a.Referrers()
	if refs == nil || depth > 6 {
		return 0, false
	}
	var s KindSet
	for _, in := range *refs {
		switch in := in.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if in.Addr != a {
				return 0, false
			}
			s |= wr.kindsOf(e, in.Val)
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == a {
					x, ok := wr.storesInto(e, fn.FreeVars[i], depth+1)
					if !ok {
						return 0, false
					}
					s |= x
				}
			}
		default:
			return 0, false
		}
	}
	return s, true
}

// zeroFirst adds no kind at all unless the variable is written right where it is made.
func (wr *wordRule) zeroFirst(e *Engine, a *ssa.Alloc) KindSet {
	after := false
	for _, in := range a.Block().Instrs {
		if in == ssa.Instruction(a) {
			after = true
			continue
		}
		if !after {
			continue
		}
		for _, o := range in.Operands(nil) {
			if *o == ssa.Value(a) {
				if s, ok := in.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					return 0
				}
				return e.kindSetNames("None")
			}
		}
	}
	return e.kindSetNames("None")
}

// field gives the kinds that a field of a struct may hold, in all of the module.
func (wr *wordRule) field(e *Engine, t types.Type, i int) KindSet {
	if e.isNode(t) {
		return allKinds
	}
	key := fmt.Sprintf("%s.%d", t.String(), i)
	if s, ok := wr.fields[key]; ok {
		return s
	}
	wr.fields[key] = 0
	var s KindSet
	for _, fn := range wr.w.p.moduleFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if !types.Identical(deref(in.X.Type()), t) || in.Field != i {
						continue
					}
					x, ok := wr.storesInto(e, in, 0)
					if !ok {
						x = allKinds
					}
					s |= x
				case *ssa.Alloc:
					if types.Identical(deref(in.Type()), t) && !wr.fieldSet(in, i) {
						s |= e.kindSetNames("None")
					}
				}
				for _, o := range in.Operands(nil) {
					if c, ok := (*o).(*ssa.Const); ok && types.Identical(c.Type(), t) {
						s |= e.kindSetNames("None")
					}
				}
			}
		}
	}
	wr.fields[key] = s
	return s
}

// fieldSet reports whether a field of a new struct is given a value where it is made, or the struct as a whole is.
func (wr *wordRule) fieldSet(a *ssa.Alloc, i int) bool {
	for _, in := range *a.Referrers() {
		switch in := in.(type) {
		case *ssa.Store:
			if in.Addr == ssa.Value(a) && in.Block() == a.Block() {
				return true
			}
		case *ssa.FieldAddr:
			if in.Field == i && in.Block() == a.Block() {
				for _, x := range *in.Referrers() {
					if s, ok := x.(*ssa.Store); ok && s.Addr == ssa.Value(in) && s.Block() == a.Block() {
						return true
					}
				}
			}
		}
	}
	return false
}

// param gives the kinds that callers give for a parameter.
func (wr *wordRule) param(e *Engine, v *ssa.Parameter) KindSet {
	fn := v.Parent()
	at := -1
	for i, p := range fn.Params {
		if p == v {
			at = i
		}
	}
	var s KindSet
	for _, g := range wr.w.p.moduleFuncs() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, isCall := in.(ssa.CallInstruction)
				for _, o := range in.Operands(nil) {
					if *o == ssa.Value(fn) && !(isCall && o == &c.Common().Value) {
						return allKinds // used as a value
					}
				}
				if isCall && c.Common().StaticCallee() == fn && at < len(c.Common().Args) {
					if _, closure := c.Common().Value.(*ssa.MakeClosure); closure {
						// the arguments stand at the same places
					}
					s |= wr.kindsOf(e, c.Common().Args[at])
				}
			}
		}
	}
	return s
}

func (e *Engine) inModulePkg(p *ssa.Package) bool {
	return p.Pkg.Path() == e.module || strings.HasPrefix(p.Pkg.Path(), e.module+"/")
}

func checkC24(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	ps, tok := p.root.Func("ParseScope"), e.tokenizer()
	if ps == nil || tok == nil {
		r.fail("anchor:ParseScope", "scope.go", "ParseScope or the function that splits texts was not found", nil)
		return nil
	}
	w := &panicWorld{p: p, e0: e, r: r, state: map[*ssa.Function]int{}, why: map[*ssa.Function][]failure{}, outs: map[*ssa.Function]int{}, skip: map[*ssa.Function]bool{}, links: map[*ssa.Function]bool{}}
	wr := &wordRule{w: w, stores: map[*ssa.Function]bool{}, acts: map[*ssa.Function]bool{}, sets: map[ssa.Value]KindSet{}, busy: map[ssa.Value]bool{}, fields: map[string]KindSet{}, sites: map[token.Pos]bool{}}
	w.rule = wr
	wr.names = e.kindSetNames(nameKinds...)
	wr.given = wr.names | e.kindSetNames("ParamType")
	wr.words = wr.given | e.kindSetNames("Raw")
	for _, n := range append([]string{"ParamType", "Raw"}, nameKinds...) {
		r.ob(e.kindSetNames(n) != 0, "anchor:kind."+n, "kind/kind.go", nil, "there is no kind %s", n)
	}
	for f := range p.linkStores(e, e.role.kind) {
		wr.stores[f] = true
	}
	// what may change nodes, and what may call something unknown
	seen := map[*ssa.Function]bool{ps: true, tok: true}
	region := []*ssa.Function{ps}
	via := map[*ssa.Function]*ssa.Function{}
	for i := 0; i < len(region); i++ {
		for _, g := range p.callees(region[i]) {
			if !seen[g] {
				seen[g] = true
				via[g] = region[i]
				region = append(region, g)
			}
		}
	}
	writes := p.linkStores(e, e.role.prev, e.role.next, e.role.text, e.role.line, e.role.kind)
	for _, f := range region {
		for _, g := range p.bfs(f) {
			if g == tok {
				continue
			}
			wr.acts[f] = wr.acts[f] || wr.stores[g]
			if len(writes[g]) > 0 || dynamic(g) {
				w.links[f] = true
			}
		}
	}
	w.skip[tok] = true
	var todo []*ssa.Function
	for _, f := range region {
		if o, ok := f.Object().(*types.Func); ok && p.isNodeMethod(e, f) && o.Exported() {
			w.skip[f] = true // a user may give any kind; what is done with it here is seen in the callers
			continue
		}
		if !wr.acts[f] {
			w.state[f] = 2 // gives no kinds
			continue
		}
		todo = append(todo, f)
	}
	sort.SliceStable(todo, func(i, j int) bool { return todo[i].Pos() < todo[j].Pos() })
	t0 := time.Now()
	for _, f := range todo {
		r.Units[f.String()]++
		if os.Getenv("GOAST_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, time.Since(t0).Round(time.Millisecond), f)
		}
		ok := wr.passesOn(e, f, w.total) || w.total(f)
		if !ok && f != ps && w.onlyCalled(todo, f) && !p.recursive(f) {
			n, allOK := 0, true
			for _, g := range todo {
				for _, h := range p.callees(g) {
					if h == f {
						n++
						allOK = allOK && w.total(g)
					}
				}
			}
			ok = allOK && n > 0
		}
		if ok {
			r.ob(true, "", "", nil, "")
			continue
		}
		r.Obligations++
		for _, x := range w.why[f] {
			var path []string
			for g := f; g != nil && len(path) < 12; g = via[g] {
				path = append([]string{g.Name()}, path...)
			}
			r.fail("words:"+f.String()+":"+stripPos(strings.TrimPrefix(x.msg, "cannot be decided: ")), e.posStr(x.where), fmt.Sprintf("%s, reached by %s: %s", f, strings.Join(path, " -> "), x.msg), x.trace)
		}
	}
	// only declarations of functions and types
	parser := map[*ssa.Function]bool{ps: true}
	entries := 0
	for i := 0; i < len(region); i++ {
		f := region[i]
		if f != ps && (f.Parent() == nil || !parser[f.Parent()]) {
			continue
		}
		parser[f] = true
		for _, g := range p.callees(f) {
			if wr.acts[g] && g != tok && !p.isNodeMethod(e, g) && (g.Parent() == nil || !parser[g.Parent()]) {
				entries++
				w.only(g, r)
			}
		}
	}
	// and only where they begin
	var kept, unknown []failure
	calls := 0
	seenAt := map[string]bool{}
	sub := newReport("C24")
	if err := parseScopes(p, sub, func(e *Engine, st *State, fn *ssa.Function, v Value, pos token.Pos) {
		head := false
		switch v := v.(type) {
		case VNil:
			head = true
		case VPtr:
			o := st.obj(v.Obj)
			head = o != nil && o.mark >= markWord
		case VUnk:
			if fn != nil {
				calls++
				unknown = append(unknown, failure{"a node that was kept in a list", pos, st.traceLines(30)})
				return
			}
		}
		switch {
		case fn == nil && !head:
			kept = append(kept, failure{"a node that begins no scope is kept", pos, st.traceLines(30)})
		case fn != nil:
			calls++
			if k := e.posStr(pos); !head && !seenAt[k] {
				seenAt[k] = true
				r.fail("heads:"+fn.String(), k, fn.Name()+" is given a node that begins no scope", st.traceLines(30))
			}
		}
	}); err != nil {
		return err
	}
	for k, v := range sub.viol {
		if strings.HasPrefix(k, "undecided:") {
			r.fail("heads:"+k, v.Where, "which nodes kinds are worked out for "+v.Msg, v.Trace)
		}
	}
	if len(kept) > 0 && len(unknown) > 0 {
		r.fail("heads:kept", e.posStr(unknown[0].where), "kinds are worked out for nodes of a list that also holds nodes that begin no scope, see "+e.posStr(kept[0].where), kept[0].trace)
	}
	r.ob(calls > 0, "anchor:heads", e.posStr(ps.Pos()), nil, "no scope is given to the functions that give kinds")
	r.Counters["scopes_given"] = calls
	r.ob(entries > 0, "anchor:entry", e.posStr(ps.Pos()), nil, "ParseScope calls nothing that gives kinds")
	r.Counters["functions_in_region"] = len(region)
	r.Counters["functions_that_give_kinds"] = len(todo)
	r.Counters["places_where_kinds_are_given"] = len(wr.sites)
	var sites []string
	for pos := range wr.sites {
		sites = append(sites, e.posStr(pos))
	}
	sort.Strings(sites)
	for _, s := range sites {
		r.sample("a kind is given at %s", s)
	}
	r.ob(len(wr.sites) > 0, "anchor:sites", "-", nil, "no place was found where the kind of a node is given")
	return nil
}

// only decides that a function leaves the kinds of all nodes alone when it is given a node that begins neither a
// function nor a type.
func (w *panicWorld) only(g *ssa.Function, r *Report) {
	wr := w.rule
	cfg := w.config(true)
	wr.tune(cfg)
	heads := w.e0.kindSetNames("Func", "Type")
	var found []failure
	cfg.onStore = func(e *Engine, st *State, o *Object, path string, pos token.Pos) {
		if e.isNode(o.typ) && (path == "" || path == pathAppend("", e.role.kind)) {
			if s, ok := o.val.(VStruct); ok {
				if k, ok := s.F[e.role.kind].(VStruct); ok && e.isZeroKind(k) {
					return
				}
			}
			found = append(found, failure{"a kind is given", pos, st.traceLines(30)})
		}
	}
	old := cfg.intercept
	cfg.intercept = func(e *Engine, st *State, h *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if wr.acts[h] && w.small(h) {
			return nil, nil, false
		}
		rs, ps, done := old(e, st, h, args, pos)
		if done && e.inModule(h) {
			bad := wr.acts[h]
			for _, a := range args {
				if f, ok := a.(VFunc); ok && wr.acts[f.Fn] {
					bad = true
				}
			}
			if bad {
				found = append(found, failure{h.Name() + " may give kinds", pos, st.traceLines(30)})
			}
		}
		return rs, ps, done
	}
	e, err := w.p.newEngine(cfg)
	if err != nil {
		r.fail("only:"+g.String(), "-", err.Error(), nil)
		return
	}
	e.limit = 30 * time.Second
	st := e.newState()
	var args []Value
	nodes := 0
	for _, p := range g.Params {
		v := e.unknownArg(st, p.Type())
		if e.isNodePtr(p.Type()) {
			nodes++
			n, ok := e.unknownArg(st, deref(p.Type())).(VStruct)
			if !ok {
				continue
			}
			f := append([]Value(nil), n.F...)
			f[e.role.kind] = st.newKind(allKinds &^ heads)
			v = st.allocVal(deref(p.Type()), VStruct{f})
		}
		args = append(args, wr.refine(e, st, p, v))
	}
	var binds []Value
	for _, p := range g.FreeVars {
		v := e.unknownArg(st, p.Type())
		if pt, ok := p.Type().(*types.Pointer); ok && !e.isNodePtr(p.Type()) {
			v = st.allocVal(pt.Elem(), e.unknownArg(st, pt.Elem()))
		}
		binds = append(binds, v)
	}
	if nodes != 1 {
		r.fail("only:"+g.String(), e.posStr(g.Pos()), g.Name()+" gives kinds, but not to the nodes of one scope", nil)
		return
	}
	n := 0
	u := &Unit{e: e, name: g.Name(), fn: g, headers: map[string]*headGroup{}, symbolic: map[string]bool{}}
	u.final = func(st *State, res Value) { n++ }
	e.touched[g] = true
	e.push(st, VFunc{Fn: g, Bind: binds}, args, false)
	u.work = []*State{st}
	e.drain(u)
	for m := range e.find.undecided {
		found = append(found, failure{"cannot be decided: " + m, g.Pos(), nil})
	}
	r.Obligations++
	for _, x := range found {
		r.fail("only:"+g.String()+":"+stripPos(strings.TrimPrefix(x.msg, "cannot be decided: ")), e.posStr(x.where), fmt.Sprintf("%s, given a node that begins neither a function nor a type: %s", g, x.msg), x.trace)
	}
	r.ob(n > 0 || len(found) > 0, "only:"+g.String(), e.posStr(g.Pos()), nil, "%s has no outcome", g)
	r.sample("%s leaves all kinds alone unless the node it is given begins a function or a type: %d ways through", g, n)
}

// dynamic reports whether a function calls a function it does not know.
func dynamic(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == nil {
				if _, builtin := c.Common().Value.(*ssa.Builtin); !builtin {
					return true
				}
			}
		}
	}
	return false
}
