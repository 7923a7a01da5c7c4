package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- no state is kept between calls, and nothing but the input decides -----------------------------------------------

// region is the code a user of the module can reach, without package initialisation.
type region struct {
	p     *Program
	fns   []*ssa.Function
	in    map[*ssa.Function]bool
	once  map[*ssa.Function]bool // run once by sync.Once and the like
	taken map[*ssa.Function]bool // used as values
}

func isInit(fn *ssa.Function) bool {
	return fn.Parent() == nil && fn.Signature.Recv() == nil && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#"))
}

// subject tells whether a package is part of what users rely on; the assertions for tests are not.
func (p *Program) subject(fn *ssa.Function) bool {
	k := pkgOf(fn)
	if k == nil {
		return fn.Synthetic != ""
	}
	return p.modulePath(k.Path()) && !strings.HasSuffix(k.Path(), "/assert")
}

func onceCall(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	k := pkgOf(f)
	return k != nil && k.Path() == "sync" && (f.Name() == "Do" || strings.HasPrefix(f.Name(), "Once"))
}

func (p *Program) region() *region {
	g := &region{p: p, in: map[*ssa.Function]bool{}, once: map[*ssa.Function]bool{}, taken: map[*ssa.Function]bool{}}
	var work []*ssa.Function
	add := func(fn *ssa.Function) {
		if fn != nil && fn.Blocks != nil && !g.in[fn] && !isInit(fn) && p.subject(fn) && !g.once[fn] {
			g.in[fn] = true
			work = append(work, fn)
		}
	}
	fns := p.moduleFuncs()
	for _, fn := range fns {
		if !p.subject(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && onceCall(c.Common()) {
					for _, a := range c.Common().Args {
						switch a := a.(type) {
						case *ssa.MakeClosure:
							g.once[a.Fn.(*ssa.Function)] = true
						case *ssa.Function:
							g.once[a] = true
						}
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if !p.subject(fn) {
			continue
		}
		if isInit(fn) {
			// functions kept in tables
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var ops [12]*ssa.Value
					for i, o := range in.Operands(ops[:0]) {
						f, ok := (*o).(*ssa.Function)
						if !ok {
							continue
						}
						if c, isCall := in.(ssa.CallInstruction); isCall && i == 0 && !c.Common().IsInvoke() {
							continue
						}
						g.taken[f] = true
						add(f)
					}
				}
			}
		}
		if fn.Parent() != nil && isInit(outermost(fn)) {
			g.taken[fn] = true
			add(fn)
		}
	}
	for _, fn := range p.exported() {
		if recv := fn.Signature.Recv(); recv != nil {
			t := deref(recv.Type())
			n, ok := t.(*types.Named)
			if ok && !n.Obj().Exported() && !p.behindInterface(recv.Type(), fn.Name()) {
				continue
			}
		}
		add(fn)
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range p.callees(fn) {
			add(c)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for i, o := range in.Operands(ops[:0]) {
					if f, ok := (*o).(*ssa.Function); ok {
						if c, isCall := in.(ssa.CallInstruction); !isCall || i > 0 || c.Common().IsInvoke() {
							g.taken[f] = true
						}
					}
				}
			}
		}
	}
	for fn := range g.in {
		g.fns = append(g.fns, fn)
	}
	sort.Slice(g.fns, func(i, j int) bool { return g.fns[i].String() < g.fns[j].String() })
	return g
}

// behindInterface reports whether a method of an unexported type can be called through an exported interface.
func (p *Program) behindInterface(t types.Type, name string) bool {
	for path, pk := range p.byPath {
		if !p.modulePath(path) {
			continue
		}
		for _, m := range pk.Members {
			mt, ok := m.(*ssa.Type)
			if !ok || !mt.Object().Exported() {
				continue
			}
			it, ok := mt.Type().Underlying().(*types.Interface)
			if !ok {
				continue
			}
			if n, isN := mt.Type().(*types.Named); isN && n.TypeParams().Len() > 0 {
				continue
			}
			for i := 0; i < it.NumMethods(); i++ {
				if it.Method(i).Name() == name && (types.Implements(t, it) || types.Implements(types.NewPointer(deref(t)), it)) {
					return true
				}
			}
		}
	}
	return false
}

// pointerful reports whether values of a type can refer to memory that can be changed through them.
func pointerful(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerful(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerful(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if pointerful(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// globalFlow finds the values that may refer to memory of package-level variables: flow- and context-insensitive,
// with fields told apart by type, elements by container type and variables by their cell.
type globalFlow struct {
	g       *region
	val     map[ssa.Value]bool
	mem     map[string]bool // fields, elements and variables that may hold such a value
	cell    map[ssa.Value]bool
	ret     map[*ssa.Function]bool
	changed bool
	own     func(g *ssa.Global) bool // variables that count
}

func fieldKey(x types.Type, i int) string {
	return "field " + typeFull(deref(x)) + " " + string(rune('0'+i))
}
func typeFull(t types.Type) string { return types.TypeString(t, nil) }

func (w *globalFlow) mark(v ssa.Value) {
	if v != nil && !w.val[v] && pointerful(v.Type()) {
		w.val[v] = true
		w.changed = true
	}
}

func (w *globalFlow) markMem(k string) {
	if !w.mem[k] {
		w.mem[k] = true
		w.changed = true
	}
}

func (w *globalFlow) is(v ssa.Value) bool {
	if g, ok := v.(*ssa.Global); ok {
		return w.own(g)
	}
	return w.val[v]
}

// holds reports whether the memory at an address may hold such a value.
func (w *globalFlow) holds(addr ssa.Value) bool {
	if w.is(addr) {
		return true
	}
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return w.mem[fieldKey(a.X.Type(), a.Field)]
	case *ssa.IndexAddr:
		return w.mem["elem "+typeFull(a.Type())]
	case *ssa.Alloc:
		return w.cell[a] || a.Heap && w.mem["cell "+typeFull(a.Type())]
	}
	return w.mem["cell "+typeFull(addr.Type())]
}

func (w *globalFlow) stored(addr ssa.Value) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		w.markMem(fieldKey(a.X.Type(), a.Field))
	case *ssa.IndexAddr:
		w.markMem("elem " + typeFull(a.Type()))
	case *ssa.Alloc:
		if !w.cell[a] {
			w.cell[a] = true
			w.changed = true
		}
		if a.Heap {
			w.markMem("cell " + typeFull(a.Type()))
		}
	default:
		w.markMem("cell " + typeFull(addr.Type()))
	}
}

func (w *globalFlow) run() {
	for w.changed = true; w.changed; {
		w.changed = false
		for _, fn := range w.g.fns {
			if fn.Parent() != nil && isInit(outermost(fn)) {
				for _, fv := range fn.FreeVars {
					w.mark(fv) // variables that live as long as the program
				}
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					w.instr(fn, in)
				}
			}
		}
	}
}

func (w *globalFlow) instr(fn *ssa.Function, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.UnOp:
		if in.Op == token.MUL && w.holds(in.X) {
			w.mark(in)
		}
	case *ssa.FieldAddr:
		if w.is(in.X) {
			w.mark(in)
		}
	case *ssa.IndexAddr:
		if w.is(in.X) {
			w.mark(in)
		}
	case *ssa.Field:
		if w.is(in.X) || w.mem[fieldKey(in.X.Type(), in.Field)] {
			w.mark(in)
		}
	case *ssa.Index:
		if w.is(in.X) {
			w.mark(in)
		}
	case *ssa.Lookup:
		if w.is(in.X) || w.mem["elem "+typeFull(in.X.Type())] {
			w.mark(in)
		}
	case *ssa.Range:
		if w.is(in.X) || w.mem["elem "+typeFull(in.X.Type())] {
			if !w.val[in] {
				w.val[in] = true
				w.changed = true
			}
		}
	case *ssa.Next:
		if w.val[in.Iter] {
			w.mark(in)
		}
	case *ssa.Extract:
		if w.is(in.Tuple) {
			w.mark(in)
		}
	case *ssa.Phi:
		for _, e := range in.Edges {
			if w.is(e) {
				w.mark(in)
			}
		}
	case *ssa.Slice:
		if w.is(in.X) {
			w.mark(in)
		}
	case *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		var ops [4]*ssa.Value
		for _, o := range in.Operands(ops[:0]) {
			if w.is(*o) {
				w.mark(in.(ssa.Value))
			}
		}
	case *ssa.Store:
		if w.is(in.Val) && pointerful(in.Val.Type()) {
			w.stored(in.Addr)
		}
	case *ssa.MapUpdate:
		if w.is(in.Value) || w.is(in.Key) {
			w.markMem("elem " + typeFull(in.Map.Type()))
		}
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			if w.is(b) {
				w.mark(f.FreeVars[i])
			}
		}
	case *ssa.Return:
		for _, v := range in.Results {
			if w.is(v) && pointerful(v.Type()) && !w.ret[fn] {
				w.ret[fn] = true
				w.changed = true
			}
		}
	case ssa.CallInstruction:
		w.callInstr(in)
	}
}

func (w *globalFlow) callInstr(in ssa.CallInstruction) {
	c := in.Common()
	res, _ := in.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		if b.Name() == "append" && len(c.Args) == 2 {
			if w.is(c.Args[0]) && reslices(c.Args[0]) {
				w.mark(res)
			}
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if pointerful(el) && (w.is(c.Args[0]) || w.is(c.Args[1])) {
				w.markMem("elem " + typeFull(types.NewPointer(el)))
			}
		}
		return
	}
	for _, f := range w.g.targets(c) {
		args := c.Args
		if c.IsInvoke() {
			args = append([]ssa.Value{c.Value}, args...)
		}
		for i, a := range args {
			if i < len(f.Params) && w.is(a) {
				w.mark(f.Params[i])
			}
		}
		if w.ret[f] && res != nil {
			w.mark(res)
		}
	}
	if f := c.StaticCallee(); f != nil && !w.g.p.inModule(f) && res != nil && !fresh(f) {
		for _, a := range c.Args {
			if w.is(a) {
				w.mark(res)
			}
		}
	}
}

// reslices reports whether a slice may be shorter than the memory behind it.
func reslices(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Slice:
		return v.Max == nil && (v.High != nil || reslices(v.X))
	case *ssa.Phi:
		for _, e := range v.Edges {
			if s, ok := e.(*ssa.Slice); ok && reslices(s) {
				return true
			}
		}
	}
	return false
}

// fresh lists functions outside the module whose results share nothing with their arguments.
func fresh(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	k := pkgOf(f)
	if k == nil {
		return false
	}
	switch k.Path() {
	case "fmt", "strings", "strconv", "errors", "path/filepath", "go/format", "golang.org/x/tools/imports", "os":
		return true
	}
	return f.Name() == "Clone" || f.Name() == "Concat" || f.Name() == "Repeat"
}

// targets are the functions of the region a call may run.
func (g *region) targets(c *ssa.CallCommon) []*ssa.Function {
	if c.IsInvoke() {
		return g.p.implementers(c)
	}
	if f := c.StaticCallee(); f != nil {
		if g.in[f] {
			return []*ssa.Function{f}
		}
		return nil
	}
	if _, ok := c.Value.(*ssa.Builtin); ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range g.fns {
		if (f.Parent() != nil || g.taken[f]) && types.Identical(f.Signature, c.Signature()) {
			out = append(out, f)
		}
	}
	return out
}

var readOnlyPkgs = map[string]bool{"errors": true, "fmt": true, "strings": true, "bytes": true, "unicode": true, "unicode/utf8": true,
	"strconv": true, "cmp": true, "path/filepath": true, "path": true, "go/format": true, "golang.org/x/tools/imports": true,
	"log/slog": true, "reflect": true, "io": true, "os": true, "go/token": true, "go/scanner": true, "iter": true, "math": true}

var changers = map[string]bool{"Sort": true, "SortFunc": true, "SortStableFunc": true, "Reverse": true, "Insert": true, "Delete": true, "DeleteFunc": true,
	"Compact": true, "CompactFunc": true, "Replace": true, "Copy": true}

// changes tells whether a function outside the module may write through an argument.
func changes(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	k := pkgOf(f)
	if k == nil {
		return true
	}
	switch k.Path() {
	case "slices", "maps":
		return changers[f.Name()]
	case "sync":
		return f.Name() != "Do" && !strings.HasPrefix(f.Name(), "Once")
	}
	if f.Signature.Recv() != nil {
		switch k.Path() {
		case "strings", "bytes": // Builder, Buffer, Reader; a Replacer is never changed
			return !strings.Contains(f.Signature.Recv().Type().String(), "Replacer")
		}
	}
	return !readOnlyPkgs[k.Path()]
}

func localOnly(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				a := in.Addr
				for {
					if f, ok := a.(*ssa.FieldAddr); ok {
						a = f.X
					} else if f, ok := a.(*ssa.IndexAddr); ok {
						a = f.X
					} else {
						break
					}
				}
				if _, ok := a.(*ssa.Alloc); !ok {
					if s, ok := a.(*ssa.Slice); !ok || s == nil {
						return false
					}
				}
			case *ssa.MapUpdate:
				return false
			}
		}
	}
	return true
}

// switches are the variables a user sets through a function made for that, and which only code without any result
// looks at.
func (g *region) switches() (vars map[*ssa.Global]bool, setters map[*ssa.Store]bool) {
	vars, setters = map[*ssa.Global]bool{}, map[*ssa.Store]bool{}
	for _, fn := range g.fns {
		if fn.Parent() != nil || fn.Object() == nil || !fn.Object().Exported() || fn.Signature.Results().Len() > 0 {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				gl, ok := s.Addr.(*ssa.Global)
				if _, isPar := s.Val.(*ssa.Parameter); !ok || !isPar || pointerful(deref(gl.Type())) {
					continue
				}
				fine := true
				for _, f := range g.fns {
					reads := false
					for _, b := range f.Blocks {
						for _, in := range b.Instrs {
							if st, isStore := in.(*ssa.Store); isStore && st.Addr == gl {
								continue
							}
							var ops [12]*ssa.Value
							for _, o := range in.Operands(ops[:0]) {
								reads = reads || *o == ssa.Value(gl)
							}
						}
					}
					if reads && (f.Signature.Results().Len() > 0 || !localOnly(f)) {
						fine = false
					}
				}
				if fine {
					vars[gl], setters[s] = true, true
				}
			}
		}
	}
	return vars, setters
}

func checkC14(p *Program, r *Report, thorough bool) error {
	g := p.region()
	vars, setters := g.switches()
	w := &globalFlow{g: g, val: map[ssa.Value]bool{}, mem: map[string]bool{}, cell: map[ssa.Value]bool{}, ret: map[*ssa.Function]bool{},
		own: func(gl *ssa.Global) bool {
			// variables of other packages count as well: they are not this module's to change
			return !strings.HasSuffix(gl.Name(), "init$guard")
		}}
	w.run()
	what := func(addr ssa.Value) string {
		for i := 0; i < 20; i++ {
			switch a := addr.(type) {
			case *ssa.Global:
				return "the package-level variable " + a.Name()
			case *ssa.FieldAddr:
				addr = a.X
			case *ssa.IndexAddr:
				addr = a.X
			case *ssa.UnOp:
				addr = a.X
			case *ssa.Slice:
				addr = a.X
			default:
				return "memory that belongs to a package-level variable"
			}
		}
		return "memory that belongs to a package-level variable"
	}
	nstores, globals := 0, map[*ssa.Global]bool{}
	for _, fn := range g.fns {
		r.Units[fn.String()]++
		at := func(pos token.Pos) string {
			if !pos.IsValid() {
				pos = fn.Pos()
			}
			return p.posStr(pos)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if gl, ok := (*o).(*ssa.Global); ok {
						globals[gl] = true
					}
				}
				switch in := in.(type) {
				case *ssa.Store:
					nstores++
					r.ob(setters[in] || !w.is(in.Addr), "state:"+fn.String(), at(in.Pos()), nil, "%s changes %s", fn, what(in.Addr))
				case *ssa.MapUpdate:
					nstores++
					r.ob(!w.is(in.Map), "state:"+fn.String(), at(in.Pos()), nil, "%s changes a map: %s", fn, what(in.Map))
				case *ssa.Send:
					r.ob(!w.is(in.Chan), "state:"+fn.String(), at(in.Pos()), nil, "%s sends on a channel kept in a package-level variable", fn)
				case ssa.CallInstruction:
					c := in.Common()
					if bi, ok := c.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear", "copy", "close":
							nstores++
							r.ob(!w.is(c.Args[0]), "state:"+fn.String(), at(in.Pos()), nil, "%s changes %s", fn, what(c.Args[0]))
						case "append":
							nstores++
							r.ob(!w.is(c.Args[0]) || !reslices(c.Args[0]), "state:"+fn.String(), at(in.Pos()), nil, "%s appends in place to %s", fn, what(c.Args[0]))
						}
						break
					}
					f := c.StaticCallee()
					if f == nil || p.inModule(f) {
						break
					}
					for _, a := range c.Args {
						if !w.is(a) {
							continue
						}
						switch a.Type().Underlying().(type) {
						case *types.Pointer, *types.Slice, *types.Map, *types.Chan:
							nstores++
							r.ob(!changes(f), "state:"+fn.String(), at(in.Pos()), nil, "%s hands %s to %s, which may change it", fn, what(a), f)
						}
					}
				}
			}
		}
	}
	r.ob(len(g.fns) > 20 && nstores > 20, "state:region", "ast.go", nil, "only %d functions with %d stores were found", len(g.fns), nstores)
	r.Counters["stores"] = nstores
	r.Counters["package_variables_used"] = len(globals)
	for gl := range vars {
		r.sample("%s is a switch: set by its setter only, read by code without results only", gl.Name())
	}
	r.sample("%d functions a user can reach, %d places that write memory, %d package-level variables in use", len(g.fns), nstores, len(globals))
	return nil
}

func outermost(fn *ssa.Function) *ssa.Function {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn
}
