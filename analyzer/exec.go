package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"runtime/metrics"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// resv is one outcome of evaluating something: a state and the value in it.
type resv struct {
	st  *State
	val Value
}

func one(st *State, v Value) []resv { return []resv{{st, v}} }

// stop ends a path with a diagnosis: the construct is outside what the analysis models.
type undecidedErr struct {
	msg string
	pos token.Pos
}

func (e *Engine) undecided(st *State, pos token.Pos, format string, args ...any) {
	panic(undecidedErr{fmt.Sprintf(format, args...), pos})
}

// unit of exploration: one function entered in one abstract state.
type Unit struct {
	e         *Engine
	name      string
	fn        *ssa.Function
	exitKeys  map[string]*Exit
	exitOrder []string
	ent       *headEntry
	final     func(st *State, res Value)
	nfinal    int
	queued    bool
	headers   map[string]*headGroup
	symbolic  map[string]bool
	exitFork  map[string]map[int]bool
	panics    []*PanicExit
	deps      []*dependent
	sites     map[string]*site
	work      []*State
	steps     int
	tab       bool
}

type Exit struct {
	c   *canonical
	ver int
}

type PanicExit struct {
	st  *State
	msg string
	pos token.Pos
	fn  *ssa.Function
}

// Findings of a whole analysis.
type Findings struct {
	panics    map[string]*PanicExit
	undecided map[string]*State
	bad       map[string]*State
}

func (e *Engine) val(st *State, f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		if id, ok := e.globals[v]; ok {
			return VPtr{Obj: id}
		}
		return VExtGlobal{v}
	case *ssa.Function:
		return VFunc{Fn: v}
	case *ssa.Builtin:
		return v
	}
	id, ok := f.info.num[v]
	if !ok {
		e.undecided(st, v.Pos(), "unknown register %s", v)
	}
	r := f.regs[id]
	if r == nil {
		e.undecided(st, v.Pos(), "register %s (%T) of %s has no value", v.Name(), v, f.fn)
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Value {
	t := c.Type().Underlying()
	if c.Value == nil {
		return e.zero(c.Type())
	}
	switch b := t.(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsBoolean != 0:
			return VBool{constant.BoolVal(c.Value)}
		case b.Info()&types.IsString != 0:
			return VStr{constSeq(constant.StringVal(c.Value))}
		case b.Info()&types.IsInteger != 0:
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return VInt{linC(i)}
			}
			if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
				return VInt{linC(int64(u))}
			}
		}
	case *types.Interface, *types.TypeParam:
	}
	return VUnk{-1, c.Type()}
}

func (e *Engine) zero(t types.Type) Value {
	if isBufType(t) {
		return VBuf{}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return VBool{false}
		case u.Info()&types.IsString != 0:
			return VStr{}
		case u.Info()&types.IsInteger != 0:
			return VInt{}
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return VNil{}
		}
		return VUnk{-1, t}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.zero(u.Field(i).Type())
		}
		return VStruct{f}
	case *types.Array:
		n := int(u.Len())
		if n > 4096 {
			return VUnk{-1, t}
		}
		f := make([]Value, n)
		for i := range f {
			f[i] = e.zero(u.Elem())
		}
		return VStruct{f}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = e.zero(u.At(i).Type())
		}
		return VTuple{f}
	}
	return VNil{}
}

func isBufType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	s := n.Obj().Pkg().Path() + "." + n.Obj().Name()
	return s == "strings.Builder" || s == "bytes.Buffer"
}

// fresh makes an unknown value of a type.
func (e *Engine) fresh(st *State, t types.Type, name string) Value {
	if e.isKindType(t) {
		return st.newKind(allKinds)
	}
	if isBufType(t) {
		return VBuf{st.newText(name)}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return VStr{st.newText(name)}
		case u.Kind() == types.Uint8:
			id := st.newSrc(name, false, linC(1))
			return VByte{id, linC(0)}
		case u.Info()&types.IsInteger != 0:
			if u.Info()&types.IsUnsigned != 0 {
				return VInt{st.newNat()}
			}
			return VInt{st.newInt()}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return VBytes{st.newText(name)}
		}
		n := st.newNat()
		id := st.newSrc(name, true, n)
		o := st.alloc(&Object{kind: oList, typ: u.Elem(), elems: []LElem{{sum: true, seq: Seq{{Src: id, A: linC(0), B: n}}, n: n}}})
		return VSlice{Obj: o, Len: n}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = e.fresh(st, u.Field(i).Type(), name)
		}
		return VStruct{f}
	case *types.Array:
		if u.Len() <= 64 {
			f := make([]Value, u.Len())
			for i := range f {
				f[i] = e.fresh(st, u.Elem(), name)
			}
			return VStruct{f}
		}
	case *types.Tuple:
		f := make([]Value, u.Len())
		for i := range f {
			f[i] = e.fresh(st, u.At(i).Type(), name)
		}
		return VTuple{f}
	}
	return st.newUnk(t)
}

// run explores the unit's worklist until it is empty.
func (e *Engine) run(u *Unit) {
	for len(u.work) > 0 {
		if e.aborted {
			u.work = nil
			return
		}
		st := u.work[len(u.work)-1]
		u.work = u.work[:len(u.work)-1]
		e.stepAll(u, st)
		if e.aborted {
			u.work = nil
			return
		}
		if e.exceeded() {
			e.addUndecided(st, "exploration budget exceeded in "+u.name)
			u.work = nil
			e.aborted = true
			return
		}
	}
}

// maxHeap bounds the memory of one check.
const maxHeap = 9 << 30

// exceeded reports whether the exploration takes too many steps, too long, or too much memory.
func (e *Engine) exceeded() bool {
	if e.steps-e.memAt > 8192 {
		e.memAt = e.steps
		m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		metrics.Read(m)
		e.full = e.full || m[0].Value.Uint64() > maxHeap
	}
	return e.full || e.budget > 0 && e.steps > e.budget || time.Since(e.began) > e.limit
}

// halt records a violation of what the specification asks of every node and ends the exploration.
func (e *Engine) halt(st *State, msg string) {
	if e.find.bad[msg] == nil {
		e.find.bad[msg] = st
	}
	e.aborted = true
}

func (e *Engine) addUndecided(st *State, msg string) {
	if e.find.undecided[msg] == nil {
		e.find.undecided[msg] = st
	}
}

func (e *Engine) stepAll(u *Unit, st *State) {
	defer func() {
		if r := recover(); r != nil {
			if ud, ok := r.(undecidedErr); ok {
				msg := fmt.Sprintf("%s: %s", e.posStr(ud.pos), ud.msg)
				if ud.pos == token.NoPos && len(st.frames) > 0 {
					f := st.top()
					p := token.NoPos
					if f.block < len(f.fn.Blocks) && f.pc < len(f.fn.Blocks[f.block].Instrs) {
						p = f.fn.Blocks[f.block].Instrs[f.pc].Pos()
					}
					msg = fmt.Sprintf("%s in %s: %s", e.posStr(p), f.fn, ud.msg)
				}
				e.addUndecided(st, msg)
				return
			}
			panic(r)
		}
	}()
	for {
		e.steps++
		if e.steps&1023 == 0 && e.exceeded() {
			u.work = append(u.work, st) // run reports it
			return
		}
		next := e.step(u, st)
		if len(next) == 0 {
			return
		}
		if len(next) == 1 {
			st = next[0]
			continue
		}
		u.work = append(u.work, next[1:]...)
		st = next[0]
	}
}

// step executes one instruction of the top frame.
func (e *Engine) step(u *Unit, st *State) []*State {
	f := st.top()
	b := f.fn.Blocks[f.block]
	in := b.Instrs[f.pc]
	switch in := in.(type) {
	case *ssa.Phi:
		// evaluated on jump; reaching one here means entry by fallthrough
		f.pc++
		return []*State{st}
	case *ssa.Jump:
		return e.jump(u, st, b.Succs[0].Index)
	case *ssa.If:
		var out []*State
		rs := e.truth(st, e.val(st, f, in.Cond))
		fork := len(rs) > 1
		if fork {
			e.markSymbolic(u, st, in.Cond)
		}
		for _, r := range rs {
			k := 1
			if r.b {
				k = 0
			}
			if fork && e.posOf(in) != token.NoPos {
				r.st.note(e.posOf(in), "branch %v", r.b)
			}
			out = append(out, e.jump(u, r.st, b.Succs[k].Index)...)
		}
		return out
	case *ssa.Return:
		var res Value = VTuple{}
		switch len(in.Results) {
		case 0:
		case 1:
			res = e.val(st, f, in.Results[0])
		default:
			t := VTuple{}
			for _, r := range in.Results {
				t.V = append(t.V, e.val(st, f, r))
			}
			res = t
		}
		return e.ret(u, st, res)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return e.runDefer(u, st, d)
		}
		f.pc++
		return []*State{st}
	case *ssa.Panic:
		return e.doPanic(u, st, "explicit panic", in.Pos(), e.val(st, f, in.X))
	case *ssa.Store:
		addr, v := e.val(st, f, in.Addr), e.val(st, f, in.Val)
		if _, isNil := addr.(VNil); isNil {
			return e.doPanic(u, st, "nil pointer dereference", in.Pos(), nil)
		}
		e.store(st, addr, v, in.Pos())
		f.pc++
		return []*State{st}
	case *ssa.MapUpdate:
		m := e.val(st, f, in.Map)
		if _, isNil := m.(VNil); isNil {
			return e.doPanic(u, st, "assignment to entry in nil map", in.Pos(), nil)
		}
		e.mapUpdate(st, m, e.val(st, f, in.Key), e.val(st, f, in.Value), in.Pos())
		f.pc++
		return []*State{st}
	case *ssa.DebugRef:
		f.pc++
		return []*State{st}
	case *ssa.Defer:
		fn, args := e.callee(st, f, &in.Call)
		f.defers = append(f.defers, deferred{fn, args, &in.Call})
		f.pc++
		return []*State{st}
	case *ssa.Go, *ssa.Send, *ssa.Select:
		e.undecided(st, in.Pos(), "concurrency construct %T", in)
	case *ssa.Call:
		return e.doCall(u, st, in)
	}
	v, ok := in.(ssa.Value)
	if !ok {
		e.undecided(st, in.Pos(), "instruction %T", in)
	}
	rs, pan := e.eval(u, st, in)
	var out []*State
	if len(rs) > 1 {
		e.markSymbolic(u, rs[0].st, v)
	}
	for _, r := range rs {
		g := r.st.top()
		g.regs[g.info.num[v]] = r.val
		g.pc++
		out = append(out, r.st)
	}
	for _, p := range pan {
		out = append(out, e.doPanic(u, p.st, p.msg, in.Pos(), nil)...)
	}
	return out
}

type panicRes struct {
	st  *State
	msg string
}

func (e *Engine) posOf(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p != token.NoPos {
		return p
	}
	if i, ok := in.(*ssa.If); ok {
		return i.Cond.Pos()
	}
	return token.NoPos
}

func (e *Engine) jump(u *Unit, st *State, to int) []*State {
	f := st.top()
	from := f.block
	b := f.fn.Blocks[to]
	pi := -1
	for k, p := range b.Preds {
		if p.Index == from {
			pi = k
		}
	}
	var vals []Value
	n := 0
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, e.val(st, f, phi.Edges[pi]))
		n++
	}
	for k := 0; k < n; k++ {
		f.regs[f.info.num[b.Instrs[k].(*ssa.Phi)]] = vals[k]
	}
	f.prev, f.block, f.pc = from, to, n
	if f.info.header[to] && e.joining {
		return e.checkpoint(u, st)
	}
	return []*State{st}
}

// markSymbolic notes that some loop around the branch takes an unknown course; v is the value that forked, if any.
func (e *Engine) markSymbolic(u *Unit, st *State, v ssa.Value) {
	if !e.joining {
		return
	}
	for i, f := range st.frames {
		for h, body := range f.info.loopOf {
			if !body[f.block] {
				continue
			}
			name := ""
			if !u.seenLoop(f.info, st, i, h, &name) {
				continue
			}
			if v != nil && i == len(st.frames)-1 {
				for _, x := range f.info.exits[h] {
					if condSource(x.cond) == v {
						if u.exitFork[name] == nil {
							u.exitFork[name] = map[int]bool{}
						}
						u.exitFork[name][x.block] = true
					}
				}
			}
		}
	}
}

func (u *Unit) seenLoop(fi *FnInfo, st *State, depth, h int, name *string) bool {
	*name = headerName(st, depth, h)
	u.symbolic[*name] = true
	if u.exitFork == nil {
		u.exitFork = map[string]map[int]bool{}
	}
	return true
}

// variants is how many constant variants of a loop head are told apart.
func (u *Unit) variants(fi *FnInfo, h int, name string) int {
	if !u.symbolic[name] {
		return 600
	}
	for _, x := range fi.exits[h] {
		if !u.exitFork[name][x.block] {
			return 160
		}
	}
	return 2
}

func headerName(st *State, depth, h int) string {
	var sb strings.Builder
	for i := 0; i <= depth; i++ {
		f := st.frames[i]
		if i < depth {
			fmt.Fprintf(&sb, "%s@%d.%d>", f.fn.String(), f.block, f.pc)
		} else {
			fmt.Fprintf(&sb, "%s#%d", f.fn.String(), h)
		}
	}
	return sb.String()
}

func (e *Engine) ret(u *Unit, st *State, res Value) []*State {
	f := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		u.addExit(st, res)
		return nil
	}
	var rs []resv
	if f.onReturn != nil {
		rs = f.onReturn(e, st, res)
	} else {
		rs = one(st, res)
	}
	var out []*State
	for _, r := range rs {
		out = append(out, e.afterCall(u, r.st, f.isDefer, r.val)...)
	}
	return out
}

func (e *Engine) afterCall(u *Unit, st *State, isDefer bool, res Value) []*State {
	g := st.top()
	if isDefer {
		if g.unwinding {
			return e.unwind(u, st)
		}
		return []*State{st} // RunDefers again
	}
	in := g.fn.Blocks[g.block].Instrs[g.pc]
	if v, ok := in.(ssa.Value); ok {
		g.regs[g.info.num[v]] = res
	}
	g.pc++
	return []*State{st}
}

func (e *Engine) runDefer(u *Unit, st *State, d deferred) []*State {
	rs, pushed, pan := e.invoke(u, st, d.fn, d.args, d.call, d.call.Pos(), true)
	if pushed {
		return []*State{st}
	}
	var out []*State
	for _, r := range rs {
		out = append(out, e.afterCall(u, r.st, true, r.val)...)
	}
	for _, p := range pan {
		out = append(out, e.doPanic(u, p.st, p.msg, d.call.Pos(), nil)...)
	}
	return out
}

func (e *Engine) doPanic(u *Unit, st *State, msg string, pos token.Pos, v Value) []*State {
	if v == nil {
		v = VIface{nil, VUnk{-2, nil}}
	}
	if pos == token.NoPos {
		f := st.top()
		for k := f.pc; k >= 0 && pos == token.NoPos; k-- {
			pos = f.fn.Blocks[f.block].Instrs[k].Pos()
		}
	}
	st.note(pos, "panic: %s", msg)
	st.ghost["panic:msg"] = VStr{constSeq(msg)}
	st.panicV = v
	st.ghost["panic:val"] = v
	pe := &PanicExit{st: st, msg: msg, pos: pos, fn: st.top().fn}
	return e.unwindFrom(u, st, pe)
}

func (e *Engine) unwind(u *Unit, st *State) []*State {
	return e.unwindFrom(u, st, nil)
}

func (e *Engine) unwindFrom(u *Unit, st *State, pe *PanicExit) []*State {
	for {
		if len(st.frames) == 0 {
			if pe == nil {
				pe = &PanicExit{st: st, msg: "panic"}
				if st.trace != nil {
					pe.pos = st.trace.pos
				}
			}
			pe.st = st
			u.panics = append(u.panics, pe)
			return nil
		}
		f := st.top()
		if st.panicV == nil && f.unwinding {
			// recovered
			if len(f.defers) > 0 {
				d := f.defers[len(f.defers)-1]
				f.defers = f.defers[:len(f.defers)-1]
				return e.runDefer(u, st, d)
			}
			f.unwinding = false
			if f.fn.Recover != nil {
				f.block, f.pc = f.fn.Recover.Index, 0
				return []*State{st}
			}
			return e.ret(u, st, e.zero(f.fn.Signature.Results()))
		}
		if len(f.defers) > 0 {
			f.unwinding = true
			d := f.defers[len(f.defers)-1]
			f.defers = f.defers[:len(f.defers)-1]
			return e.runDefer(u, st, d)
		}
		st.frames = st.frames[:len(st.frames)-1]
		if f.isDefer && len(st.frames) > 0 {
			st.top().unwinding = true
		}
	}
}

func (e *Engine) callee(st *State, f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, e.val(st, f, a))
	}
	return e.val(st, f, c.Value), args
}

func (e *Engine) doCall(u *Unit, st *State, in *ssa.Call) []*State {
	f := st.top()
	fn, args := e.callee(st, f, &in.Call)
	rs, pushed, pan := e.invoke(u, st, fn, args, &in.Call, in.Pos(), false)
	if pushed {
		return []*State{st}
	}
	var out []*State
	for _, r := range rs {
		out = append(out, e.afterCall(u, r.st, false, r.val)...)
	}
	for _, p := range pan {
		out = append(out, e.doPanic(u, p.st, p.msg, in.Pos(), nil)...)
	}
	return out
}

// invoke calls a function value. Either it pushes a frame, or it returns the outcomes.
func (e *Engine) invoke(u *Unit, st *State, fv Value, args []Value, c *ssa.CallCommon, pos token.Pos, isDefer bool) ([]resv, bool, []panicRes) {
	if c != nil && c.IsInvoke() {
		switch recv := fv.(type) {
		case VNil:
			return nil, false, []panicRes{{st, "method call on nil interface"}}
		case VIface:
			if _, unk := recv.V.(VUnk); unk {
				return e.invokeUnknown(st, recv, args, c, pos)
			}
			m := e.prog.LookupMethod(recv.T, c.Method.Pkg(), c.Method.Name())
			if m == nil {
				e.undecided(st, pos, "method %s of %v", c.Method.Name(), recv.T)
			}
			return e.invokeFn(u, st, VFunc{Fn: m}, append([]Value{recv.V}, args...), c, pos, isDefer)
		default:
			return e.invokeUnknown(st, fv, args, c, pos)
		}
	}
	switch fv := fv.(type) {
	case *ssa.Builtin:
		rs, pan := e.builtin(st, fv, args, c, pos)
		return rs, false, pan
	case VNil:
		return nil, false, []panicRes{{st, "call of nil function"}}
	case VFunc:
		return e.invokeFn(u, st, fv, args, c, pos, isDefer)
	case VCallback:
		if e.cfg.callback == nil {
			e.undecided(st, pos, "call of user function %s", fv.Name)
		}
		rs, pan := e.cfg.callback(e, st, fv, args, pos)
		return rs, false, pan
	}
	e.undecided(st, pos, "call of unknown function value %T", fv)
	return nil, false, nil
}

func (e *Engine) invokeUnknown(st *State, recv Value, args []Value, c *ssa.CallCommon, pos token.Pos) ([]resv, bool, []panicRes) {
	if e.cfg.ifaceCall != nil {
		if rs, ok := e.cfg.ifaceCall(e, st, recv, c.Method, args, pos); ok {
			return rs, false, nil
		}
	}
	if er, ok := recv.(VErr); ok && c.Method.Name() == "Error" {
		_ = er
		return one(st, VStr{st.newText("error text")}), false, nil
	}
	e.undecided(st, pos, "call of method %s on unknown value %s", c.Method.Name(), showVal(recv))
	return nil, false, nil
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (e *Engine) invokeFn(u *Unit, st *State, fv VFunc, args []Value, c *ssa.CallCommon, pos token.Pos, isDefer bool) ([]resv, bool, []panicRes) {
	fn := fv.Fn
	e.touched[fn] = true
	if e.cfg.intercept != nil {
		if rs, pan, ok := e.cfg.intercept(e, st, fn, args, pos); ok {
			return rs, false, pan
		}
	}
	if in, ok := intrinsics[fnKey(fn)]; ok {
		rs, pan := in(e, st, &icall{fn: fn, args: args, pos: pos, c: c, u: u})
		if rs == nil && pan == nil && e.pushedByIntrinsic {
			e.pushedByIntrinsic = false
			return nil, true, nil
		}
		return rs, false, pan
	}
	if !e.inModule(fn) && !e.inlinable(fn) {
		if e.cfg.external != nil {
			if rs, ok := e.cfg.external(e, st, fn, args, pos); ok {
				return rs, false, nil
			}
		}
		e.undecided(st, pos, "call of %s is not modelled", fn)
	}
	if fn.Pkg != nil && fn.Blocks == nil {
		fn.Pkg.Build()
	}
	if fn.Blocks == nil {
		e.undecided(st, pos, "function %s has no body", fn)
	}
	if e.cfg.tabulate && e.recursive(fn) && !isDefer {
		return e.callTab(u, st, fv, args, pos), false, nil
	}
	depth := 0
	for _, f := range st.frames {
		if f.fn == fn {
			depth++
		}
	}
	if depth > e.cfg.maxRec {
		e.undecided(st, pos, "recursion of %s deeper than %d", fn, e.cfg.maxRec)
	}
	if len(st.frames) > 60 {
		e.undecided(st, pos, "call stack too deep at %s", fn)
	}
	e.push(st, fv, args, isDefer)
	return nil, true, nil
}

func (e *Engine) push(st *State, fv VFunc, args []Value, isDefer bool) {
	fi := e.info(fv.Fn)
	f := &Frame{fn: fv.Fn, info: fi, regs: make([]Value, len(fi.vals)), bind: fv.Bind, isDefer: isDefer}
	if len(args) != len(fv.Fn.Params) {
		e.undecided(st, fv.Fn.Pos(), "call of %s with %d arguments", fv.Fn, len(args))
	}
	for i, p := range fv.Fn.Params {
		f.regs[fi.num[p]] = args[i]
	}
	for i, p := range fv.Fn.FreeVars {
		f.regs[fi.num[p]] = fv.Bind[i]
	}
	st.frames = append(st.frames, f)
}

// --- truth ----------------------------------------------------------------------

type boolRes struct {
	st *State
	b  bool
}

func (e *Engine) truth(st *State, v Value) []boolRes {
	switch v := v.(type) {
	case VBool:
		return []boolRes{{st, v.B}}
	case VUnk:
		if b, ok := st.unkB[v.ID]; ok && v.ID > 0 {
			return []boolRes{{st, b}}
		}
		st2 := st.clone()
		for i, s := range []*State{st, st2} {
			m := map[int]bool{}
			for k, x := range s.unkB {
				m[k] = x
			}
			m[v.ID] = i == 0
			s.unkB = m
		}
		return []boolRes{{st, true}, {st2, false}}
	}
	e.undecided(st, token.NoPos, "condition %s", showVal(v))
	return nil
}

// split explores a condition both ways; a branch that is impossible is dropped.
func split(st *State, yes, no func(*State) bool) []boolRes {
	var out []boolRes
	s2 := st.clone()
	if yes == nil || yes(st) {
		out = append(out, boolRes{st, true})
	}
	if no == nil || no(s2) {
		out = append(out, boolRes{s2, false})
	}
	return out
}

func toVals(rs []boolRes) []resv {
	var out []resv
	for _, r := range rs {
		out = append(out, resv{r.st, VBool{r.b}})
	}
	return out
}

func (e *Engine) cmpLE(st *State, a, b Lin) []boolRes { // a <= b
	if st.zone.le(a, b) {
		return []boolRes{{st, true}}
	}
	if st.zone.lt(b, a) {
		return []boolRes{{st, false}}
	}
	return split(st,
		func(s *State) bool { return s.zone.assumeLE(a.sub(b)) },
		func(s *State) bool { return s.zone.assumeLE(b.sub(a).addC(1)) })
}

func (e *Engine) cmpEQ(st *State, a, b Lin) []boolRes {
	if st.zone.equal(a, b) {
		return []boolRes{{st, true}}
	}
	if st.zone.lt(a, b) || st.zone.lt(b, a) {
		return []boolRes{{st, false}}
	}
	var out []boolRes
	s2, s3 := st.clone(), st.clone()
	if st.zone.assumeEQ(a, b) {
		out = append(out, boolRes{st, true})
	}
	if s2.zone.assumeLE(a.sub(b).addC(1)) {
		out = append(out, boolRes{s2, false})
	}
	if s3.zone.assumeLE(b.sub(a).addC(1)) {
		out = append(out, boolRes{s3, false})
	}
	return out
}

func (e *Engine) byteIn(st *State, b VByte, set ByteSet) []boolRes {
	if s := st.srcs[b.Src]; s != nil && s.parts != nil {
		// in which part does the byte stand?
		var out []boolRes
		rest := []*State{st}
		for i, p := range s.parts {
			var next []*State
			for _, x := range rest {
				if i == len(s.parts)-1 {
					if x.zone.assumeLE(b.Off.sub(p.end).addC(1)) {
						out = append(out, e.byteIn1(x, b, set)...)
					}
					continue
				}
				for _, r := range e.cmpLE(x, b.Off.addC(1), p.end) {
					if r.b {
						out = append(out, e.byteIn1(r.st, b, set)...)
					} else {
						next = append(next, r.st)
					}
				}
			}
			rest = next
		}
		return out
	}
	return e.byteIn1(st, b, set)
}

func (e *Engine) byteIn1(st *State, b VByte, set ByteSet) []boolRes {
	cur := st.byteSet(b.Src, b.Off)
	if cur.and(set) == cur {
		return []boolRes{{st, true}}
	}
	if cur.and(set).empty() {
		return []boolRes{{st, false}}
	}
	return split(st,
		func(s *State) bool { return s.restrictByte(b.Src, b.Off, set) },
		func(s *State) bool { return s.restrictByte(b.Src, b.Off, set.not()) })
}

func (e *Engine) kindIn(st *State, k VKind, set KindSet) []boolRes {
	cur := st.kinds[k.K]
	if cur&set == cur {
		return []boolRes{{st, true}}
	}
	if cur&set == 0 {
		return []boolRes{{st, false}}
	}
	return split(st,
		func(s *State) bool { s.kinds[k.K] = cur & set; return true },
		func(s *State) bool { s.kinds[k.K] = cur &^ set; return true })
}

// known applies a text predicate, and remembers what was learned where the bytes alone cannot hold it.
func (e *Engine) known(op byte, f func(*State, Seq, string) []boolRes, st *State, s Seq, c string) []boolRes {
	if !e.cfg.keepPreds {
		return f(st, s, c)
	}
	s = st.norm(s)
	if len(s) != 1 || s[0].isConst() || s[0].Rev {
		return f(st, s, c)
	}
	a := s[0]
	for _, p := range st.preds {
		if p.src != a.Src || !st.zone.equal(p.a, a.A) || !st.zone.equal(p.b, a.B) {
			continue
		}
		if p.op == op && p.c == c {
			return []boolRes{{st, p.yes}}
		}
		if p.op == '=' && p.yes {
			return []boolRes{{st, op == '=' && c == p.c || op == 'p' && strings.HasPrefix(p.c, c) || op == 's' && strings.HasSuffix(p.c, c)}}
		}
		if p.op == 'p' && p.yes && op == 'p' && strings.HasPrefix(p.c, c) {
			return []boolRes{{st, true}}
		}
		if p.op == 'p' && p.yes && (op == '=' || op == 'p' && !strings.HasPrefix(c, p.c)) && !strings.HasPrefix(c, p.c) {
			return []boolRes{{st, false}}
		}
		if p.op == 'p' && !p.yes && (op == '=' || op == 'p') && strings.HasPrefix(c, p.c) ||
			p.op == 's' && !p.yes && (op == '=' || op == 's') && strings.HasSuffix(c, p.c) {
			return []boolRes{{st, false}}
		}
	}
	rs := f(st, s, c)
	if len(rs) > 1 {
		for _, r := range rs {
			r.st.preds = append(r.st.preds[:len(r.st.preds):len(r.st.preds)], predFact{op, a.Src, a.A, a.B, c, r.b})
		}
	}
	return rs
}

func (e *Engine) strIs(st *State, s Seq, c string) []boolRes {
	s = st.norm(s)
	if len(s) == 1 && !s[0].isConst() {
		// the extension of a file name
		if sr := st.srcs[s[0].Src]; sr.name == "fn:Ext" && len(c) > 1 && c[0] == '.' && strings.Count(c, ".") == 1 && !strings.Contains(c, "/") &&
			st.zone.equal(s[0].A, linC(0)) && st.zone.equal(s[0].B, sr.length) {
			return e.hasSuffix(st, sr.meta.(VStr).S, c)
		}
	}
	if e.cfg.isNot != nil && e.cfg.isNot(st, s, c) {
		return []boolRes{{st, false}}
	}
	return e.known('=', e.strIs0, st, s, c)
}

func (e *Engine) hasPrefix(st *State, s Seq, c string) []boolRes {
	return e.known('p', e.hasPrefix0, st, s, c)
}
func (e *Engine) hasSuffix(st *State, s Seq, c string) []boolRes {
	return e.known('s', e.hasSuffix0, st, s, c)
}

// strIs0 explores s == c for a literal c.
func (e *Engine) strIs0(st *State, s Seq, c string) []boolRes {
	s = st.norm(s)
	if v, ok := s.constVal(); ok {
		return []boolRes{{st, v == c}}
	}
	if len(s) == 1 && !s[0].isConst() && !st.srcs[s[0].Src].list {
		a := s[0]
		// quick refutation
		d := a.B.sub(a.A)
		if st.zone.ub(d) < int64(len(c)) || st.zone.lb(d) > int64(len(c)) {
			return []boolRes{{st, false}}
		}
		known := true
		for k := 0; k < len(c); k++ {
			set := st.byteSet(a.Src, a.A.addC(int64(k)))
			if st.zone.lb(d) > int64(k) && !set.has(c[k]) {
				return []boolRes{{st, false}}
			}
			if b, ok := set.single(); !ok || b != c[k] {
				known = false
			}
		}
		if l, ok := st.zone.constOf(d); ok && l == int64(len(c)) {
			if known {
				return []boolRes{{st, true}}
			}
			if l == 1 {
				var set ByteSet
				set.add(c[0])
				return e.byteIn(st, VByte{a.Src, a.A}, set)
			}
		}
		if e.cfg.monitor != nil && len(c) <= 3 {
			n := linC(int64(len(c)))
			out := e.byteByByte(st, c, false, func(s *State) bool { return s.zone.assumeEQ(d, n) }, func(k int) (SrcID, Lin) { return a.Src, a.A.addC(int64(k)) })
			for _, l := range []Lin{d.sub(n).addC(1), n.sub(d).addC(1)} {
				if s := st.clone(); s.zone.assumeLE(l) {
					out = append(out, boolRes{s, false})
				}
			}
			return out
		}
		return split(st, func(s *State) bool {
			if !s.zone.assumeEQ(d, linC(int64(len(c)))) {
				return false
			}
			for k := 0; k < len(c); k++ {
				var set ByteSet
				set.add(c[k])
				if !s.restrictByte(a.Src, a.A.addC(int64(k)), set) {
					return false
				}
			}
			return true
		}, func(s *State) bool {
			if c == "" {
				return s.zone.assumeLE(a.A.sub(a.B).addC(1))
			}
			return true
		})
	}
	key := "streq:" + s.String() + "==" + c
	return e.unkFork(st, key)
}

// byteByByte compares a text with a literal, from its first or from its last byte, where the text is known to be long
// enough; what has no answer then is told apart by the byte that is the first to differ.
func (e *Engine) byteByByte(st *State, c string, back bool, long func(s *State) bool, at func(k int) (SrcID, Lin)) []boolRes {
	var out []boolRes
	s := st.clone()
	if !long(s) {
		return nil
	}
	for i := range c {
		k := i
		if back {
			k = len(c) - 1 - i
		}
		src, off := at(k)
		if no := s.clone(); no.restrictByte(src, off, byteSetOf(c[k]).not()) {
			out = append(out, boolRes{no, false})
		}
		if !s.restrictByte(src, off, byteSetOf(c[k])) {
			return out
		}
	}
	return append(out, boolRes{s, true})
}

// unkFork branches on an unknown condition.
func (e *Engine) unkFork(st *State, _ string) []boolRes {
	return split(st, nil, nil)
}

// hasPrefix0 explores strings.HasPrefix(s, c) for a literal.
func (e *Engine) hasPrefix0(st *State, s Seq, c string) []boolRes {
	s = st.norm(s)
	if c == "" {
		return []boolRes{{st, true}}
	}
	if v, ok := s.constVal(); ok {
		return []boolRes{{st, strings.HasPrefix(v, c)}}
	}
	if len(s) >= 1 && !s[0].isConst() && !st.srcs[s[0].Src].list && !s[0].Rev {
		a := s[0]
		d := a.B.sub(a.A)
		if len(s) == 1 && st.zone.ub(d) < int64(len(c)) {
			return []boolRes{{st, false}}
		}
		if len(s) == 1 || st.zone.lb(d) >= int64(len(c)) {
			all := st.zone.lb(d) >= int64(len(c))
			for k := 0; k < len(c); k++ {
				set := st.byteSet(a.Src, a.A.addC(int64(k)))
				if st.zone.lb(d) > int64(k) && !set.has(c[k]) {
					return []boolRes{{st, false}}
				}
				if b, ok := set.single(); !ok || b != c[k] {
					all = false
				}
			}
			if all {
				return []boolRes{{st, true}}
			}
			if e.cfg.monitor != nil && len(c) <= 3 {
				n := linC(int64(len(c)))
				out := e.byteByByte(st, c, false, func(s *State) bool { return s.zone.assumeLE(n.sub(d)) }, func(k int) (SrcID, Lin) { return a.Src, a.A.addC(int64(k)) })
				if s := st.clone(); s.zone.assumeLE(d.sub(n).addC(1)) {
					out = append(out, boolRes{s, false})
				}
				return out
			}
			return split(st, func(s *State) bool {
				if !s.zone.assumeLE(linC(int64(len(c))).sub(d)) {
					return false
				}
				for k := 0; k < len(c); k++ {
					var set ByteSet
					set.add(c[k])
					if !s.restrictByte(a.Src, a.A.addC(int64(k)), set) {
						return false
					}
				}
				return true
			}, func(s *State) bool {
				if len(c) == 1 {
					if s.zone.lb(d) >= 1 {
						var set ByteSet
						set.add(c[0])
						return s.restrictByte(a.Src, a.A, set.not())
					}
				}
				return true
			})
		}
	}
	return e.unkFork(st, "")
}

func (e *Engine) hasSuffix0(st *State, s Seq, c string) []boolRes {
	s = st.norm(s)
	if c == "" {
		return []boolRes{{st, true}}
	}
	if v, ok := s.constVal(); ok {
		return []boolRes{{st, strings.HasSuffix(v, c)}}
	}
	if n := len(s); n >= 1 && !s[n-1].isConst() && !st.srcs[s[n-1].Src].list && !s[n-1].Rev {
		a := s[n-1]
		d := a.B.sub(a.A)
		if n == 1 && st.zone.ub(d) < int64(len(c)) {
			return []boolRes{{st, false}}
		}
		if n == 1 || st.zone.lb(d) >= int64(len(c)) {
			all := st.zone.lb(d) >= int64(len(c))
			at := func(k int) Lin { return a.B.addC(int64(k - len(c))) }
			for k := 0; k < len(c); k++ {
				set := st.byteSet(a.Src, at(k))
				if st.zone.lb(d) >= int64(len(c)-k) && !set.has(c[k]) {
					return []boolRes{{st, false}}
				}
				if b, ok := set.single(); !ok || b != c[k] {
					all = false
				}
			}
			if all {
				return []boolRes{{st, true}}
			}
			if e.cfg.monitor != nil && len(c) <= 3 {
				n := linC(int64(len(c)))
				out := e.byteByByte(st, c, true, func(s *State) bool { return s.zone.assumeLE(n.sub(d)) }, func(k int) (SrcID, Lin) { return a.Src, at(k) })
				if s := st.clone(); s.zone.assumeLE(d.sub(n).addC(1)) {
					out = append(out, boolRes{s, false})
				}
				return out
			}
			return split(st, func(s *State) bool {
				if !s.zone.assumeLE(linC(int64(len(c))).sub(d)) {
					return false
				}
				for k := 0; k < len(c); k++ {
					var set ByteSet
					set.add(c[k])
					if !s.restrictByte(a.Src, at(k), set) {
						return false
					}
				}
				return true
			}, func(s *State) bool {
				if len(c) == 1 && s.zone.lb(d) >= 1 {
					var set ByteSet
					set.add(c[0])
					return s.restrictByte(a.Src, at(0), set.not())
				}
				// all but one byte known to match: the remaining one must differ
				if s.zone.lb(d) >= int64(len(c)) {
					miss, cnt := -1, 0
					for k := 0; k < len(c); k++ {
						if b, ok := s.byteSet(a.Src, at(k)).single(); !ok || b != c[k] {
							miss = k
							cnt++
						}
					}
					if cnt == 1 {
						var set ByteSet
						set.add(c[miss])
						return s.restrictByte(a.Src, at(miss), set.not())
					}
				}
				return true
			})
		}
	}
	return e.unkFork(st, "")
}

// eq explores x == y.
func (e *Engine) eq(st *State, x, y Value, pos token.Pos) []boolRes {
	yes, no := []boolRes{{st, true}}, []boolRes{{st, false}}
	if _, ok := x.(VUnk); ok {
		x, y = y, x
	}
	if u, ok := y.(VUnk); ok {
		if xu, ok := x.(VUnk); ok && xu.ID == u.ID && u.ID > 0 {
			return yes
		}
		if e.cfg.unkEq != nil {
			if rs := e.cfg.unkEq(e, st, x, u); rs != nil {
				return rs
			}
		}
		return e.unkFork(st, "")
	}
	switch x := x.(type) {
	case VInt:
		switch y := y.(type) {
		case VInt:
			return e.cmpEQ(st, x.L, y.L)
		case VByte:
			return e.eq(st, y, x, pos)
		}
	case VByte:
		switch y := y.(type) {
		case VInt:
			if c, ok := st.zone.constOf(y.L); ok {
				if c < 0 || c > 255 {
					return no
				}
				var set ByteSet
				set.add(byte(c))
				return e.byteIn(st, x, set)
			}
			return e.unkFork(st, "")
		case VByte:
			if x.Src == y.Src && st.zone.equal(x.Off, y.Off) {
				return yes
			}
			a, b := st.byteSet(x.Src, x.Off), st.byteSet(y.Src, y.Off)
			if a.and(b).empty() {
				return no
			}
			if v, ok := a.single(); ok {
				var set ByteSet
				set.add(v)
				return e.byteIn(st, y, set)
			}
			if v, ok := b.single(); ok {
				var set ByteSet
				set.add(v)
				return e.byteIn(st, x, set)
			}
			return e.unkFork(st, "")
		}
	case VBool:
		switch y := y.(type) {
		case VBool:
			return []boolRes{{st, x.B == y.B}}
		}
	case VNil:
		switch yy := y.(type) {
		case VNil:
			return yes
		case VBytes:
			if len(yy.S) == 0 {
				return e.unkFork(st, "")
			}
			if st.zone.lb(st.lenOf(yy.S)) > 0 {
				return no
			}
			return e.unkFork(st, "")
		case VSlice:
			if c, ok := st.zone.constOf(yy.Len); ok && c == 0 {
				return e.unkFork(st, "")
			}
			return split(st, func(s *State) bool { return s.zone.assumeEQ(yy.Len, linC(0)) }, nil)
		default:
			return no
		}
	case VPtr:
		switch y := y.(type) {
		case VPtr:
			return []boolRes{{st, x == y}}
		case VNil:
			return no
		}
	case VElemPtr, VBytePtr:
		if _, ok := y.(VNil); ok {
			return no
		}
	case VSlice, VBytes:
		if _, ok := y.(VNil); ok {
			return e.eq(st, y, x, pos)
		}
	case VFunc, VCallback, VMap:
		if _, ok := y.(VNil); ok {
			return no
		}
	case VErr:
		switch y := y.(type) {
		case VNil:
			return no
		case VErr:
			a, b := strings.Fields(x.Tags), strings.Fields(y.Tags)
			return []boolRes{{st, a[0] == b[0]}}
		}
		return no
	case VStr:
		if y, ok := y.(VStr); ok {
			if c, ok := y.S.constVal(); ok {
				return e.strIs(st, x.S, c)
			}
			if c, ok := x.S.constVal(); ok {
				return e.strIs(st, y.S, c)
			}
			if st.seqEqual(x.S, y.S) {
				return yes
			}
			return e.unkFork(st, "")
		}
	case VKind:
		switch y := y.(type) {
		case VKind:
			if x.K == y.K {
				return yes
			}
			if st.kinds[x.K]&st.kinds[y.K] == 0 {
				return no
			}
			return e.unkFork(st, "")
		case VStruct:
			return e.kindIn(st, x, KindSet(1)<<e.kindIndex(y))
		}
	case VStruct:
		if k, ok := y.(VKind); ok {
			return e.eq(st, k, x, pos)
		}
		if y, ok := y.(VStruct); ok && len(x.F) == len(y.F) {
			states := yes
			var out []boolRes
			for i := range x.F {
				var next []boolRes
				for _, s := range states {
					for _, r := range e.eq(s.st, x.F[i], y.F[i], pos) {
						if r.b {
							next = append(next, r)
						} else {
							out = append(out, r)
						}
					}
				}
				states = next
			}
			return append(out, states...)
		}
	case VIface:
		switch y := y.(type) {
		case VNil:
			return no
		case VIface:
			if !types.Identical(x.T, y.T) {
				return no
			}
			return e.eq(st, x.V, y.V, pos)
		case VErr:
			return no
		}
	case VTuple: // an element of a list the user gave
		if _, ok := y.(VNil); ok {
			return no
		}
	case VType:
		if y, ok := y.(VType); ok {
			return []boolRes{{st, types.Identical(x.T, y.T)}}
		}
	}
	if _, ok := y.(VNil); ok {
		e.undecided(st, pos, "comparison of %s with nil", showVal(x))
	}
	if _, ok := x.(VNil); ok {
		return e.eq(st, y, x, pos)
	}
	e.undecided(st, pos, "comparison of %s and %s", showVal(x), showVal(y))
	return nil
}

func newFindings() Findings {
	return Findings{panics: map[string]*PanicExit{}, undecided: map[string]*State{}, bad: map[string]*State{}}
}
