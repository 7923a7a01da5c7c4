package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- equal input, equal answer: nothing but arguments and files decides -----------------------------------------------

// chancy lists what differs from run to run, by package and name; an empty list means everything in the package.
var chancy = map[string][]string{
	"time":          {"Now", "Since", "Until", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker"},
	"math/rand":     nil,
	"math/rand/v2":  nil,
	"crypto/rand":   nil,
	"hash/maphash":  nil,
	"os/exec":       nil,
	"os/signal":     nil,
	"os/user":       nil,
	"runtime":       nil,
	"runtime/debug": nil,
	"weak":          nil,
	"unique":        nil,
	"os": {"Getenv", "LookupEnv", "Environ", "ExpandEnv", "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Getegid", "Getgroups", "Hostname",
		"Getwd", "TempDir", "UserHomeDir", "UserCacheDir", "UserConfigDir", "CreateTemp", "MkdirTemp", "Executable", "Getpagesize"},
	"reflect": {"Pointer", "UnsafePointer", "UnsafeAddr", "MapKeys", "MapRange", "Select"},
	"maps":    {"Keys", "Values", "All"},
}

func chance(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	k := pkgOf(f)
	if k == nil || f.Name() == "init" {
		return false
	}
	if k.Path() == "net" || strings.HasPrefix(k.Path(), "net/") {
		return true
	}
	if k.Path() == "sync" && f.Name() == "Range" {
		return true
	}
	names, ok := chancy[k.Path()]
	if !ok {
		return false
	}
	if k.Path() == "runtime" && (f.Name() == "KeepAlive" || f.Name() == "GC" || f.Name() == "Gosched") {
		return false
	}
	if names == nil {
		return true
	}
	for _, n := range names {
		if n == f.Name() {
			return true
		}
	}
	return false
}

// printsAddress reports whether the text that fmt makes of a value contains an address.
func printsAddress(t types.Type, depth int, seen map[types.Type]bool) bool {
	for _, m := range []string{"String", "Error", "Format", "GoString"} {
		if m == "GoString" {
			continue
		}
		if obj, _, _ := types.LookupFieldOrMethod(t, false, nil, m); obj != nil && (depth == 0 || obj.Exported()) {
			if _, ok := obj.(*types.Func); ok {
				return false
			}
		}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Chan, *types.Signature:
		return true
	case *types.Pointer:
		if depth > 0 {
			return true
		}
		switch u.Elem().Underlying().(type) {
		case *types.Struct, *types.Slice, *types.Array, *types.Map:
			return printsAddress(u.Elem(), 1, seen)
		}
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if printsAddress(u.Field(i).Type(), 1, seen) {
				return true
			}
		}
	case *types.Slice:
		return printsAddress(u.Elem(), 1, seen)
	case *types.Array:
		return printsAddress(u.Elem(), 1, seen)
	case *types.Map:
		return printsAddress(u.Elem(), 1, seen) || printsAddress(u.Key(), 1, seen)
	}
	return false
}

// quiet is code that only prints: it has no results, writes local memory only and calls no other code of the module.
func (p *Program) quiet(fn *ssa.Function) bool {
	if fn.Signature.Results().Len() > 0 || !localOnly(fn) || len(fn.FreeVars) > 0 {
		return false
	}
	for _, f := range p.callees(fn) {
		if !p.quiet(f) || f == fn {
			return false
		}
	}
	return true
}

// pure reports whether a call of a function changes nothing that exists.
func (p *Program) pure(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return true
	}
	seen[fn] = true
	if fn.Blocks == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if !p.pureInstr(in, seen) {
				return false
			}
		}
	}
	return true
}

func (p *Program) pureInstr(in ssa.Instruction, seen map[*ssa.Function]bool) bool {
	switch in := in.(type) {
	case *ssa.Store:
		a := in.Addr
		for {
			if f, ok := a.(*ssa.FieldAddr); ok {
				a = f.X
			} else if f, ok := a.(*ssa.IndexAddr); ok {
				a = f.X
			} else {
				break
			}
		}
		al, ok := a.(*ssa.Alloc)
		return ok && !al.Heap
	case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Defer, *ssa.MakeClosure, *ssa.Panic:
		return false
	case *ssa.Call:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max", "string":
				return true
			}
			return false
		}
		f := c.StaticCallee()
		if f == nil {
			return false
		}
		if p.inModule(f) {
			return p.pure(f, seen)
		}
		k := pkgOf(f)
		if k == nil {
			return false
		}
		switch k.Path() {
		case "strings", "bytes", "unicode", "unicode/utf8", "strconv", "cmp":
			return f.Signature.Recv() == nil
		}
		return false
	}
	return true
}

type mapLoop struct {
	p      *Program
	fn     *ssa.Function
	fi     *FnInfo
	rng    *ssa.Range
	header int
	body   map[int]bool
	next   *ssa.Next
}

// innermost loop around the Next instructions of a range
func (p *Program) mapLoop(fn *ssa.Function, rng *ssa.Range) *mapLoop {
	l := &mapLoop{p: p, fn: fn, fi: p.info(fn), rng: rng, header: -1}
	for _, ref := range *rng.Referrers() {
		n, ok := ref.(*ssa.Next)
		if !ok {
			return nil
		}
		if l.next != nil {
			return nil
		}
		l.next = n
	}
	if l.next == nil {
		return nil
	}
	h := l.next.Block().Index
	if !l.fi.header[h] {
		// a loop that never comes round: at most one entry is looked at
		l.body = map[int]bool{h: true}
		l.header = h
		return l
	}
	l.header, l.body = h, l.fi.loopOf[h]
	return l
}

func (l *mapLoop) inLoop(v ssa.Value) bool {
	in, ok := v.(ssa.Instruction)
	return ok && in.Block() != nil && l.body[in.Block().Index]
}

// key is the value that stands for the current key of the map.
func (l *mapLoop) isKey(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
			continue
		case *ssa.MakeInterface:
			v = x.X
			continue
		case *ssa.Extract:
			return x.Tuple == l.next && x.Index == 1
		}
		return false
	}
}

// sorted reports whether a slice is put in order before anything else is done with it.
func sorted(v ssa.Value, skip func(ssa.Instruction) bool) bool {
	if v.Referrers() == nil {
		return false
	}
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	var look func(v ssa.Value)
	look = func(v ssa.Value) {
		for _, ref := range *v.Referrers() {
			if skip(ref) {
				continue
			}
			switch r := ref.(type) {
			case *ssa.MakeInterface:
				look(r)
				continue
			case *ssa.ChangeType:
				look(r)
				continue
			case *ssa.DebugRef:
				continue
			case *ssa.Call:
				f := r.Call.StaticCallee()
				if f != nil {
					if o := f.Origin(); o != nil {
						f = o
					}
					if k := pkgOf(f); k != nil {
						if k.Path() == "sort" && (f.Name() == "Strings" || f.Name() == "Ints" || f.Name() == "Slice" || f.Name() == "SliceStable" || f.Name() == "Float64s") ||
							k.Path() == "slices" && strings.HasPrefix(f.Name(), "Sort") {
							sorts = append(sorts, r)
							continue
						}
					}
				}
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
					continue
				}
			}
			uses = append(uses, ref)
		}
	}
	look(v)
	if len(sorts) == 0 {
		return false
	}
	for _, u := range uses {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() {
				for _, in := range s.Block().Instrs {
					if in == s {
						ok = true
						break
					}
					if in == u {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// gathers decides loops that only collect: whatever the order, the same entries are made, or a list is put in order
// behind the loop.
func (l *mapLoop) gathers() (bool, string) {
	lists := map[ssa.Value]bool{}
	for bi := range l.body {
		b := l.fn.Blocks[bi]
		for _, s := range b.Succs {
			if !l.body[s.Index] && bi != l.header {
				return false, "the loop may be left before all entries were seen"
			}
		}
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				if x.Map == l.rng.X || l.inLoop(x.Map) {
					return false, "the map itself is changed"
				}
				if l.isKey(x.Key) {
					if l.usesPhi(x.Value) {
						return false, "what is stored depends on earlier rounds"
					}
					continue
				}
				if c, ok := x.Value.(*ssa.Const); ok && c != nil && !l.usesPhi(x.Key) {
					continue
				}
				return false, "entries of different rounds may overwrite each other"
			case *ssa.Phi:
				if bi != l.header {
					continue
				}
				lists[x] = true
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
					continue
				}
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "delete" && x.Call.Args[0] != l.rng.X {
					continue
				}
				if !l.p.pureInstr(in, map[*ssa.Function]bool{}) {
					return false, "a call in the loop may have an effect"
				}
			case *ssa.Store:
				// the array behind the arguments of append
				if l.p.pureInstr(in, map[*ssa.Function]bool{}) {
					continue
				}
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if ok {
					if al, isA := ia.X.(*ssa.Alloc); isA && al.Comment == "varargs" && l.inLoop(al) {
						continue
					}
				}
				return false, "memory is written in the loop"
			default:
				if !l.p.pureInstr(in, map[*ssa.Function]bool{}) {
					return false, "the loop has an effect"
				}
			}
		}
	}
	for v := range lists {
		phi := v.(*ssa.Phi)
		if isInteger(phi.Type()) {
			if !l.sum(phi) {
				return false, "a value is carried from round to round"
			}
			continue
		}
		if _, ok := phi.Type().Underlying().(*types.Slice); !ok {
			return false, "a value is carried from round to round"
		}
		// only appended to
		carried := map[ssa.Value]bool{phi: true}
		for changed := true; changed; {
			changed = false
			for bi := range l.body {
				for _, in := range l.fn.Blocks[bi].Instrs {
					switch x := in.(type) {
					case *ssa.Call:
						if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && carried[x.Call.Args[0]] && !carried[x] {
							if l.usesPhi(x.Call.Args[1]) {
								return false, "what is appended depends on earlier rounds"
							}
							carried[x], changed = true, true
						}
					case *ssa.Phi:
						for _, ed := range x.Edges {
							if carried[ed] && !carried[x] {
								carried[x], changed = true, true
							}
						}
					}
				}
			}
		}
		for i, ed := range phi.Edges {
			if l.body[phi.Block().Preds[i].Index] && !carried[ed] {
				return false, "a list is replaced in the loop"
			}
		}
		for c := range carried {
			for _, ref := range *c.Referrers() {
				if !l.body[ref.Block().Index] {
					continue
				}
				switch x := ref.(type) {
				case *ssa.Phi, *ssa.DebugRef:
				case *ssa.Call:
					if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && c == x.Call.Args[0] {
						continue
					}
					return false, "the list is used while it grows"
				default:
					return false, "the list is used while it grows"
				}
			}
		}
		if !sorted(phi, func(in ssa.Instruction) bool { return l.body[in.Block().Index] }) {
			return false, "a list is filled in map order and not put in order behind the loop"
		}
	}
	return true, ""
}

// sum reports whether a number only grows by what each entry adds to it.
func (l *mapLoop) sum(phi *ssa.Phi) bool {
	carried := map[ssa.Value]bool{phi: true}
	for changed := true; changed; {
		changed = false
		for c := range carried {
			for _, ref := range *c.Referrers() {
				if !l.body[ref.Block().Index] {
					continue
				}
				switch x := ref.(type) {
				case *ssa.DebugRef:
				case *ssa.Phi:
					if !carried[x] {
						carried[x], changed = true, true
					}
				case *ssa.BinOp:
					switch {
					case x.Op == token.ADD && x.X == c && !l.usesPhi(x.Y), x.Op == token.ADD && x.Y == c && !l.usesPhi(x.X), x.Op == token.SUB && x.X == c && !l.usesPhi(x.Y):
					default:
						return false
					}
					if !carried[x] {
						carried[x], changed = true, true
					}
				default:
					return false
				}
			}
		}
	}
	for c := range carried {
		x, ok := c.(*ssa.Phi)
		if !ok {
			continue
		}
		for i, ed := range x.Edges {
			if (x != phi || l.body[phi.Block().Preds[i].Index]) && !carried[ed] {
				return false
			}
		}
	}
	return true
}

// exists decides loops that ask whether any entry fits: all ways out before the end are the same.
func (l *mapLoop) exists() bool {
	for _, in := range l.fn.Blocks[l.header].Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			return false
		}
	}
	var way *ssa.BasicBlock
	var first int
	for bi := range l.body {
		b := l.fn.Blocks[bi]
		for _, in := range b.Instrs {
			if !l.p.pureInstr(in, map[*ssa.Function]bool{}) {
				return false
			}
		}
		if bi == l.header {
			continue
		}
		for _, s := range b.Succs {
			if l.body[s.Index] {
				continue
			}
			if way != nil && way != s {
				return false
			}
			for pi, pr := range s.Preds {
				if pr != b {
					continue
				}
				if way == nil {
					way, first = s, pi
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					x, y := phi.Edges[pi], phi.Edges[first]
					cx, isC := x.(*ssa.Const)
					cy, isD := y.(*ssa.Const)
					if !(isC && isD && cx.Value == cy.Value || x == y && !l.inLoop(x)) {
						return false
					}
				}
			}
		}
	}
	if way == nil {
		return true
	}
	for v := range l.fi.liveIn[way.Index] {
		if l.inLoop(l.fi.vals[v]) {
			return false
		}
	}
	return true
}

// usesPhi reports whether a value of the loop depends on something carried from round to round.
func (l *mapLoop) usesPhi(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var look func(v ssa.Value) bool
	look = func(v ssa.Value) bool {
		if seen[v] || !l.inLoop(v) {
			return false
		}
		seen[v] = true
		if phi, ok := v.(*ssa.Phi); ok && phi.Block().Index == l.header {
			return true
		}
		if v == ssa.Value(l.next) {
			return false
		}
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			if _, isG := u.X.(*ssa.Global); !isG {
				if _, isF := u.X.(*ssa.FieldAddr); !isF {
					return true
				}
			}
		}
		if al, ok := v.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				if ia, ok := ref.(*ssa.IndexAddr); ok {
					for _, r2 := range *ia.Referrers() {
						if s, ok := r2.(*ssa.Store); ok && look(s.Val) {
							return true
						}
					}
				}
			}
		}
		var ops [12]*ssa.Value
		for _, o := range v.(ssa.Instruction).Operands(ops[:0]) {
			if *o != nil && look(*o) {
				return true
			}
		}
		return false
	}
	return look(v)
}

// tables are the maps a loop can go over, when they are all known before the program's main part runs.
func (l *mapLoop) tables(e *Engine, st *State, fns []*ssa.Function) ([]ObjID, string) {
	ut := l.rng.X.Type().Underlying()
	// a map made next to the loop from constants
	if mm, ok := l.rng.X.(*ssa.MakeMap); ok {
		o := &Object{kind: oMap, typ: mm.Type()}
		for _, ref := range *mm.Referrers() {
			switch x := ref.(type) {
			case *ssa.MapUpdate:
				c, isC := x.Key.(*ssa.Const)
				if x.Map != mm || x.Value == mm || !isC || x.Block() != mm.Block() {
					return nil, "a map whose entries are not known"
				}
				o.keys = append(o.keys, e.constVal(c))
				if vc, isC := x.Value.(*ssa.Const); isC {
					o.vals = append(o.vals, e.constVal(vc))
				} else {
					o.vals = append(o.vals, e.fresh(st, x.Value.Type(), "value"))
				}
			case *ssa.Range, *ssa.DebugRef, *ssa.Lookup:
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
					return nil, "a map whose entries are not known"
				}
			default:
				return nil, "a map whose entries are not known"
			}
		}
		return []ObjID{st.alloc(o)}, ""
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.MakeMap:
					if types.Identical(x.Type().Underlying(), ut) && !isInit(outermost(fn)) {
						return nil, "a map that is made while the program runs"
					}
				case ssa.CallInstruction:
					if v := x.Value(); v != nil && types.Identical(v.Type().Underlying(), ut) {
						if f := x.Common().StaticCallee(); f == nil || !l.p.inModule(f) {
							return nil, "a map that comes from elsewhere"
						}
					}
				}
			}
		}
	}
	if n, ok := l.rng.X.Type().(*types.Named); !ok || n.Obj().Exported() {
		// a user may have made it
		for _, prm := range l.fn.Params {
			if prm == l.rng.X && l.fn.Object() != nil && l.fn.Object().Exported() {
				return nil, "a map that the caller gives"
			}
		}
	}
	var out []ObjID
	for id, o := range e.base {
		if o.kind == oMap && o.typ != nil && types.Identical(o.typ.Underlying(), ut) {
			if o.open {
				return nil, "a map whose entries are not known"
			}
			out = append(out, id)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out, ""
}

type roundEnd struct {
	st    *State
	exit  int // block, or -1 when the next round begins
	vals  []Value
	names []string
}

// round runs the loop body for one entry of the map, from the values the carried variables have.
func (l *mapLoop) round(e *Engine, u *Unit, st *State, m ObjID, entry int, carried []Value) ([]roundEnd, string) {
	f := st.top()
	hb := l.fn.Blocks[l.header]
	n := 0
	for _, in := range hb.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			f.regs[l.fi.num[phi]] = carried[n]
			n++
		}
	}
	f.block, f.pc = l.header, n
	it := st.alloc(&Object{kind: oIter, iter: &iterState{m: m, order: []int{entry}}})
	f.regs[l.fi.num[l.rng]] = VRange{it}
	var out []roundEnd
	work := []*State{st}
	began := map[*State]bool{st: true}
	msg := ""
	for steps := 0; len(work) > 0; steps++ {
		if steps > 200_000 {
			return nil, "a round takes too long"
		}
		s := work[len(work)-1]
		work = work[:len(work)-1]
		if len(s.frames) == 0 {
			return nil, "a round does not come back"
		}
		g := s.frames[0]
		if len(s.frames) == 1 && !began[s] {
			if g.block == l.header && g.pc == n && s.obj(it).iter.pos > 0 {
				r := roundEnd{st: s, exit: -1}
				for _, in := range hb.Instrs[:n] {
					r.vals = append(r.vals, g.regs[l.fi.num[in.(*ssa.Phi)]])
				}
				out = append(out, r)
				continue
			}
			if !l.body[g.block] {
				r := roundEnd{st: s, exit: g.block}
				b := l.fn.Blocks[g.block]
				seen := map[int]bool{}
				for _, in := range b.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					r.vals = append(r.vals, g.regs[l.fi.num[phi]])
					seen[l.fi.num[phi]] = true
				}
				var live []int
				for v := range l.fi.liveIn[g.block] {
					if !seen[v] && l.inLoop(l.fi.vals[v]) {
						live = append(live, v)
					}
				}
				sort.Ints(live)
				for _, v := range live {
					r.vals = append(r.vals, g.regs[v])
				}
				out = append(out, r)
				continue
			}
		}
		delete(began, s)
		func() {
			defer func() {
				if r := recover(); r != nil {
					ud, ok := r.(undecidedErr)
					if !ok {
						panic(r)
					}
					msg = ud.msg
				}
			}()
			e.steps++
			work = append(work, e.step(u, s)...)
		}()
		if msg != "" {
			return nil, msg
		}
		// that nothing panics is a property of its own
	}
	return out, ""
}

func (l *mapLoop) same(st *State, a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && st.zone.equal(x.L, y.L)
	case VStr:
		y, ok := b.(VStr)
		return ok && st.seqEqual(x.S, y.S)
	case VBytes:
		y, ok := b.(VBytes)
		return ok && st.seqEqual(x.S, y.S)
	case VTuple:
		y, ok := b.(VTuple)
		if !ok || len(x.V) != len(y.V) {
			return false
		}
		for i := range x.V {
			if !l.same(st, x.V[i], y.V[i]) {
				return false
			}
		}
		return true
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !l.same(st, x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	}
	if sameValue(a, b) {
		return true
	}
	defer func() { _ = recover() }()
	return a == b
}

// commute decides a loop over known tables that only works something out: any two rounds, in either order, come to
// the same.
func (l *mapLoop) commute(e *Engine, fns []*ssa.Function) (pairs int, msg string) {
	for bi := range l.body {
		for _, in := range l.fn.Blocks[bi].Instrs {
			if !l.p.pureInstr(in, map[*ssa.Function]bool{}) {
				return 0, "the loop has an effect: " + in.String()
			}
		}
	}
	hb := l.fn.Blocks[l.header]
	for _, in := range hb.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if in != ssa.Instruction(l.next) {
			return 0, "the loop is not a plain range loop"
		}
		break
	}
	base := e.newState()
	tabs, msg := l.tables(e, base, fns)
	if msg != "" {
		return 0, msg
	}
	// values from outside
	f := &Frame{fn: l.fn, info: l.fi, regs: make([]Value, len(l.fi.vals))}
	base.frames = append(base.frames, f)
	var flags []int
	var unknown func(t types.Type, name string) Value
	unknown = func(t types.Type, name string) Value {
		if pt, ok := t.Underlying().(*types.Pointer); ok && !e.isNode(pt.Elem()) {
			return VPtr{Obj: base.alloc(&Object{kind: oPlain, typ: pt.Elem(), val: unknown(pt.Elem(), name)})}
		}
		return e.fresh(base, t, name)
	}
	for i, v := range l.fi.vals {
		if l.inLoop(v) || v == ssa.Value(l.rng) {
			continue
		}
		used := false
		if v.Referrers() != nil {
			for _, ref := range *v.Referrers() {
				used = used || l.body[ref.Block().Index]
			}
		}
		if !used {
			continue
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			flags = append(flags, i)
			continue
		}
		f.regs[i] = unknown(v.Type(), v.Name())
	}
	var carried []Value
	var cflags []int
	for _, in := range hb.Instrs {
		if phi, ok := in.(*ssa.Phi); ok {
			if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				cflags = append(cflags, len(carried))
			}
			carried = append(carried, unknown(phi.Type(), phi.Name()))
		}
	}
	if len(flags)+len(cflags) > 6 {
		return 0, "too many conditions"
	}
	u := &Unit{e: e, name: l.fn.Name(), fn: l.fn, headers: map[string]*headGroup{}, symbolic: map[string]bool{}}
	two := func(st *State, m ObjID, a, b int, start []Value) ([]roundEnd, string) {
		first, msg := l.round(e, u, st, m, a, start)
		if msg != "" {
			return nil, msg
		}
		var out []roundEnd
		for _, r := range first {
			if r.exit >= 0 {
				out = append(out, r)
				continue
			}
			rs, msg := l.round(e, u, r.st, m, b, r.vals)
			if msg != "" {
				return nil, msg
			}
			out = append(out, rs...)
		}
		return out, ""
	}
	for _, m := range tabs {
		n := len(base.obj(m).keys)
		for a := 0; a < n; a++ {
			for b := a + 1; b < n; b++ {
				for bits := 0; bits < 1<<(len(flags)+len(cflags)); bits++ {
					pairs++
					st := base.clone()
					for k, i := range flags {
						st.top().regs[i] = VBool{bits>>k&1 == 1}
					}
					start := append([]Value{}, carried...)
					for k, i := range cflags {
						start[i] = VBool{bits>>(k+len(flags))&1 == 1}
					}
					ends, msg := two(st, m, a, b, start)
					if msg != "" {
						return pairs, msg
					}
					for _, r := range ends {
						s2 := r.st.clone()
						others, msg := two(s2, m, b, a, start)
						if msg != "" {
							return pairs, msg
						}
						for _, o := range others {
							ok := o.exit == r.exit && len(o.vals) == len(r.vals)
							for i := 0; ok && i < len(o.vals); i++ {
								ok = l.same(o.st, r.vals[i], o.vals[i])
							}
							if !ok {
								ks := o.st.obj(m).keys
								return pairs, fmt.Sprintf("the entries %s and %s may both fit, and which one counts depends on the order of the map", keyText(ks[a]), keyText(ks[b]))
							}
						}
					}
				}
			}
		}
	}
	return pairs, ""
}

func keyText(v Value) string {
	if s, ok := v.(VStr); ok {
		if c, ok := s.S.constVal(); ok {
			return fmt.Sprintf("%q", c)
		}
	}
	return showVal(v)
}

func checkC15(p *Program, r *Report, thorough bool) error {
	g := p.region()
	e, err := p.newEngine(&Config{keepPreds: true})
	if err != nil {
		return err
	}
	e.joining = false
	// initialisation fills the tables everything else uses
	in := map[*ssa.Function]bool{}
	fns := append([]*ssa.Function{}, g.fns...)
	for _, fn := range fns {
		in[fn] = true
	}
	var work []*ssa.Function
	for _, fn := range p.moduleFuncs() {
		if p.subject(fn) && (isInit(outermost(fn)) || g.once[fn]) {
			work = append(work, fn)
		}
	}
	for _, path := range p.modulePkgs() {
		if i := p.byPath[path].Func("init"); i != nil && !strings.HasSuffix(path, "/assert") {
			work = append(work, i)
		}
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		if in[fn] || fn.Blocks == nil {
			continue
		}
		in[fn] = true
		fns = append(fns, fn)
		work = append(work, p.callees(fn)...)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	loops, prints := 0, 0
	for _, fn := range fns {
		r.Units[fn.String()]++
		quiet := p.quiet(fn)
		key := "order:" + fn.String()
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				pos := in.Pos()
				if !pos.IsValid() {
					pos = fn.Pos()
				}
				where := p.posStr(pos)
				for i, o := range in.Operands(nil) {
					f, ok := (*o).(*ssa.Function)
					if _, isCall := in.(ssa.CallInstruction); ok && !(isCall && i == 0) && !p.inModule(f) && chance(f) {
						r.ob(false, key, where, nil, "%s keeps %s, whose answer differs from run to run", fn, f)
					}
				}
				switch x := in.(type) {
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					loops++
					l := p.mapLoop(fn, x)
					if l == nil {
						r.ob(false, key, where, nil, "%s goes over a map in a way that cannot be decided", fn)
						continue
					}
					ok, why := l.gathers()
					ok = ok || l.exists()
					if !ok {
						var n int
						n, why2 := l.commute(e, fns)
						r.Counters["pairs_of_entries"] += n
						r.Obligations += n
						r.Discharged += n
						if why2 == "" {
							ok = true
						} else {
							why = why2
						}
					}
					r.ob(ok, key, where, nil, "%s goes over a map and its outcome may depend on the order: %s", fn, why)
					if ok {
						r.sample("%s: the loop over a map comes to the same in any order", fn)
					}
				case *ssa.Go:
					r.ob(false, key, where, nil, "%s starts a goroutine", fn)
				case *ssa.Select:
					r.ob(len(x.States) < 2 && x.Blocking, key, where, nil, "%s waits for one of several events", fn)
				case *ssa.Convert:
					if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
						if rb, ok := x.Type().Underlying().(*types.Basic); ok && rb.Kind() == types.Uintptr {
							r.ob(quiet, key, where, nil, "%s takes the address of an object as a number", fn)
						}
					}
				case ssa.CallInstruction:
					c := x.Common()
					f := c.StaticCallee()
					if f == nil || p.inModule(f) {
						continue
					}
					if chance(f) {
						ok := quiet
						if v := x.Value(); v != nil && !ok && pkgOf(f) != nil && pkgOf(f).Path() == "maps" {
							ok = orderedLater(v)
						}
						r.ob(ok, key, where, nil, "%s calls %s, whose answer differs from run to run", fn, f)
						continue
					}
					k := pkgOf(f)
					if k == nil || quiet || k.Path() != "fmt" {
						continue
					}
					prints++
					for _, a := range c.Args {
						if t := spreads(a); t != nil {
							for _, t := range t {
								r.ob(!printsAddress(t, 0, map[types.Type]bool{}), key, where, nil, "%s prints a %s, which shows addresses", fn, t)
							}
						}
						if s, ok := a.(*ssa.Const); ok && s.Value != nil && s.Value.Kind() == constant.String {
							r.ob(!strings.Contains(constant.StringVal(s.Value), "%p"), key, where, nil, "%s prints an address", fn)
						}
					}
				}
			}
		}
	}
	r.ob(len(fns) > 20, "order:region", "ast.go", nil, "only %d functions were found", len(fns))
	r.Counters["map_loops"] = loops
	r.Counters["formatting_calls"] = prints
	r.sample("%d functions a user can reach or that run at start, %d loops over maps", len(fns), loops)
	return nil
}

// orderedLater: the keys of a map are handed to a function that puts them in order.
func orderedLater(v ssa.Value) bool {
	n := 0
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.DebugRef:
			continue
		case *ssa.ChangeType:
			if !orderedLater(x) {
				return false
			}
			n++
			continue
		case *ssa.Call:
			f := x.Call.StaticCallee()
			if f == nil {
				return false
			}
			if o := f.Origin(); o != nil {
				f = o
			}
			k := pkgOf(f)
			if k == nil || k.Path() != "slices" {
				return false
			}
			if strings.HasPrefix(f.Name(), "Sorted") {
				n++
				continue
			}
			if f.Name() == "Collect" && sorted(x, func(ssa.Instruction) bool { return false }) {
				n++
				continue
			}
			return false
		default:
			return false
		}
	}
	return n > 0
}

// spreads lists the types of the values that a variadic call of fmt gets.
func spreads(a ssa.Value) []types.Type {
	sl, ok := a.(*ssa.Slice)
	if !ok {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			return []types.Type{mi.X.Type()}
		}
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, ref := range *al.Referrers() {
		ia, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok {
				if mi, ok := s.Val.(*ssa.MakeInterface); ok {
					out = append(out, mi.X.Type())
				}
			}
		}
	}
	return out
}

func (p *Program) modulePkgs() []string {
	var out []string
	for path := range p.byPath {
		if p.modulePath(path) {
			out = append(out, path)
		}
	}
	sort.Strings(out)
	return out
}
