package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- C01: links ---------------------------------------------------------------------------------------

var linkOps = []string{"InsertNext", "InsertPrev", "ReplaceNext", "ReplacePrev"}
var cutOps = []string{"TakeNext", "TakePrev", "RemoveNext", "RemovePrev", "Isolate"}

// nilPairs checks an operation with a nil receiver or a nil argument.
func nilPairs(e *Engine, r *Report, name string, sym bool) {
	fn := e.nodeOp(r, name)
	if fn == nil {
		return
	}
	for _, mk := range singleCases(e) {
		for _, recvNil := range []bool{true, false} {
			c := mk()
			args := []Value{VNil{}, ptr(c.n)}
			d := "the receiver is nil"
			if !recvNil {
				args = []Value{ptr(c.n), VNil{}}
				d = "the argument is nil"
			}
			c.desc = d + ", node in " + c.desc
			runOp(e, r, fn, c, args, func(c *opCase, st *State, res Value) {
				if sym {
					msg := e.symmetric(c, st)
					r.ob(msg == "", "link-symmetry:"+name, e.posStr(fn.Pos()), st, "%s leaves asymmetric links (%s) when %s", name, msg, c.desc)
				} else {
					r.ob(true, "", "", nil, "")
				}
			})
		}
	}
}

func checkC01(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	for _, n := range linkOps {
		pairOp(e, r, n, true, false)
		nilPairs(e, r, n, true)
	}
	for _, n := range cutOps {
		singleOp(e, r, n, true, false)
	}
	for _, n := range []string{"CombineNext", "CombinePrev"} {
		combineExplicit(e, r, n, true, false)
	}
	linkWriters(e, r)
	r.sample("pair operations: %d configurations of two nodes (each side of each node: no, one, two, or three and more nodes)", len(pairCases(e)))
	return nil
}

// linkStores lists the functions that store into a link field of a node that is not being built there.
func (p *Program) linkStores(e *Engine, fields ...int) map[*ssa.Function][]token.Pos {
	out := map[*ssa.Function][]token.Pos{}
	for _, fn := range p.moduleFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				hit := false
				switch a := s.Addr.(type) {
				case *ssa.FieldAddr:
					if e.isNode(deref(a.X.Type())) {
						for _, f := range fields {
							hit = hit || a.Field == f
						}
						if al, ok := a.X.(*ssa.Alloc); ok && al.Comment == "complit" {
							// a literal: the node is not linked to yet
							hit = false
						}
					}
				default:
					hit = e.isNode(deref(a.Type())) // whole node overwritten
					if al, ok := a.(*ssa.Alloc); ok && al.Comment == "complit" {
						hit = false
					}
				}
				if hit {
					out[fn] = append(out[fn], s.Pos())
				}
			}
		}
	}
	return out
}

// moduleFuncs lists every function of the module with a body, closures and methods included.
func (p *Program) moduleFuncs() []*ssa.Function {
	if p.recursiveInit(); p.modFns != nil {
		return p.modFns
	}
	return nil
}

// callers computes who calls (or creates a closure of, or takes the value of) whom inside the module.
func (p *Program) callees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			var ops [12]*ssa.Value
			for _, o := range in.Operands(ops[:0]) {
				if *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Function); ok && !seen[g] && p.inModule(g) {
					seen[g] = true
					r = append(r, g)
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				for _, g := range p.implementers(c.Common()) {
					if !seen[g] {
						seen[g] = true
						r = append(r, g)
					}
				}
			}
		}
	}
	return r
}

// implementers resolves an interface call to the methods of module types.
func (p *Program) implementers(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for path, pk := range p.byPath {
		if !p.modulePath(path) {
			continue
		}
		for _, m := range pk.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			if n, ok := t.Type().(*types.Named); ok && n.TypeParams().Len() > 0 {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if types.Implements(tt, it) && !types.IsInterface(tt) {
					if sel := p.prog.MethodSets.MethodSet(tt).Lookup(c.Method.Pkg(), c.Method.Name()); sel != nil {
						if f := p.prog.MethodValue(sel); f != nil {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	return out
}

// linkWriters: the links of a node change only through the operations checked one by one.
func linkWriters(e *Engine, r *Report) {
	p := e.Program
	writers := p.linkStores(e, e.role.prev, e.role.next)
	allowed := map[*ssa.Function]string{}
	for _, n := range append(append([]string{}, linkOps...), cutOps...) {
		if fn := p.method("Node", n); fn != nil {
			allowed[fn] = "checked operation"
		}
	}
	for _, n := range []string{"CombineNext", "CombinePrev", "Copy"} {
		if fn := p.method("Node", n); fn != nil {
			allowed[fn] = "checked operation"
		}
	}
	for _, n := range []string{"ParseScope", "NewNodes"} {
		if fn := p.root.Func(n); fn != nil {
			allowed[fn] = "result checked by the tokenizer and scope analyses"
		}
	}
	// from every exported function and method: a writer must not be reachable except through an allowed function
	for _, root := range p.exported() {
		seen := map[*ssa.Function]*ssa.Function{root: nil}
		work := []*ssa.Function{root}
		ok := true
		var bad *ssa.Function
		for len(work) > 0 && ok {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if allowed[f] != "" {
				continue
			}
			if len(writers[f]) > 0 {
				ok, bad = false, f
				break
			}
			for _, g := range p.callees(f) {
				if _, s := seen[g]; !s {
					seen[g] = f
					work = append(work, g)
				}
			}
		}
		r.Counters["entry_points"]++
		if ok {
			r.ob(true, "", "", nil, "")
			continue
		}
		var path []string
		for f := bad; f != nil; f = seen[f] {
			path = append([]string{f.String()}, path...)
		}
		r.ob(false, "link-writer:"+bad.String(), e.posStr(writers[bad][0]), nil,
			"%s writes node links outside the checked operations, reached by %s", bad, strings.Join(path, " -> "))
	}
	for fn := range writers {
		r.Units[fn.String()]++
	}
}

// --- C22: nil safety ------------------------------------------------------------------------------------

func checkC22(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{maxRec: 6, callback: anyCallback})
	if err != nil {
		return err
	}
	o := p.root.Pkg.Scope().Lookup("Node")
	ms := p.prog.MethodSets.MethodSet(types.NewPointer(o.Type()))
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if !ms.At(i).Obj().Exported() {
			continue
		}
		fn := p.prog.MethodValue(ms.At(i))
		n++
		nilMethod(e, r, fn)
	}
	r.Counters["methods"] = n
	r.ob(n >= 20, "count", "node.go", nil, "only %d exported methods of Node found", n)
	return nil
}

func anyCallback(e *Engine, st *State, cb VCallback, args []Value, pos token.Pos) ([]resv, []panicRes) {
	return []resv{{st.clone(), VBool{true}}, {st, VBool{false}}}, nil
}

// argChoices enumerates argument values of a parameter type.
func (e *Engine) argChoices(t types.Type, c *opCase, variadic bool) []func(st *State) Value {
	var out []func(st *State) Value
	add := func(f func(st *State) Value) { out = append(out, f) }
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if e.isNode(u.Elem()) {
			add(func(st *State) Value { return VNil{} })
			add(func(st *State) Value { return ptr(c.nn) })
			if c.n != 0 && c.n != c.nn {
				add(func(st *State) Value { return ptr(c.n) })
			}
			return out
		}
	case *types.Signature:
		add(func(st *State) Value { return VCallback{"fn"} })
		return out
	case *types.Slice:
		if variadic {
			add(func(st *State) Value { return VNil{} })
			for _, el := range e.argChoices(u.Elem(), c, false) {
				add(func(st *State) Value { return e.newList(st, u.Elem(), []LElem{{val: el(st)}}) })
				for _, el2 := range e.argChoices(u.Elem(), c, false) {
					add(func(st *State) Value { return e.newList(st, u.Elem(), []LElem{{val: el(st)}, {val: el2(st)}}) })
				}
			}
			return out
		}
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		add(func(st *State) Value { return VBool{true} })
		add(func(st *State) Value { return VBool{false} })
		return out
	}
	add(func(st *State) Value { return e.fresh(st, t, "arg") })
	return out
}

func nilMethod(e *Engine, r *Report, fn *ssa.Function) {
	sig := fn.Signature
	for _, recvNil := range []bool{true, false} {
		mk := func() *opCase {
			w := newWorld(e)
			a := w.chain("n")
			b := w.chain("nnn")
			w.finish()
			c := &opCase{w: w, n: a[0].obj, nn: b[1].obj}
			if recvNil {
				c.n = 0
			}
			return c
		}
		var rec func(i int, pick []int)
		rec = func(i int, pick []int) {
			c := mk()
			if i < sig.Params().Len() {
				ch := e.argChoices(sig.Params().At(i).Type(), c, sig.Variadic() && i == sig.Params().Len()-1)
				for k := range ch {
					rec(i+1, append(append([]int(nil), pick...), k))
				}
				return
			}
			args := []Value{ptr(c.n)}
			for j, k := range pick {
				args = append(args, e.argChoices(sig.Params().At(j).Type(), c, sig.Variadic() && j == len(pick)-1)[k](c.w.st))
			}
			c.desc = fmt.Sprintf("the receiver is nil: %v, arguments %s", recvNil, argDesc(c, args[1:]))
			pristine := c.model()
			runOp(e, r, fn, c, args, func(c *opCase, st *State, res Value) {
				r.ob(true, "", "", nil, "")
				if recvNil {
					nilResult(e, r, fn, c, st, res, args, pristine)
				}
			})
		}
		rec(0, nil)
	}
}

func argDesc(c *opCase, args []Value) string {
	var out []string
	for _, a := range args {
		switch a := a.(type) {
		case VNil:
			out = append(out, "nil")
		case VPtr:
			out = append(out, "node")
		default:
			out = append(out, fmt.Sprintf("%T", a))
		}
	}
	return strings.Join(out, ",")
}

// nilResult: what the accessors answer for a nil node.
func nilResult(e *Engine, r *Report, fn *ssa.Function, c *opCase, st *State, res Value, args []Value, m *model) {
	where := e.posStr(fn.Pos())
	key := "nil-result:" + fn.Name()
	isNil := func(v Value) bool { _, ok := v.(VNil); return ok }
	switch fn.Name() {
	case "Prev", "Next", "First", "Last", "Copy", "IterPrev", "IterNext", "TakePrev", "TakeNext", "RemovePrev", "RemoveNext":
		r.ob(isNil(res), key, where, st, "%s of a nil node returns a node", fn.Name())
	case "Text":
		s, ok := res.(VStr)
		r.ob(ok && len(st.norm(s.S)) == 0, key, where, st, "Text of a nil node is not empty")
	case "Kind":
		none, ok := e.kindValue("None")
		r.ob(ok && e.sameNow(st, none, res), key, where, st, "Kind of a nil node is not None")
	case "Description":
		s, ok := res.(VStr)
		v, cst := st.norm(s.S).constVal()
		r.ob(ok && cst && v == "<nil>", key, where, st, "Description of a nil node is not <nil>")
	case "Line":
		v, ok := res.(VInt)
		r.ob(ok && st.zone.lt(v.L, linC(0)), key, where, st, "Line of a nil node is not negative")
	}
}

// --- C04: traversal -----------------------------------------------------------------------------------------

type iterCase struct {
	l, r  string
	alter string // what the callback does to the chain when it is called with the first node
}

func checkC04(p *Program, r *Report, thorough bool) error {
	cfg := &Config{maxRec: 6, callback: iterCallback}
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	for _, name := range []string{"IterNext", "IterPrev"} {
		fn := e.nodeOp(r, name)
		if fn == nil {
			continue
		}
		fwd := name == "IterNext"
		for _, l := range sides {
			for _, rt := range sides {
				for _, alter := range []string{"", "cut", "replace", "insert"} {
					if alter != "" && !thorough && (l+"/"+rt != "n/n" && l+"/"+rt != "n/nsn" && l+"/"+rt != "nsn/n") {
						continue
					}
					iterRun(e, r, fn, fwd, l, rt, alter)
				}
			}
		}
		// nil receiver
		w := newWorld(e)
		w.finish()
		c := &opCase{w: w, desc: "the node is nil"}
		c.w.st.ghost["seen"] = VStr{}
		runOp(e, r, fn, c, []Value{VNil{}, VCallback{"fn"}}, func(c *opCase, st *State, res Value) {
			_, isNil := res.(VNil)
			r.ob(isNil && len(st.ghost["seen"].(VStr).S) == 0, "nil:"+name, e.posStr(fn.Pos()), st, "%s on a nil node", name)
		})
	}
	for _, name := range []string{"First", "Last", "Prev", "Next"} {
		fn := e.nodeOp(r, name)
		if fn == nil {
			continue
		}
		for _, mk := range singleCases(e) {
			c := mk()
			m := c.model()
			ch := c.w.chains[0]
			var want ObjID
			switch name {
			case "First":
				want = ch[0].obj
			case "Last":
				want = ch[len(ch)-1].obj
			case "Prev":
				want = m.prevOf(c.n)
			case "Next":
				want = m.nextOf(c.n)
			}
			c.w.rootFields()
			runOp(e, r, fn, c, []Value{ptr(c.n)}, func(c *opCase, st *State, res Value) {
				checkOutcome(e, r, name, e.posStr(fn.Pos()), c, m, st, res, []ObjID{want}, true, true)
			})
		}
	}
	return nil
}

func iterRun(e *Engine, r *Report, fn *ssa.Function, fwd bool, l, rt, alter string) {
	w := newWorld(e)
	a := w.chain(l + "n" + rt)
	b := w.chain("nsn")
	w.finish()
	st := w.st
	i := len(l)
	c := &opCase{w: w, n: a[i].obj, desc: fmt.Sprintf("node in %s(n)%s", l, rt)}
	st.ghost["seen"] = VStr{}
	st.ghost["fwd"] = VBool{fwd}
	st.ghost["n"] = ptr(c.n)
	first := b[0].obj
	if !fwd {
		first = b[len(b)-1].obj
	}
	st.ghost["alt"] = ptr(first)
	st.ghost["alter"] = VStr{constSeq(alter)}
	m := c.model()
	if alter != "" {
		c.desc += ", and the callback changes what follows the node (" + alter + ")"
	}
	// expected order
	exp := func() []tok {
		var ts []tok
		if fwd {
			ts = append(ts, a[i:]...)
		} else {
			for k := i; k >= 0; k-- {
				ts = append(ts, a[k])
			}
		}
		alt := append([]tok(nil), b...)
		if !fwd {
			for x, y := 0, len(alt)-1; x < y; x, y = x+1, y-1 {
				alt[x], alt[y] = alt[y], alt[x]
			}
		}
		switch alter {
		case "cut":
			return ts[:1]
		case "replace":
			return append(ts[:1:1], alt...)
		case "insert":
			return append(append(ts[:1:1], alt...), ts[1:]...)
		}
		return ts
	}()
	seq := func(st *State, ts []tok) Seq {
		var s Seq
		for _, t := range ts {
			x := c.now(st, t)
			x.Rev = !fwd
			s = append(s, x)
		}
		return s
	}
	where := e.posStr(fn.Pos())
	if alter == "" {
		w.rootFields()
	}
	runOp(e, r, fn, c, []Value{ptr(c.n), VCallback{"fn"}}, func(c *opCase, st *State, res Value) {
		seen, _ := st.ghost["seen"].(VStr)
		for _, b := range st.bad {
			r.ob(false, "iteration:"+fn.Name()+":"+b, where, st, "%s: %s, when %s", fn.Name(), b, c.desc)
		}
		if stop, ok := st.ghost["stop"].(VPtr); ok {
			p, isP := res.(VPtr)
			r.ob(isP && p == stop, "iteration-result:"+fn.Name(), where, st, "%s does not return the node the callback stopped at, when %s", fn.Name(), c.desc)
			r.ob(prefixOf(st, seen.S, seq(st, exp)), "iteration-order:"+fn.Name(), where, st, "%s visited %s before it stopped, when %s", fn.Name(), c.nameSeq(st, seen.S), c.desc)
		} else {
			_, isNil := res.(VNil)
			r.ob(isNil, "iteration-result:"+fn.Name(), where, st, "%s returns a node although the callback did not stop, when %s", fn.Name(), c.desc)
			r.ob(st.seqEqual(seen.S, seq(st, exp)), "iteration-order:"+fn.Name(), where, st, "%s visited %s instead of %s, when %s", fn.Name(), c.nameSeq(st, seen.S), tokNames(c, exp), c.desc)
		}
		if alter == "" {
			msg := e.placement(c, m, st)
			r.ob(msg == "", "iteration-effect:"+fn.Name(), where, st, "%s changes the chain (%s), when %s", fn.Name(), msg, c.desc)
			msg = e.untouched(c, st, 0)
			r.ob(msg == "", "iteration-effect:"+fn.Name(), where, st, "%s changes a node (%s), when %s", fn.Name(), msg, c.desc)
		}
	})
}

// prefixOf: a is a beginning of b.
func prefixOf(st *State, a, b Seq) bool {
	a, b = st.norm(a), st.norm(b)
	if len(a) == 0 {
		return false
	}
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.isConst() || y.isConst() || x.Src != y.Src {
			return false
		}
		one := func(z Atom) bool { d, ok := st.zone.constOf(z.B.sub(z.A)); return ok && d == 1 }
		if x.Rev != y.Rev && !one(x) && !one(y) {
			return false
		}
		last := i == len(a)-1
		rev := y.Rev && !one(y) || x.Rev && !one(x)
		if rev {
			if !st.zone.equal(x.B, y.B) || !last && !st.zone.equal(x.A, y.A) || last && !st.zone.le(y.A, x.A) {
				return false
			}
		} else if !st.zone.equal(x.A, y.A) || !last && !st.zone.equal(x.B, y.B) || last && !st.zone.le(x.B, y.B) {
			return false
		}
	}
	return true
}

// iterCallback records the visited nodes.
func iterCallback(e *Engine, st *State, cb VCallback, args []Value, pos token.Pos) ([]resv, []panicRes) {
	if len(args) != 1 {
		e.undecided(st, pos, "callback with %d arguments", len(args))
	}
	if _, stopped := st.ghost["stop"]; stopped {
		st.bad = addBad(st.bad, "the callback is called again after it stopped the iteration")
	}
	p, ok := args[0].(VPtr)
	if !ok {
		st.bad = addBad(st.bad, "the callback is called with a nil node")
		return []resv{{st, VBool{false}}}, nil
	}
	o := st.obj(p.Obj)
	t, ok := o.val.(VStruct).F[e.role.text].(VStr)
	if !ok {
		e.undecided(st, pos, "text of the visited node")
	}
	fwd := st.ghost["fwd"].(VBool).B
	tx := append(Seq(nil), t.S...)
	for i := range tx {
		tx[i].Rev = !fwd
	}
	seen := st.ghost["seen"].(VStr)
	st.ghost["seen"] = VStr{st.norm(catSeq(seen.S, tx))}
	alter, _ := st.ghost["alter"].(VStr).S.constVal()
	if alter != "" && args[0] == st.ghost["n"] {
		e.alterChain(st, p.Obj, st.ghost["alt"].(VPtr).Obj, fwd, alter)
	}
	stop := st.clone()
	stop.ghost["stop"] = p
	return []resv{{st, VBool{true}}, {stop, VBool{false}}}, nil
}

func (e *Engine) setLink(st *State, id ObjID, next bool, v Value) {
	if id == 0 {
		return
	}
	o := *st.obj(id)
	if o.kind == oSeg {
		if next {
			o.next = v
		} else {
			o.prev = v
		}
	} else {
		s := VStruct{append([]Value(nil), o.val.(VStruct).F...)}
		if next {
			s.F[e.role.next] = v
		} else {
			s.F[e.role.prev] = v
		}
		o.val = s
	}
	st.set(id, &o)
}

// alterChain changes what follows a node in iteration direction, keeping links symmetric.
func (e *Engine) alterChain(st *State, n, alt ObjID, fwd bool, how string) {
	o := st.obj(n)
	p, q := e.links(o)
	succ := ptrTo(q)
	if !fwd {
		succ = ptrTo(p)
	}
	e.setLink(st, n, fwd, VNil{})
	e.setLink(st, succ, !fwd, VNil{})
	if how == "cut" {
		return
	}
	e.setLink(st, n, fwd, VPtr{Obj: alt})
	e.setLink(st, alt, !fwd, VPtr{Obj: n})
	if how == "insert" {
		// the far end of the alternative
		far := alt
		for {
			p, q := e.links(st.obj(far))
			nx := q
			if !fwd {
				nx = p
			}
			if ptrTo(nx) == 0 {
				break
			}
			far = ptrTo(nx)
		}
		e.setLink(st, far, fwd, ptr(succ))
		e.setLink(st, succ, !fwd, VPtr{Obj: far})
	}
}

// --- C06: combine -----------------------------------------------------------------------------------------------

func checkC06(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	for _, n := range []string{"CombineNext", "CombinePrev"} {
		combineExplicit(e, r, n, false, true)
	}
	cfg := &Config{foldLists: true, genElem: genGiven, dropNode: dropGiven}
	g, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	for _, n := range []string{"CombineNext", "CombinePrev"} {
		combineGeneral(g, r, n)
	}
	return nil
}

// combineExplicit passes every list of at most three of: nil, the node itself, its neighbours, another node.
func combineExplicit(e *Engine, r *Report, name string, sym, val bool) {
	fn := e.nodeOp(r, name)
	if fn == nil {
		return
	}
	where := e.posStr(fn.Pos())
	for _, recvNil := range []bool{false, true} {
		var pick func(l []int)
		run := func(l []int) {
			w := newWorld(e)
			a := w.chain("nnnn") // n is a[1]
			b := w.chain("nnn")
			w.finish()
			cand := []ObjID{0, a[1].obj, a[0].obj, a[2].obj, a[3].obj, b[1].obj}
			c := &opCase{w: w, n: a[1].obj}
			var els []LElem
			var ids []ObjID
			for _, k := range l {
				els = append(els, LElem{val: ptr(cand[k])})
				ids = append(ids, cand[k])
			}
			recv := c.n
			if recvNil {
				recv = 0
			}
			var list Value = VNil{}
			if len(els) > 0 {
				list = e.newList(w.st, types.NewPointer(e.role.node), els)
			}
			k := w.st.newKind(allKinds)
			w.st.ghost["k"] = k
			// model
			m := c.model()
			target := recv
			rest := ids
			for target == 0 && len(rest) > 0 {
				target, rest = rest[0], rest[1:]
			}
			var text []tok
			tokOf := func(id ObjID) tok {
				i, j := c.model().find(id)
				return c.w.chains[i][j]
			}
			gone := map[ObjID]bool{}
			if target != 0 {
				text = []tok{tokOf(target)}
				for _, id := range rest {
					if id == 0 || id == target {
						continue
					}
					if gone[id] {
						return // the same node twice: not specified
					}
					gone[id] = true
					if name == "CombineNext" {
						text = append(text, tokOf(id))
					} else {
						text = append([]tok{tokOf(id)}, text...)
					}
					m.cutOut(id)
				}
			}
			var ns []string
			for _, id := range ids {
				ns = append(ns, c.name(id))
			}
			c.desc = fmt.Sprintf("%s is given [%s] of a0 a1(n) a2 a3 | b0 b1 b2", c.name(recv), strings.Join(ns, " "))
			runOp(e, r, fn, c, []Value{ptr(recv), k, list}, func(c *opCase, st *State, res Value) {
				if sym {
					msg := e.symmetric(c, st)
					r.ob(msg == "", "link-symmetry:"+name, where, st, "%s leaves asymmetric links (%s) when %s", name, msg, c.desc)
				}
				if !val {
					return
				}
				r.ob(c.isResult(st, res, target), "combine-result:"+name, where, st, "%s does not return the combined node, when %s", name, c.desc)
				if target != 0 {
					i, j := c.model().find(target)
					s, ok := st.obj(gnode(st, i, j)).val.(VStruct)
					tx, ok2 := s.F[e.role.text].(VStr)
					r.ob(ok && ok2 && st.seqEqual(tx.S, c.seqNow(st, text)), "combine-text:"+name, where, st, "%s gives the node the text %s, when %s", name, c.nameSeq(st, tx.S), c.desc)
					r.ob(ok && e.sameNow(st, st.ghost["k"], s.F[e.role.kind]), "combine-kind:"+name, where, st, "%s does not set the kind, when %s", name, c.desc)
				}
				m2 := &model{}
				_ = m2
				// links: the given nodes stand alone, the others keep their order without them
				msg := e.linksAs(c, m, st)
				r.ob(msg == "", "combine-links:"+name, where, st, "%s: %s, when %s", name, msg, c.desc)
				for ci, ch := range c.w.chains {
					for ti, t := range ch {
						if t.obj == target {
							continue
						}
						tx, ok := st.obj(gnode(st, ci, ti)).val.(VStruct).F[e.role.text].(VStr)
						r.ob(ok && st.seqEqual(tx.S, Seq{c.now(st, t)}), "combine-others:"+name, where, st, "%s changes the text of another node, when %s", name, c.desc)
					}
				}
			})
		}
		pick = func(l []int) {
			run(l)
			if len(l) == 3 {
				return
			}
			for k := 0; k < 6; k++ {
				pick(append(append([]int(nil), l...), k))
			}
		}
		pick(nil)
	}
}

// linksAs compares only the links of explicit nodes with the model.
func (e *Engine) linksAs(c *opCase, m *model, st *State) string {
	cur := map[ObjID]ObjID{}
	for ci, ch := range c.w.chains {
		for ti, t := range ch {
			cur[t.obj] = gnode(st, ci, ti)
		}
	}
	for _, ch := range m.chains {
		for _, t := range ch {
			p, q := e.links(st.obj(cur[t.obj]))
			if ptrTo(p) != cur[m.prevOf(t.obj)] || ptrTo(q) != cur[m.nextOf(t.obj)] {
				return "the links of " + c.name(t.obj) + " are not as expected"
			}
		}
	}
	return ""
}

// combineGeneral passes an unknown list of distinct non-nil nodes that are linked to others.
func combineGeneral(e *Engine, r *Report, name string) {
	fn := e.nodeOp(r, name)
	if fn == nil {
		return
	}
	where := e.posStr(fn.Pos())
	for _, recvNil := range []bool{false, true} {
		w := newWorld(e)
		a := w.chain("n")
		w.finish()
		st := w.st
		c := &opCase{w: w, n: a[0].obj, desc: "given any number of nodes"}
		n := st.newNat()
		src := st.newSrc("given", true, n)
		lo := linC(0)
		list := e.newList(st, types.NewPointer(e.role.node), []LElem{{sum: true, seq: Seq{{Src: src, A: lo, B: n}}, n: n}})
		st.ghost["given"] = VTuple{[]Value{VByte{src, linC(0)}, VInt{n}}}
		k := st.newKind(allKinds)
		st.ghost["k"] = k
		recv := c.n
		if recvNil {
			recv = 0
			c.desc = "the receiver is nil and it is " + c.desc
			delete(st.ghost, "node:0:0")
		}
		runOp(e, r, fn, c, []Value{ptr(recv), k, list}, func(c *opCase, st *State, res Value) {
			for _, b := range st.bad {
				r.ob(false, "combine-detach:"+name+":"+b, where, st, "%s: %s, when %s", name, b, c.desc)
			}
			g := st.ghost["given"].(VTuple)
			src, n := g.V[0].(VByte).Src, g.V[1].(VInt).L
			all := Atom{Src: src, A: linC(0), B: n, Rev: name == "CombinePrev"}
			if p, ok := res.(VPtr); ok {
				s, ok := st.obj(p.Obj).val.(VStruct)
				tx, ok2 := s.F[e.role.text].(VStr)
				want := Seq{all}
				if !recvNil {
					want = Seq{c.now(st, a[0]), all}
					if name == "CombinePrev" {
						want = Seq{all, c.now(st, a[0])}
					}
					r.ob(p.Obj == gnode(st, 0, 0), "combine-result:"+name, where, st, "%s does not return the receiver, when %s", name, c.desc)
				}
				r.ob(ok && ok2 && st.seqEqual(tx.S, want), "combine-text:"+name, where, st, "%s gives the node the text %s instead of its own text and those of all given nodes in order, when %s", name, tx.S, c.desc)
				r.ob(ok && e.sameNow(st, st.ghost["k"], s.F[e.role.kind]), "combine-kind:"+name, where, st, "%s does not set the kind, when %s", name, c.desc)
				return
			}
			_, isNil := res.(VNil)
			r.ob(isNil && recvNil && st.zone.equal(n, linC(0)), "combine-result:"+name, where, st, "%s returns no node, when %s", name, c.desc)
		})
	}
}

// genGiven makes an element of the given list: a node between two others, or alone.
func genGiven(e *Engine, st *State, t types.Type, a *Atom, off Lin, pos token.Pos) []resv {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok || !e.isNode(p.Elem()) || a == nil {
		return nil
	}
	mk := func(st *State, linked bool) resv {
		o := e.newNodeObj(st, Seq{{Src: a.Src, A: off, B: off.addC(1)}}, allKinds, VNil{}, VNil{}, false)
		id := st.alloc(o)
		if linked {
			nb := func() ObjID {
				return st.alloc(e.newNodeObj(st, Seq{{Const: "neighbour"}}, allKinds, VNil{}, VNil{}, false))
			}
			x, y := nb(), nb()
			e.setLink(st, id, false, VPtr{Obj: x})
			e.setLink(st, x, true, VPtr{Obj: id})
			e.setLink(st, id, true, VPtr{Obj: y})
			e.setLink(st, y, false, VPtr{Obj: id})
		}
		return resv{st, VPtr{Obj: id}}
	}
	s2 := st.clone()
	return []resv{mk(st, false), mk(s2, true)}
}

// dropGiven: nodes nobody refers to any more must stand alone.
func dropGiven(e *Engine, st *State, id ObjID) {
	o := st.obj(id)
	if o.kind != oPlain {
		return
	}
	p, q := e.links(o)
	if ptrTo(p) != 0 || ptrTo(q) != 0 {
		st.bad = addBad(st.bad, "a combined node stays linked to its neighbours")
	}
}
