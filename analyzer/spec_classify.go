package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// --- classification: working out node kinds keeps the text of every chain ------------------------

// effects says which functions reachable from ParseScope (not through the tokenizer) may change the text, order or
// line of nodes.
type effects struct {
	p        *Program
	tok      *ssa.Function
	region   []*ssa.Function
	writes   map[*ssa.Function][]token.Pos // stores into text and links
	lines    map[*ssa.Function][]token.Pos // stores into the line
	kinds    map[*ssa.Function][]token.Pos // stores into the kind
	dirty    map[*ssa.Function]string      // functions that may lose text: why
	verified map[*ssa.Function]int         // merging steps shown to keep the text: number of outcomes
	why      map[*ssa.Function]*failure
	via      map[*ssa.Function]*ssa.Function
}

type failure struct {
	msg   string
	where token.Pos
	trace []string
}

func (p *Program) isNodeMethod(e *Engine, fn *ssa.Function) bool {
	r := fn.Signature.Recv()
	return r != nil && e.isNode(deref(r.Type())) && fn.Parent() == nil
}

// nodeEffects analyses the functions behind ParseScope.
func (p *Program) nodeEffects(e *Engine, r *Report) (*effects, error) {
	x := &effects{p: p, dirty: map[*ssa.Function]string{}, verified: map[*ssa.Function]int{}, why: map[*ssa.Function]*failure{}, via: map[*ssa.Function]*ssa.Function{}}
	ps := p.root.Func("ParseScope")
	if ps == nil {
		return nil, fmt.Errorf("function ParseScope not found")
	}
	x.tok = e.tokenizer()
	if x.tok == nil {
		return nil, fmt.Errorf("the tokenizer behind ParseScope was not found")
	}
	seen := map[*ssa.Function]bool{ps: true, x.tok: true}
	work := []*ssa.Function{ps}
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		x.region = append(x.region, f)
		for _, g := range p.callees(f) {
			if !seen[g] {
				seen[g] = true
				x.via[g] = f
				work = append(work, g)
			}
		}
	}
	x.writes = p.linkStores(e, e.role.prev, e.role.next, e.role.text)
	x.lines = p.linkStores(e, e.role.line)
	x.kinds = p.linkStores(e, e.role.kind)
	tried := map[*ssa.Function]bool{}
	for again := true; again; {
		again = false
		for _, f := range x.region {
			if x.dirty[f] != "" || x.verified[f] > 0 {
				continue
			}
			cause := ""
			if len(x.writes[f]) > 0 {
				cause = "stores into nodes"
			}
			for _, g := range p.callees(f) {
				if x.dirty[g] != "" && cause == "" {
					cause = "uses " + g.String()
				}
			}
			if len(x.lines[f]) > 0 {
				x.dirty[f], again = "stores into the line of a node", true
				x.why[f] = &failure{msg: "stores into the line of a node", where: x.lines[f][0]}
				continue
			}
			if cause == "" {
				continue
			}
			if !tried[f] && !p.isNodeMethod(e, f) && f != ps && f.Parent() != ps {
				tried[f] = true
				n, fl, err := x.verify(f, r)
				if err != nil {
					return nil, err
				}
				if fl == nil {
					x.verified[f] = n
					continue
				}
				x.why[f] = fl
			}
			x.dirty[f], again = cause, true
		}
	}
	return x, nil
}

// opaque reports whether calling fn leaves text, order and lines of all nodes alone, whatever it is given.
func (x *effects) opaque(fn *ssa.Function) bool {
	for _, f := range x.region {
		if f == fn {
			return x.dirty[fn] == ""
		}
	}
	return false
}

// unsafeKinds finds a function from which kinds are stored along a way on which text may be lost.
func (x *effects) storesKinds(e *Engine, fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if seen[f] || f == x.tok {
			return false
		}
		seen[f] = true
		if len(x.kinds[f]) > 0 {
			return true
		}
		if f != fn && x.dirty[f] == "" && !x.p.isNodeMethod(e, f) {
			return false
		}
		for _, g := range x.p.callees(f) {
			if rec(g) {
				return true
			}
		}
		return false
	}
	return rec(fn)
}

// --- exploring one function with unknown arguments -------------------------------------------------------

type bworld struct {
	e *Engine
}

// addChain makes a chain of nodes around one node; the text of the chain is remembered by its first node.
func (e *Engine) addChain(st *State, left, right string) ObjID {
	k := 0
	for st.ghost[fmt.Sprintf("anchor:%d", k)] != nil {
		k++
	}
	spec := left + "n" + right
	src := st.newSrc(fmt.Sprintf("text of chain %d", k), false, Lin{})
	at := linC(0)
	var ids []ObjID
	for _, c := range spec {
		end := st.newInt()
		st.zone.assumeLE(at.sub(end))
		t := Seq{{Src: src, A: at, B: end}}
		at = end
		if c == 's' {
			ids = append(ids, st.alloc(&Object{kind: oSeg, typ: e.role.node, text: t, kinds: allKinds, prev: VNil{}, next: VNil{}}))
			continue
		}
		ids = append(ids, st.alloc(e.newNodeObj(st, t, allKinds, VNil{}, VNil{}, false)))
	}
	st.setLen(src, at)
	for i := 1; i < len(ids); i++ {
		e.setLink(st, ids[i-1], true, VPtr{Obj: ids[i]})
		e.setLink(st, ids[i], false, VPtr{Obj: ids[i-1]})
	}
	st.ghost[fmt.Sprintf("anchor:%d", k)] = VPtr{Obj: ids[0]}
	st.ghost[fmt.Sprintf("text:%d", k)] = VStr{Seq{{Src: src, A: linC(0), B: at}}}
	return ids[len(left)]
}

// setLen sets the length of a source.
func (st *State) setLen(id SrcID, n Lin) {
	m := make(map[SrcID]*Src, len(st.srcs))
	for k, v := range st.srcs {
		m[k] = v
	}
	c := *m[id]
	c.length = n
	m[id] = &c
	st.srcs = m
}

var chainSides = []string{"", "n", "nsn"}

// anyNode gives every possibility for an unknown node: none, one that is known already, one inside a run of nodes,
// one of a chain of its own.
func (e *Engine) anyNode(st *State, isNil bool) []resv {
	var out []resv
	if isNil {
		out = append(out, resv{st.clone(), VNil{}})
	}
	var ids []ObjID
	for id, o := range st.heap {
		if _, base := e.base[id]; !base && e.isChainObj(o) {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		if st.obj(id).kind == oPlain {
			out = append(out, resv{st.clone(), VPtr{Obj: id}})
			continue
		}
		for _, l := range []bool{false, true} {
			for _, rt := range []bool{false, true} {
				s := st.clone()
				if n := e.pick(s, id, l, rt); n != 0 {
					out = append(out, resv{s, VPtr{Obj: n}})
				}
			}
		}
	}
	for _, l := range chainSides {
		for _, rt := range chainSides {
			s := st.clone()
			out = append(out, resv{s, VPtr{Obj: e.addChain(s, l, rt)}})
		}
	}
	return out
}

// pick exposes a node inside a segment with or without nodes left and right of it in the segment.
func (e *Engine) pick(st *State, seg ObjID, left, right bool) ObjID {
	o := *st.obj(seg)
	if len(o.text) != 1 || o.text[0].isConst() {
		return 0
	}
	a := o.text[0]
	m1, m2 := a.A, a.B
	if left {
		m1 = st.newInt()
	}
	if right {
		m2 = st.newInt()
	}
	if !st.zone.assumeLE(a.A.sub(m1)) || !st.zone.assumeLE(m1.sub(m2)) || !st.zone.assumeLE(m2.sub(a.B)) {
		return 0
	}
	part := func(x, y Lin) Seq { return Seq{{Src: a.Src, A: x, B: y}} }
	p, n := o.prev, o.next
	node := st.alloc(e.newNodeObj(st, part(m1, m2), o.kinds, p, n, false))
	mk := func(t Seq, p, n Value) ObjID {
		return st.alloc(&Object{kind: oSeg, typ: o.typ, text: t, kinds: o.kinds, prev: p, next: n})
	}
	first, last := node, node
	if left {
		first = mk(part(a.A, m1), p, VPtr{Obj: node})
		e.setLink(st, node, false, VPtr{Obj: first})
	}
	if right {
		last = mk(part(m2, a.B), VPtr{Obj: node}, n)
		e.setLink(st, node, true, VPtr{Obj: last})
	}
	if id := ptrTo(p); id != 0 {
		e.setLink(st, id, true, VPtr{Obj: first})
	}
	if id := ptrTo(n); id != 0 {
		e.setLink(st, id, false, VPtr{Obj: last})
	}
	delete(st.heap, seg)
	return node
}

func genAny(e *Engine, st *State, t types.Type, a *Atom, off Lin, pos token.Pos) []resv {
	if e.isNodePtr(t) {
		return e.anyNode(st, true)
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return one(st, VCallback{"hook"})
	}
	return nil
}

func foldAny(e *Engine, st *State, o *Object, el LElem) (LElem, bool) {
	if e.isNodePtr(o.typ) {
		return LElem{sum: true, n: linC(1)}, true
	}
	return el, false
}

// idleCallback answers a call of an unknown function that does nothing to the nodes.
func idleCallback(e *Engine, st *State, cb VCallback, args []Value, pos token.Pos) ([]resv, []panicRes) {
	st.forgetLists()
	return []resv{{st, VUnk{-3, nil}}}, nil
}

// anyValue gives every possibility for a value of a type.
func (e *Engine) anyValue(st *State, t types.Type) []resv {
	if e.isNodePtr(t) {
		return e.anyNode(st, true)
	}
	if e.isKindType(t) {
		return one(st, st.newKind(allKinds))
	}
	switch u := t.Underlying().(type) {
	case *types.Signature:
		return one(st, VCallback{"hook"})
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return []resv{{st.clone(), VBool{true}}, {st, VBool{false}}}
		}
	case *types.Struct:
		rs := []resv{{st, VStruct{}}}
		for i := 0; i < u.NumFields(); i++ {
			var next []resv
			for _, r := range rs {
				for _, q := range e.anyValue(r.st, u.Field(i).Type()) {
					next = append(next, resv{q.st, VStruct{append(append([]Value(nil), r.val.(VStruct).F...), q.val)}})
				}
			}
			rs = next
		}
		return rs
	case *types.Pointer:
		var out []resv
		for _, r := range e.anyValue(st, u.Elem()) {
			out = append(out, resv{r.st, r.st.allocVal(u.Elem(), r.val)})
		}
		return out
	}
	return one(st, e.fresh(st, t, "argument"))
}

// verify explores a function with unknown arguments and compares the text of every chain at its end.
func (x *effects) verify(fn *ssa.Function, r *Report) (int, *failure, error) {
	e, err := x.p.newEngine(&Config{foldLists: true, budget: 1_500_000, genElem: genAny, foldElem: foldAny, callback: idleCallback,
		atHeader: retireChains})
	if err != nil {
		return 0, nil, err
	}
	e.limit = 60 * time.Second
	for _, g := range x.p.bfs(fn) {
		if x.p.recursive(g) {
			return 0, &failure{msg: "it leads to a recursion that may do so", where: fn.Pos()}, nil
		}
	}
	st := e.newState()
	cases := []resv{{st, VTuple{}}}
	var ts []types.Type
	for _, p := range fn.Params {
		ts = append(ts, p.Type())
	}
	for _, p := range fn.FreeVars {
		ts = append(ts, p.Type())
	}
	for _, t := range ts {
		var next []resv
		for _, c := range cases {
			for _, q := range e.anyValue(c.st, t) {
				next = append(next, resv{q.st, VTuple{append(append([]Value(nil), c.val.(VTuple).V...), q.val)}})
			}
		}
		cases = next
		if len(cases) > 3000 {
			return 0, &failure{msg: "it takes too many nodes", where: fn.Pos()}, nil
		}
	}
	n := 0
	var fl *failure
	for _, c := range cases {
		vs := c.val.(VTuple).V
		np := len(fn.Params)
		u := &Unit{e: e, name: fn.Name(), fn: fn, headers: map[string]*headGroup{}, symbolic: map[string]bool{}}
		u.final = func(st *State, res Value) {
			n++
			if fl != nil {
				return
			}
			if m := e.chainsKept(st); m != "" {
				fl = &failure{m, fn.Pos(), st.traceLines(30)}
				e.aborted = true
			}
		}
		e.touched[fn] = true
		e.push(c.st, VFunc{Fn: fn, Bind: vs[np:]}, vs[:np], false)
		u.work = []*State{c.st}
		e.drain(u)
		if fl != nil || e.aborted || len(e.find.undecided) > 0 {
			break
		}
		n += len(u.panics) // a panic ends parsing: nothing is lost silently
	}
	if fl == nil {
		for m, st := range e.find.undecided {
			fl = &failure{"cannot be decided: " + m, fn.Pos(), st.traceLines(30)}
		}
	}
	r.Counters["abstract_steps"] += e.steps
	r.Counters["configurations"] += len(cases)
	r.Counters["outcomes"] += n
	for f := range e.touched {
		if e.inModule(f) {
			r.Units[f.String()]++
		}
	}
	if fl == nil && n == 0 {
		fl = &failure{msg: "it never returns", where: fn.Pos()}
	}
	return n, fl, nil
}

// retireChains forgets chains that are as they were and that nothing refers to any more.
func retireChains(e *Engine, u *Unit, st *State) {
	seen := map[ObjID]bool{}
	var work []ObjID
	visit := func(id ObjID) {
		if !seen[id] {
			seen[id] = true
			work = append(work, id)
		}
	}
	for i, f := range st.frames {
		live := st.liveRegs(i)
		for k, v := range f.regs {
			if live[k] {
				e.refsOf(v, visit)
			}
		}
		for _, d := range f.defers {
			e.refsOf(d.fn, visit)
			for _, a := range d.args {
				e.refsOf(a, visit)
			}
		}
	}
	for k, v := range st.ghost {
		if !strings.HasPrefix(k, "anchor:") {
			e.refsOf(v, visit)
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		if o := st.obj(id); o != nil && (st.heap[id] != nil || e.base[id] == nil) {
			if o.kind == oList && e.isNodePtr(o.typ) {
				continue // folded at once: any node may come out of it
			}
			e.objRefs(o, visit)
		}
	}
	var keep []int
	n := 0
	for ; ; n++ {
		a, ok := st.ghost[fmt.Sprintf("anchor:%d", n)].(VPtr)
		if !ok {
			break
		}
		used := false
		objs, text, msg := e.walk(st, a.Obj)
		for _, id := range objs {
			used = used || seen[id]
		}
		if used || msg != "" || objs[0] != a.Obj || !st.seqEqual(text, st.ghost[fmt.Sprintf("text:%d", n)].(VStr).S) {
			keep = append(keep, n)
		}
	}
	for i, k := range keep {
		a, t := st.ghost[fmt.Sprintf("anchor:%d", k)], st.ghost[fmt.Sprintf("text:%d", k)]
		st.ghost[fmt.Sprintf("anchor:%d", i)], st.ghost[fmt.Sprintf("text:%d", i)] = a, t
	}
	for k := len(keep); k < n; k++ {
		delete(st.ghost, fmt.Sprintf("anchor:%d", k))
		delete(st.ghost, fmt.Sprintf("text:%d", k))
	}
}

// chainsKept compares every remembered chain with its text.
func (e *Engine) chainsKept(st *State) string {
	for k := 0; ; k++ {
		a, ok := st.ghost[fmt.Sprintf("anchor:%d", k)].(VPtr)
		if !ok {
			return ""
		}
		objs, text, msg := e.walk(st, a.Obj)
		if msg != "" {
			return msg
		}
		if objs[0] != a.Obj {
			return "the first node of a chain is not the first any more"
		}
		if !st.seqEqual(text, st.ghost[fmt.Sprintf("text:%d", k)].(VStr).S) {
			return "the nodes do not hold the text they held before, but " + e.describeSeq(st, st.norm(text))
		}
	}
}

func checkC10(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	x, err := p.nodeEffects(e, r)
	if err != nil {
		return err
	}
	ps := p.root.Func("ParseScope")
	nk := 0
	for _, f := range x.region {
		r.Units[f.String()]++
		if len(x.kinds[f]) > 0 {
			nk++
		}
		if p.isNodeMethod(e, f) || f == ps || f.Parent() == ps {
			continue
		}
		if n := x.verified[f]; n > 0 {
			r.ob(true, "", "", nil, "")
			r.sample("%s keeps the text of every chain it is given nodes of (%d outcomes)", f, n)
			continue
		}
		bad := x.dirty[f] != "" && x.storesKinds(e, f)
		if !bad {
			r.ob(true, "", "", nil, "")
			continue
		}
		// report where it starts: the function that itself writes, or uses something that writes
		own := len(x.writes[f]) > 0 || len(x.lines[f]) > 0
		for _, g := range p.callees(f) {
			own = own || x.dirty[g] != "" && (p.isNodeMethod(e, g) || !x.storesKinds(e, g))
		}
		if !own {
			r.Obligations++
			continue
		}
		fl := x.why[f]
		if fl == nil {
			fl = &failure{msg: x.dirty[f], where: f.Pos()}
		}
		var path []string
		for g := f; g != nil; g = x.via[g] {
			path = append([]string{g.Name()}, path...)
		}
		r.Obligations++
		r.fail("classify:"+f.String(), e.posStr(fl.where),
			fmt.Sprintf("%s, reached by %s, may change the text or lines of nodes while kinds are worked out: %s", f, strings.Join(path, " -> "), fl.msg), fl.trace)
	}
	r.Counters["functions_in_region"] = len(x.region)
	r.Counters["merging_steps"] = len(x.verified)
	if len(r.viol) == 0 && r.Obligations != r.Discharged {
		r.fail("classify", e.posStr(ps.Pos()), "the text or lines of nodes may change while kinds are worked out", nil)
	}
	r.ob(nk > 0, "anchor:kinds", e.posStr(ps.Pos()), nil, "no function that stores node kinds was found behind ParseScope")
	return nil
}
