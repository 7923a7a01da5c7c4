package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- copies and scope lists: equal to what they come from, and independent of it --------------------------------

// method finds the code behind a method of a value.
func (e *Engine) methodOf(v Value, name string) *ssa.Function {
	iv, ok := v.(VIface)
	if !ok {
		return nil
	}
	return e.prog.LookupMethod(iv.T, e.root.Pkg, name)
}

// ask calls a method of a value; f gets every outcome.
func (c *copyCheck) ask(st *State, v Value, name string, args []Value, f func(st *State, vs []Value)) {
	e := c.e
	fn := e.methodOf(v, name)
	if fn == nil {
		c.ok(st, false, "method:"+name, "method %s of %s not found", name, showVal(v))
		return
	}
	c.call(st, name, fn, append([]Value{v.(VIface).V}, args...), f)
}

func (c *copyCheck) call(st *State, name string, fn *ssa.Function, args []Value, f func(st *State, vs []Value)) {
	e := c.e
	st = st.clone()
	st.frames = nil
	e.aborted = false
	n := 0
	u := e.explore(name, fn, st, args, func(st *State, res Value) {
		n++
		st = st.clone()
		st.frames = nil
		f(st, tupleOf(res, 0))
	})
	if len(u.panics) == 0 && !c.ok(st, n > 0, "outcome:"+name, "%s has no outcome", name) {
		return
	}
	savePanics(e, c.r, u, name)
}

type copyCheck struct {
	e    *Engine
	r    *Report
	pos  token.Pos
	what string
}

func (c *copyCheck) ok(st *State, b bool, key, format string, args ...any) bool {
	return c.r.ob(b, "copy:"+key+":"+c.what, c.e.posStr(c.pos), st, "%s: %s", c.what, fmt.Sprintf(format, args...))
}

// sameVal compares two values, pointers by identity.
func (st *State) sameVal(a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && st.zone.equal(x.L, y.L)
	case VStr:
		y, ok := b.(VStr)
		return ok && st.seqEqual(x.S, y.S)
	case VKind:
		y, ok := b.(VKind)
		if !ok {
			return false
		}
		k := st.kindSetOf(x)
		return x.K == y.K || k == st.kindSetOf(y) && k&(k-1) == 0
	case VIface:
		y, ok := b.(VIface)
		return ok && types.Identical(x.T, y.T) && st.sameVal(x.V, y.V)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.Obj == y.Obj && st.zone.equal(x.Off, y.Off) && st.zone.equal(x.Len, y.Len)
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !st.sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VTuple:
		y, ok := b.(VTuple)
		return ok && st.sameVal(VStruct{x.V}, VStruct{y.V})
	}
	return showVal(a) == showVal(b)
}

// content is what an object holds, as a value.
func content(o *Object) Value {
	if o.kind == oList {
		var t VTuple
		for _, el := range o.elems {
			if el.sum {
				t.V = append(t.V, VNil{})
			} else {
				t.V = append(t.V, el.val)
			}
		}
		return t
	}
	return o.val
}

// remember notes what every object holds under a name.
func (c *copyCheck) remember(st *State, name string) {
	i := 0
	for _, id := range sortedIDs(st.heap) {
		o := st.heap[id]
		if _, base := c.e.base[id]; base || o.kind != oPlain && o.kind != oList {
			continue
		}
		if _, isBuf := o.val.(VBuf); isBuf {
			continue
		}
		st.ghost[fmt.Sprintf("%s at %03d", name, i)] = VPtr{Obj: id}
		st.ghost[fmt.Sprintf("%s was %03d", name, i)] = content(o)
		i++
	}
}

func sortedIDs(m map[ObjID]*Object) []ObjID {
	var ids []ObjID
	for id := range m {
		ids = append(ids, id)
	}
	for i := 1; i < len(ids); i++ {
		for j := i; j > 0 && ids[j] < ids[j-1]; j-- {
			ids[j], ids[j-1] = ids[j-1], ids[j]
		}
	}
	return ids
}

// changed lists the remembered objects that hold something else now. Room behind the elements of a list may be used.
func (c *copyCheck) changed(st *State, name string) []ObjID {
	var out []ObjID
	for i := 0; ; i++ {
		at, ok := st.ghost[fmt.Sprintf("%s at %03d", name, i)].(VPtr)
		if !ok {
			return out
		}
		was := st.ghost[fmt.Sprintf("%s was %03d", name, i)]
		now := content(st.obj(at.Obj))
		if w, isList := was.(VTuple); isList {
			n, _ := now.(VTuple)
			same := len(w.V) == len(n.V)
			for j := 0; same && j < len(w.V); j++ {
				if _, room := w.V[j].(VNil); !room {
					same = st.sameVal(w.V[j], n.V[j])
				}
			}
			if !same {
				out = append(out, at.Obj)
			}
			continue
		}
		if was == nil || now == nil || !st.sameVal(was, now) {
			out = append(out, at.Obj)
		}
	}
}

// known reports whether an object was remembered.
func (c *copyCheck) known(st *State, name string, id ObjID) bool {
	for i := 0; ; i++ {
		at, ok := st.ghost[fmt.Sprintf("%s at %03d", name, i)].(VPtr)
		if !ok {
			return false
		}
		if at.Obj == id {
			return true
		}
	}
}

// nodes makes a list of n explicit nodes and returns the one at position p.
func (c *copyCheck) nodes(st *State, label string, n, p int) Value {
	e := c.e
	var ids []ObjID
	for i := 0; i < n; i++ {
		k := st.newNat()
		t := Seq{{Src: st.newSrc(fmt.Sprintf("text %d of %s", i, label), false, k), A: linC(0), B: k}}
		ids = append(ids, st.alloc(e.newNodeObj(st, t, allKinds, VNil{}, VNil{}, false)))
	}
	for j := 1; j < len(ids); j++ {
		e.setLink(st, ids[j-1], true, VPtr{Obj: ids[j]})
		e.setLink(st, ids[j], false, VPtr{Obj: ids[j-1]})
	}
	if n == 0 {
		return VNil{}
	}
	return VPtr{Obj: ids[p]}
}

// chain lists the nodes around a node, and the position of the node.
func (c *copyCheck) chain(st *State, v Value) (ids []ObjID, at int, msg string) {
	e := c.e
	if _, none := v.(VNil); none {
		return nil, 0, ""
	}
	p, ok := v.(VPtr)
	if !ok || !e.isChainObj(st.obj(p.Obj)) {
		return nil, 0, "the node is unknown: " + showVal(v)
	}
	ids = []ObjID{p.Obj}
	seen := map[ObjID]bool{p.Obj: true}
	for _, forward := range []bool{false, true} {
		for id := p.Obj; ; {
			a, b := e.links(st.obj(id))
			l := a
			if forward {
				l = b
			}
			if _, none := l.(VNil); none {
				break
			}
			q, ok := l.(VPtr)
			if !ok || seen[q.Obj] || !e.isChainObj(st.obj(q.Obj)) {
				return nil, 0, "the links run in a ring or are unknown"
			}
			seen[q.Obj] = true
			back, fwd := e.links(st.obj(q.Obj))
			if forward {
				fwd = back
			}
			if ptrTo(fwd) != id {
				return nil, 0, "a neighbour does not link back"
			}
			id = q.Obj
			if forward {
				ids = append(ids, id)
			} else {
				ids = append([]ObjID{id}, ids...)
				at++
			}
		}
	}
	return ids, at, ""
}

// likeNodes compares the list around one node with the list around another: as long, at the same position, and with
// the same texts, kinds and lines, but with no node in common with the remembered objects.
func (c *copyCheck) likeNodes(st *State, orig, cp Value, mem string) {
	a, p, m := c.chain(st, orig)
	if !c.ok(st, m == "", "original", "the original list: %s", m) {
		return
	}
	b, q, m := c.chain(st, cp)
	if !c.ok(st, m == "", "links", "the copied list: %s", m) {
		return
	}
	if !c.ok(st, len(a) == len(b) && p == q, "list", "a node at position %d of a list of %d is copied to one at position %d of a list of %d", p, len(a), q, len(b)) {
		return
	}
	for i := range a {
		c.likeNode(st, a[i], b[i], mem, fmt.Sprintf("node %d of %d copied from node %d", i, len(a), p))
	}
}

func (c *copyCheck) likeNode(st *State, a, b ObjID, mem, where string) {
	x, ok1 := st.obj(a).val.(VStruct)
	y, ok2 := st.obj(b).val.(VStruct)
	if !c.ok(st, ok1 && ok2, "node", "%s is unknown", where) {
		return
	}
	c.ok(st, !c.known(st, mem, b), "shared", "%s is not a node of its own", where)
	ro := c.e.role
	c.ok(st, st.sameVal(x.F[ro.text], y.F[ro.text]), "text", "the text of %s differs", where)
	c.ok(st, st.sameVal(x.F[ro.kind], y.F[ro.kind]), "kind", "the kind of %s differs", where)
	c.ok(st, st.sameVal(x.F[ro.line], y.F[ro.line]), "line", "the line of %s differs", where)
}

func (c *copyCheck) unchanged(st *State, mem, what string, except ...ObjID) {
	for _, id := range c.changed(st, mem) {
		skip := false
		for _, x := range except {
			skip = skip || x == id
		}
		if !skip {
			c.ok(st, false, "changes:"+what, "%s changes something that was there before (%s)", what, typeName(st.obj(id).typ))
		}
	}
}

func typeName(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(*types.Package) string { return "" })
}

// likeScope compares a scope with its copy.
func (c *copyCheck) likeScope(st *State, orig, cp Value, mem string, done func(st *State)) {
	a, ok1 := orig.(VIface)
	b, ok2 := cp.(VIface)
	if !c.ok(st, ok1 && ok2, "scope", "the copy of a scope is unknown: %s", showVal(cp)) {
		return
	}
	if p, isPtr := b.V.(VPtr); isPtr {
		c.ok(st, !c.known(st, mem, p.Obj), "scope-shared", "the copy of a scope is not an object of its own")
	}
	st = st.clone()
	st.ghost["sc a"], st.ghost["sc b"] = a, b
	var rec func(st *State, qs []string)
	rec = func(st *State, qs []string) {
		if len(qs) == 0 {
			delete(st.ghost, "sc a")
			delete(st.ghost, "sc b")
			done(st)
			return
		}
		q := qs[0]
		c.ask(st, st.ghost["sc a"], q, nil, func(st *State, vs []Value) {
			if !c.ok(st, len(vs) == 1, "scope-"+q, "%s of a scope is unknown", q) {
				return
			}
			st.ghost["sc v"] = vs[0]
			c.ask(st, st.ghost["sc b"], q, nil, func(st *State, ws []Value) {
				if !c.ok(st, len(ws) == 1, "scope-"+q, "%s of a scope is unknown", q) {
					return
				}
				v := st.ghost["sc v"]
				delete(st.ghost, "sc v")
				if q == "Node" {
					c.likeNodes(st, v, ws[0], mem)
				} else {
					c.ok(st, st.sameVal(v, ws[0]), "scope-"+q, "%s of the copy of a scope differs", q)
				}
				rec(st, qs[1:])
			})
		})
	}
	rec(st, []string{"Kind", "Line", "Node"})
}

func (c *copyCheck) newScope(st *State, kind Seq, node Value, f func(st *State, v Value)) {
	mk := c.e.root.Func("NewScope")
	if mk == nil || len(mk.Params) != 3 {
		c.r.fail("anchor:NewScope", "scope.go", "function NewScope(line, kind, node) not found", nil)
		return
	}
	c.call(st, "NewScope", mk, []Value{VInt{st.newInt()}, VStr{kind}, node}, func(st *State, vs []Value) {
		if c.ok(st, len(vs) == 1, "new-scope", "NewScope has one result") {
			f(st, vs[0])
		}
	})
}

func checkC05(p *Program, r *Report, thorough bool) error {
	var parsed func(st *State) Value
	cfg := &Config{noFold: true, spare: 2, maxRec: 40, keepPreds: true}
	parse := p.root.Func("ParseScope")
	cfg.intercept = func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if parse == nil || fn != parse || parsed == nil {
			return nil, nil, false
		}
		return one(st, VTuple{[]Value{parsed(st), VNil{}}}), nil, true
	}
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	c := &copyCheck{e: e, r: r}
	longest := 4
	if thorough {
		longest = 9
	}
	// nodes
	fn := e.nodeOp(r, "Copy")
	if fn == nil {
		return nil
	}
	c.pos, c.what = fn.Pos(), "Copy of a node"
	bools := func(st *State, bs ...bool) Value {
		if len(bs) == 0 {
			return VNil{}
		}
		var els []LElem
		for _, b := range bs {
			els = append(els, LElem{val: VBool{b}})
		}
		return e.newList(st, types.Typ[types.Bool], els)
	}
	for _, opt := range [][]bool{nil, {false}, {true}, {false, true}, {true, false}} {
		whole := len(opt) > 0 && opt[0]
		st := e.newState()
		c.call(st, "Copy", fn, []Value{VNil{}, bools(st, opt...)}, func(st *State, vs []Value) {
			_, none := vs[0].(VNil)
			c.ok(st, none, "nil", "the copy of no node is a node")
		})
		for n := 1; n <= longest; n++ {
			for at := 0; at < n; at++ {
				st := e.newState()
				v := c.nodes(st, "the list", n, at)
				c.remember(st, "m")
				st.ghost["orig"] = v
				c.call(st, "Copy", fn, []Value{v, bools(st, opt...)}, func(st *State, vs []Value) {
					c.unchanged(st, "m", "Copy")
					if whole {
						c.likeNodes(st, st.ghost["orig"], vs[0], "m")
						return
					}
					b, _, m := c.chain(st, vs[0])
					if c.ok(st, m == "" && len(b) == 1, "alone", "the copy of a node alone is linked (%d nodes) %s", len(b), m) {
						c.likeNode(st, st.ghost["orig"].(VPtr).Obj, b[0], "m", "the node copied alone")
					}
				})
			}
		}
	}
	r.sample("lists of up to %d nodes with any texts, kinds and lines, copied from every position", longest)
	// scopes
	c.what = "Copy of a scope"
	for n := 0; n <= 3; n++ {
		for at := 0; at < max(n, 1); at++ {
			st := e.newState()
			node := c.nodes(st, "the scope", n, at)
			c.newScope(st, st.newText("scope kind"), node, func(st *State, v Value) {
				st.ghost["scope"] = v
				c.remember(st, "m")
				if m := e.methodOf(v, "Copy"); m != nil {
					c.pos = m.Pos()
				}
				c.ask(st, v, "Copy", nil, func(st *State, vs []Value) {
					c.unchanged(st, "m", "Copy")
					c.likeScope(st, st.ghost["scope"], vs[0], "m", func(st *State) {})
				})
			})
		}
	}
	// Asts
	parseAst := p.root.Func("ParseAst")
	pkgText, ok := p.constText("scope", "Package")
	if parseAst == nil || parse == nil || !ok || p.scopeIface() == nil {
		r.fail("anchor:ParseAst", "ast.go", "ParseAst, ParseScope or the package scope kind not found", nil)
		return nil
	}
	parsed = func(st *State) Value { return st.ghost["parsed"] }
	c.what = "Ast"
	c.pos = parseAst.Pos()
	h := &historyCheck{copyCheck: c, thorough: thorough}
	h.steps = 3 // enough for two Asts to share a list and to add to it
	st := e.newState()
	// scopes to use
	h.makeScopes(st, pkgText, 3+2*h.steps, func(st *State) {
		for n := 1; n <= 3; n++ {
			if n != 2 && !thorough {
				continue
			}
			s := st.clone()
			s.ghost["parsed"] = h.listOf(s, 0, n)
			s.ghost["file"] = VStr{s.newText("file")}
			h.call(s, "ParseAst", parseAst, []Value{s.ghost["file"]}, func(s *State, vs []Value) {
				if len(vs) != 2 {
					return
				}
				if _, fine := vs[1].(VNil); !fine {
					return // reading failed
				}
				h.asts++
				s.events = nil
				s.ghost["ast0"] = vs[0]
				h.setModel(s, 0, h.scopesAt(s, 0, n))
				h.about(s, vs[0], func(s *State, t VTuple) {
					s.ghost["about0"] = t
					h.run(s, 1, h.steps, fmt.Sprintf("an Ast of %d scopes", n))
				})
			})
		}
	})
	h.ok(nil, h.asts > 0, "asts", "no Ast can be loaded")
	r.Counters["histories"] = h.histories
	r.sample("%d histories of up to %d operations (Copy, SetScope, AppendScope) on Asts of up to 3 scopes and on the Asts they give", h.histories, h.steps)
	r.absorb(e, "copy", fn.Pos())
	return nil
}

// historyCheck runs operations of Asts one after the other and compares every Ast with what it must hold.
type historyCheck struct {
	*copyCheck
	steps, asts, histories int
	thorough, onePackage   bool
	bare                   bool // the last scope has no nodes
}

func (h *historyCheck) makeScopes(st *State, pkgText string, n int, f func(st *State)) {
	var rec func(st *State, i int)
	rec = func(st *State, i int) {
		if i == n {
			f(st)
			return
		}
		kind := st.newText("scope kind")
		var node Value
		if i == 0 {
			kind = constSeq(pkgText)
			node = h.nodes(st, "the package scope", 2, 0)
			kw, _ := h.e.links(st.obj(ptrTo(node)))
			_ = kw
			h.setKind(st, ptrTo(node), h.e.kindSetNames("Package"))
			_, next := h.e.links(st.obj(ptrTo(node)))
			h.setKind(st, ptrTo(next), h.e.kindSetNames("Raw"))
		} else {
			if h.onePackage {
				st.preds = append(st.preds[:len(st.preds):len(st.preds)], predFact{'=', kind[0].Src, kind[0].A, kind[0].B, pkgText, false})
			}
			node = h.nodes(st, fmt.Sprintf("scope %d", i), 1, 0)
			if h.bare && i == n-1 {
				node = VNil{}
			}
		}
		h.newScope(st, kind, node, func(st *State, v Value) {
			st.ghost[fmt.Sprintf("scope%d", i)] = v
			rec(st, i+1)
		})
	}
	rec(st, 0)
}

func (h *historyCheck) setKind(st *State, id ObjID, k KindSet) {
	s := st.obj(id).val.(VStruct)
	st.kinds[s.F[h.e.role.kind].(VKind).K] = k
}

func (h *historyCheck) scopesAt(st *State, from, n int) []Value {
	var vs []Value
	for i := from; i < from+n; i++ {
		vs = append(vs, st.ghost[fmt.Sprintf("scope%d", i)])
	}
	return vs
}

func (h *historyCheck) listOf(st *State, from, n int) Value {
	if n == 0 {
		return VNil{}
	}
	var els []LElem
	for _, v := range h.scopesAt(st, from, n) {
		els = append(els, LElem{val: v})
	}
	return h.e.spareList(st, h.e.scopeIface(), els)
}

func (h *historyCheck) setModel(st *State, i int, vs []Value) {
	st.ghost[fmt.Sprintf("model%d", i)] = VTuple{vs}
}

func (h *historyCheck) model(st *State, i int) []Value {
	t, _ := st.ghost[fmt.Sprintf("model%d", i)].(VTuple)
	return t.V
}

var aboutAst = []string{"File", "Dir", "Filename", "Ext"}

// about asks an Ast for everything but its scopes.
func (h *historyCheck) about(st *State, a Value, f func(st *State, t VTuple)) {
	var rec func(st *State, i int)
	st = st.clone()
	st.ghost["ask"] = a
	rec = func(st *State, i int) {
		if i == len(aboutAst) {
			var t VTuple
			for _, q := range aboutAst {
				t.V = append(t.V, st.ghost["about "+q])
				delete(st.ghost, "about "+q)
			}
			delete(st.ghost, "ask")
			f(st, t)
			return
		}
		h.ask(st, st.ghost["ask"], aboutAst[i], nil, func(st *State, vs []Value) {
			if h.ok(st, len(vs) == 1, "about", "%s of an Ast is unknown", aboutAst[i]) {
				st.ghost["about "+aboutAst[i]] = vs[0]
				rec(st, i+1)
			}
		})
	}
	rec(st, 0)
}

// run performs every operation on every Ast there is, left times.
func (h *historyCheck) run(st *State, asts, left int, hist string) {
	if left == 0 {
		h.histories++
		return
	}
	for i := 0; i < asts; i++ {
		name := fmt.Sprintf("ast%d", i)
		recv := st.ghost[name]
		// Copy
		s := st.clone()
		h.forget(s)
		h.remember(s, "m")
		h.ask(s, recv, "Copy", nil, func(s *State, vs []Value) {
			d := hist + fmt.Sprintf("; Copy of Ast %d", i)
			h.unchanged(s, "m", "Copy")
			h.fresh(s, vs, asts, i, d, nil, left)
		})
		// SetScope: with a list, an empty list and the list of an Ast
		for _, what := range []string{"none", "two", "own"} {
			s := st.clone()
			var l Value = VNil{}
			var want []Value
			set := func(s *State, l Value, want []Value) {
				d := hist + fmt.Sprintf("; SetScope of Ast %d (%s)", i, what)
				s.ghost["want"] = VTuple{want}
				h.forget(s)
				h.remember(s, "m")
				h.ask(s, s.ghost[name], "SetScope", []Value{l}, func(s *State, vs []Value) {
					h.unchanged(s, "m", "SetScope")
					w := s.ghost["want"].(VTuple).V
					if w == nil {
						w = []Value{}
					}
					h.fresh(s, vs, asts, i, d, w, left)
				})
			}
			switch what {
			case "two":
				l, want = h.listOf(s, 1, 2), h.scopesAt(s, 1, 2)
				set(s, l, want)
			case "none":
				set(s, l, want)
			case "own":
				h.ask(s, recv, "Scope", nil, func(s *State, vs []Value) { set(s, vs[0], h.model(s, i)) })
			}
		}
		// AppendScope
		for n := 0; n <= 2; n++ {
			if n != 1 && left < h.steps && !h.thorough {
				continue
			}
			s := st.clone()
			h.forget(s)
			l := h.listOf(s, 1+2*left, n)
			h.remember(s, "m")
			s.ghost["args"] = l
			h.ask(s, recv, "AppendScope", []Value{l}, func(s *State, vs []Value) {
				d := hist + fmt.Sprintf("; AppendScope of Ast %d (%d)", i, n)
				self := ObjID(0)
				if iv, ok := s.ghost[name].(VIface); ok {
					self = ptrTo(iv.V)
				}
				h.unchanged(s, "m", "AppendScope", self)
				h.setModel(s, i, append(append([]Value{}, h.model(s, i)...), h.scopesAt(s, 1+2*left, n)...))
				h.compare(s, asts, 0, i, d, func(s *State) { h.run(s, asts, left-1, d) })
			})
		}
	}
}

func (h *historyCheck) forget(st *State) {
	for k := range st.ghost {
		if strings.HasPrefix(k, "m at ") || strings.HasPrefix(k, "m was ") {
			delete(st.ghost, k)
		}
	}
}

// fresh checks an Ast that an operation returned. Its scopes are those wanted, or copies of those of Ast i.
func (h *historyCheck) fresh(st *State, vs []Value, asts, i int, hist string, want []Value, left int) {
	if !h.ok(st, len(vs) == 1, "result", "no Ast is returned (%s)", hist) {
		return
	}
	iv, ok := vs[0].(VIface)
	if !h.ok(st, ok, "result", "the Ast is unknown (%s)", hist) {
		return
	}
	for j := 0; j < asts; j++ {
		if o, is := st.ghost[fmt.Sprintf("ast%d", j)].(VIface); is {
			h.ok(st, ptrTo(iv.V) == 0 || ptrTo(iv.V) != ptrTo(o.V), "same", "the returned Ast is not a new one (%s)", hist)
		}
	}
	st = st.clone()
	st.ghost[fmt.Sprintf("ast%d", asts)] = iv
	st.ghost[fmt.Sprintf("about%d", asts)] = st.ghost[fmt.Sprintf("about%d", i)]
	next := func(st *State) {
		h.compare(st, asts+1, 0, asts, hist, func(st *State) { h.run(st, asts+1, left-1, hist) })
	}
	if want != nil {
		h.setModel(st, asts, want)
		next(st)
		return
	}
	h.ask(st, iv, "Scope", nil, func(st *State, vs []Value) {
		els := h.elems(st, vs)
		orig := h.model(st, i)
		if !h.ok(st, len(els) == len(orig), "count", "the copy holds %d scopes instead of %d (%s)", len(els), len(orig), hist) {
			return
		}
		h.setModel(st, asts, els)
		var rec func(st *State, j int)
		rec = func(st *State, j int) {
			if j == len(orig) {
				next(st)
				return
			}
			h.likeScope(st, h.model(st, i)[j], h.model(st, asts)[j], "m", func(st *State) { rec(st, j+1) })
		}
		rec(st, 0)
	})
}

func (h *historyCheck) elems(st *State, vs []Value) []Value {
	if len(vs) != 1 {
		return nil
	}
	if _, none := vs[0].(VNil); none {
		return nil
	}
	var out []Value
	for _, el := range h.e.window(st, vs[0], token.NoPos) {
		out = append(out, el.val)
	}
	return out
}

// compare checks that every Ast holds the scopes it must hold, and that nothing else about one of them changed.
func (h *historyCheck) compare(st *State, asts, i, of int, hist string, f func(st *State)) {
	if i == asts {
		f(st)
		return
	}
	h.ask(st, st.ghost[fmt.Sprintf("ast%d", i)], "Scope", nil, func(st *State, vs []Value) {
		got, want := h.elems(st, vs), h.model(st, i)
		same := len(got) == len(want)
		for j := 0; same && j < len(got); j++ {
			same = st.sameVal(got[j], want[j])
		}
		h.ok(st, same, "scopes", "Ast %d does not hold the scopes it must hold (%d, expected %d) after: %s", i, len(got), len(want), hist)
		if !same {
			return
		}
		if i != of {
			h.compare(st, asts, i+1, of, hist, f)
			return
		}
		h.about(st, st.ghost[fmt.Sprintf("ast%d", i)], func(st *State, t VTuple) {
			h.ok(st, st.sameVal(t, st.ghost[fmt.Sprintf("about%d", i)]), "about", "file, directory, name or extension of Ast %d differ after: %s", i, hist)
			h.compare(st, asts, i+1, of, hist, f)
		})
	})
}
