package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- ParseScope: the input cut into scopes -----------------------------------------------------------------------

// Marks of nodes: nodes of the tokenizer are told apart by whether they are the first of their line, runs of nodes by
// whether they have been looked at.
const (
	markNew   = 0 // runs only
	markFirst = 1 // the first node on its line
	markSame  = 2 // on the line of the node before
	markSeen  = 3 // looked at and found to begin no scope
	markPlain = 4 // the first node on its line, with a text that begins no scope
	markHead  = 5 // the first node of a scope that was checked
	markDone  = 6 // parts of a scope that was checked
	markWord  = 8 // the first node on its line, with the text of one of scopeWords or scopeSigns
)

var scopeWords = []string{"package", "import", "var", "const", "type", "func"}
var scopeSigns = []string{"//", "/*"}

// textClass says what is known about a text: the scope kind it stands for, "" when it stands for none.
func (st *State) textClass(s Seq) (string, bool) {
	s = st.norm(s)
	if v, ok := s.constVal(); ok {
		for _, w := range scopeWords {
			if v == w {
				return w, true
			}
		}
		for _, w := range scopeSigns {
			if strings.HasPrefix(v, w) {
				return w, true
			}
		}
		return "", true
	}
	if len(s) != 1 || s[0].isConst() {
		return "", false
	}
	a := s[0]
	// is says whether the first n bytes are (1), are not (-1) the word; 0 when unknown
	bytesAre := func(c string, whole bool) int {
		d := a.B.sub(a.A)
		if st.zone.ub(d) < int64(len(c)) || whole && st.zone.lb(d) > int64(len(c)) {
			return -1
		}
		yes := st.zone.lb(d) >= int64(len(c)) && (!whole || st.zone.ub(d) == int64(len(c)))
		for i := 0; i < len(c); i++ {
			set := st.byteSet(a.Src, a.A.addC(int64(i)))
			if !set.has(c[i]) && st.zone.lb(d) > int64(i) {
				return -1
			}
			if b, ok := set.single(); !ok || b != c[i] {
				yes = false
			}
		}
		if yes {
			return 1
		}
		for _, p := range st.preds {
			if p.src != a.Src || !st.zone.equal(p.a, a.A) {
				continue
			}
			all := st.zone.equal(p.b, a.B)
			part, isPart := st.zone.constOf(p.b.sub(p.a))
			switch {
			case p.op == '=' && !p.yes && p.c == c && all && whole:
				return -1
			case p.op == '=' && !p.yes && p.c == c && isPart && part == int64(len(c)) && st.zone.le(p.b, a.B):
				return -1
			case p.op == 'p' && !p.yes && strings.HasPrefix(c, p.c) && (all || st.zone.le(p.b, a.B)):
				return -1
			case p.op == '=' && p.yes && all:
				if whole && p.c == c || !whole && strings.HasPrefix(p.c, c) {
					return 1
				}
				return -1
			case p.op == 'p' && p.yes && all && strings.HasPrefix(p.c, c) && !whole:
				return 1
			case p.op == 's' && !p.yes && all && whole && strings.HasSuffix(c, p.c):
				return -1
			}
		}
		return 0
	}
	none := true
	for _, w := range scopeWords {
		switch bytesAre(w, true) {
		case 1:
			return w, true
		case 0:
			none = false
		}
	}
	for _, w := range scopeSigns {
		switch bytesAre(w, false) {
		case 1:
			return w, true
		case 0:
			none = false
		}
	}
	return "", none
}

// nodeText is the text of a node object.
func (e *Engine) nodeText(o *Object) Seq {
	if o.kind == oSeg {
		return o.text
	}
	if s, ok := o.val.(VStruct); ok {
		return textOf(s.F[e.role.text])
	}
	return nil
}

// leaves checks a node that ends up inside a scope, or in front of all.
func (e *Engine) leaves(st *State, o *Object) string {
	switch {
	case o.mark == markSeen || o.mark == markSame || o.mark == markPlain:
		return ""
	case o.kind == oSeg:
		return "nodes are not looked at"
	case o.mark >= markWord:
		return fmt.Sprintf("a line that begins with %s begins no scope", markText(o.mark))
	}
	return "the first node of a line is not compared with every word a scope begins with"
}

func markText(m int) string { return append(scopeWords[:6:6], scopeSigns...)[m-markWord] }

// classify marks the first nodes of lines whose text is known well enough. What is known about a marked node's text
// is kept in one form, everything about other texts is forgotten.
func (e *Engine) classify(st *State, byMark bool) {
	var preds []predFact
	var open []Lin
	var ids []ObjID
	for id, o := range st.heap {
		if o.mark == markFirst || o.mark == markPlain || o.mark >= markWord {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		o := st.heap[id]
		t := st.place(e.nodeText(o))
		if o.mark == markFirst {
			c, ok := st.textClass(t)
			if !ok {
				if len(t) > 0 && !t[0].isConst() {
					open = append(open, t[0].A)
				}
				continue
			}
			n := *o
			n.mark = markPlain
			for i, w := range append(scopeWords[:6:6], scopeSigns...) {
				if w == c {
					n.mark = markWord + i
				}
			}
			st.set(id, &n)
			o = &n
		}
		if len(t) != 1 || t[0].isConst() || byMark {
			continue
		}
		know := func(op byte, c string, yes bool) {
			preds = append(preds, predFact{op, t[0].Src, t[0].A, t[0].B, c, yes})
		}
		switch {
		case o.mark == markPlain:
			for _, w := range scopeWords {
				know('=', w, false)
			}
			for _, w := range scopeSigns {
				know('p', w, false)
			}
		case o.mark >= markWord+len(scopeWords):
			know('p', markText(o.mark), true)
		default:
			know('=', markText(o.mark), true)
		}
	}
	for _, p := range st.preds {
		for _, l := range open {
			if st.zone.equal(p.a, l) {
				preds = append(preds, p)
				break
			}
		}
	}
	st.preds = preds
	var bytes []byteFact
	for _, f := range st.bytes {
		for _, l := range open {
			if d, ok := st.zone.constOf(f.off.sub(l)); ok && d >= 0 && d < 8 {
				bytes = append(bytes, f)
				break
			}
		}
	}
	st.bytes = bytes
}

func (e *Engine) lineOf(o *Object) (Lin, bool) {
	s, ok := o.val.(VStruct)
	if !ok {
		return Lin{}, false
	}
	l, ok := s.F[e.role.line].(VInt)
	return l.L, ok
}

// scopeNode decides about a node that was just exposed: on the line of its neighbour, or on another one.
func scopeNode(e *Engine, st *State, from, id ObjID, forward bool) []*State {
	o, f := st.obj(id), st.obj(from)
	if o == nil || f == nil || o.kind != oPlain || f.kind != oPlain {
		return []*State{st}
	}
	lo, ok1 := e.lineOf(o)
	lf, ok2 := e.lineOf(f)
	if !ok1 || !ok2 {
		return []*State{st}
	}
	if !forward {
		switch f.mark {
		case markSame:
			st.zone.assumeEQ(lo, lf)
		case markSeen:
			st.zone.assumeLE(lo.sub(lf))
		default:
			st.zone.assumeLE(lo.sub(lf).addC(1))
		}
		return []*State{st}
	}
	if o.mark != markNew {
		st.zone.assumeLE(lf.sub(lo))
		return []*State{st}
	}
	var out []*State
	s2 := st.clone()
	if st.zone.assumeEQ(lo, lf) {
		n := *o
		n.mark = markSame
		st.set(id, &n)
		out = append(out, st)
	}
	if s2.zone.assumeLE(lf.sub(lo).addC(1)) {
		n := *o
		n.mark = markFirst
		s2.set(id, &n)
		out = append(out, s2)
	}
	return out
}

type scopeWorld struct {
	e       *Engine
	x       *effects
	kinds   map[string]string // what the kind of a scope says -> the text it begins with
	unknown string
	sorts   map[*ssa.Function]bool // functions from a text to the kind of scope it begins, found right
}

// foldScopes checks scopes whose chain is complete and nobody else looks at, and turns them into text.
func (w *scopeWorld) foldScopes(e *Engine, st *State) {
	e.classify(st, len(w.sorts) > 0)
	// what refers to what
	from := map[ObjID]map[ObjID]int{} // 0: a root
	add := func(by, id ObjID) {
		if from[id] == nil {
			from[id] = map[ObjID]int{}
		}
		from[id][by]++
	}
	seen := map[ObjID]bool{}
	var work []ObjID
	e.rootRefs(st, func(id ObjID) { add(0, id); work = append(work, id) })
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := st.obj(id)
		if seen[id] || o == nil {
			continue
		}
		if _, base := e.base[id]; base && st.heap[id] == nil {
			continue
		}
		seen[id] = true
		e.objRefs(o, func(r ObjID) { add(id, r); work = append(work, r) })
	}
	var lists []ObjID
	nodeLists := map[ObjID]bool{}
	for id, o := range st.heap {
		if o.kind != oList || !seen[id] {
			continue
		}
		if types.Identical(o.typ, e.scopeIface()) {
			lists = append(lists, id)
		}
		if e.isNodePtr(o.typ) {
			nodeLists[id] = true
		}
	}
	sort.Slice(lists, func(i, j int) bool { return lists[i] < lists[j] })
	for _, lid := range lists {
		for i := 0; i < len(st.obj(lid).elems); i++ {
			el := st.obj(lid).elems[i]
			iv, ok := el.val.(VIface)
			if el.sum || !ok {
				continue
			}
			// the objects of the scope
			inner := map[ObjID]bool{}
			head, many := ObjID(0), false
			var rec func(v Value)
			rec = func(v Value) {
				e.refsOf(v, func(id ObjID) {
					o := st.obj(id)
					switch {
					case o == nil:
					case e.isChainObj(o):
						many = many || head != 0 && head != id
						head = id
					case !inner[id]:
						inner[id] = true
						e.objRefs(o, func(r ObjID) { rec(VPtr{Obj: r}) })
					}
				})
			}
			rec(iv)
			if head == 0 || many {
				continue
			}
			ok = true
			for id := range inner {
				for by := range from[id] {
					ok = ok && (by == lid && from[id][by] == 1 || inner[by])
				}
			}
			if w.seal(e, st, iv, head, inner) {
				el = st.obj(lid).elems[i]
			}
			if p, _ := e.links(st.obj(head)); ptrTo(p) != 0 {
				continue
			}
			// the chain
			var chain []ObjID
			in := map[ObjID]bool{}
			for id := head; id != 0 && !in[id]; {
				in[id] = true
				chain = append(chain, id)
				o := st.obj(id)
				if !e.isChainObj(o) {
					ok = false
					break
				}
				_, n := e.links(o)
				id = ptrTo(n)
			}
			for _, id := range chain {
				for by := range from[id] {
					switch {
					case in[by]:
					case id == head && (inner[by] || nodeLists[by]):
					default:
						ok = false
					}
				}
			}
			if !ok {
				continue
			}
			if st.obj(head).mark != markHead {
				st.bad = addBad(st.bad, "a scope begins with something else than a word that begins a scope")
			}
			for _, id := range chain[1:] {
				if m := e.leaves(st, st.obj(id)); m != "" {
					st.bad = addBad(st.bad, m)
				}
			}
			if _, _, msg := e.walk(st, head); msg != "" {
				st.bad = addBad(st.bad, "the nodes of a scope: "+msg)
			}
			var text Seq
			for _, id := range chain {
				text = append(text, e.nodeText(st.obj(id))...)
			}
			n := *st.obj(lid)
			n.elems = append([]LElem(nil), n.elems...)
			n.elems[i] = LElem{sum: true, seq: st.norm(text), n: linC(1)}
			st.set(lid, &n)
			for nl := range nodeLists {
				o := st.obj(nl)
				m := *o
				m.elems = append([]LElem(nil), o.elems...)
				for j, x := range m.elems {
					if !x.sum && ptrTo(x.val) == head {
						m.elems[j] = LElem{sum: true, n: linC(1)}
					}
				}
				st.set(nl, &m)
			}
			for id := range in {
				delete(st.heap, id)
			}
			for id := range inner {
				delete(st.heap, id)
			}
		}
	}
}

// seal checks what a new scope says about itself. What the scope holds is forgotten then: nothing may change it.
func (w *scopeWorld) seal(e *Engine, st *State, iv VIface, head ObjID, inner map[ObjID]bool) bool {
	ho := st.obj(head)
	if ho.mark == markHead || ho.mark == markFirst || ho.mark == markNew {
		for id := range inner {
			if st.obj(id).mark != markDone && ho.mark == markHead {
				st.bad = addBad(st.bad, "two scopes begin with the same node")
			}
		}
		return false
	}
	ask := func(name string) Value {
		m := e.prog.LookupMethod(iv.T, e.root.Pkg, name)
		if m == nil {
			return nil
		}
		s := st.clone()
		s.frames = nil
		var res []Value
		pf, on, dr := e.cfg.preFold, e.cfg.onNode, e.cfg.dropNode
		e.cfg.preFold, e.cfg.onNode, e.cfg.dropNode = nil, nil, nil
		u := e.explore(name, m, s, []Value{iv.V}, func(s *State, r Value) { res = append(res, r) })
		e.cfg.preFold, e.cfg.onNode, e.cfg.dropNode = pf, on, dr
		if len(res) != 1 || len(u.panics) != 0 {
			return nil
		}
		return res[0]
	}
	if ptrTo(ask("Node")) != head {
		st.bad = addBad(st.bad, "Node does not return the first node of the scope")
	}
	kind := ""
	if k, ok := ask("Kind").(VStr); ok {
		if c, ok := k.S.constVal(); ok {
			kind = c
		} else {
			st.bad = addBad(st.bad, "the kind of a scope is unknown")
		}
	}
	switch {
	case ho.mark == markSame:
		st.bad = addBad(st.bad, "a scope begins in the middle of a line")
	case ho.mark < markWord:
		st.bad = addBad(st.bad, "a scope begins with something else than a word that begins a scope")
	case w.kinds[kind] != markText(ho.mark):
		st.bad = addBad(st.bad, fmt.Sprintf("a scope that begins with %s is given the kind %q", markText(ho.mark), kind))
	}
	l, ok := ask("Line").(VInt)
	hl, ok2 := e.lineOf(ho)
	if !ok || !ok2 || !st.zone.equal(l.L, hl.addC(1)) {
		st.bad = addBad(st.bad, "the line of a scope is not that of its first node, counted from 1")
	}
	m := *ho
	m.mark = markHead
	st.set(head, &m)
	for id := range inner {
		o := *st.obj(id)
		if o.kind != oPlain {
			continue
		}
		o.mark = markDone
		if s, ok := o.val.(VStruct); ok {
			v := VStruct{append([]Value(nil), s.F...)}
			for i, f := range v.F {
				switch f.(type) {
				case VStr, VInt:
					t := types.Type(nil)
					if stt, ok := o.typ.Underlying().(*types.Struct); ok {
						t = stt.Field(i).Type()
					}
					v.F[i] = st.newUnk(t)
				}
			}
			o.val = v
		}
		st.set(id, &o)
	}
	return true
}

func (w *scopeWorld) tokenize(e *Engine, st *State, fn *ssa.Function, args []Value) []resv {
	T := textOf(st.ghost["T"])
	line := st.ghost["line"].(VInt).L
	for i, p := range fn.Params {
		switch {
		case isByteSlice(p.Type()) || isString(p.Type()):
			if !st.seqEqual(textOf(args[i]), T) {
				st.bad = addBad(st.bad, "another text than the given one is split")
			}
		case isInteger(p.Type()):
			if l, ok := args[i].(VInt); !ok || !st.zone.equal(l.L, line) {
				st.bad = addBad(st.bad, "the lines are not counted from the given one")
			}
		default:
			if _, isNil := args[i].(VNil); isNil {
				st.bad = addBad(st.bad, "the lines are not counted from the given one")
				continue
			}
			els := e.window(st, args[i], token.NoPos)
			if len(els) != 1 || els[0].sum || showVal(els[0].val) == "" {
				st.bad = addBad(st.bad, "the lines are not counted from the given one")
			} else if l, ok := els[0].val.(VInt); !ok || !st.zone.equal(l.L, line) {
				st.bad = addBad(st.bad, "the lines are not counted from the given one")
			}
		}
	}
	give := func(s *State, v Value) resv {
		var out []Value
		for _, t := range resultTypes(fn) {
			if e.isNodePtr(t) {
				out = append(out, v)
			} else if isErrorType(t) {
				out = append(out, VNil{})
			} else {
				out = append(out, e.fresh(s, t, "result"))
			}
		}
		if len(out) == 1 {
			return resv{s, out[0]}
		}
		return resv{s, VTuple{out}}
	}
	a := T[0]
	var out []resv
	none, single, many := st.clone(), st.clone(), st
	if none.zone.assumeEQ(a.A, a.B) {
		out = append(out, give(none, VNil{}))
	}
	head := func(s *State, end Lin) ObjID {
		o := e.newNodeObj(s, Seq{{Src: a.Src, A: a.A, B: end}}, allKinds, VNil{}, VNil{}, false)
		o.mark = markFirst
		l, _ := e.lineOf(o)
		s.zone.assumeLE(line.sub(l))
		return s.alloc(o)
	}
	if single.zone.assumeLE(a.A.sub(a.B).addC(1)) {
		out = append(out, give(single, VPtr{Obj: head(single, a.B)}))
	}
	m := many.newInt()
	if many.zone.assumeLE(a.A.sub(m).addC(1)) && many.zone.assumeLE(m.sub(a.B).addC(1)) {
		h := head(many, m)
		seg := many.alloc(&Object{kind: oSeg, typ: e.role.node, text: Seq{{Src: a.Src, A: m, B: a.B}}, kinds: allKinds, prev: VPtr{Obj: h}, next: VNil{}})
		e.setLink(many, h, true, VPtr{Obj: seg})
		out = append(out, give(many, VPtr{Obj: h}))
	}
	return out
}

// findSorts looks for functions that tell the kind of a scope from a text, and checks them for every text.
func (w *scopeWorld) findSorts(p *Program, r *Report, ps *ssa.Function) {
	w.sorts = map[*ssa.Function]bool{}
	for _, fn := range p.bfs(ps) {
		sig := fn.Signature
		if fn.Blocks == nil || len(fn.Params) != 1 || len(fn.FreeVars) > 0 || sig.Results().Len() != 1 || !isString(fn.Params[0].Type().Underlying()) || fn.Pkg == nil {
			continue
		}
		k, ok := sig.Results().At(0).Type().(*types.Named)
		if !ok || k.Obj().Pkg() == nil || k.Obj().Pkg().Name() != "scope" || !isString(k.Underlying()) {
			continue
		}
		e, err := p.newEngine(&Config{keepPreds: true})
		if err != nil {
			continue
		}
		st := e.newState()
		n := st.newNat()
		T := Seq{{Src: st.newSrc("text", false, n), A: linC(0), B: n}}
		st.ghost["T"] = VStr{T}
		good, outcomes := true, 0
		why := ""
		u := e.explore(fn.Name(), fn, st, []Value{VStr{T}}, func(s *State, res Value) {
			outcomes++
			c, ok := s.textClass(textOf(s.ghost["T"]))
			v, ok2 := res.(VStr)
			if !ok || !ok2 {
				good, why = false, "undecided text"
				if os.Getenv("GOAST_DEBUG") == "2" {
					fmt.Fprintln(os.Stderr, "UNDEC", showVal(res), s.preds, s.bytes, s.factLine(), s.zone.compact())
				}
				return
			}
			got, ok := v.S.constVal()
			if t, sure := s.textClass(v.S); !ok && sure {
				// the text itself
				for _, w := range scopeWords {
					if w == t {
						got, ok = w, true
					}
				}
			}
			if !ok || w.kinds[got] != c || c == "" && got != w.unknown {
				good, why = false, fmt.Sprintf("%q for %q", got, c)
			}
		})
		if os.Getenv("GOAST_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "sort", fn, good, outcomes, why, len(u.panics), e.find.undecided)
		}
		if good && outcomes > 0 && len(u.panics) == 0 && len(e.find.bad) == 0 && len(e.find.undecided) == 0 {
			w.sorts[fn] = true
			r.Counters["kind-outcomes"] += outcomes
		}
	}
}

// sortText answers what a verified function says about the text of a node: the node is marked with the answer.
func (w *scopeWorld) sortText(e *Engine, st *State, arg Value, t types.Type) []resv {
	text := textOf(arg)
	var id ObjID
	for i, o := range st.heap {
		if (o.mark == markFirst || o.mark == markSame || o.mark == markPlain || o.mark >= markWord) && st.seqEqual(st.norm(e.nodeText(o)), st.norm(text)) {
			if id != 0 {
				return nil
			}
			id = i
		}
	}
	if id == 0 {
		return nil
	}
	name := map[string]string{"": w.unknown}
	for k, word := range w.kinds {
		name[word] = k
	}
	o := st.obj(id)
	give := func(s *State, mark int) resv {
		n := *s.obj(id)
		if n.mark != markSame {
			n.mark = mark
		}
		s.set(id, &n)
		word := ""
		if mark >= markWord {
			word = markText(mark)
		}
		return resv{s, VStr{constSeq(name[word])}}
	}
	if o.mark == markPlain || o.mark >= markWord {
		return []resv{give(st, o.mark)}
	}
	var out []resv
	for m := markWord; m < markWord+8; m++ {
		out = append(out, give(st.clone(), m))
	}
	return append(out, give(st, markPlain))
}

// reachesKinds reports whether a function may set the kind of nodes.
func reachesKinds(x *effects, fn *ssa.Function) bool {
	for _, f := range x.p.bfs(fn) {
		if len(x.kinds[f]) > 0 {
			return true
		}
	}
	return false
}

func checkC11(p *Program, r *Report, thorough bool) error {
	return parseScopes(p, r, nil)
}

// parseScopes explores ParseScope; worker is told which nodes are given to the functions that give kinds.
func parseScopes(p *Program, r *Report, worker func(e *Engine, st *State, fn *ssa.Function, v Value, pos token.Pos)) error {
	ps := p.root.Func("ParseScope")
	if ps == nil || p.scopeIface() == nil {
		r.fail("anchor:ParseScope", "scope.go", "ParseScope or the scope interface not found", nil)
		return nil
	}
	w := &scopeWorld{kinds: map[string]string{}}
	if u, ok := p.constText("scope", "Unknown"); ok {
		w.unknown = u
	}
	for name, text := range map[string]string{"Package": "package", "Import": "import", "Variable": "var", "Const": "const", "Type": "type", "Func": "func", "Comment": "//", "InnerComment": "/*"} {
		c, ok := p.constText("scope", name)
		if !ok {
			r.fail("anchor:scope."+name, "scope/scope.go", "scope kind not found", nil)
			return nil
		}
		if w.kinds[c] != "" {
			r.fail("scope-kinds", "scope/scope.go", "two scope kinds are the same", nil)
		}
		w.kinds[c] = text
	}
	ex, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	sub := newReport("C11")
	if w.x, err = p.nodeEffects(ex, sub); err != nil {
		r.fail("anchor:effects", "scope.go", err.Error(), nil)
		return nil
	}
	cfg := &Config{foldLists: true, keepPreds: true, nonEmpty: true, onNode: scopeNode}
	cfg.preFold = w.foldScopes
	cfg.genElem = func(e *Engine, st *State, t types.Type, a *Atom, off Lin, pos token.Pos) []resv {
		if types.Identical(t, e.scopeIface()) || e.isNodePtr(t) {
			return one(st, st.newUnk(t))
		}
		return nil
	}
	cfg.ifaceCall = func(e *Engine, st *State, recv Value, m *types.Func, args []Value, pos token.Pos) ([]resv, bool) {
		if _, unk := recv.(VUnk); !unk {
			return nil, false
		}
		return one(st, e.freshResults(st, m)), true // a scope that was checked
	}
	cfg.dropNode = func(e *Engine, st *State, id ObjID) {
		if m := e.leaves(st, st.heap[id]); m != "" {
			st.bad = addBad(st.bad, m)
		}
	}
	cfg.onStore = func(e *Engine, st *State, o *Object, path string, pos token.Pos) {
		if o.mark == markDone {
			st.bad = addBad(st.bad, e.posStr(pos)+": a scope is changed after it was added")
		}
		if e.isNode(o.typ) && (path == "" || path == pathAppend("", e.role.text) || path == pathAppend("", e.role.line)) {
			st.bad = addBad(st.bad, e.posStr(pos)+": the text or line of a node is changed")
		}
	}
	if worker != nil {
		cfg.onAppend = func(e *Engine, st *State, args []Value, pos token.Pos) {
			if len(args) < 2 {
				return
			}
			if s, ok := args[1].(VSlice); ok && e.isNodePtr(st.obj(s.Obj).typ) {
				for _, el := range e.window(st, args[1], pos) {
					if !el.sum {
						worker(e, st, nil, el.val, pos)
					}
				}
			}
		}
	}
	quiet := map[*ssa.Function]bool{}
	cfg.intercept = func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if fn == w.x.tok {
			return w.tokenize(e, st, fn, args), nil, true
		}
		if w.sorts[fn] {
			if out := w.sortText(e, st, args[0], fn.Signature.Results().At(0).Type()); out != nil {
				return out, nil, true
			}
		}
		q, known := quiet[fn]
		if !known {
			q = w.x.opaque(fn) && fn.Object() != nil && reachesKinds(w.x, fn)
			quiet[fn] = q
		}
		if q {
			for i, a := range args {
				if worker != nil && i < len(fn.Params) && e.isNodePtr(fn.Params[i].Type()) {
					worker(e, st, fn, a, pos)
				}
			}
			return one(st, e.freshResults(st, fn.Object().(*types.Func))), nil, true
		}
		return nil, nil, false
	}
	w.findSorts(p, r, ps)
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	w.e = e
	st := e.newState()
	n, line := st.newNat(), st.newInt()
	T := Seq{{Src: st.newSrc("input", false, n), A: linC(0), B: n}}
	st.ghost["T"], st.ghost["line"] = VStr{T}, VInt{line}
	var args []Value
	for _, q := range ps.Params {
		switch t := q.Type(); {
		case isByteSlice(t):
			args = append(args, VBytes{T})
		case isString(t):
			args = append(args, VStr{T})
		case isInteger(t):
			args = append(args, VInt{line})
		default:
			r.fail("anchor:ParseScope", e.posStr(ps.Pos()), "parameter of an unexpected type", nil)
			return nil
		}
	}
	outs, u := e.exploreAll("ParseScope", ps, st, args)
	savePanics(e, r, u, "ParseScope")
	e.dumpHeads([]*Unit{u})
	r.absorb(e, "ParseScope", ps.Pos())
	r.Counters["outcomes"] += len(outs)
	where := e.posStr(ps.Pos())
	r.ob(len(outs) > 0, "scope-outcome", where, nil, "ParseScope has no outcome")
	for _, o := range outs {
		st := o.st
		for _, b := range st.bad {
			r.ob(false, "scope:"+b, where, st, "%s", b)
		}
		if !r.ob(len(o.res) == 2, "scope-results", where, st, "two results are expected") {
			continue
		}
		_, none := o.res[1].(VNil)
		r.ob(none, "scope-error", where, st, "an error is reported although the text was split")
		T := textOf(st.ghost["T"])
		var text Seq
		whole := true
		for _, el := range e.window(st, o.res[0], token.NoPos) {
			if !el.sum {
				whole = false
				continue
			}
			text = append(text, el.seq...)
		}
		text = st.norm(text)
		r.ob(whole, "scope-separate", where, st, "the nodes of a scope are still linked with, or shared with, something else")
		r.ob(len(text) == 0 || len(text) == 1 && !text[0].isConst() && text[0].Src == T[0].Src && st.zone.equal(text[0].B, T[0].B),
			"scope-text", where, st, "the texts of the scopes are not the input from the first scope to the end but %s", e.describeSeq(st, text))
	}
	return nil
}
