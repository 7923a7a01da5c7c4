package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// An initial configuration of node chains. Every chain is a list of explicit nodes and segments (one or more
// nodes); the ends of a chain are explicit nodes. All texts are units of one unknown list.

type tok struct {
	obj ObjID
	seg bool
	a   Atom
}

type world struct {
	e      *Engine
	st     *State
	src    SrcID
	next   Lin
	chains [][]tok
	info   map[ObjID]VStruct
}

func newWorld(e *Engine) *world {
	st := e.newState()
	n := st.newNat()
	w := &world{e: e, st: st, next: linC(0), info: map[ObjID]VStruct{}}
	w.src = st.newSrc("nodes", true, n)
	return w
}

// chain builds a chain; each entry is 'n' for a node or 's' for a segment.
func (w *world) chain(spec string) []tok {
	st := w.st
	var ts []tok
	for _, c := range spec {
		var t tok
		if c == 's' {
			d := st.newInt()
			st.zone.assumeLE(linC(1).sub(d)) // d >= 1
			t.a = Atom{Src: w.src, A: w.next, B: w.next.add(d)}
			t.seg = true
			// keep offsets single symbols
			end := st.newInt()
			st.zone.assumeLE(w.next.addC(1).sub(end))
			t.a.B = end
			w.next = end
			t.obj = st.alloc(&Object{kind: oSeg, typ: w.e.role.node, text: Seq{t.a}, kinds: allKinds})
		} else {
			t.a = Atom{Src: w.src, A: w.next, B: w.next.addC(1)}
			w.next = w.next.addC(1)
			o := w.e.newNodeObj(st, Seq{t.a}, allKinds, VNil{}, VNil{}, false)
			t.obj = st.alloc(o)
			w.info[t.obj] = o.val.(VStruct)
		}
		ts = append(ts, t)
	}
	for i := range ts {
		var p, n Value = VNil{}, VNil{}
		if i > 0 {
			p = VPtr{Obj: ts[i-1].obj}
		}
		if i+1 < len(ts) {
			n = VPtr{Obj: ts[i+1].obj}
		}
		o := *st.obj(ts[i].obj)
		if o.kind == oSeg {
			o.prev, o.next = p, n
		} else {
			s := VStruct{append([]Value(nil), o.val.(VStruct).F...)}
			s.F[w.e.role.prev], s.F[w.e.role.next] = p, n
			o.val = s
		}
		st.set(ts[i].obj, &o)
	}
	w.chains = append(w.chains, ts)
	return ts
}

// finish roots every explicit node.
func (w *world) finish() {
	w.st.zone.assumeLE(w.next.sub(w.st.srcs[w.src].length))
	for i, c := range w.chains {
		for j, t := range c {
			if !t.seg {
				w.st.ghost[fmt.Sprintf("node:%d:%d", i, j)] = VPtr{Obj: t.obj}
			}
			w.st.ghost[fmt.Sprintf("tok:%d:%d", i, j)] = VStr{Seq{t.a}}
		}
	}
}

// now gives the piece of the node list a token stands for, in a later state.
func (c *opCase) now(st *State, t tok) Atom {
	for i, ch := range c.w.chains {
		for j, u := range ch {
			if u.obj == t.obj {
				if s, ok := st.ghost[fmt.Sprintf("tok:%d:%d", i, j)].(VStr); ok && len(s.S) == 1 {
					return s.S[0]
				}
			}
		}
	}
	return Atom{Const: "?"}
}

func (c *opCase) seqNow(st *State, ts []tok) Seq {
	var s Seq
	for _, t := range ts {
		s = append(s, c.now(st, t))
	}
	return s
}

// gnode resolves a rooted node in a later state.
func gnode(st *State, ci, ti int) ObjID {
	p, ok := st.ghost[fmt.Sprintf("node:%d:%d", ci, ti)].(VPtr)
	if !ok {
		return 0
	}
	return p.Obj
}

// walk collects the chain an object stands in, checking that links are symmetric.
func (e *Engine) walk(st *State, id ObjID) (objs []ObjID, text Seq, msg string) {
	seen := map[ObjID]bool{}
	first := id
	for {
		if seen[first] {
			return nil, nil, "the chain is a ring"
		}
		seen[first] = true
		o := st.obj(first)
		if o == nil || !e.isChainObj(o) {
			return nil, nil, "a link does not lead to a node"
		}
		p, _ := e.links(o)
		pid := ptrTo(p)
		if pid == 0 {
			if _, isNil := p.(VNil); !isNil {
				return nil, nil, "a previous link is not a node"
			}
			break
		}
		po := st.obj(pid)
		if po == nil || !e.isChainObj(po) {
			return nil, nil, "a previous link does not lead to a node"
		}
		if _, pn := e.links(po); ptrTo(pn) != first {
			return nil, nil, "a previous link is not answered by a next link"
		}
		first = pid
	}
	seen = map[ObjID]bool{}
	for cur := first; ; {
		if seen[cur] {
			return nil, nil, "the chain is a ring"
		}
		seen[cur] = true
		o := st.obj(cur)
		objs = append(objs, cur)
		if o.kind == oSeg {
			text = append(text, o.text...)
			for _, b := range o.bad {
				msg = b
			}
		} else {
			t, ok := o.val.(VStruct).F[e.role.text].(VStr)
			if !ok {
				return objs, nil, "the text of a node is unknown"
			}
			text = append(text, t.S...)
		}
		_, n := e.links(o)
		nid := ptrTo(n)
		if nid == 0 {
			if _, isNil := n.(VNil); !isNil {
				return nil, nil, "a next link is not a node"
			}
			return objs, text, msg
		}
		no := st.obj(nid)
		if no == nil || !e.isChainObj(no) {
			return nil, nil, "a next link does not lead to a node"
		}
		if np, _ := e.links(no); ptrTo(np) != cur {
			return nil, nil, "a next link is not answered by a previous link"
		}
		cur = nid
	}
}

// side shapes: number of nodes beside the anchor: 0, 1, 2, 3 or more.
var sides = []string{"", "n", "nn", "nsn"}

// --- the list model the operations are compared with -------------------------------------------

type model struct{ chains [][]tok }

func (m *model) find(id ObjID) (int, int) {
	for i, c := range m.chains {
		for j, t := range c {
			if t.obj == id {
				return i, j
			}
		}
	}
	return -1, -1
}

func (m *model) at(i, j int) ObjID {
	if i < 0 || j < 0 || j >= len(m.chains[i]) {
		return 0
	}
	return m.chains[i][j].obj
}

func (m *model) nextOf(id ObjID) ObjID { i, j := m.find(id); return m.at(i, j+1) }
func (m *model) prevOf(id ObjID) ObjID { i, j := m.find(id); return m.at(i, j-1) }

// split cuts the chain of id behind it (after) or in front of it.
func (m *model) split(id ObjID, after bool) {
	i, j := m.find(id)
	if after {
		j++
	}
	c := m.chains[i]
	if j <= 0 || j >= len(c) {
		return
	}
	m.chains[i] = c[:j:j]
	m.chains = append(m.chains, c[j:])
}

func (m *model) cutOut(id ObjID) {
	m.split(id, false)
	m.split(id, true)
}

// join links the end of the chain of a to the start of the chain of b.
func (m *model) join(a, b ObjID) {
	i, _ := m.find(a)
	j, _ := m.find(b)
	m.chains[i] = append(append([]tok(nil), m.chains[i]...), m.chains[j]...)
	m.chains = append(m.chains[:j:j], m.chains[j+1:]...)
}

func (m *model) insertNext(n, nn ObjID) (ObjID, ObjID) {
	if n == nn || m.nextOf(n) == nn {
		return 0, 0
	}
	p, q := m.prevOf(nn), m.nextOf(nn)
	m.cutOut(nn)
	r := m.nextOf(n)
	m.split(n, true)
	m.join(n, nn)
	if r != 0 {
		m.join(nn, r)
	}
	return p, q
}

func (m *model) insertPrev(n, nn ObjID) (ObjID, ObjID) {
	if n == nn || m.prevOf(n) == nn {
		return 0, 0
	}
	p, q := m.prevOf(nn), m.nextOf(nn)
	m.cutOut(nn)
	r := m.prevOf(n)
	m.split(n, false)
	m.join(nn, n)
	if r != 0 {
		m.join(r, nn)
	}
	return p, q
}

func (m *model) replaceNext(n, nn ObjID) (ObjID, ObjID) {
	if n == nn || m.nextOf(n) == nn {
		return 0, 0
	}
	p, r := m.prevOf(nn), m.nextOf(n)
	m.split(nn, false)
	m.split(n, true)
	m.join(n, nn)
	return p, r
}

func (m *model) replacePrev(n, nn ObjID) (ObjID, ObjID) {
	if n == nn || m.prevOf(n) == nn {
		return 0, 0
	}
	p, r := m.prevOf(n), m.nextOf(nn)
	m.split(nn, true)
	m.split(n, false)
	m.join(nn, n)
	return p, r
}

// --- cases --------------------------------------------------------------------------------------------

type opCase struct {
	w     *world
	n, nn ObjID
	desc  string
	// where nn lies in the chain of n: 0 elsewhere, <0 upstream, >0 downstream
	rel int
}

func pairCases(e *Engine) []func() *opCase {
	var out []func() *opCase
	for _, l1 := range sides {
		for _, r1 := range sides {
			for _, l2 := range sides {
				for _, r2 := range sides {
					out = append(out, func() *opCase {
						w := newWorld(e)
						a := w.chain(l1 + "n" + r1)
						b := w.chain(l2 + "n" + r2)
						w.finish()
						return &opCase{w: w, n: a[len(l1)].obj, nn: b[len(l2)].obj,
							desc: fmt.Sprintf("n in %s(n)%s, other in %s(o)%s", l1, r1, l2, r2)}
					})
				}
			}
		}
	}
	for _, l := range sides {
		for _, mid := range sides {
			for _, r := range sides {
				for _, swap := range []bool{false, true} {
					out = append(out, func() *opCase {
						w := newWorld(e)
						a := w.chain(l + "n" + mid + "n" + r)
						w.finish()
						x, y := a[len(l)].obj, a[len(l)+1+len(mid)].obj
						if swap {
							return &opCase{w: w, n: y, nn: x, rel: -1, desc: fmt.Sprintf("one chain %s(o)%s(n)%s", l, mid, r)}
						}
						return &opCase{w: w, n: x, nn: y, rel: 1, desc: fmt.Sprintf("one chain %s(n)%s(o)%s", l, mid, r)}
					})
				}
			}
		}
		for _, r := range sides {
			out = append(out, func() *opCase {
				w := newWorld(e)
				a := w.chain(l + "n" + r)
				w.finish()
				return &opCase{w: w, n: a[len(l)].obj, nn: a[len(l)].obj, desc: fmt.Sprintf("other is n itself in %s(n)%s", l, r)}
			})
		}
	}
	return out
}

func singleCases(e *Engine) []func() *opCase {
	var out []func() *opCase
	for _, l := range sides {
		for _, r := range sides {
			out = append(out, func() *opCase {
				w := newWorld(e)
				a := w.chain(l + "n" + r)
				w.finish()
				return &opCase{w: w, n: a[len(l)].obj, desc: fmt.Sprintf("%s(n)%s", l, r)}
			})
		}
	}
	return out
}

// --- running one operation ------------------------------------------------------------------------------

type nodeCheck struct {
	e    *Engine
	r    *Report
	what string
}

// outcome compares a final state with the model.
// Every node of the initial configuration is checked, also those the operation cut off.
func (e *Engine) symmetric(c *opCase, st *State) string {
	for ci, ch := range c.w.chains {
		for ti, t := range ch {
			if t.seg {
				continue
			}
			if _, _, msg := e.walk(st, gnode(st, ci, ti)); msg != "" {
				return msg
			}
		}
	}
	return ""
}

func (e *Engine) placement(c *opCase, m *model, st *State) string {
	idOf := map[ObjID]ObjID{} // initial -> current
	for ci, ch := range c.w.chains {
		for ti, t := range ch {
			if !t.seg {
				idOf[t.obj] = gnode(st, ci, ti)
			}
		}
	}
	for _, want := range m.chains {
		var anchor ObjID
		for _, t := range want {
			if !t.seg {
				anchor = idOf[t.obj]
			}
		}
		objs, text, msg := e.walk(st, anchor)
		if msg != "" {
			return msg
		}
		if !st.seqEqual(text, c.seqNow(st, want)) {
			return fmt.Sprintf("expected the chain %s, got %s", tokNames(c, want), c.nameSeq(st, text))
		}
		// identity of the explicit nodes, in order
		var got, exp []ObjID
		explicit := map[ObjID]bool{}
		for _, id := range idOf {
			explicit[id] = true
		}
		for _, o := range objs {
			if explicit[o] {
				got = append(got, o)
			}
		}
		for _, t := range want {
			if !t.seg {
				exp = append(exp, idOf[t.obj])
			}
		}
		if fmt.Sprint(got) != fmt.Sprint(exp) {
			return "the nodes of a chain are not the expected ones"
		}
	}
	return ""
}

// untouched checks that text, line and kind of every explicit node are as before.
func (e *Engine) untouched(c *opCase, st *State, except ObjID) string {
	for ci, ch := range c.w.chains {
		for ti, t := range ch {
			if t.seg || t.obj == except {
				continue
			}
			o := st.obj(gnode(st, ci, ti))
			s, ok := o.val.(VStruct)
			if o.kind != oPlain || !ok {
				return "a node is not known any more"
			}
			tx, ok := s.F[e.role.text].(VStr)
			if !ok || !st.seqEqual(tx.S, Seq{c.now(st, t)}) {
				return "the text of a node changed"
			}
			for _, f := range []int{e.role.line, e.role.kind} {
				g := st.ghost[fmt.Sprintf("field:%d:%d:%d", ci, ti, f)]
				if g == nil {
					continue
				}
				if !e.sameNow(st, g, s.F[f]) {
					return "the line or kind of a node changed"
				}
			}
		}
	}
	return ""
}

func (e *Engine) sameNow(st *State, a, b Value) bool {
	switch x := a.(type) {
	case VInt:
		y, ok := b.(VInt)
		return ok && st.zone.equal(x.L, y.L)
	case VKind:
		y, ok := b.(VKind)
		return ok && x == y
	case VStruct:
		y, ok := b.(VStruct)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !e.sameNow(st, x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case VStr:
		y, ok := b.(VStr)
		return ok && st.seqEqual(x.S, y.S)
	case VNil:
		_, ok := b.(VNil)
		return ok
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x == y
	case VBool:
		y, ok := b.(VBool)
		return ok && x == y
	}
	return false
}

// rootFields remembers line and kind of every explicit node.
func (w *world) rootFields() {
	for i, c := range w.chains {
		for j, t := range c {
			if t.seg {
				continue
			}
			for _, f := range []int{w.e.role.line, w.e.role.kind} {
				w.st.ghost[fmt.Sprintf("field:%d:%d:%d", i, j, f)] = w.info[t.obj].F[f]
			}
		}
	}
}

func tokNames(c *opCase, ts []tok) string {
	var out []string
	for _, t := range ts {
		out = append(out, c.name(t.obj))
	}
	return strings.Join(out, " ")
}

func (c *opCase) name(id ObjID) string {
	if id == 0 {
		return "nil"
	}
	for i, ch := range c.w.chains {
		for j, t := range ch {
			if t.obj == id {
				s := fmt.Sprintf("%c%d", 'a'+i, j)
				if t.seg {
					s += "+"
				}
				if id == c.n {
					s += "(n)"
				}
				if id == c.nn {
					s += "(other)"
				}
				return s
			}
		}
	}
	return "?"
}

func (c *opCase) nameSeq(st *State, s Seq) string {
	var out []string
	for _, a := range st.norm(s) {
		if a.isConst() {
			out = append(out, fmt.Sprintf("%q", a.Const))
			continue
		}
		for _, ch := range c.w.chains {
			for _, t := range ch {
				if x := c.now(st, t); x.Src == a.Src && st.zone.le(a.A, x.A) && st.zone.le(x.B, a.B) {
					out = append(out, c.name(t.obj))
				}
			}
		}
	}
	return strings.Join(out, " ")
}

// isResult compares a returned pointer with an expected explicit node.
func (c *opCase) isResult(st *State, v Value, want ObjID) bool {
	if want == 0 {
		_, ok := v.(VNil)
		return ok
	}
	p, ok := v.(VPtr)
	if !ok || p.Path != "" {
		return false
	}
	for i, ch := range c.w.chains {
		for j, t := range ch {
			if t.obj == want {
				return gnode(st, i, j) == p.Obj
			}
		}
	}
	return false
}

type opFinal func(c *opCase, st *State, res Value)

// runOp explores one operation in one configuration.
func runOp(e *Engine, r *Report, fn *ssa.Function, c *opCase, args []Value, final opFinal) {
	e.find = Findings{panics: map[string]*PanicExit{}, undecided: map[string]*State{}, bad: map[string]*State{}}
	steps, shapes := e.steps, e.nshapes
	e.steps, e.nshapes = 0, 0
	nres := 0
	key := "node-op:" + fn.Name()
	u := e.explore(fn.Name(), fn, c.w.st, args, func(st *State, res Value) {
		nres++
		final(c, st, res)
	})
	for _, p := range u.panics {
		r.fail("panic:"+fn.Name()+":"+p.fn.String(), e.posStr(p.pos), fmt.Sprintf("%s panics (%s) when %s", fn.Name(), p.msg, c.desc), p.st.traceLines(25))
	}
	r.absorb(e, key, fn.Pos())
	e.steps, e.nshapes = steps, shapes
	r.Counters["configurations"]++
	r.Counters["outcomes"] += nres
	if nres == 0 && len(u.panics) == 0 && len(e.find.undecided) == 0 {
		r.fail("no-outcome:"+fn.Name(), e.posStr(fn.Pos()), fn.Name()+" has no outcome when "+c.desc, nil)
	}
}

func (p *Program) nodeOp(r *Report, name string) *ssa.Function {
	fn := p.method("Node", name)
	if fn == nil || fn.Blocks == nil {
		r.fail("anchor:"+name, "node.go", "method Node."+name+" not found", nil)
		return nil
	}
	return fn
}

func ptr(id ObjID) Value {
	if id == 0 {
		return VNil{}
	}
	return VPtr{Obj: id}
}

func (c *opCase) model() *model {
	m := &model{}
	for _, ch := range c.w.chains {
		m.chains = append(m.chains, append([]tok(nil), ch...))
	}
	return m
}

// pairOp checks one of the insert and replace operations.
func pairOp(e *Engine, r *Report, name string, sym, place bool) {
	fn := e.nodeOp(r, name)
	if fn == nil {
		return
	}
	where := e.posStr(fn.Pos())
	for _, mk := range pairCases(e) {
		c := mk()
		m := c.model()
		var a, b ObjID
		switch name {
		case "InsertNext":
			a, b = m.insertNext(c.n, c.nn)
		case "InsertPrev":
			a, b = m.insertPrev(c.n, c.nn)
		case "ReplaceNext":
			// linking a node to one that leads to it closes a ring; not a use the operation serves
			if c.rel < 0 {
				continue
			}
			a, b = m.replaceNext(c.n, c.nn)
		case "ReplacePrev":
			if c.rel > 0 {
				continue
			}
			a, b = m.replacePrev(c.n, c.nn)
		}
		c.w.rootFields()
		runOp(e, r, fn, c, []Value{ptr(c.n), ptr(c.nn)}, func(c *opCase, st *State, res Value) {
			checkOutcome(e, r, name, where, c, m, st, res, []ObjID{a, b}, sym, place)
		})
	}
}

func checkOutcome(e *Engine, r *Report, name, where string, c *opCase, m *model, st *State, res Value, want []ObjID, sym, place bool) {
	if sym {
		msg := e.symmetric(c, st)
		r.ob(msg == "", "link-symmetry:"+name, where, st, "%s leaves asymmetric links (%s) when %s", name, msg, c.desc)
	}
	if !place {
		return
	}
	msg := e.placement(c, m, st)
	r.ob(msg == "", "placement:"+name, where, st, "%s: %s, when %s", name, msg, c.desc)
	if msg = e.untouched(c, st, 0); true {
		r.ob(msg == "", "contents:"+name, where, st, "%s: %s, when %s", name, msg, c.desc)
	}
	var got []Value
	if t, ok := res.(VTuple); ok {
		got = t.V
	} else {
		got = []Value{res}
	}
	if len(want) == 0 {
		return
	}
	if !r.ob(len(got) == len(want), "result:"+name, where, st, "%s returns %d values", name, len(got)) {
		return
	}
	for i := range want {
		r.ob(c.isResult(st, got[i], want[i]), fmt.Sprintf("result:%s:%d", name, i), where, st,
			"%s: result %d is not %s, when %s", name, i, c.name(want[i]), c.desc)
	}
}

// singleOp checks the take, remove and isolate operations.
func singleOp(e *Engine, r *Report, name string, sym, place bool) {
	fn := e.nodeOp(r, name)
	if fn == nil {
		return
	}
	where := e.posStr(fn.Pos())
	for _, mk := range singleCases(e) {
		c := mk()
		m := c.model()
		var want []ObjID
		n := c.n
		p, q := m.prevOf(n), m.nextOf(n)
		switch name {
		case "TakeNext":
			want = []ObjID{q}
			if q != 0 {
				rest := m.nextOf(q)
				m.cutOut(q)
				if rest != 0 {
					m.join(n, rest)
				}
			}
		case "TakePrev":
			want = []ObjID{p}
			if p != 0 {
				rest := m.prevOf(p)
				m.cutOut(p)
				if rest != 0 {
					m.join(rest, n)
				}
			}
		case "RemoveNext":
			want = []ObjID{q}
			m.split(n, true)
		case "RemovePrev":
			want = []ObjID{p}
			m.split(n, false)
		case "Isolate":
			m.cutOut(n)
		}
		c.w.rootFields()
		runOp(e, r, fn, c, []Value{ptr(c.n)}, func(c *opCase, st *State, res Value) {
			checkOutcome(e, r, name, where, c, m, st, res, want, sym, place)
		})
	}
}

func checkC02(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	for _, n := range []string{"InsertNext", "InsertPrev", "ReplaceNext", "ReplacePrev"} {
		pairOp(e, r, n, false, true)
	}
	return nil
}

func checkC03(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{})
	if err != nil {
		return err
	}
	for _, n := range []string{"TakeNext", "TakePrev", "RemoveNext", "RemovePrev", "Isolate"} {
		singleOp(e, r, n, false, true)
	}
	return nil
}

var _ = token.NoPos
