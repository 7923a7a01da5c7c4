package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type objKind uint8

const (
	oPlain objKind = iota
	oSeg           // one or more nodes of a chain
	oList          // contents of a slice
	oMap
	oIter
)

// Object is a heap object. Objects are immutable; updates replace them in the heap of the state.
type Object struct {
	kind objKind
	typ  types.Type
	val  Value // oPlain

	// oSeg
	text       Seq
	prev, next Value
	kinds      KindSet
	bad        []string
	mark       int // of nodes and runs: set by the specification

	// oList
	elems []LElem

	// oMap
	keys   []Value
	vals   []Value
	open   bool // may hold further unknown entries
	frozen bool

	// oIter
	iter *iterState
}

type LElem struct {
	sum bool
	val Value
	seq Seq // summary: list source atoms, or texts
	n   Lin // number of elements of a summary
	bad []string
}

type iterState struct {
	m     ObjID // map
	order []int
	pos   int
	str   Seq
	off   Lin
	isStr bool
}

type Frame struct {
	fn     *ssa.Function
	info   *FnInfo
	regs   []Value
	bind   []Value
	block  int
	prev   int
	pc     int
	defers []deferred
	// set when the frame runs a deferred call: its result is dropped and the caller re-executes RunDefers
	isDefer   bool
	unwinding bool // the frame is running its deferred calls because of a panic
	onReturn  func(e *Engine, st *State, res Value) []resv
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type byteFact struct {
	src SrcID
	off Lin
	set ByteSet
}

type nFact struct {
	src SrcID
	off Lin
	val Lin
}

// predFact is an answer about a text: equal to ('='), starting with ('p') or ending with ('s') a literal.
type predFact struct {
	op   byte
	src  SrcID
	a, b Lin
	c    string
	yes  bool
}

type offFact struct {
	src SrcID
	off Lin
}

type elemFact struct {
	src SrcID
	of  *Object // instead of src: a list as it is now
	off Lin
	val Value // memoised element / or
	// node list sources: the line and kind that belong to the element
	line, kind Value
}

type Src struct {
	name   string
	list   bool // units are elements, not bytes
	length Lin
	nl0    Lin    // what counting newlines starts from
	meta   Value  // what the text was derived from
	lens   SrcID  // lists of texts: counts the bytes of the first elements
	parts  []part // what kind of bytes there are, one part after the other
}

type part struct {
	end Lin
	set ByteSet
}

type traceNode struct {
	up  *traceNode
	pos token.Pos
	msg string
	n   int
}

type State struct {
	e      *Engine
	frames []*Frame
	heap   map[ObjID]*Object
	zone   *Zone
	srcs   map[SrcID]*Src
	bytes  []byteFact
	nls    []nFact
	empt   []offFact
	preds  []predFact
	elems  []elemFact
	kinds  map[KSym]KindSet
	unkB   map[int]bool
	odd    map[Sym]parity // what is known about numbers modulo two; not changed once made
	ghost  map[string]Value
	events []Event
	trace  *traceNode
	panicV Value // set while unwinding
	bad    []string

	nextSym Sym
	nextObj ObjID
	nextSrc SrcID
	nextK   KSym
	nextUnk int
}

// Event is an observable effect recorded for a specification.
type Event struct {
	Name string
	Args []Value
	Pos  token.Pos
}

// parity says that a number is congruent to another one, or to zero, plus one if odd, modulo two.
type parity struct {
	root Sym
	odd  bool
}

// parityOf adds up what is known about the terms of a number.
func (st *State) parityOf(l Lin) (parity, bool) {
	if c, ok := st.zone.constOf(l); ok {
		return parity{odd: c&1 == 1}, true
	}
	p := parity{odd: l.c&1 == 1}
	for _, t := range l.t {
		if t.k&1 == 0 {
			continue
		}
		q, ok := st.odd[t.s]
		if !ok {
			q = parity{root: t.s}
			if c, ok := st.zone.constOf(linS(t.s)); ok {
				q = parity{odd: c&1 == 1}
			}
		}
		p.odd = p.odd != q.odd
		switch {
		case q.root == 0:
		case p.root == 0:
			p.root = q.root
		default:
			c, ok := st.zone.constOf(linS(p.root).sub(linS(q.root)))
			if !ok {
				return parity{}, false
			}
			p = parity{odd: p.odd != (c&1 == 1)}
		}
	}
	return p, true
}

// isOdd tells whether a number is odd, where that is known.
func (st *State) isOdd(l Lin) (odd, ok bool) {
	p, ok := st.parityOf(l)
	return p.odd, ok && p.root == 0
}

func (st *State) clone() *State {
	n := *st
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = append([]Value(nil), f.regs...)
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = make(map[ObjID]*Object, len(st.heap)+4)
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.zone = st.zone.clone()
	n.srcs = st.srcs // copy on write in newSrc
	n.bytes = append([]byteFact(nil), st.bytes...)
	n.nls = append([]nFact(nil), st.nls...)
	n.empt = append([]offFact(nil), st.empt...)
	n.preds = append([]predFact(nil), st.preds...)
	n.elems = append([]elemFact(nil), st.elems...)
	n.kinds = make(map[KSym]KindSet, len(st.kinds))
	for k, v := range st.kinds {
		n.kinds[k] = v
	}
	if st.unkB != nil {
		n.unkB = make(map[int]bool, len(st.unkB))
		for k, v := range st.unkB {
			n.unkB[k] = v
		}
	}
	n.ghost = make(map[string]Value, len(st.ghost))
	for k, v := range st.ghost {
		n.ghost[k] = v
	}
	n.events = append([]Event(nil), st.events...)
	n.bad = append([]string(nil), st.bad...)
	return &n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) note(pos token.Pos, format string, args ...any) {
	n := 1
	if st.trace != nil {
		n = st.trace.n + 1
	}
	st.trace = &traceNode{up: st.trace, pos: pos, msg: fmt.Sprintf(format, args...), n: n}
}

func (st *State) traceLines(max int) []string {
	var out []string
	for t := st.trace; t != nil && len(out) < max; t = t.up {
		out = append(out, fmt.Sprintf("%s %s", st.e.posStr(t.pos), t.msg))
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) newSym() Sym {
	st.nextSym++
	return st.nextSym
}

// newInt makes an unknown integer.
func (st *State) newInt() Lin { return linS(st.newSym()) }

func (st *State) newNat() Lin {
	l := st.newInt()
	st.zone.assumeLE(l.neg())
	return l
}

func (st *State) newSrc(name string, list bool, length Lin) SrcID {
	return st.newSrcMeta(name, list, length, nil)
}

func (st *State) setMeta(id SrcID, meta Value) {
	m := make(map[SrcID]*Src, len(st.srcs))
	for k, v := range st.srcs {
		m[k] = v
	}
	n := *m[id]
	n.meta = meta
	m[id] = &n
	st.srcs = m
}

// setBase sets what counting the newlines of a source starts from.
func (st *State) setBase(id SrcID, l Lin) {
	m := make(map[SrcID]*Src, len(st.srcs))
	for k, v := range st.srcs {
		m[k] = v
	}
	n := *m[id]
	n.nl0 = l
	m[id] = &n
	st.srcs = m
}

func (st *State) newSrcMeta(name string, list bool, length Lin, meta Value) SrcID {
	m := make(map[SrcID]*Src, len(st.srcs)+1)
	for k, v := range st.srcs {
		m[k] = v
	}
	st.nextSrc++
	m[st.nextSrc] = &Src{name: name, list: list, length: length, meta: meta}
	st.srcs = m
	return st.nextSrc
}

// newText makes an unknown text.
func (st *State) newText(name string) Seq {
	n := st.newNat()
	id := st.newSrc(name, false, n)
	return Seq{{Src: id, A: linC(0), B: n}}
}

func (st *State) newKind(set KindSet) VKind {
	st.nextK++
	st.kinds[st.nextK] = set
	return VKind{st.nextK}
}

func (st *State) newUnk(t types.Type) VUnk {
	st.nextUnk++
	return VUnk{st.nextUnk, t}
}

func (st *State) alloc(o *Object) ObjID {
	st.nextObj++
	st.heap[st.nextObj] = o
	return st.nextObj
}

func (st *State) obj(id ObjID) *Object {
	if o, ok := st.heap[id]; ok {
		return o
	}
	return st.e.base[id]
}

func (st *State) set(id ObjID, o *Object) { st.heap[id] = o }

func (st *State) allocVal(t types.Type, v Value) VPtr {
	return VPtr{Obj: st.alloc(&Object{kind: oPlain, typ: t, val: v})}
}

// --- byte facts ---------------------------------------------------------

func (st *State) byteSet(src SrcID, off Lin) ByteSet {
	r := allBytes()
	for _, f := range st.bytes {
		if f.src == src && st.zone.equal(f.off, off) {
			r = r.and(f.set)
		}
	}
	if s := st.srcs[src]; s != nil && s.parts != nil {
		begin := linC(0)
		for _, p := range s.parts {
			if st.zone.le(begin, off) && st.zone.lt(off, p.end) {
				r = r.and(p.set)
			}
			begin = p.end
		}
	}
	return r
}

// setParts tells which bytes a source consists of.
func (st *State) setParts(id SrcID, parts []part) {
	m := make(map[SrcID]*Src, len(st.srcs))
	for k, v := range st.srcs {
		m[k] = v
	}
	n := *m[id]
	n.parts = parts
	m[id] = &n
	st.srcs = m
}

// restrictByte narrows a byte; false when impossible.
func (st *State) restrictByte(src SrcID, off Lin, set ByteSet) bool {
	cur := st.byteSet(src, off)
	n := cur.and(set)
	if n.empty() {
		return false
	}
	if n == cur {
		return true
	}
	var keep []byteFact
	for _, f := range st.bytes {
		if f.src == src && st.zone.equal(f.off, off) {
			continue
		}
		keep = append(keep, f)
	}
	st.bytes = append(keep, byteFact{src, off, n})
	return true
}

// --- newline counts -------------------------------------------------------

// nlAt returns the number of newlines in the first off units of src.
func (st *State) nlAt(src SrcID, off Lin) Lin {
	if c, ok := st.zone.constOf(off); ok && c == 0 {
		return st.srcs[src].nl0
	}
	isList := st.srcs[src].list
	facts := append([]nFact{{src, linC(0), st.srcs[src].nl0}}, st.nls...)
	best, bestAbs := -1, int64(17)
	for i, f := range facts {
		if f.src != src {
			continue
		}
		if d, ok := st.zone.constOf(off.sub(f.off)); ok {
			if d == 0 {
				if !isList {
					st.nlLink(f, facts)
				}
				return f.val
			}
			if isList {
				continue
			}
			a := d
			if a < 0 {
				a = -a
			}
			if a < bestAbs {
				if _, ok := st.nlWalk(src, f.off, d); ok {
					best, bestAbs = i, a
				}
			}
		}
	}
	if best >= 0 {
		f := facts[best]
		d, _ := st.zone.constOf(off.sub(f.off))
		k, _ := st.nlWalk(src, f.off, d)
		return f.val.addC(k)
	}
	v := st.newInt()
	for _, f := range facts {
		if f.src != src {
			continue
		}
		d := off.sub(f.off)
		if st.zone.le(linC(0), d) {
			st.zone.assumeLE(f.val.sub(v))
			if !isList {
				st.zone.assumeLE(v.sub(f.val).sub(d))
			}
		}
		if st.zone.le(d, linC(0)) {
			st.zone.assumeLE(v.sub(f.val))
			if !isList {
				st.zone.assumeLE(f.val.sub(v).add(d))
			}
		}
	}
	st.nls = append(st.nls, nFact{src, off, v})
	return v
}

// nlLink relates a newline count to the counts nearby: the bytes between may have become known since.
func (st *State) nlLink(f nFact, facts []nFact) {
	for _, g := range facts {
		if g.src != f.src {
			continue
		}
		if d, ok := st.zone.constOf(f.off.sub(g.off)); ok && d != 0 && d <= 4 && d >= -4 {
			if k, ok := st.nlWalk(f.src, g.off, d); ok {
				st.zone.assumeEQ(f.val, g.val.addC(k))
			}
		}
	}
}

// nlWalk counts the newlines between off and off+d when every byte between is known well enough.
func (st *State) nlWalk(src SrcID, off Lin, d int64) (int64, bool) {
	lo, hi := int64(0), d
	if d < 0 {
		lo, hi = d, 0
	}
	n := int64(0)
	for k := lo; k < hi; k++ {
		s := st.byteSet(src, off.addC(k))
		if st.srcs[src].name == labelSrc {
			switch {
			case s.and(markLabels).empty():
			case s.and(markLabels) == s:
				n++
			default:
				return 0, false
			}
			continue
		}
		switch {
		case !s.has('\n'):
		default:
			if b, ok := s.single(); ok && b == '\n' {
				n++
				continue
			}
			return 0, false
		}
	}
	if d < 0 {
		n = -n
	}
	return n, true
}

// nlOf counts the newlines of a text.
func (st *State) nlOf(s Seq) Lin {
	r := linC(0)
	for _, a := range s {
		if a.isConst() {
			r = r.addC(int64(strings.Count(a.Const, "\n")))
			continue
		}
		r = r.add(st.nlAt(a.Src, a.B).sub(st.nlAt(a.Src, a.A)))
	}
	return r
}

// congruent makes counts at equal places equal.
func (st *State) congruent() {
	for i, f := range st.nls {
		for _, g := range st.nls[:i] {
			if f.src == g.src && st.zone.equal(f.off, g.off) {
				st.zone.assumeEQ(f.val, g.val)
			}
		}
		if st.zone.equal(f.off, linC(0)) {
			st.zone.assumeEQ(f.val, st.srcs[f.src].nl0)
		}
	}
}

// lenOf returns the length in bytes of a text.
func (st *State) lenOf(s Seq) Lin {
	r := linC(0)
	for _, a := range s {
		switch {
		case a.isConst():
			r = r.addC(int64(len(a.Const)))
		case st.srcs[a.Src].lens != 0:
			l := st.srcs[a.Src].lens
			r = r.add(st.nlAt(l, a.B)).sub(st.nlAt(l, a.A))
		case st.srcs[a.Src].list:
			r = r.add(st.newNat())
		default:
			r = r.add(a.B.sub(a.A))
		}
	}
	return r
}

// --- sequences --------------------------------------------------------------

// pushEmpty moves a list offset over elements that contribute nothing.
func (st *State) pushEmpty(src SrcID, off Lin) Lin {
	for again := true; again; {
		again = false
		for _, f := range st.empt {
			if f.src == src && st.zone.equal(f.off, off) {
				off = off.addC(1)
				again = true
			}
		}
	}
	return off
}

// norm simplifies a text: drops empty atoms, joins adjacent ones, and turns literal bytes that are known to
// stand next to a piece of a source into that source.
func (st *State) norm(s Seq) Seq {
	if len(s) == 0 {
		return nil
	}
	var out Seq
	for _, a := range s {
		if a.isConst() {
			if a.Const == "" {
				continue
			}
		} else {
			if st.srcs[a.Src].list {
				a.A, a.B = st.pushEmpty(a.Src, a.A), st.pushEmpty(a.Src, a.B)
			}
			if st.zone.le(a.B, a.A) {
				continue
			}
		}
		out = append(out, a)
		for len(out) >= 2 {
			j, ok := st.joinAtoms(out[len(out)-2], out[len(out)-1])
			if !ok {
				break
			}
			out = append(out[:len(out)-2:len(out)-2], j)
		}
	}
	// literals
	for i := 0; i < len(out); i++ {
		a := out[i]
		if !a.isConst() {
			continue
		}
		if b, ok := st.locate(out, i); ok {
			out = append(Seq(nil), out...)
			out[i] = b
			return st.norm(out)
		}
		_ = a
	}
	return out
}

func (st *State) joinAtoms(a, b Atom) (Atom, bool) {
	if a.isConst() && b.isConst() {
		return Atom{Const: a.Const + b.Const}, true
	}
	if a.isConst() || b.isConst() || a.Src != b.Src {
		return Atom{}, false
	}
	list := st.srcs[a.Src].list
	one := func(x Atom) bool {
		d, ok := st.zone.constOf(x.B.sub(x.A))
		return ok && d == 1
	}
	if a.Rev != b.Rev && list {
		if one(a) {
			a.Rev = b.Rev
		} else if one(b) {
			b.Rev = a.Rev
		}
	}
	if a.Rev != b.Rev {
		return Atom{}, false
	}
	if list && one(a) && one(b) {
		if st.zone.equal(a.B, b.A) {
			return Atom{Src: a.Src, A: a.A, B: b.B}, true
		}
		if st.zone.equal(b.B, a.A) {
			return Atom{Src: a.Src, Rev: true, A: b.A, B: a.B}, true
		}
		return Atom{}, false
	}
	if !a.Rev && st.zone.equal(a.B, b.A) {
		return Atom{Src: a.Src, A: a.A, B: b.B}, true
	}
	if a.Rev && st.zone.equal(b.B, a.A) {
		return Atom{Src: a.Src, Rev: true, A: b.A, B: a.B}, true
	}
	return Atom{}, false
}

// locate finds the piece of a source a literal is known to equal.
func (st *State) locate(s Seq, i int) (Atom, bool) {
	c := s[i].Const
	match := func(src SrcID, off Lin) bool {
		for k := 0; k < len(c); k++ {
			set := st.byteSet(src, off.addC(int64(k)))
			if b, ok := set.single(); !ok || b != c[k] {
				return false
			}
		}
		return true
	}
	if i > 0 && !s[i-1].isConst() && !s[i-1].Rev && !st.srcs[s[i-1].Src].list {
		if l := s[i-1]; match(l.Src, l.B) {
			return Atom{Src: l.Src, A: l.B, B: l.B.addC(int64(len(c)))}, true
		}
	}
	if i+1 < len(s) && !s[i+1].isConst() && !s[i+1].Rev && !st.srcs[s[i+1].Src].list {
		if r := s[i+1]; match(r.Src, r.A.addC(-int64(len(c)))) {
			return Atom{Src: r.Src, A: r.A.addC(-int64(len(c))), B: r.A}, true
		}
	}
	return Atom{}, false
}

// place names the piece of a source that a literal text standing alone is known to equal. Of several such pieces
// it takes one that follows a text kept elsewhere, and of those the furthest.
func (st *State) place(s Seq) Seq {
	s = st.norm(s)
	if len(s) != 1 || !s[0].isConst() {
		return s
	}
	c := s[0].Const
	var found []Atom
	for _, f := range st.bytes {
		if b, ok := f.set.single(); !ok || b != c[0] {
			continue
		}
		all := true
		for k := 1; k < len(c) && all; k++ {
			b, ok := st.byteSet(f.src, f.off.addC(int64(k))).single()
			all = ok && b == c[k]
		}
		if all {
			found = append(found, Atom{Src: f.src, A: f.off, B: f.off.addC(int64(len(c)))})
		}
	}
	var next []Atom
	for _, f := range found {
		if st.endsAt(f.Src, f.A) {
			next = append(next, f)
		}
	}
	if len(next) > 0 {
		found = next
	}
	if len(found) == 0 {
		return s
	}
	best := found[0]
	for _, f := range found[1:] {
		if f.Src != best.Src {
			return s
		}
		switch {
		case st.zone.le(best.A, f.A):
			best = f
		case st.zone.le(f.A, best.A):
		default:
			return s
		}
	}
	return Seq{best}
}

// endsAt reports whether some text in the heap ends at an offset of a source.
func (st *State) endsAt(src SrcID, off Lin) bool {
	for _, o := range st.heap {
		var t Seq
		switch o.kind {
		case oSeg:
			t = o.text
		case oPlain:
			switch v := o.val.(type) {
			case VBuf:
				t = v.S
			case VStruct:
				if st.e.isNode(o.typ) {
					if x, ok := v.F[st.e.role.text].(VStr); ok {
						t = x.S
					}
				}
			}
		}
		if n := len(t); n > 0 && t[n-1].Src == src && !t[n-1].isConst() && st.zone.equal(t[n-1].B, off) {
			return true
		}
	}
	return false
}

// seqEqual reports whether two texts are known to be the same.
func (st *State) seqEqual(a, b Seq) bool {
	a, b = st.norm(a), st.norm(b)
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.isConst() != y.isConst() {
			return false
		}
		if x.isConst() {
			if x.Const != y.Const {
				return false
			}
			continue
		}
		if x.Src != y.Src || !st.zone.equal(x.A, y.A) || !st.zone.equal(x.B, y.B) {
			return false
		}
		if x.Rev != y.Rev {
			if d, ok := st.zone.constOf(x.B.sub(x.A)); !ok || d != 1 {
				return false
			}
		}
	}
	return true
}

func catSeq(ss ...Seq) Seq {
	var r Seq
	for _, s := range ss {
		r = append(r, s...)
	}
	return r
}

// --- small helpers ------------------------------------------------------------

func (st *State) ghostKeys() []string {
	ks := make([]string, 0, len(st.ghost))
	for k := range st.ghost {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// kindSetOf returns the possible kinds of a kind value.
func (st *State) kindSetOf(v Value) KindSet {
	switch v := v.(type) {
	case VKind:
		return st.kinds[v.K]
	case VStruct:
		return KindSet(1) << st.e.kindIndex(v)
	}
	return allKinds
}

// forgetLists forgets which elements were read from lists: something unknown may have written to them.
func (st *State) forgetLists() {
	var keep []elemFact
	for _, f := range st.elems {
		if f.of == nil {
			keep = append(keep, f)
		}
	}
	st.elems = keep
}
