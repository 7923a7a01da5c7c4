package main

import (
	"fmt"
	"sort"
	"strings"
)

// canonical is a state with objects, sources and symbols renamed in visiting order.
type canonical struct {
	st    *State
	shape string
	cons  []string // per slot: its constant value, or "" when unknown
	n     int
	facts map[string]ByteSet // "src|slot|c"
	cz    *canonizer
}

type canonizer struct {
	old    *State
	e      *Engine
	key    strings.Builder
	objs   map[ObjID]ObjID
	order  []ObjID
	srcs   map[SrcID]SrcID
	sorder []SrcID
	ks     map[KSym]KSym
	korder []KSym
	unk    map[int]int
	slots  []Lin          // old expressions
	roots  map[int]parity // slots of numbers of which no other number says whether they are odd
	starts []int          // slots at which texts begin that the running function holds
	steps  []int          // slots of numbers that it holds
	cells  map[int]bool   // slots at which newline counts are kept
	nums   map[int]bool   // slots that numbers and bytes of the program hold
	nextO  ObjID
}

// parity keeps apart numbers of the running function that differ modulo two.
func (c *canonizer) parity(n *State, at int) {
	p, ok := c.old.parityOf(c.slots[at])
	if !ok {
		return
	}
	if p.root != 0 {
		found := false
		for k := range c.slots[:at] {
			q, ok := c.roots[k]
			if !ok || q.root == 0 {
				continue
			}
			if d, ok := c.old.zone.constOf(linS(p.root).sub(linS(q.root))); ok {
				p, found = parity{root: Sym(k + 1), odd: p.odd != q.odd != (d&1 == 1)}, true
				break
			}
		}
		if !found {
			if c.roots == nil {
				c.roots = map[int]parity{}
			}
			c.roots[at] = p
			return
		}
	}
	fmt.Fprintf(&c.key, "odd%d%v", p.root, p.odd)
	if n.odd == nil {
		n.odd = map[Sym]parity{}
	}
	n.odd[Sym(at+1)] = p
}

// num is lin for a number the program holds.
func (c *canonizer) num(l Lin) Lin {
	if c.nums == nil {
		c.nums = map[int]bool{}
	}
	c.nums[len(c.slots)] = true
	return c.lin(l)
}

func (c *canonizer) lin(l Lin) Lin {
	c.slots = append(c.slots, l)
	fmt.Fprintf(&c.key, "#")
	return linS(Sym(len(c.slots)))
}

func (c *canonizer) src(id SrcID) SrcID {
	if id == 0 {
		return 0
	}
	if n, ok := c.srcs[id]; ok {
		return n
	}
	n := SrcID(len(c.sorder) + 1)
	c.srcs[id] = n
	c.sorder = append(c.sorder, id)
	return n
}

func (c *canonizer) obj(id ObjID) ObjID {
	if _, ok := c.e.base[id]; ok {
		return id
	}
	if n, ok := c.objs[id]; ok {
		return n
	}
	c.nextO++
	n := c.nextO
	c.objs[id] = n
	c.order = append(c.order, id)
	return n
}

func (c *canonizer) seq(s Seq) Seq {
	s = c.old.norm(s)
	if len(s) > 8 {
		s = c.old.newText("unknown text")
	}
	c.key.WriteByte('<')
	var r Seq
	for _, a := range s {
		if a.isConst() {
			fmt.Fprintf(&c.key, "%q", a.Const)
			r = append(r, a)
			continue
		}
		n := c.src(a.Src)
		fmt.Fprintf(&c.key, "T%d%v", n, a.Rev)
		r = append(r, Atom{Src: n, Rev: a.Rev, A: c.lin(a.A), B: c.lin(a.B)})
	}
	c.key.WriteByte('>')
	return r
}

func (c *canonizer) vals(vs []Value) []Value {
	if vs == nil {
		return nil
	}
	r := make([]Value, len(vs))
	for i, v := range vs {
		r[i] = c.val(v)
		c.key.WriteByte(',')
	}
	return r
}

func (c *canonizer) val(v Value) Value {
	k := &c.key
	switch v := v.(type) {
	case nil:
		k.WriteByte('_')
		return nil
	case VInt:
		k.WriteByte('i')
		return VInt{c.num(v.L)}
	case VBool:
		fmt.Fprintf(k, "%v", v.B)
		return v
	case VNil:
		k.WriteByte('0')
		return v
	case VPtr:
		n := c.obj(v.Obj)
		fmt.Fprintf(k, "&%d%x", n, v.Path)
		return VPtr{n, v.Path}
	case VElemPtr:
		n := c.obj(v.Obj)
		fmt.Fprintf(k, "&e%d", n)
		return VElemPtr{n, c.lin(v.Idx)}
	case VBytePtr:
		k.WriteString("&b")
		return VBytePtr{c.seq(v.S), c.lin(v.Off)}
	case VStr:
		k.WriteByte('s')
		return VStr{c.seq(v.S)}
	case VBytes:
		k.WriteByte('b')
		return VBytes{c.seq(v.S)}
	case VBuf:
		k.WriteByte('B')
		return VBuf{c.seq(c.old.place(v.S))}
	case VByte:
		n := c.src(v.Src)
		fmt.Fprintf(k, "y%d", n)
		return VByte{n, c.num(v.Off)}
	case VIface:
		fmt.Fprintf(k, "I%v:", v.T)
		return VIface{v.T, c.val(v.V)}
	case VFunc:
		fmt.Fprintf(k, "F%s(", v.Fn.String())
		return VFunc{v.Fn, c.vals(v.Bind)}
	case VCallback:
		fmt.Fprintf(k, "C%s", v.Name)
		return v
	case VStruct:
		k.WriteByte('{')
		return VStruct{c.vals(v.F)}
	case VTuple:
		k.WriteByte('(')
		return VTuple{c.vals(v.V)}
	case VSlice:
		n := c.obj(v.Obj)
		fmt.Fprintf(k, "S%d", n)
		return VSlice{n, c.lin(v.Off), c.lin(v.Len), v.Full}
	case VMap:
		n := c.obj(v.Obj)
		fmt.Fprintf(k, "M%d", n)
		return VMap{n}
	case VKind:
		n, ok := c.ks[v.K]
		if !ok {
			n = KSym(len(c.korder) + 1)
			c.ks[v.K] = n
			c.korder = append(c.korder, v.K)
		}
		fmt.Fprintf(k, "K%d", n)
		return VKind{n}
	case VUnk:
		if v.ID <= 0 {
			fmt.Fprintf(k, "U%d", v.ID)
			return v
		}
		n, ok := c.unk[v.ID]
		if !ok {
			n = len(c.unk) + 1
			c.unk[v.ID] = n
		}
		fmt.Fprintf(k, "U%d:%v", n, v.T)
		if b, ok := c.old.unkB[v.ID]; ok {
			fmt.Fprintf(k, "=%v", b)
		}
		return VUnk{n, v.T}
	case VErr:
		fmt.Fprintf(k, "E%s%v", v.Tags, v.Open)
		return v
	case VRange:
		n := c.obj(v.Obj)
		fmt.Fprintf(k, "R%d", n)
		return VRange{n}
	case VType:
		fmt.Fprintf(k, "t%v", v.T)
		return v
	}
	fmt.Fprintf(k, "?%T", v)
	return v
}

func (c *canonizer) object(o *Object) *Object {
	n := *o
	k := &c.key
	if o.mark != 0 {
		fmt.Fprintf(k, "m%d", o.mark)
	}
	switch o.kind {
	case oPlain:
		fmt.Fprintf(k, "P%v%v=", o.typ, o.frozen)
		n.val = c.val(o.val)
	case oSeg:
		fmt.Fprintf(k, "G%v", o.frozen)
		n.text = c.seq(o.text)
		n.prev, n.next = c.val(o.prev), c.val(o.next)
		if len(o.bad) > 0 {
			k.WriteString("!" + strings.Join(o.bad, "|"))
		}
	case oList:
		fmt.Fprintf(k, "L%v%v[", o.typ, o.frozen)
		n.elems = nil
		for _, el := range o.elems {
			m := el
			if el.sum {
				k.WriteByte('*')
				m.seq = c.seq(el.seq)
				m.n = c.lin(el.n)
				k.WriteString(strings.Join(el.bad, "|"))
			} else {
				m.val = c.val(el.val)
			}
			k.WriteByte(';')
			n.elems = append(n.elems, m)
		}
	case oMap:
		fmt.Fprintf(k, "M%v[", o.open)
		n.keys, n.vals = c.vals(o.keys), c.vals(o.vals)
	case oIter:
		it := *o.iter
		fmt.Fprintf(k, "R%v%v@%d", it.isStr, it.order, it.pos)
		if it.m != 0 {
			it.m = c.obj(it.m)
		}
		if it.isStr {
			it.str = c.seq(it.str)
			it.off = c.lin(it.off)
		}
		n.iter = &it
	}
	k.WriteByte('\n')
	return &n
}

// liveRegs returns the registers of a frame that may still be read, for the state as it stands.
func (st *State) liveRegs(depth int) map[int]bool {
	f := st.frames[depth]
	if depth == len(st.frames)-1 {
		return f.info.liveAt(f.block, f.pc)
	}
	// suspended in a call
	b := f.fn.Blocks[f.block]
	if f.pc < len(b.Instrs) {
		live := f.info.liveAt(f.block, f.pc+1)
		if v, ok := b.Instrs[f.pc].(interface{ Name() string }); ok {
			_ = v
		}
		return live
	}
	return f.info.liveAt(f.block, f.pc)
}

// canon renames and folds a state. It modifies st (folding) and returns the canonical copy.
func (e *Engine) canon(st *State, extra string) *canonical {
	lives := make([]map[int]bool, len(st.frames))
	for i, f := range st.frames {
		lives[i] = st.liveRegs(i)
		for r := range f.regs {
			if !lives[i][r] {
				f.regs[r] = nil
			}
		}
		if i < len(st.frames)-1 {
			// the call instruction defines its register after the return
			b := f.fn.Blocks[f.block]
			if f.pc < len(b.Instrs) {
				if v, ok := b.Instrs[f.pc].(interface {
					Name() string
				}); ok {
					_ = v
				}
			}
		}
	}
	if e.cfg.keepPreds {
		st.congruent()
	}
	// constants hidden in the zone
	e.fold(st)

	c := &canonizer{old: st, e: e, objs: map[ObjID]ObjID{}, srcs: map[SrcID]SrcID{}, ks: map[KSym]KSym{}, unk: map[int]int{}, nextO: e.baseMax}
	c.key.WriteString(extra)
	n := &State{e: e, heap: map[ObjID]*Object{}, kinds: map[KSym]KindSet{}, ghost: map[string]Value{}, trace: st.trace, panicV: st.panicV, bad: st.bad}
	for _, b := range st.bad {
		c.key.WriteString("!!" + b)
	}
	for _, k := range st.ghostKeys() {
		c.key.WriteString(k + "=")
		n.ghost[k] = c.val(st.ghost[k])
		c.key.WriteByte('\n')
	}
	given := len(c.slots)
	for _, ev := range st.events {
		c.key.WriteString("ev " + ev.Name)
		n.events = append(n.events, Event{ev.Name, c.vals(ev.Args), ev.Pos})
	}
	var lens []lenDef
	for fi, f := range st.frames {
		g := *f
		fmt.Fprintf(&c.key, "frame %s %d.%d %v%v\n", f.fn.String(), f.block, f.pc, f.isDefer, f.unwinding)
		g.regs = make([]Value, len(f.regs))
		for r, v := range f.regs {
			if v != nil {
				fmt.Fprintf(&c.key, "r%d=", r)
				at := len(c.slots)
				g.regs[r] = c.val(v)
				switch v.(type) {
				case VInt:
					if e.parity && fi == len(st.frames)-1 {
						c.parity(n, at)
					}
					if fi == len(st.frames)-1 && !c.slots[at].isConst() {
						c.steps = append(c.steps, at)
					}
				case VStr, VBytes:
					if fi == len(st.frames)-1 && len(c.slots) == at+2 && !c.slots[at].isConst() {
						c.starts = append(c.starts, at)
					}
					if fi == len(st.frames)-1 && len(c.slots) == at+2 && !c.slots[at].isConst() && !c.slots[at+1].sub(c.slots[at]).isConst() {
						lens = append(lens, lenDef{a: Sym(at + 1), b: Sym(at + 2)})
					}
				}
			}
		}
		g.bind = nil
		g.defers = nil
		for _, d := range f.defers {
			c.key.WriteString("defer")
			g.defers = append(g.defers, deferred{c.val(d.fn), c.vals(d.args), d.call})
		}
		n.frames = append(n.frames, &g)
	}
	// changed globals
	var glob []ObjID
	for id := range st.heap {
		if _, ok := e.base[id]; ok {
			glob = append(glob, id)
		}
	}
	sort.Slice(glob, func(i, j int) bool { return glob[i] < glob[j] })
	for _, id := range glob {
		fmt.Fprintf(&c.key, "glob %d:", id)
		n.heap[id] = c.object(st.heap[id])
	}
	if e.cfg.foldKinds {
		for id, o := range st.heap {
			if o.kind != oPlain || !e.isNode(o.typ) {
				continue
			}
			s, ok := o.val.(VStruct)
			if !ok {
				continue
			}
			if k, ok := s.F[e.role.kind].(VStruct); ok && e.kindIndex(k) < 63 {
				t := VStruct{append([]Value(nil), s.F...)}
				t.F[e.role.kind] = st.newKind(1 << e.kindIndex(k))
				m := *o
				m.val = t
				st.set(id, &m)
			}
		}
	}
	type ownFact struct {
		src SrcID
		off Lin
	}
	done := map[int]bool{}
	for i := 0; i < len(c.order); i++ {
		id := c.order[i]
		o := st.obj(id)
		if o == nil {
			e.undecided(st, 0, "dangling abstract object")
		}
		at := len(c.slots)
		nn := c.object(o)
		if e.cfg.nodeLine != nil || e.cfg.monitor != nil {
			c.markCells(o, at)
		}
		n.heap[c.objs[id]] = nn
		// owners of node texts
		if o.kind == oPlain && e.isNode(o.typ) {
			if s, ok := o.val.(VStruct); ok {
				if t, ok := s.F[e.role.text].(VStr); ok && len(t.S) == 1 && !t.S[0].isConst() && st.srcs[t.S[0].Src].list {
					for fi := range st.elems {
						f := &st.elems[fi]
						if f.src == t.S[0].Src && f.line != nil && !done[fi] && st.zone.equal(f.off, t.S[0].A) {
							done[fi] = true
							c.key.WriteString("own")
							sid := c.src(f.src)
							off := c.lin(f.off)
							n.elems = append(n.elems, elemFact{src: sid, off: off, line: c.val(f.line), kind: c.val(f.kind)})
						}
					}
				}
			}
		}
	}
	if e.cfg.foldKinds {
		c.ends()
	}
	// sources
	n.srcs = map[SrcID]*Src{}
	for i := 0; i < len(c.sorder); i++ {
		s := *st.srcs[c.sorder[i]]
		fmt.Fprintf(&c.key, "src %s %v ", s.name, s.list)
		s.lens = c.src(s.lens)
		s.length = c.lin(s.length)
		s.nl0 = c.lin(s.nl0)
		s.parts = append([]part(nil), s.parts...)
		for k := range s.parts {
			s.parts[k].end = c.lin(s.parts[k].end)
		}
		if s.meta != nil {
			s.meta = c.val(s.meta)
			// objects reached only from here are not followed
		}
		n.srcs[SrcID(i+1)] = &s
	}
	// newline counts at known offsets
	nslots := len(c.slots)
	if e.cfg.monitor != nil {
		c.labelKey(given, nslots)
	}
	for _, id := range c.sorder {
		if e.cfg.monitor != nil {
			if st.srcs[id].name != labelSrc {
				continue
			}
			for k := 0; k < nslots; k++ {
				if c.cells[k] || c.nums[k] {
					n.nls = append(n.nls, nFact{c.srcs[id], linS(Sym(k + 1)), c.lin(st.nlAt(id, c.slots[k]))})
				}
			}
			continue
		}
		if e.cfg.nodeLine != nil {
			// always at the same places, so that states with the same objects stay comparable
			if s := st.srcs[id]; s.list || s.name != "input" {
				continue
			}
			for k := 0; k < nslots; k++ {
				if c.cells[k] {
					n.nls = append(n.nls, nFact{c.srcs[id], linS(Sym(k + 1)), c.lin(st.nlAt(id, c.slots[k]))})
					if c.nums[k] {
						n.nls = append(n.nls, nFact{c.srcs[id], linS(Sym(k + 1)).addC(1), c.lin(st.nlAt(id, c.slots[k].addC(1)))})
					}
				}
			}
			continue
		}
		has := false
		for _, f := range st.nls {
			if f.src == id {
				has = true
			}
		}
		if !has {
			continue
		}
		for k := 0; k < nslots; k++ {
			if v, ok := st.nlTry(id, c.slots[k]); ok {
				fmt.Fprintf(&c.key, "N%d@%d ", c.srcs[id], k)
				n.nls = append(n.nls, nFact{c.srcs[id], linS(Sym(k + 1)), c.lin(v)})
			}
			if !e.cfg.keepPreds || !c.nums[k] {
				continue
			}
			// a running index: what follows it
			if v, ok := st.nlTry(id, c.slots[k].addC(1)); ok {
				fmt.Fprintf(&c.key, "N%d@%d+1 ", c.srcs[id], k)
				n.nls = append(n.nls, nFact{c.srcs[id], linS(Sym(k + 1)).addC(1), c.lin(v)})
			}
		}
	}
	for _, p := range st.preds {
		sid, ok := c.srcs[p.src]
		ka, kb := -1, -1
		for k := 0; ok && k < nslots && (ka < 0 || kb < 0); k++ {
			if ka < 0 && st.zone.equal(c.slots[k], p.a) {
				ka = k
			}
			if kb < 0 && st.zone.equal(c.slots[k], p.b) {
				kb = k
			}
		}
		if ka >= 0 && kb >= 0 {
			fmt.Fprintf(&c.key, "pred%c%d@%d:%d%q%v ", p.op, sid, ka, kb, p.c, p.yes)
			n.preds = append(n.preds, predFact{p.op, sid, linS(Sym(ka + 1)), linS(Sym(kb + 1)), p.c, p.yes})
		} else if d, ok := st.zone.constOf(p.b.sub(p.a)); ok && ka >= 0 && !p.yes {
			// a part of fixed length
			fmt.Fprintf(&c.key, "pred%c%d@%d+%d%q%v ", p.op, sid, ka, d, p.c, p.yes)
			n.preds = append(n.preds, predFact{p.op, sid, linS(Sym(ka + 1)), linS(Sym(ka + 1)).addC(d), p.c, p.yes})
		}
	}
	// lengths of texts that the running function holds
	for i, d := range lens {
		c.lin(c.slots[d.b-1].sub(c.slots[d.a-1]))
		lens[i].l = Sym(len(c.slots))
	}
	// slots
	names := make([]Sym, len(c.slots))
	for i := range names {
		names[i] = Sym(i + 1)
	}
	n.zone = st.zone.project(names, c.slots)
	n.zone.lens = lens
	n.nextSym = Sym(len(names))
	n.nextObj = c.nextO
	n.nextSrc = SrcID(len(c.sorder))
	n.nextK = KSym(len(c.korder))
	n.nextUnk = len(c.unk)
	n.unkB = nil
	if len(st.unkB) > 0 {
		n.unkB = map[int]bool{}
		for id, b := range st.unkB {
			if k, ok := c.unk[id]; ok {
				n.unkB[k] = b
			}
		}
	}
	for i, k := range c.korder {
		n.kinds[KSym(i+1)] = st.kinds[k]
	}
	cc := &canonical{st: n, shape: c.key.String(), n: len(names), facts: map[string]ByteSet{}, cz: c}
	for i := range names {
		if v, ok := n.zone.constOf(linS(names[i])); ok {
			cc.cons = append(cc.cons, fmt.Sprint(v))
		} else {
			cc.cons = append(cc.cons, "")
		}
	}
	// byte facts near slots
	for _, f := range st.bytes {
		sid, ok := c.srcs[f.src]
		if !ok {
			continue
		}
		for k := 0; k < nslots; k++ {
			if c.slots[k].isConst() && f.off.isConst() == false || e.cfg.foldKinds && !c.nums[k] && st.srcs[f.src].name != labelSrc {
				continue
			}
			d, ok := st.zone.constOf(f.off.sub(c.slots[k]))
			if !ok || d < -2 || d > 8 || !c.nums[k] && e.cfg.foldKinds && d != 0 {
				continue
			}
			if d > 2 {
				if b, ok := f.set.single(); !ok || b == '\n' {
					continue
				}
			}
			key := fmt.Sprintf("%d|%d|%d", sid, k+1, d)
			if cur, ok := cc.facts[key]; ok {
				cc.facts[key] = cur.and(f.set)
			} else {
				cc.facts[key] = f.set
			}
		}
		// numbers may count from where a text begins
		for _, a := range c.starts {
			for _, k := range c.steps {
				if e.cfg.monitor == nil {
					continue
				}
				d, ok := st.zone.constOf(f.off.sub(c.slots[a]).sub(c.slots[k]))
				if !ok || d < -2 || d > 2 {
					continue
				}
				key := fmt.Sprintf("%d|%d|%d|%d", sid, k+1, d, a+1)
				if cur, ok := cc.facts[key]; ok {
					cc.facts[key] = cur.and(f.set)
				} else {
					cc.facts[key] = f.set
				}
			}
		}
	}
	cc.applyFacts()
	return cc
}

// markCells notes the slots of an object that may stand for a place in the input with a line of its own: a number
// in memory, the start of a text being built, the start of the text of a node.
func (c *canonizer) markCells(o *Object, at int) {
	if c.cells == nil {
		c.cells = map[int]bool{}
	}
	mark := func(x Lin) {
		for k := at; k < len(c.slots); k++ {
			if d := c.slots[k].sub(x); d.isConst() && d.c == 0 {
				c.cells[k] = true
				return
			}
		}
	}
	if o.kind != oPlain {
		return
	}
	var t Seq
	switch v := o.val.(type) {
	case VInt:
		mark(v.L)
	case VBuf:
		t = c.old.place(v.S)
	case VStruct:
		if c.e.isNode(o.typ) {
			if x, ok := v.F[c.e.role.text].(VStr); ok {
				t = c.old.norm(x.S)
			}
		}
	}
	if len(t) > 0 && !t[0].isConst() {
		mark(t[0].A)
		if c.e.cfg.monitor != nil {
			mark(t[len(t)-1].B)
		}
	}
}

// ends tells states apart by which texts end right at, or right after, a number kept in memory.
func (c *canonizer) ends() {
	var cells, ends []Lin
	for _, id := range c.order {
		var t Seq
		switch o := c.old.obj(id); o.kind {
		case oSeg:
			t = o.text
		case oPlain:
			switch v := o.val.(type) {
			case VInt:
				cells = append(cells, v.L)
			case VBuf:
				t = v.S
			case VStruct:
				if c.e.isNode(o.typ) {
					if x, ok := v.F[c.e.role.text].(VStr); ok {
						t = x.S
					}
				}
			}
		}
		if n := len(t); n > 0 && !t[n-1].isConst() {
			ends = append(ends, t[n-1].B)
		}
	}
	c.key.WriteString("ends ")
	for _, x := range cells {
		for _, y := range ends {
			if d, ok := c.old.zone.constOf(y.sub(x)); ok && (d == 0 || d == 1) {
				fmt.Fprint(&c.key, d)
			} else {
				c.key.WriteByte('.')
			}
		}
	}
	c.key.WriteByte('\n')
}

func (cc *canonical) applyFacts() {
	cc.st.bytes = nil
	var keys []string
	for k := range cc.facts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		var sid, slot, start int
		var d int64
		fmt.Sscanf(k, "%d|%d|%d|%d", &sid, &slot, &d, &start)
		if cc.facts[k] == allBytes() {
			continue
		}
		off := linS(Sym(slot)).addC(d)
		if start != 0 {
			off = off.add(linS(Sym(start)))
		}
		cc.st.bytes = append(cc.st.bytes, byteFact{SrcID(sid), off, cc.facts[k]})
	}
}

// nlTry is nlAt without inventing a symbol.
func (st *State) nlTry(src SrcID, off Lin) (Lin, bool) {
	if c, ok := st.zone.constOf(off); ok && c == 0 {
		return st.srcs[src].nl0, true
	}
	isList := st.srcs[src].list
	for _, f := range st.nls {
		if f.src != src {
			continue
		}
		if d, ok := st.zone.constOf(off.sub(f.off)); ok {
			if d == 0 {
				return f.val, true
			}
			if isList || d > 16 || d < -16 {
				continue
			}
			if k, ok := st.nlWalk(src, f.off, d); ok {
				return f.val.addC(k), true
			}
		}
	}
	return Lin{}, false
}

// --- headers --------------------------------------------------------------------------

type headGroup struct {
	mask     []bool
	variants map[string]*headEntry
	total    int
	visits   int
}

type headEntry struct {
	c     *canonical
	joins int
	stale bool // the joined state itself has not been explored
}

func (g *headGroup) ckey(c *canonical) string {
	var sb strings.Builder
	for i, v := range c.cons {
		if i < len(g.mask) && g.mask[i] {
			sb.WriteString("*,")
		} else {
			sb.WriteString(v + ",")
		}
	}
	return sb.String()
}

// absorb adds a canonical state to a group; it returns the state to explore, or nil when it is covered.
func (g *headGroup) absorb(c *canonical, limit int) *State {
	c.cz = nil
	if g.mask == nil {
		g.mask = make([]bool, c.n)
		g.variants = map[string]*headEntry{}
	}
	g.visits++
	key := g.ckey(c)
	ent := g.variants[key]
	if ent == nil && len(g.variants) >= limit {
		changed := false
		for _, o := range g.variants {
			for i := range c.cons {
				if c.cons[i] != o.c.cons[i] && !g.mask[i] {
					g.mask[i] = true
					changed = true
				}
			}
		}
		if changed {
			// restart the group; everything seen so far stays covered by joining it in again
			old := g.variants
			g.variants = map[string]*headEntry{}
			for _, o := range old {
				k := g.ckey(o.c)
				if g.variants[k] == nil {
					g.variants[k] = o
				} else {
					g.variants[k].c = joinCanon(g.variants[k].c, o.c, false)
					g.variants[k].stale = true
				}
			}
		}
		key = g.ckey(c)
		ent = g.variants[key]
	}
	if ent == nil {
		g.variants[key] = &headEntry{c: c}
		g.total++
		return c.st.clone()
	}
	if c.leq(ent.c) {
		if !ent.stale {
			return nil
		}
		ent.stale = false
		s := ent.c.st.clone()
		s.trace = c.st.trace
		return s
	}
	ent.stale = false
	ent.joins++
	tr := c.st.trace
	ent.c = joinCanon(ent.c, c, ent.joins > 3)
	s := ent.c.st.clone()
	s.trace = tr
	return s
}

func (c *canonical) leq(o *canonical) bool {
	if !c.st.zone.leq(o.st.zone) {
		return false
	}
	for k, s := range o.facts {
		if s == allBytes() {
			continue
		}
		t, ok := c.facts[k]
		if !ok || t.and(s) != t {
			return false
		}
	}
	for k, s := range o.st.kinds {
		if c.st.kinds[k]&^s != 0 {
			return false
		}
	}
	for id, ob := range o.st.heap {
		if ob.kind == oSeg && c.st.heap[id] != nil && c.st.heap[id].kinds&^ob.kinds != 0 {
			return false
		}
	}
	return true
}

func joinCanon(a, b *canonical, widen bool) *canonical {
	n := &canonical{st: a.st.clone(), shape: a.shape, n: a.n, facts: map[string]ByteSet{}}
	if widen {
		n.st.zone = a.st.zone.widen(a.st.zone.join(b.st.zone))
	} else {
		n.st.zone = a.st.zone.join(b.st.zone)
	}
	for k, s := range a.facts {
		if t, ok := b.facts[k]; ok {
			n.facts[k] = s.or(t)
		}
	}
	n.applyFacts()
	for k, s := range b.st.kinds {
		n.st.kinds[k] |= s
	}
	for id, ob := range b.st.heap {
		if ob.kind == oSeg {
			if x := n.st.heap[id]; x != nil && x.kinds|ob.kinds != x.kinds {
				y := *x
				y.kinds |= ob.kinds
				n.st.heap[id] = &y
			}
		}
	}
	n.cons = make([]string, n.n)
	for i := range n.cons {
		if v, ok := n.st.zone.constOf(linS(Sym(i + 1))); ok {
			n.cons[i] = fmt.Sprint(v)
		}
	}
	return n
}

func (e *Engine) checkpoint(u *Unit, st *State) []*State {
	if e.cfg.atHeader != nil {
		e.cfg.atHeader(e, u, st)
	}
	if e.cfg.monitor == nil {
		return e.checkpoint1(u, st)
	}
	var out []*State
	for _, s := range e.cfg.monitor(e, st) {
		out = append(out, e.checkpoint1(u, s)...)
	}
	return out
}

func (e *Engine) checkpoint1(u *Unit, st *State) []*State {
	name := headerName(st, len(st.frames)-1, st.top().block)
	c := e.canon(st, name+"\n")
	g := u.headers[c.shape]
	if g == nil {
		g = &headGroup{}
		u.headers[c.shape] = g
		e.nshapes++
		if e.debugHeads {
			fmt.Printf("--- new shape (%d) in %s\n%s\nzone %v\n", len(u.headers), u.name, c.shape, c.st.zone.compact()+"\nfacts"+c.st.factLine())
		}
	}
	s := g.absorb(c, u.variants(st.top().info, st.top().block, name))
	if s == nil {
		return nil
	}
	return []*State{s}
}

// --- folding -----------------------------------------------------------------------------

func (e *Engine) refsOf(v Value, f func(ObjID)) {
	switch v := v.(type) {
	case VPtr:
		f(v.Obj)
	case VElemPtr:
		f(v.Obj)
	case VSlice:
		f(v.Obj)
	case VMap:
		f(v.Obj)
	case VRange:
		f(v.Obj)
	case VIface:
		e.refsOf(v.V, f)
	case VFunc:
		for _, b := range v.Bind {
			e.refsOf(b, f)
		}
	case VStruct:
		for _, b := range v.F {
			e.refsOf(b, f)
		}
	case VTuple:
		for _, b := range v.V {
			e.refsOf(b, f)
		}
	}
}

func (e *Engine) objRefs(o *Object, f func(ObjID)) {
	switch o.kind {
	case oPlain:
		e.refsOf(o.val, f)
	case oSeg:
		e.refsOf(o.prev, f)
		e.refsOf(o.next, f)
	case oList:
		for _, el := range o.elems {
			if !el.sum {
				e.refsOf(el.val, f)
			}
		}
	case oMap:
		for i := range o.keys {
			e.refsOf(o.keys[i], f)
			e.refsOf(o.vals[i], f)
		}
	case oIter:
		if !o.iter.isStr {
			f(o.iter.m)
		}
	}
}

// rootRefs calls f for every reference from registers, ghosts and changed globals.
func (e *Engine) rootRefs(st *State, f func(ObjID)) {
	for _, v := range st.ghost {
		e.refsOf(v, f)
	}
	for _, ev := range st.events {
		for _, a := range ev.Args {
			e.refsOf(a, f)
		}
	}
	for _, fr := range st.frames {
		for _, v := range fr.regs {
			e.refsOf(v, f)
		}
		for _, d := range fr.defers {
			e.refsOf(d.fn, f)
			for _, a := range d.args {
				e.refsOf(a, f)
			}
		}
	}
}

// links returns the prev and next values of a node or segment.
func (e *Engine) links(o *Object) (Value, Value) {
	if o.kind == oSeg {
		return o.prev, o.next
	}
	s := o.val.(VStruct)
	return s.F[e.role.prev], s.F[e.role.next]
}

func (e *Engine) isChainObj(o *Object) bool {
	return o != nil && (o.kind == oSeg || o.kind == oPlain && e.isNode(o.typ))
}

func ptrTo(v Value) ObjID {
	if p, ok := v.(VPtr); ok && p.Path == "" {
		return p.Obj
	}
	return 0
}

// fold summarises nodes nobody points at into segments and drops unreachable objects.
func (e *Engine) fold(st *State) {
	if e.cfg.preFold != nil {
		e.cfg.preFold(e, st)
	}
	if e.cfg.foldLists {
		e.foldLists(st)
	}
	ext := map[ObjID]bool{}
	reach := map[ObjID]bool{}
	var work []ObjID
	visit := func(id ObjID) {
		if !reach[id] {
			reach[id] = true
			work = append(work, id)
		}
	}
	e.rootRefs(st, func(id ObjID) { ext[id] = true; visit(id) })
	for id := range st.heap {
		if _, ok := e.base[id]; ok {
			visit(id)
		}
	}
	for len(work) > 0 {
		id := work[len(work)-1]
		work = work[:len(work)-1]
		o := st.obj(id)
		if o == nil {
			continue
		}
		if _, isBase := e.base[id]; isBase && st.heap[id] == nil {
			continue
		}
		if e.isChainObj(o) {
			p, n := e.links(o)
			pid, nid := ptrTo(p), ptrTo(n)
			if pid != 0 {
				visit(pid)
				if po := st.obj(pid); e.isChainObj(po) {
					if _, pn := e.links(po); ptrTo(pn) != id {
						ext[pid] = true // dangling link into pid
						ext[id] = true
					}
				}
			}
			if nid != 0 {
				visit(nid)
				if no := st.obj(nid); e.isChainObj(no) {
					if np, _ := e.links(no); ptrTo(np) != id {
						ext[nid] = true
						ext[id] = true
					}
				}
			}
			continue
		}
		e.objRefs(o, func(r ObjID) { ext[r] = true; visit(r) })
	}
	var ids []ObjID
	for id := range st.heap {
		if reach[id] {
			ids = append(ids, id)
			continue
		}
		if _, isBase := e.base[id]; isBase {
			continue
		}
		if e.cfg.dropNode != nil && e.isChainObj(st.heap[id]) {
			e.cfg.dropNode(e, st, id)
		}
	}
	for id := range st.heap {
		if _, isBase := e.base[id]; !reach[id] && !isBase {
			delete(st.heap, id)
		}
	}
	if e.cfg.noFold {
		return
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		o := st.heap[id]
		if o == nil || o.kind != oPlain || !e.isNode(o.typ) || ext[id] {
			continue
		}
		s, ok := o.val.(VStruct)
		if !ok {
			continue
		}
		t, ok := s.F[e.role.text].(VStr)
		if !ok {
			continue
		}
		seg := &Object{kind: oSeg, typ: o.typ, text: st.place(t.S), prev: s.F[e.role.prev], next: s.F[e.role.next],
			kinds: st.kindSetOf(s.F[e.role.kind]), frozen: o.frozen}
		if e.cfg.onNode != nil {
			seg.mark = markSeen
			if m := e.leaves(st, o); m != "" {
				st.bad = addBad(st.bad, m)
			}
		}
		if e.cfg.nodeCheck != nil {
			if m := e.cfg.nodeCheck(e, st, s); m != "" {
				seg.bad = []string{m}
				if e.cfg.failFast {
					e.halt(st, m)
				}
			}
		}
		st.set(id, seg)
	}
	for _, id := range ids {
		for {
			a := st.heap[id]
			if a == nil || a.kind != oSeg || ext[id] {
				break
			}
			nid := ptrTo(a.next)
			b := st.heap[nid]
			if nid == 0 || b == nil || b.kind != oSeg || ptrTo(b.prev) != id || nid == id || a.frozen != b.frozen || a.mark != b.mark || ext[nid] {
				break
			}
			m := *a
			m.text = st.norm(catSeq(a.text, b.text))
			if len(m.text) > 6 {
				m.bad = addBad(m.bad, "texts of neighbouring nodes are not adjacent pieces of the input: "+e.describeSeq(st, m.text))
				m.text = st.newText("unknown text")
				if e.cfg.failFast {
					e.halt(st, "texts of neighbouring nodes are not adjacent pieces of the input")
				}
			}
			m.kinds |= b.kinds
			m.next = b.next
			for _, x := range b.bad {
				m.bad = addBad(m.bad, x)
			}
			st.set(id, &m)
			if rid := ptrTo(b.next); rid != 0 {
				if r := st.obj(rid); e.isChainObj(r) {
					if rp, _ := e.links(r); ptrTo(rp) == nid {
						e.relink(st, rid, false, id)
					}
				}
			}
			delete(st.heap, nid)
		}
	}
}

func addBad(l []string, m string) []string {
	for _, x := range l {
		if x == m {
			return l
		}
	}
	if len(l) >= 4 {
		return l
	}
	r := append(append([]string(nil), l...), m)
	sort.Strings(r)
	return r
}

func (e *Engine) describeSeq(st *State, s Seq) string {
	var out []string
	for _, a := range s {
		if a.isConst() {
			out = append(out, fmt.Sprintf("%q", a.Const))
		} else {
			out = append(out, fmt.Sprintf("%s[..]", st.srcs[a.Src].name))
		}
	}
	return strings.Join(out, "+")
}

// foldLists summarises list elements.
func (e *Engine) foldLists(st *State) {
	var ids []ObjID
	for id, o := range st.heap {
		if o.kind == oList {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, id := range ids {
		o := st.heap[id]
		var out []LElem
		changed := false
		for _, el := range o.elems {
			if !el.sum {
				if v, ok := el.val.(VStr); ok {
					el = LElem{sum: true, seq: st.norm(v.S), n: linC(1)}
					changed = true
				} else if e.cfg.foldElem != nil {
					if ne, ok := e.cfg.foldElem(e, st, o, el); ok {
						el = ne
						changed = true
					}
				}
			} else if n := st.norm(el.seq); len(n) != len(el.seq) {
				el.seq = n
				changed = true
			}
			if len(out) > 0 && el.sum && out[len(out)-1].sum {
				l := out[len(out)-1]
				l.seq = st.norm(catSeq(l.seq, el.seq))
				l.n = l.n.add(el.n)
				for _, b := range el.bad {
					l.bad = addBad(l.bad, b)
				}
				out[len(out)-1] = l
				changed = true
				continue
			}
			out = append(out, el)
		}
		if changed {
			n := *o
			n.elems = out
			st.set(id, &n)
		}
	}
}
