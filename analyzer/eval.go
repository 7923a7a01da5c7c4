package main

import (
	"go/token"
	"go/types"
	"math/bits"

	"golang.org/x/tools/go/ssa"
)

func ok1(st *State, v Value) ([]resv, []panicRes) { return one(st, v), nil }

func (e *Engine) eval(u *Unit, st *State, in ssa.Instruction) ([]resv, []panicRes) {
	f := st.top()
	pos := in.Pos()
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		return ok1(st, st.allocVal(t, e.zero(t)))
	case *ssa.BinOp:
		return e.binop(st, in.Op, e.val(st, f, in.X), e.val(st, f, in.Y), in, pos)
	case *ssa.UnOp:
		x := e.val(st, f, in.X)
		switch in.Op {
		case token.MUL:
			return e.load(st, x, pos)
		case token.NOT:
			switch x := x.(type) {
			case VBool:
				return ok1(st, VBool{!x.B})
			default:
				var out []resv
				for _, r := range e.truth(st, x) {
					out = append(out, resv{r.st, VBool{!r.b}})
				}
				return out, nil
			}
		case token.SUB:
			if x, ok := x.(VInt); ok {
				return ok1(st, VInt{x.L.neg()})
			}
			return ok1(st, e.fresh(st, in.Type(), "neg"))
		case token.XOR:
			return ok1(st, e.fresh(st, in.Type(), "xor"))
		}
	case *ssa.ChangeType:
		return ok1(st, e.val(st, f, in.X))
	case *ssa.ChangeInterface:
		return ok1(st, e.val(st, f, in.X))
	case *ssa.MakeInterface:
		return ok1(st, e.mkIface(in.X.Type(), e.val(st, f, in.X)))
	case *ssa.Convert:
		return e.convert(st, in.X.Type(), in.Type(), e.val(st, f, in.X), pos)
	case *ssa.MultiConvert:
		return e.convert(st, in.X.Type(), in.Type(), e.val(st, f, in.X), pos)
	case *ssa.MakeClosure:
		var bind []Value
		for _, b := range in.Bindings {
			bind = append(bind, e.val(st, f, b))
		}
		return ok1(st, VFunc{in.Fn.(*ssa.Function), bind})
	case *ssa.MakeMap:
		o := st.alloc(&Object{kind: oMap, typ: in.Type()})
		return ok1(st, VMap{o})
	case *ssa.MakeSlice:
		t := in.Type().Underlying().(*types.Slice).Elem()
		n, ok := e.val(st, f, in.Len).(VInt)
		if !ok {
			break
		}
		var pan []panicRes
		var out []resv
		for _, r := range e.cmpLE(st, linC(0), n.L) {
			if !r.b {
				pan = append(pan, panicRes{r.st, "makeslice: len out of range"})
				continue
			}
			out = append(out, resv{r.st, e.makeSlice(r.st, t, n.L)})
		}
		return out, pan
	case *ssa.Extract:
		t, ok := e.val(st, f, in.Tuple).(VTuple)
		if !ok {
			e.undecided(st, pos, "extract from %s", showVal(e.val(st, f, in.Tuple)))
		}
		return ok1(st, t.V[in.Index])
	case *ssa.Field:
		x := e.val(st, f, in.X)
		if s, ok := x.(VStruct); ok {
			return ok1(st, s.F[in.Field])
		}
		if _, ok := x.(VUnk); ok {
			return ok1(st, e.fresh(st, in.Type(), "field"))
		}
	case *ssa.FieldAddr:
		x := e.val(st, f, in.X)
		switch x := x.(type) {
		case VPtr:
			return ok1(st, VPtr{x.Obj, pathAppend(x.Path, in.Field)})
		case VNil:
			return nil, []panicRes{{st, "nil pointer dereference"}}
		case VUnk:
			if pt, ok := in.X.Type().Underlying().(*types.Pointer); ok && e.cfg.derefUnk != nil {
				rs, pan := e.cfg.derefUnk(e, st, x, pt.Elem(), pos)
				for i, r := range rs {
					p := r.val.(VPtr)
					rs[i].val = VPtr{p.Obj, pathAppend(p.Path, in.Field)}
				}
				return rs, pan
			}
		}
		e.undecided(st, pos, "field of %s", showVal(x))
	case *ssa.IndexAddr:
		return e.indexAddr(st, e.val(st, f, in.X), e.val(st, f, in.Index), in, pos)
	case *ssa.Index:
		x, i := e.val(st, f, in.X), e.val(st, f, in.Index)
		switch x := x.(type) {
		case VStr:
			return e.byteAt(st, x.S, i, pos)
		case VStruct:
			if iv, ok := i.(VInt); ok {
				if c, ok := st.zone.constOf(iv.L); ok && c >= 0 && int(c) < len(x.F) {
					return ok1(st, x.F[c])
				}
			}
			return ok1(st, e.fresh(st, in.Type(), "index"))
		case VKind:
			return ok1(st, e.fresh(st, in.Type(), "kind name"))
		}
	case *ssa.Lookup:
		x, k := e.val(st, f, in.X), e.val(st, f, in.Index)
		if s, ok := x.(VStr); ok {
			return e.byteAt(st, s.S, k, pos)
		}
		return e.mapLookup(st, x, k, in.CommaOk, in.Type(), in.X.Type(), pos), nil
	case *ssa.Slice:
		return e.slice(st, in, pos)
	case *ssa.TypeAssert:
		return e.typeAssert(st, e.val(st, f, in.X), in)
	case *ssa.Range:
		x := e.val(st, f, in.X)
		it := &iterState{}
		switch x := x.(type) {
		case VStr:
			it.isStr, it.str = true, st.norm(x.S)
		case VMap:
			it.m = x.Obj
			o := st.obj(x.Obj)
			if o.open {
				e.undecided(st, pos, "iteration over an unknown map")
			}
			n := len(o.keys)
			for k := 0; k < n; k++ {
				it.order = append(it.order, k)
			}
		case VNil:
		default:
			e.undecided(st, pos, "range over %s", showVal(x))
		}
		return ok1(st, VRange{st.alloc(&Object{kind: oIter, iter: it})})
	case *ssa.Next:
		return e.next(st, e.val(st, f, in.Iter).(VRange), in, pos)
	case *ssa.SliceToArrayPointer, *ssa.MakeChan:
	}
	e.undecided(st, pos, "instruction %v (%T) is not modelled", in, in)
	return nil, nil
}

func (e *Engine) mkIface(t types.Type, v Value) Value {
	if _, ok := v.(VErr); ok {
		return v
	}
	if u, ok := v.(VUnk); ok {
		return VIface{t, u}
	}
	return VIface{t, v}
}

func (e *Engine) makeSlice(st *State, t types.Type, n Lin) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		if c, ok := st.zone.constOf(n); ok && c == 0 {
			return VBytes{}
		}
		id := st.newSrc("make", false, n)
		return VBytes{Seq{{Src: id, A: linC(0), B: n}}}
	}
	var el []LElem
	if c, ok := st.zone.constOf(n); ok && c <= 64 {
		for i := int64(0); i < c; i++ {
			el = append(el, LElem{val: e.zero(t)})
		}
	} else {
		el = []LElem{{sum: true, n: n, seq: nil, bad: []string{"zero elements"}}}
	}
	o := st.alloc(&Object{kind: oList, typ: t, elems: el})
	return VSlice{Obj: o, Len: n}
}

func cmpVals(rs []boolRes, neg bool) []resv {
	var out []resv
	for _, r := range rs {
		out = append(out, resv{r.st, VBool{r.b != neg}})
	}
	return out
}

func (e *Engine) binop(st *State, op token.Token, x, y Value, in *ssa.BinOp, pos token.Pos) ([]resv, []panicRes) {
	switch op {
	case token.EQL:
		return cmpVals(e.eq(st, x, y, pos), false), nil
	case token.NEQ:
		return cmpVals(e.eq(st, x, y, pos), true), nil
	}
	switch xv := x.(type) {
	case VInt:
		if yv, ok := y.(VInt); ok {
			switch op {
			case token.ADD:
				return ok1(st, VInt{xv.L.add(yv.L)})
			case token.SUB:
				return ok1(st, VInt{xv.L.sub(yv.L)})
			case token.MUL:
				if c, ok := st.zone.constOf(xv.L); ok {
					return ok1(st, VInt{yv.L.scale(c)})
				}
				if c, ok := st.zone.constOf(yv.L); ok {
					return ok1(st, VInt{xv.L.scale(c)})
				}
				r := st.newInt()
				if st.zone.lb(xv.L) >= 0 && st.zone.lb(yv.L) >= 0 {
					st.zone.assumeLE(r.neg())
				}
				return ok1(st, VInt{r})
			case token.LEQ:
				return cmpVals(e.cmpLE(st, xv.L, yv.L), false), nil
			case token.LSS:
				return cmpVals(e.cmpLE(st, yv.L, xv.L), true), nil
			case token.GEQ:
				return cmpVals(e.cmpLE(st, yv.L, xv.L), false), nil
			case token.GTR:
				return cmpVals(e.cmpLE(st, xv.L, yv.L), true), nil
			case token.QUO, token.REM, token.SHL, token.SHR, token.AND, token.OR, token.XOR, token.AND_NOT:
				a, okA := st.zone.constOf(xv.L)
				b, okB := st.zone.constOf(yv.L)
				if okA && okB {
					switch op {
					case token.QUO:
						if b != 0 {
							return ok1(st, VInt{linC(a / b)})
						}
					case token.REM:
						if b != 0 {
							return ok1(st, VInt{linC(a % b)})
						}
					case token.SHL:
						if b >= 0 && b < 63 {
							return ok1(st, VInt{linC(a << uint(b))})
						}
					case token.SHR:
						if b >= 0 && b < 64 {
							return ok1(st, VInt{linC(a >> uint(b))})
						}
					case token.AND:
						return ok1(st, VInt{linC(a & b)})
					case token.OR:
						return ok1(st, VInt{linC(a | b)})
					case token.XOR:
						return ok1(st, VInt{linC(a ^ b)})
					case token.AND_NOT:
						return ok1(st, VInt{linC(a &^ b)})
					}
				}
				if odd, ok := st.isOdd(xv.L); ok && okB && (op == token.AND && b == 1 || op == token.REM && b == 2 && (!odd || st.zone.lb(xv.L) >= 0)) {
					n := int64(0)
					if odd {
						n = 1
					}
					return ok1(st, VInt{linC(n)})
				}
				var pan []panicRes
				if op == token.QUO || op == token.REM {
					if okB && b == 0 {
						return nil, []panicRes{{st, "division by zero"}}
					}
					if !okB {
						s2 := st.clone()
						pan = append(pan, panicRes{s2, "division by zero"})
					}
				}
				r := st.newInt()
				if okB && b > 0 && st.zone.lb(xv.L) >= 0 {
					st.zone.assumeLE(r.neg())
					switch op {
					case token.REM:
						st.zone.assumeLE(r.addC(1 - b))
						st.zone.assumeLE(r.sub(xv.L))
					case token.QUO, token.SHR, token.AND:
						st.zone.assumeLE(r.sub(xv.L))
					}
				}
				return one(st, VInt{r}), pan
			}
		}
		if yv, ok := y.(VByte); ok {
			switch op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				flip := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ}
				return e.binop(st, flip[op], yv, xv, in, pos)
			}
			return ok1(st, e.intFromByte(st, in.Type()))
		}
	case VByte:
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if yv, ok := y.(VInt); ok {
				if c, ok := st.zone.constOf(yv.L); ok {
					var set ByteSet
					for b := int64(0); b < 256; b++ {
						if op == token.LSS && b < c || op == token.LEQ && b <= c || op == token.GTR && b > c || op == token.GEQ && b >= c {
							set.add(byte(b))
						}
					}
					return cmpVals(e.byteIn(st, xv, set), false), nil
				}
			}
			return cmpVals(e.unkFork(st, ""), false), nil
		}
		return ok1(st, e.intFromByte(st, in.Type()))
	case VStr:
		if yv, ok := y.(VStr); ok {
			if op == token.ADD {
				return ok1(st, VStr{st.norm(catSeq(xv.S, yv.S))})
			}
			a, okA := xv.S.constVal()
			b, okB := yv.S.constVal()
			if okA && okB {
				r := false
				switch op {
				case token.LSS:
					r = a < b
				case token.LEQ:
					r = a <= b
				case token.GTR:
					r = a > b
				case token.GEQ:
					r = a >= b
				}
				return ok1(st, VBool{r})
			}
			return cmpVals(e.unkFork(st, ""), false), nil
		}
	case VBool:
		if yv, ok := y.(VBool); ok {
			switch op {
			case token.AND:
				return ok1(st, VBool{xv.B && yv.B})
			case token.OR:
				return ok1(st, VBool{xv.B || yv.B})
			}
		}
	}
	if b, ok := in.Type().Underlying().(*types.Basic); ok {
		if b.Info()&types.IsBoolean != 0 {
			return cmpVals(e.unkFork(st, ""), false), nil
		}
		return ok1(st, e.fresh(st, in.Type(), "arith"))
	}
	e.undecided(st, pos, "operation %v on %s and %s", op, showVal(x), showVal(y))
	return nil, nil
}

func (e *Engine) intFromByte(st *State, t types.Type) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return e.fresh(st, t, "byte")
	}
	r := st.newInt()
	return VInt{r}
}

// isNodeLink reports whether the path selects the prev (1) or next (2) field of a node object.
func (e *Engine) linkOf(o *Object, path string) int {
	if o == nil || !e.isNode(o.typ) || len(path) != 2 {
		return 0
	}
	switch int(path[0])<<8 | int(path[1]) {
	case e.role.prev:
		return 1
	case e.role.next:
		return 2
	}
	return 0
}

func (e *Engine) load(st *State, addr Value, pos token.Pos) ([]resv, []panicRes) {
	switch a := addr.(type) {
	case VNil:
		return nil, []panicRes{{st, "nil pointer dereference"}}
	case VExtGlobal:
		if v, ok := e.externalGlobal(st, a.G); ok {
			return ok1(st, v)
		}
		e.undecided(st, pos, "global %s of another module", a.G)
	case VPtr:
		o := st.obj(a.Obj)
		if o == nil {
			e.undecided(st, pos, "load through a dangling abstract pointer")
		}
		if o.kind != oPlain {
			e.undecided(st, pos, "load from a summarised object")
		}
		v, ok := pathGet(o.val, a.Path)
		if !ok {
			if _, isU := o.val.(VUnk); isU {
				e.undecided(st, pos, "load from an unknown object")
			}
			if k, isK := o.val.(VKind); isK && a.Path != "" {
				_ = k
				return ok1(st, VStr{st.newText("kind name")})
			}
			if p, ok := pathGet(o.val, a.Path[:max(0, len(a.Path)-2)]); ok {
				if _, isK := p.(VKind); isK {
					return ok1(st, VStr{st.newText("kind name")})
				}
			}
			e.undecided(st, pos, "load of a missing field")
		}
		if l := e.linkOf(o, a.Path); l != 0 {
			if p, ok := v.(VPtr); ok {
				if t := st.obj(p.Obj); t != nil && t.kind == oSeg {
					rs := e.materialise(st, a.Obj, p.Obj, l == 2)
					if e.cfg.onNode == nil {
						return rs, nil
					}
					var out []resv
					for _, r := range rs {
						for _, s := range e.cfg.onNode(e, r.st, a.Obj, ptrTo(r.val), l == 2) {
							out = append(out, resv{s, r.val})
						}
					}
					return out, nil
				}
			}
		}
		return ok1(st, v)
	case VBytePtr:
		return ok1(st, e.byteOf(st, a.S, a.Off))
	case VElemPtr:
		return e.listGet(st, a.Obj, a.Idx, pos), nil
	}
	e.undecided(st, pos, "load through %s", showVal(addr))
	return nil, nil
}

func (e *Engine) store(st *State, addr Value, v Value, pos token.Pos) {
	switch a := addr.(type) {
	case VPtr:
		o := st.obj(a.Obj)
		if o == nil || o.kind != oPlain {
			e.undecided(st, pos, "store into a summarised object")
		}
		nv, ok := pathSet(o.val, a.Path, v)
		if !ok {
			e.undecided(st, pos, "store into a missing field")
		}
		if _, isBase := e.base[a.Obj]; isBase && e.joining {
			st.event("global-write", pos, a, v)
		}
		if e.cfg.onStore != nil {
			e.stored = nv
			e.cfg.onStore(e, st, o, a.Path, pos)
		}
		if o.frozen {
			if e.linkOf(o, a.Path) != 0 || !e.isNode(o.typ) || len(a.Path) == 2 && int(a.Path[1]) == e.role.text {
				st.bad = append(st.bad, e.posStr(pos)+": writes to a node of a scope that was finished before")
			}
		}
		if e.isNode(o.typ) {
			// while the facts about the bytes it came from are fresh
			if x, ok := nv.(VStruct); ok && e.role.text >= 0 {
				if t, ok := x.F[e.role.text].(VStr); ok && len(t.S) == 1 && t.S[0].isConst() {
					x = VStruct{append([]Value(nil), x.F...)}
					x.F[e.role.text] = VStr{st.place(t.S)}
					nv = x
				}
			}
		}
		n := *o
		n.val = nv
		st.set(a.Obj, &n)
		return
	case VElemPtr:
		e.listSet(st, a.Obj, a.Idx, v, pos)
		return
	case VBytePtr:
		st.event("byte-write", pos, VBytes{a.S}, v)
		e.undecided(st, pos, "store into a byte slice")
	}
	e.undecided(st, pos, "store through %s", showVal(addr))
}

func (st *State) event(name string, pos token.Pos, args ...Value) {
	ev := Event{Name: name, Args: args, Pos: pos}
	if st.e.cfg.onEvent != nil {
		st.e.cfg.onEvent(st.e, st, ev)
	}
	st.events = append(st.events, ev)
}

// materialise exposes the node of a segment that the given neighbour reaches.
func (e *Engine) materialise(st *State, from, segID ObjID, forward bool) []resv {
	var out []resv
	seg := st.obj(segID)
	mkNode := func(s *State, text Seq, prev, next Value) *Object {
		return e.newNodeObj(s, text, seg.kinds, prev, next, seg.frozen)
	}
	// the segment is a single node
	oneText, restText, both, s1, s2 := e.splitText(st, seg.text, forward, e.cfg.nonEmpty && len(seg.bad) == 0)
	if e.cfg.knownNode != nil && len(seg.bad) == 0 {
		// what every node was checked for
		if s1 != nil && !e.cfg.knownNode(s1, seg.text) {
			s1 = nil
		}
		if s2 != nil && both && !e.cfg.knownNode(s2, oneText) {
			s2 = nil
		}
	}
	if s1 != nil {
		o := mkNode(s1, seg.text, seg.prev, seg.next)
		o.mark = seg.mark
		s1.set(segID, o)
		out = append(out, resv{s1, VPtr{Obj: segID}})
	}
	if s2 != nil && both {
		nid := s2.alloc(nil)
		rest := *seg
		rest.text = restText
		mkNode := func(s *State, text Seq, prev, next Value) *Object {
			o := mkNode(s, text, prev, next)
			o.mark = seg.mark
			return o
		}
		if forward {
			s2.set(nid, mkNode(s2, oneText, seg.prev, VPtr{Obj: segID}))
			rest.prev = VPtr{Obj: nid}
			e.relink(s2, from, true, nid)
		} else {
			s2.set(nid, mkNode(s2, oneText, VPtr{Obj: segID}, seg.next))
			rest.next = VPtr{Obj: nid}
			e.relink(s2, from, false, nid)
		}
		s2.set(segID, &rest)
		out = append(out, resv{s2, VPtr{Obj: nid}})
	}
	return out
}

// relink points the next (forward) or prev field of a node or segment to another one.
func (e *Engine) relink(st *State, id ObjID, forward bool, to ObjID) {
	o := *st.obj(id)
	if o.kind == oSeg {
		if forward {
			o.next = VPtr{Obj: to}
		} else {
			o.prev = VPtr{Obj: to}
		}
	} else {
		i := e.role.prev
		if forward {
			i = e.role.next
		}
		o.val, _ = pathSet(o.val, pathAppend("", i), VPtr{Obj: to})
	}
	st.set(id, &o)
}

// splitText divides the text of a segment into its first (or last) node and the rest. It returns the state
// in which the segment has one node and the state in which it has more; either may be nil.
func (e *Engine) splitText(st *State, text Seq, forward, strict bool) (Seq, Seq, bool, *State, *State) {
	if len(text) == 1 && !text[0].isConst() && !text[0].Rev && st.srcs[text[0].Src].list {
		a := text[0]
		s1, s2 := st, st.clone()
		if !s1.zone.assumeEQ(a.B, a.A.addC(1)) {
			s1 = nil
		}
		if !s2.zone.assumeLE(a.A.addC(2).sub(a.B)) {
			s2 = nil
		}
		x, y := a, a
		if forward {
			x.B = a.A.addC(1)
			y.A = x.B
			return Seq{x}, Seq{y}, true, s1, s2
		}
		x.A = a.B.addC(-1)
		y.B = x.A
		return Seq{x}, Seq{y}, true, s1, s2
	}
	s1, s2 := st, st.clone()
	if len(text) == 1 && !text[0].isConst() && !text[0].Rev {
		a := text[0]
		m := s2.newInt()
		d := int64(0)
		if strict { // no node has an empty text
			d = 1
		}
		ok := s2.zone.assumeLE(a.A.sub(m).addC(d)) && s2.zone.assumeLE(m.sub(a.B).addC(d))
		if !ok {
			s2 = nil
		}
		x, y := Seq{{Src: a.Src, A: a.A, B: m}}, Seq{{Src: a.Src, A: m, B: a.B}}
		if !forward {
			x, y = y, x
		}
		return x, y, true, s1, s2
	}
	if len(text) > 1 {
		// unknown cut: keep what is certain (nothing)
		x := s2.newText("part of " + text.String())
		y := s2.newText("rest of " + text.String())
		return x, y, true, s1, s2
	}
	x := s2.newText("node")
	y := s2.newText("nodes")
	return x, y, true, s1, s2
}

// newNodeObj builds a node object with the given text.
func (e *Engine) newNodeObj(st *State, text Seq, kinds KindSet, prev, next Value, frozen bool) *Object {
	f := make([]Value, e.role.nfields)
	stt := e.role.node.Underlying().(*types.Struct)
	for i := range f {
		f[i] = e.zero(stt.Field(i).Type())
	}
	f[e.role.text] = VStr{text}
	if len(text) == 1 && !text[0].isConst() && st.srcs[text[0].Src].list {
		ef := st.elemOwner(text[0].Src, text[0].A)
		if ef == nil {
			st.elems = append(st.elems, elemFact{src: text[0].Src, off: text[0].A, line: VInt{st.newInt()}, kind: st.newKind(kinds)})
			ef = &st.elems[len(st.elems)-1]
		}
		f[e.role.line], f[e.role.kind] = ef.line, ef.kind
	} else {
		f[e.role.line], f[e.role.kind] = VInt{st.newInt()}, st.newKind(kinds)
	}
	if e.cfg.nodeLine != nil {
		if l, ok := e.cfg.nodeLine(st, text); ok {
			f[e.role.line] = VInt{l}
		}
	}
	f[e.role.prev], f[e.role.next] = prev, next
	return &Object{kind: oPlain, typ: e.role.node, val: VStruct{f}, frozen: frozen}
}

func (st *State) elemOwner(src SrcID, off Lin) *elemFact {
	for i := range st.elems {
		if st.elems[i].src == src && st.elems[i].line != nil && st.zone.equal(st.elems[i].off, off) {
			return &st.elems[i]
		}
	}
	return nil
}

// --- bytes -----------------------------------------------------------------------

// byteOf reads the byte of a text at an offset that is known to be in range.
func (e *Engine) byteOf(st *State, s Seq, off Lin) Value {
	s = st.norm(s)
	base := linC(0)
	for i, a := range s {
		var n Lin
		switch {
		case a.isConst():
			n = linC(int64(len(a.Const)))
		case st.srcs[a.Src].list:
			return e.fresh(st, types.Typ[types.Uint8], "byte")
		default:
			n = a.B.sub(a.A)
		}
		rel := off.sub(base)
		in := st.zone.le(linC(0), rel) && (st.zone.lt(rel, n) || i == len(s)-1)
		if in {
			if a.isConst() {
				if c, ok := st.zone.constOf(rel); ok && int(c) < len(a.Const) {
					return VInt{linC(int64(a.Const[c]))}
				}
				return e.fresh(st, types.Typ[types.Uint8], "byte")
			}
			o := a.A.add(rel)
			if b, ok := st.byteSet(a.Src, o).single(); ok {
				return VInt{linC(int64(b))}
			}
			return VByte{a.Src, o}
		}
		base = base.add(n)
	}
	return e.fresh(st, types.Typ[types.Uint8], "byte")
}

func (e *Engine) inRange(st *State, i, n Lin, strict bool) ([]*State, []panicRes) {
	var pan []panicRes
	var good []*State
	for _, r := range e.cmpLE(st, linC(0), i) {
		if !r.b {
			pan = append(pan, panicRes{r.st, "index out of range (negative)"})
			continue
		}
		hi := i
		if strict {
			hi = i.addC(1)
		}
		for _, q := range e.cmpLE(r.st, hi, n) {
			if q.b {
				good = append(good, q.st)
			} else {
				pan = append(pan, panicRes{q.st, "index out of range"})
			}
		}
	}
	return good, pan
}

func (e *Engine) byteAt(st *State, s Seq, i Value, pos token.Pos) ([]resv, []panicRes) {
	iv, ok := i.(VInt)
	if !ok {
		iv = VInt{st.newNat()}
	}
	good, pan := e.inRange(st, iv.L, st.lenOf(s), true)
	var out []resv
	for _, g := range good {
		out = append(out, resv{g, e.byteOf(g, s, iv.L)})
	}
	return out, pan
}

func (e *Engine) indexAddr(st *State, x, i Value, in *ssa.IndexAddr, pos token.Pos) ([]resv, []panicRes) {
	iv, ok := i.(VInt)
	if !ok {
		iv = VInt{st.newInt()}
	}
	switch x := x.(type) {
	case VNil:
		return nil, []panicRes{{st, "index out of range (nil slice)"}}
	case VPtr: // pointer to array
		n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		good, pan := e.inRange(st, iv.L, linC(n), true)
		var out []resv
		for _, g := range good {
			c, ok := g.zone.constOf(iv.L)
			if !ok {
				e.undecided(st, pos, "array element at an unknown index")
			}
			out = append(out, resv{g, VPtr{x.Obj, pathAppend(x.Path, int(c))}})
		}
		return out, pan
	case VBytes:
		good, pan := e.inRange(st, iv.L, st.lenOf(x.S), true)
		var out []resv
		for _, g := range good {
			out = append(out, resv{g, VBytePtr{x.S, iv.L}})
		}
		return out, pan
	case VSlice:
		good, pan := e.inRange(st, iv.L, x.Len, true)
		var out []resv
		for _, g := range good {
			out = append(out, resv{g, e.elemPtr(g, x.Obj, x.Off.add(iv.L))})
		}
		return out, pan
	}
	e.undecided(st, pos, "element of %s", showVal(x))
	return nil, nil
}

func (e *Engine) elemPtr(st *State, o ObjID, idx Lin) Value {
	if ob := st.obj(o); ob.kind == oPlain {
		if c, ok := st.zone.constOf(idx); ok {
			return VPtr{o, pathAppend("", int(c))}
		}
	}
	return VElemPtr{o, idx}
}

// --- lists -------------------------------------------------------------------------

func (l LElem) count() Lin {
	if l.sum {
		return l.n
	}
	return linC(1)
}

// listAt finds the element that holds index idx.
func (e *Engine) listAt(st *State, o *Object, idx Lin) (int, Lin, bool) {
	base := linC(0)
	for i, el := range o.elems {
		rel := idx.sub(base)
		n := el.count()
		if st.zone.le(linC(0), rel) && st.zone.lt(rel, n) {
			return i, rel, true
		}
		base = base.add(n)
	}
	return 0, Lin{}, false
}

func (e *Engine) listGet(st *State, id ObjID, idx Lin, pos token.Pos) []resv {
	o := st.obj(id)
	if o.kind == oPlain {
		c, ok := st.zone.constOf(idx)
		if s, isS := o.val.(VStruct); ok && isS && int(c) < len(s.F) {
			return one(st, s.F[c])
		}
		e.undecided(st, pos, "array element at an unknown index")
	}
	if e.isNodePtr(o.typ) {
		for _, f := range st.elems {
			if f.of == o && st.zone.equal(f.off, idx) {
				return one(st, f.val)
			}
		}
		var out []resv
		for _, r := range e.listRead(st, o, idx, pos) {
			if r.st.heap[id] == o {
				r.st.elems = append(r.st.elems, elemFact{src: -1, of: o, off: idx, val: r.val})
			}
			out = append(out, r)
		}
		return out
	}
	return e.listRead(st, o, idx, pos)
}

func (e *Engine) listRead(st *State, o *Object, idx Lin, pos token.Pos) []resv {
	i, rel, ok := e.listAt(st, o, idx)
	if !ok {
		// decide by splitting on the boundaries
		base := linC(0)
		var out []resv
		for _, el := range o.elems {
			rel := idx.sub(base)
			base = base.add(el.count())
			var rest *State
			for _, b := range e.cmpLE(st, idx.addC(1), base) {
				if b.b {
					out = append(out, e.elemGet(b.st, o, el, rel, pos)...)
				} else {
					rest = b.st
				}
			}
			if rest == nil {
				return out
			}
			st = rest
		}
		return append(out, e.genElem(st, o.typ, nil, Lin{}, pos)...)
	}
	return e.elemGet(st, o, o.elems[i], rel, pos)
}

// elemGet reads the element at rel of a run of elements.
func (e *Engine) elemGet(st *State, o *Object, el LElem, rel Lin, pos token.Pos) []resv {
	if !el.sum {
		return one(st, el.val)
	}
	if len(el.seq) == 1 && !el.seq[0].isConst() && st.srcs[el.seq[0].Src].list {
		a := el.seq[0]
		off := a.A.add(rel)
		if a.Rev {
			off = a.B.addC(-1).sub(rel)
		}
		for _, f := range st.elems {
			if f.src == a.Src && f.val != nil && st.zone.equal(f.off, off) {
				return one(st, f.val)
			}
		}
		rs := e.genElem(st, o.typ, &a, off, pos)
		for _, r := range rs {
			r.st.elems = append(r.st.elems, elemFact{src: a.Src, off: off, val: r.val})
		}
		return rs
	}
	return e.genElem(st, o.typ, nil, Lin{}, pos)
}

func (e *Engine) genElem(st *State, t types.Type, a *Atom, off Lin, pos token.Pos) []resv {
	if e.cfg.genElem != nil {
		if rs := e.cfg.genElem(e, st, t, a, off, pos); rs != nil {
			return rs
		}
	}
	if a != nil {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return one(st, VStr{Seq{{Src: a.Src, A: off, B: off.addC(1)}}})
		}
	}
	return one(st, e.fresh(st, t, "element"))
}

func (e *Engine) listSet(st *State, id ObjID, idx Lin, v Value, pos token.Pos) {
	o := st.obj(id)
	if o.kind == oPlain {
		if c, ok := st.zone.constOf(idx); ok {
			n := *o
			nv, ok := pathSet(o.val, pathAppend("", int(c)), v)
			if ok {
				n.val = nv
				st.set(id, &n)
				return
			}
		}
		e.undecided(st, pos, "store into an array at an unknown index")
	}
	if o.frozen {
		st.event("list-write", pos, VPtr{Obj: id}, v)
	}
	n := *o
	n.elems = append([]LElem(nil), o.elems...)
	i, rel, ok := e.listAt(st, o, idx)
	if ok && !n.elems[i].sum {
		n.elems[i] = LElem{val: v}
		st.set(id, &n)
		return
	}
	if ok {
		// split a summary around the index
		el := n.elems[i]
		var repl []LElem
		left, right := el, el
		left.n, right.n = rel, el.n.sub(rel).addC(-1)
		if len(el.seq) == 1 && !el.seq[0].isConst() && !el.seq[0].Rev && st.srcs[el.seq[0].Src].list {
			a := el.seq[0]
			left.seq = Seq{{Src: a.Src, A: a.A, B: a.A.add(rel)}}
			right.seq = Seq{{Src: a.Src, A: a.A.add(rel).addC(1), B: a.B}}
		} else if len(el.seq) != 0 {
			left.seq, right.seq = st.newText("part"), st.newText("part")
		}
		if !st.zone.le(left.n, linC(0)) {
			repl = append(repl, left)
		}
		repl = append(repl, LElem{val: v})
		if !st.zone.le(right.n, linC(0)) {
			repl = append(repl, right)
		}
		n.elems = append(append(append([]LElem(nil), o.elems[:i]...), repl...), o.elems[i+1:]...)
		st.set(id, &n)
		return
	}
	e.undecided(st, pos, "store into a slice at an unknown index")
}

// window returns the elements of a slice value.
func (e *Engine) window(st *State, v Value, pos token.Pos) []LElem {
	switch v := v.(type) {
	case VNil:
		return nil
	case VSlice:
		o := st.obj(v.Obj)
		if o.kind == oPlain {
			s, ok := o.val.(VStruct)
			a, ok1 := st.zone.constOf(v.Off)
			n, ok2 := st.zone.constOf(v.Len)
			if !ok || !ok1 || !ok2 {
				e.undecided(st, pos, "slice of an array at unknown bounds")
			}
			var out []LElem
			for _, x := range s.F[a : a+n] {
				out = append(out, LElem{val: x})
			}
			return out
		}
		return e.cut(st, o.elems, v.Off, v.Len, pos)
	case VUnk:
		e.undecided(st, pos, "contents of an unknown slice")
	}
	e.undecided(st, pos, "contents of %s", showVal(v))
	return nil
}

func (e *Engine) cut(st *State, els []LElem, off, n Lin, pos token.Pos) []LElem {
	total := linC(0)
	for _, el := range els {
		total = total.add(el.count())
	}
	if st.zone.equal(off, linC(0)) && st.zone.equal(n, total) {
		return els
	}
	if st.zone.le(n, linC(0)) {
		return nil
	}
	var out []LElem
	base := linC(0)
	end := off.add(n)
	for _, el := range els {
		c := el.count()
		next := base.add(c)
		switch {
		case st.zone.le(next, off) || st.zone.le(end, base): // outside
		case st.zone.le(off, base) && st.zone.le(next, end): // inside
			out = append(out, el)
		default:
			if !el.sum {
				e.undecided(st, pos, "slice at unknown bounds")
			}
			lo, hi := off.sub(base), end.sub(base)
			if st.zone.le(lo, linC(0)) {
				lo = linC(0)
			} else if !st.zone.le(linC(0), lo) {
				e.undecided(st, pos, "slice at unknown bounds")
			}
			if st.zone.le(c, hi) {
				hi = c
			} else if !st.zone.le(hi, c) {
				e.undecided(st, pos, "slice at unknown bounds")
			}
			ne := LElem{sum: true, n: hi.sub(lo), bad: el.bad}
			if len(el.seq) == 1 && !el.seq[0].isConst() && !el.seq[0].Rev && st.srcs[el.seq[0].Src].list {
				a := el.seq[0]
				ne.seq = Seq{{Src: a.Src, A: a.A.add(lo), B: a.A.add(hi)}}
			} else if len(el.seq) != 0 {
				ne.seq = st.newText("part of list")
			}
			out = append(out, ne)
		}
		base = next
	}
	return out
}

func (e *Engine) listLen(st *State, els []LElem) Lin {
	n := linC(0)
	for _, el := range els {
		n = n.add(el.count())
	}
	return n
}

func (e *Engine) newList(st *State, t types.Type, els []LElem) VSlice {
	o := st.alloc(&Object{kind: oList, typ: t, elems: append([]LElem(nil), els...)})
	return VSlice{Obj: o, Len: e.listLen(st, els)}
}

// --- maps -----------------------------------------------------------------------------

func (e *Engine) mapLookup(st *State, m, k Value, commaOk bool, rt, mt types.Type, pos token.Pos) []resv {
	elem := mt.Underlying().(*types.Map).Elem()
	ret := func(s *State, v Value, ok bool) resv {
		if commaOk {
			return resv{s, VTuple{[]Value{v, VBool{ok}}}}
		}
		return resv{s, v}
	}
	switch mv := m.(type) {
	case VNil:
		return []resv{ret(st, e.zero(elem), false)}
	case VMap:
		o := st.obj(mv.Obj)
		// byte and kind keys against a concrete map: split by membership of all entries with the same value
		switch kv := k.(type) {
		case VByte:
			return e.mapByteLookup(st, o, kv, elem, ret, pos)
		case VKind:
			return e.mapKindLookup(st, o, kv, elem, ret, pos)
		}
		var out []resv
		cur := []*State{st}
		for i := range o.keys {
			var next []*State
			for _, s := range cur {
				for _, r := range e.eq(s, k, o.keys[i], pos) {
					if r.b {
						out = append(out, ret(r.st, o.vals[i], true))
					} else {
						next = append(next, r.st)
					}
				}
			}
			cur = next
		}
		for _, s := range cur {
			if o.open {
				s2 := s.clone()
				out = append(out, ret(s2, e.fresh(s2, elem, "map value"), true))
			}
			out = append(out, ret(s, e.zero(elem), false))
		}
		return out
	case VUnk:
		s2 := st.clone()
		return []resv{ret(st, e.fresh(st, elem, "map value"), true), ret(s2, e.zero(elem), false)}
	}
	e.undecided(st, pos, "lookup in %s", showVal(m))
	return nil
}

func (e *Engine) mapByteLookup(st *State, o *Object, k VByte, elem types.Type, ret func(*State, Value, bool) resv, pos token.Pos) []resv {
	var all ByteSet
	groups := map[string]ByteSet{}
	vals := map[string]Value{}
	var order []string
	for i, kk := range o.keys {
		iv, ok := kk.(VInt)
		if !ok {
			e.undecided(st, pos, "map with unknown byte keys")
		}
		c, ok := st.zone.constOf(iv.L)
		if !ok {
			e.undecided(st, pos, "map with unknown byte keys")
		}
		g := showVal(o.vals[i])
		set, seen := groups[g]
		if !seen {
			order = append(order, g)
			vals[g] = o.vals[i]
		}
		set.add(byte(c))
		groups[g] = set
		all.add(byte(c))
	}
	var out []resv
	cur := st
	for _, g := range order {
		if cur == nil {
			break
		}
		rs := e.byteIn(cur, k, groups[g])
		cur = nil
		for _, r := range rs {
			if r.b {
				out = append(out, ret(r.st, vals[g], true))
			} else {
				cur = r.st
			}
		}
	}
	if cur != nil {
		if o.open {
			s2 := cur.clone()
			out = append(out, ret(s2, e.fresh(s2, elem, "map value"), true))
		}
		out = append(out, ret(cur, e.zero(elem), false))
	}
	return out
}

func (e *Engine) mapKindLookup(st *State, o *Object, k VKind, elem types.Type, ret func(*State, Value, bool) resv, pos token.Pos) []resv {
	groups := map[string]KindSet{}
	vals := map[string]Value{}
	var order []string
	for i, kk := range o.keys {
		g := showVal(o.vals[i])
		if _, seen := groups[g]; !seen {
			order = append(order, g)
			vals[g] = o.vals[i]
		}
		groups[g] |= st.kindSetOf(kk)
	}
	var out []resv
	cur := st
	for _, g := range order {
		if cur == nil {
			break
		}
		rs := e.kindIn(cur, k, groups[g])
		cur = nil
		for _, r := range rs {
			if r.b {
				out = append(out, ret(r.st, vals[g], true))
			} else {
				cur = r.st
			}
		}
	}
	if cur != nil {
		if o.open {
			s2 := cur.clone()
			out = append(out, ret(s2, e.fresh(s2, elem, "map value"), true))
		}
		out = append(out, ret(cur, e.zero(elem), false))
	}
	return out
}

func (e *Engine) mapUpdate(st *State, m, k, v Value, pos token.Pos) {
	mv, ok := m.(VMap)
	if !ok {
		e.undecided(st, pos, "store into %s", showVal(m))
	}
	o := *st.obj(mv.Obj)
	if _, isBase := e.base[mv.Obj]; isBase && e.joining {
		st.event("global-write", pos, m, v)
	}
	o.keys = append([]Value(nil), o.keys...)
	o.vals = append([]Value(nil), o.vals...)
	for i := range o.keys {
		rs := e.eq(st, k, o.keys[i], pos)
		if len(rs) != 1 {
			// unknown key: the map is no longer known
			o.keys, o.vals, o.open = nil, nil, true
			st.set(mv.Obj, &o)
			return
		}
		if rs[0].b {
			o.vals[i] = v
			st.set(mv.Obj, &o)
			return
		}
	}
	switch k.(type) {
	case VByte, VKind, VUnk:
		o.keys, o.vals, o.open = nil, nil, true
	default:
		o.keys = append(o.keys, k)
		o.vals = append(o.vals, v)
	}
	st.set(mv.Obj, &o)
}

func (e *Engine) next(st *State, it VRange, in *ssa.Next, pos token.Pos) ([]resv, []panicRes) {
	o := st.obj(it.Obj)
	n := *o.iter
	tt := in.Type().(*types.Tuple)
	if n.isStr {
		return e.nextStr(st, it, in, pos)
	}
	var v Value
	if n.pos < len(n.order) {
		m := st.obj(n.m)
		i := n.order[n.pos]
		n.pos++
		v = VTuple{[]Value{VBool{true}, m.keys[i], m.vals[i]}}
	} else {
		z := func(t types.Type) Value {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return VNil{}
			}
			return e.zero(t)
		}
		v = VTuple{[]Value{VBool{false}, z(tt.At(1).Type()), z(tt.At(2).Type())}}
	}
	st.set(it.Obj, &Object{kind: oIter, iter: &n})
	return ok1(st, v)
}

func (e *Engine) nextStr(st *State, it VRange, in *ssa.Next, pos token.Pos) ([]resv, []panicRes) {
	n := *st.obj(it.Obj).iter
	if c, ok := n.str.constVal(); ok {
		p, _ := st.zone.constOf(n.off)
		if int(p) >= len(c) {
			return ok1(st, VTuple{[]Value{VBool{false}, VInt{}, VInt{}}})
		}
		for i, r := range c[p:] {
			if i == 0 {
				w := len(string(r))
				if r == 0xFFFD && c[p] != 0xEF {
					w = 1
				}
				n2 := n
				n2.off = linC(p + int64(w))
				st.set(it.Obj, &Object{kind: oIter, iter: &n2})
				return ok1(st, VTuple{[]Value{VBool{true}, VInt{linC(p)}, VInt{linC(int64(r))}}})
			}
			break
		}
	}
	length := st.lenOf(n.str)
	var out []resv
	for _, r := range e.cmpLE(st, length, n.off) {
		if r.b {
			out = append(out, resv{r.st, VTuple{[]Value{VBool{false}, VInt{}, VInt{}}}})
			continue
		}
		s := r.st
		b := e.byteOf(s, n.str, n.off)
		step := func(s *State, width Lin, rv Value) {
			n2 := n
			n2.off = n.off.add(width)
			s.zone.assumeLE(n2.off.sub(length))
			s.set(it.Obj, &Object{kind: oIter, iter: &n2})
			out = append(out, resv{s, VTuple{[]Value{VBool{true}, VInt{n.off}, rv}}})
		}
		var ascii ByteSet
		for c := 0; c < 128; c++ {
			ascii.add(byte(c))
		}
		switch b := b.(type) {
		case VByte:
			for _, q := range e.byteIn(s, b, ascii) {
				if q.b {
					step(q.st, linC(1), b)
				} else {
					w := q.st.newInt()
					q.st.zone.assumeLE(linC(1).sub(w))
					q.st.zone.assumeLE(w.addC(-4))
					step(q.st, w, wideRune(q.st))
				}
			}
		case VInt:
			if c, ok := s.zone.constOf(b.L); ok && c < 128 {
				step(s, linC(1), b)
			} else {
				w := s.newInt()
				s.zone.assumeLE(linC(1).sub(w))
				s.zone.assumeLE(w.addC(-4))
				step(s, w, wideRune(s))
			}
		}
	}
	return out, nil
}

// wideRune is a rune that takes more than one byte, or the replacement of a broken one.
func wideRune(st *State) Value {
	r := st.newNat()
	st.zone.assumeLE(linC(128).sub(r))
	return VInt{r}
}

// --- slicing, conversion, assertion -------------------------------------------------------

func (e *Engine) slice(st *State, in *ssa.Slice, pos token.Pos) ([]resv, []panicRes) {
	f := st.top()
	x := e.val(st, f, in.X)
	var n Lin
	switch v := x.(type) {
	case VStr:
		n = st.lenOf(v.S)
	case VBytes:
		n = st.lenOf(v.S)
	case VSlice:
		n = v.Len
	case VNil:
		n = linC(0)
	case VPtr:
		n = linC(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
	default:
		e.undecided(st, pos, "slice of %s", showVal(x))
	}
	lo, hi := linC(0), n
	bound := func(v ssa.Value, d Lin) Lin {
		if v == nil {
			return d
		}
		if iv, ok := e.val(st, f, v).(VInt); ok {
			return iv.L
		}
		return st.newInt()
	}
	lo, hi = bound(in.Low, lo), bound(in.High, hi)
	if in.Max != nil {
		m := bound(in.Max, n)
		if !st.zone.equal(m, hi) && !st.zone.equal(m, n) {
			e.undecided(st, pos, "full slice expression")
		}
	}
	// slices may be resliced up to their capacity; that is only allowed here up to their length
	var out []resv
	var pan []panicRes
	for _, r := range e.cmpLE(st, linC(0), lo) {
		if !r.b {
			pan = append(pan, panicRes{r.st, "slice bounds out of range (negative)"})
			continue
		}
		for _, q := range e.cmpLE(r.st, lo, hi) {
			if !q.b {
				pan = append(pan, panicRes{q.st, "slice bounds out of range (low > high)"})
				continue
			}
			for _, s := range e.cmpLE(q.st, hi, n) {
				if !s.b {
					pan = append(pan, panicRes{s.st, "slice bounds out of range"})
					continue
				}
				var v Value
				switch xv := x.(type) {
				case VStr:
					v = VStr{e.subSeq(s.st, xv.S, lo, hi)}
				case VBytes:
					v = VBytes{e.subSeq(s.st, xv.S, lo, hi)}
				case VSlice:
					v = VSlice{xv.Obj, xv.Off.add(lo), hi.sub(lo), in.Max != nil || xv.Full && st.zone.equal(hi, n)}
				case VNil:
					v = VNil{}
				case VPtr:
					if xv.Path != "" {
						e.undecided(st, pos, "slice of a nested array")
					}
					if b, ok := in.Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
						sv, _ := s.st.obj(xv.Obj).val.(VStruct)
						var seq Seq
						a, ok1 := s.st.zone.constOf(lo)
						z, ok2 := s.st.zone.constOf(hi)
						if !ok1 || !ok2 {
							e.undecided(st, pos, "slice of a byte array")
						}
						for _, bv := range sv.F[a:z] {
							seq = append(seq, e.byteSeq(s.st, bv)...)
						}
						v = VBytes{s.st.norm(seq)}
					} else {
						v = VSlice{xv.Obj, lo, hi.sub(lo), in.Max != nil}
					}
				}
				out = append(out, resv{s.st, v})
			}
		}
	}
	return out, pan
}

// byteSeq is the text that consists of one byte.
func (e *Engine) byteSeq(st *State, v Value) Seq {
	switch v := v.(type) {
	case VInt:
		if c, ok := st.zone.constOf(v.L); ok && c >= 0 && c < 256 {
			return Seq{{Const: string([]byte{byte(c)})}}
		}
	case VByte:
		return Seq{{Src: v.Src, A: v.Off, B: v.Off.addC(1)}}
	}
	id := st.newSrc("byte", false, linC(1))
	return Seq{{Src: id, A: linC(0), B: linC(1)}}
}

// subSeq is s[lo:hi] for bounds known to be in range.
func (e *Engine) subSeq(st *State, s Seq, lo, hi Lin) Seq {
	s = st.norm(s)
	n := linC(0)
	for _, a := range s {
		if a.isConst() {
			n = n.addC(int64(len(a.Const)))
		} else if st.srcs[a.Src].list {
			if st.zone.equal(lo, linC(0)) && st.zone.equal(hi, linC(0)) {
				return nil
			}
			n = Lin{}
			return st.newTextLen("part of "+s.String(), hi.sub(lo))
		} else {
			n = n.add(a.B.sub(a.A))
		}
	}
	var out Seq
	base := linC(0)
	for _, a := range s {
		var c Lin
		if a.isConst() {
			c = linC(int64(len(a.Const)))
		} else {
			c = a.B.sub(a.A)
		}
		next := base.add(c)
		switch {
		case st.zone.le(next, lo) || st.zone.le(hi, base):
		case st.zone.le(lo, base) && st.zone.le(next, hi):
			out = append(out, a)
		default:
			l, h := lo.sub(base), hi.sub(base)
			if st.zone.le(l, linC(0)) {
				l = linC(0)
			} else if !st.zone.le(linC(0), l) {
				return st.newTextLen("part", hi.sub(lo))
			}
			if st.zone.le(c, h) {
				h = c
			} else if !st.zone.le(h, c) {
				return st.newTextLen("part", hi.sub(lo))
			}
			if a.isConst() {
				x, ok1 := st.zone.constOf(l)
				y, ok2 := st.zone.constOf(h)
				if !ok1 || !ok2 {
					return st.newTextLen("part", hi.sub(lo))
				}
				out = append(out, Atom{Const: a.Const[x:y]})
			} else {
				out = append(out, Atom{Src: a.Src, A: a.A.add(l), B: a.A.add(h)})
			}
		}
		base = next
	}
	return st.norm(out)
}

func (st *State) newTextLen(name string, n Lin) Seq {
	id := st.newSrc(name, false, n)
	return Seq{{Src: id, A: linC(0), B: n}}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (e *Engine) convert(st *State, from, to types.Type, v Value, pos token.Pos) ([]resv, []panicRes) {
	switch {
	case isString(to) && isString(from):
		return ok1(st, v)
	case isString(to) && isByteSlice(from):
		switch v := v.(type) {
		case VBytes:
			return ok1(st, VStr{v.S})
		case VNil:
			return ok1(st, VStr{})
		}
	case isByteSlice(to) && isString(from):
		if s, ok := v.(VStr); ok {
			return ok1(st, VBytes{s.S})
		}
	case isString(to) && isInteger(from):
		switch v := v.(type) {
		case VInt:
			if c, ok := st.zone.constOf(v.L); ok {
				return ok1(st, VStr{constSeq(string(rune(c)))})
			}
		case VByte:
			var ascii ByteSet
			for c := 0; c < 128; c++ {
				ascii.add(byte(c))
			}
			var out []resv
			for _, r := range e.byteIn(st, v, ascii) {
				if r.b {
					out = append(out, resv{r.st, VStr{e.byteSeq(r.st, v)}})
				} else {
					// a rune above 127 takes two bytes
					out = append(out, resv{r.st, VStr{r.st.newTextLen("rune of a non-ASCII byte", linC(2))}})
				}
			}
			return out, nil
		}
		return ok1(st, VStr{st.newText("rune")})
	case isInteger(to) && isInteger(from):
		fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic)
		switch v := v.(type) {
		case VByte:
			if intBits(tb) >= 8 && !(tb.Kind() == types.Int8) {
				return ok1(st, v)
			}
		case VInt:
			if c, ok := st.zone.constOf(v.L); ok {
				return ok1(st, VInt{linC(truncInt(c, tb))})
			}
			if intBits(tb) >= intBits(fb) && (tb.Info()&types.IsUnsigned == fb.Info()&types.IsUnsigned || st.zone.lb(v.L) >= 0) {
				return ok1(st, v)
			}
			return ok1(st, e.fresh(st, to, "conversion"))
		}
		return ok1(st, e.fresh(st, to, "conversion"))
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return ok1(st, v)
	}
	if isString(from) || isString(to) {
		return ok1(st, e.fresh(st, to, "conversion"))
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() != types.UnsafePointer {
		return ok1(st, e.fresh(st, to, "conversion"))
	}
	e.undecided(st, pos, "conversion from %v to %v", from, to)
	return nil, nil
}

func intBits(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func truncInt(c int64, b *types.Basic) int64 {
	switch b.Kind() {
	case types.Int8:
		return int64(int8(c))
	case types.Uint8:
		return int64(uint8(c))
	case types.Int16:
		return int64(int16(c))
	case types.Uint16:
		return int64(uint16(c))
	case types.Int32:
		return int64(int32(c))
	case types.Uint32:
		return int64(uint32(c))
	}
	return c
}

func (e *Engine) typeAssert(st *State, x Value, in *ssa.TypeAssert) ([]resv, []panicRes) {
	ret := func(s *State, v Value, ok bool) ([]resv, []panicRes) {
		if in.CommaOk {
			if !ok {
				v = e.zero(in.AssertedType)
			}
			return one(s, VTuple{[]Value{v, VBool{ok}}}), nil
		}
		if !ok {
			return nil, []panicRes{{s, "failed type assertion"}}
		}
		return one(s, v), nil
	}
	switch x := x.(type) {
	case VNil:
		return ret(st, VNil{}, false)
	case VIface:
		if types.IsInterface(in.AssertedType) {
			it := in.AssertedType.Underlying().(*types.Interface)
			if x.T != nil {
				return ret(st, x, types.Implements(x.T, it))
			}
		} else if x.T != nil {
			return ret(st, x.V, types.Identical(x.T, in.AssertedType))
		}
	case VErr, VUnk:
		if types.IsInterface(in.AssertedType) {
			if _, ok := x.(VErr); ok && in.AssertedType.String() == "error" {
				return ret(st, x, true)
			}
		}
		s2 := st.clone()
		a, p1 := ret(st, e.fresh(st, in.AssertedType, "assertion"), true)
		b, p2 := ret(s2, nil, false)
		return append(a, b...), append(p1, p2...)
	}
	e.undecided(st, in.Pos(), "type assertion on %s", showVal(x))
	return nil, nil
}

func popcount(k KindSet) int { return bits.OnesCount64(uint64(k)) }
