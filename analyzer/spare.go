package main

import "go/types"

// --- slices with spare capacity ----------------------------------------------------------------------------------

// appendSpare appends to a slice whose list may have room behind it: elements are written in place then, as a
// program does, and are seen by every other slice of the list.
func (e *Engine) appendSpare(st *State, t types.Type, dst Value, x, y []LElem) Value {
	if v, ok := dst.(VSlice); ok {
		o := st.obj(v.Obj)
		off, n, _, known := st.consts3(v.Off, v.Len, linC(0))
		if known && !v.Full && o.kind == oList && explicit(o.elems) && explicit(y) && len(o.elems)-int(off+n) >= len(y) {
			m := *o
			m.elems = append([]LElem(nil), o.elems...)
			copy(m.elems[off+n:], y)
			st.set(v.Obj, &m)
			return VSlice{Obj: v.Obj, Off: v.Off, Len: v.Len.addC(int64(len(y)))}
		}
	}
	return e.spareList(st, t, append(append([]LElem(nil), x...), y...))
}

// spareList makes a list with room behind it.
func (e *Engine) spareList(st *State, t types.Type, els []LElem) VSlice {
	n := e.listLen(st, els)
	els = append([]LElem(nil), els...)
	for i := 0; i < e.cfg.spare; i++ {
		els = append(els, LElem{val: e.zero(t)})
	}
	l := e.newList(st, t, els)
	l.Len = n
	return l
}

func explicit(els []LElem) bool {
	for _, el := range els {
		if el.sum {
			return false
		}
	}
	return true
}

func (st *State) consts3(a, b, c Lin) (x, y, z int64, ok bool) {
	x, ok1 := st.zone.constOf(a)
	y, ok2 := st.zone.constOf(b)
	z, ok3 := st.zone.constOf(c)
	return x, y, z, ok1 && ok2 && ok3
}
