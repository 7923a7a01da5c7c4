package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value.
type Value interface{}

// ObjID names a heap object of a state.
type ObjID int32

// SrcID names an unknown sequence: the bytes of an unknown text, or the elements of an unknown list.
type SrcID int32

// KSym names an unknown node kind; the state holds the set of kinds it may be.
type KSym int32

type (
	VInt  struct{ L Lin }
	VBool struct{ B bool }
	// VNil is the nil pointer, slice, map, function or interface.
	VNil struct{}
	// VPtr points into an object. Path selects nested fields and elements.
	VPtr struct {
		Obj  ObjID
		Path string
	}
	// VElemPtr points to an element of a list object at a symbolic index.
	VElemPtr struct {
		Obj ObjID
		Idx Lin
	}
	// VBytePtr points to a byte of an immutable byte sequence.
	VBytePtr struct {
		S   Seq
		Off Lin
	}
	// VStr is a string; Bytes marks a []byte with (immutable) contents.
	VStr   struct{ S Seq }
	VBytes struct {
		S Seq
	}
	// VByte is an unknown byte: the byte of Src at offset Off.
	VByte struct {
		Src SrcID
		Off Lin
	}
	VIface struct {
		T types.Type
		V Value
	}
	VFunc struct {
		Fn   *ssa.Function
		Bind []Value
	}
	// VCallback is a function value supplied by the user of the API.
	VCallback struct{ Name string }
	VStruct   struct{ F []Value } // structs and arrays
	// VSlice is a window of a list object.
	VSlice struct {
		Obj      ObjID
		Off, Len Lin
		Full     bool // its capacity is its length
	}
	VMap   struct{ Obj ObjID }
	VKind  struct{ K KSym }
	VTuple struct{ V []Value }
	// VUnk is a value nothing is known about.
	VUnk struct {
		ID int
		T  types.Type
	}
	// VErr is a non-nil error: Tags lists the identities errors.Is finds in it; Open means there may be more.
	VErr struct {
		Tags string // space separated, first is own identity
		Open bool
	}
	VBuf   struct{ S Seq } // contents of strings.Builder / bytes.Buffer
	VRange struct {
		Obj ObjID // iterator object
	}
	VType struct{ T types.Type } // reflect.Type-ish
	// VExtGlobal is the address of a variable of a package outside the module.
	VExtGlobal struct{ G *ssa.Global }
)

// Atom is a piece of a text.
type Atom struct {
	Const string // when Src == 0
	Src   SrcID
	Rev   bool // list sources only: elements in reverse order
	A, B  Lin  // units [A,B) of Src
}

// Seq is a text: the concatenation of its atoms.
type Seq []Atom

func (a Atom) isConst() bool { return a.Src == 0 }

func constSeq(s string) Seq {
	if s == "" {
		return nil
	}
	return Seq{{Const: s}}
}

func (s Seq) constVal() (string, bool) {
	var sb strings.Builder
	for _, a := range s {
		if !a.isConst() {
			return "", false
		}
		sb.WriteString(a.Const)
	}
	return sb.String(), true
}

func (s Seq) subst(f func(Sym) Lin) Seq {
	if len(s) == 0 {
		return s
	}
	r := make(Seq, len(s))
	for i, a := range s {
		if !a.isConst() {
			a.A, a.B = a.A.subst(f), a.B.subst(f)
		}
		r[i] = a
	}
	return r
}

func (s Seq) String() string {
	if len(s) == 0 {
		return `""`
	}
	var out []string
	for _, a := range s {
		if a.isConst() {
			out = append(out, fmt.Sprintf("%q", a.Const))
			continue
		}
		r := ""
		if a.Rev {
			r = "~"
		}
		out = append(out, fmt.Sprintf("%sT%d[%v:%v]", r, a.Src, a.A, a.B))
	}
	return strings.Join(out, "·")
}

// ByteSet is a set of byte values.
type ByteSet [4]uint64

func allBytes() ByteSet           { return ByteSet{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)} }
func (b ByteSet) has(c byte) bool { return b[c>>6]&(1<<(c&63)) != 0 }
func (b *ByteSet) add(c byte)     { b[c>>6] |= 1 << (c & 63) }
func (b *ByteSet) del(c byte)     { b[c>>6] &^= 1 << (c & 63) }
func (b ByteSet) and(o ByteSet) ByteSet {
	for i := range b {
		b[i] &= o[i]
	}
	return b
}
func (b ByteSet) or(o ByteSet) ByteSet {
	for i := range b {
		b[i] |= o[i]
	}
	return b
}
func (b ByteSet) not() ByteSet {
	for i := range b {
		b[i] = ^b[i]
	}
	return b
}
func (b ByteSet) empty() bool { return b == ByteSet{} }
func (b ByteSet) single() (byte, bool) {
	n, r := 0, byte(0)
	for c := 0; c < 256; c++ {
		if b.has(byte(c)) {
			n++
			r = byte(c)
		}
	}
	return r, n == 1
}

// KindSet is a set of node kinds: bit i stands for kind i of the universe, bit 63 for any other kind.
type KindSet uint64

const allKinds = ^KindSet(0)

func pathAppend(p string, i int) string {
	return p + string([]byte{byte(i >> 8), byte(i)})
}

func pathElems(p string) []int {
	var r []int
	for i := 0; i+1 < len(p); i += 2 {
		r = append(r, int(p[i])<<8|int(p[i+1]))
	}
	return r
}

func pathGet(v Value, p string) (Value, bool) {
	for i := 0; i+1 < len(p); i += 2 {
		k := int(p[i])<<8 | int(p[i+1])
		s, ok := v.(VStruct)
		if !ok || k >= len(s.F) {
			return nil, false
		}
		v = s.F[k]
	}
	return v, true
}

func pathSet(v Value, p string, nv Value) (Value, bool) {
	if p == "" {
		return nv, true
	}
	s, ok := v.(VStruct)
	k := int(p[0])<<8 | int(p[1])
	if !ok || k >= len(s.F) {
		return nil, false
	}
	in, ok := pathSet(s.F[k], p[2:], nv)
	if !ok {
		return nil, false
	}
	f := append([]Value(nil), s.F...)
	f[k] = in
	return VStruct{f}, true
}

func showVal(v Value) string {
	switch v := v.(type) {
	case nil:
		return "?"
	case VInt:
		return v.L.String()
	case VBool:
		return fmt.Sprint(v.B)
	case VNil:
		return "nil"
	case VPtr:
		return fmt.Sprintf("&o%d%v", v.Obj, pathElems(v.Path))
	case VStr:
		return v.S.String()
	case VBytes:
		return "[]byte(" + v.S.String() + ")"
	case VBuf:
		return "buf(" + v.S.String() + ")"
	case VFunc:
		return "func " + v.Fn.String()
	case VStruct:
		var o []string
		for _, f := range v.F {
			o = append(o, showVal(f))
		}
		return "{" + strings.Join(o, ", ") + "}"
	case VIface:
		return "iface(" + showVal(v.V) + ")"
	case VTuple:
		var o []string
		for _, f := range v.V {
			o = append(o, showVal(f))
		}
		return "(" + strings.Join(o, ", ") + ")"
	}
	return fmt.Sprintf("%T%+v", v, v)
}
