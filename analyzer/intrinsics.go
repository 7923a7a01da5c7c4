package main

import (
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type icall struct {
	fn   *ssa.Function
	args []Value
	pos  token.Pos
	c    *ssa.CallCommon
	u    *Unit
}

type intrinsic func(e *Engine, st *State, c *icall) ([]resv, []panicRes)

var intrinsics map[string]intrinsic

// strArg returns the text of a string or byte slice value.
func (e *Engine) text(st *State, v Value) Seq {
	switch v := v.(type) {
	case VStr:
		return v.S
	case VBytes:
		return v.S
	case VNil:
		return nil
	case VUnk:
		return st.newText("unknown")
	}
	e.undecided(st, token.NoPos, "text expected, got %s", showVal(v))
	return nil
}

func (e *Engine) bufOf(st *State, v Value, pos token.Pos) (VPtr, Seq) {
	p, ok := v.(VPtr)
	if !ok {
		e.undecided(st, pos, "buffer expected, got %s", showVal(v))
	}
	o := st.obj(p.Obj)
	b, ok := pathGet(o.val, p.Path)
	bv, ok2 := b.(VBuf)
	if !ok || !ok2 {
		e.undecided(st, pos, "buffer expected, got %s", showVal(b))
	}
	return p, bv.S
}

func (e *Engine) bufSet(st *State, p VPtr, s Seq, pos token.Pos) {
	e.store(st, p, VBuf{st.place(s)}, pos)
}

func nilErrTuple(vs ...Value) Value { return VTuple{append(vs, VNil{})} }

func pureBool(f func(e *Engine, st *State, a []Value) []boolRes) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		return toVals(f(e, st, c.args)), nil
	}
}

func freshResult(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
	r := c.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return ok1(st, VTuple{})
	case 1:
		return ok1(st, e.fresh(st, r.At(0).Type(), c.fn.Name()))
	}
	return ok1(st, e.fresh(st, r, c.fn.Name()))
}

func noop(e *Engine, st *State, c *icall) ([]resv, []panicRes) { return ok1(st, VTuple{}) }

// osCall records a file system effect that may fail.
func osCall(name string, mk func(e *Engine, st *State, c *icall) Value, argN int) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		var args []Value
		for i, a := range c.args {
			if i < argN {
				args = append(args, a)
			}
		}
		bad := st.clone()
		st.event(name, c.pos, args...)
		bad.event(name+"!", c.pos, args...)
		good := mk(e, st, c)
		st.note(c.pos, "%s succeeds", name)
		bad.note(c.pos, "%s fails", name)
		er := VErr{Tags: "err:" + name, Open: true}
		if good == nil {
			return []resv{{st, VNil{}}, {bad, er}}, nil
		}
		var zero Value = VNil{}
		if t := c.fn.Signature.Results(); t.Len() == 2 {
			zero = e.zero(t.At(0).Type())
		}
		return []resv{{st, VTuple{[]Value{good, VNil{}}}}, {bad, VTuple{[]Value{zero, er}}}}, nil
	}
}

func (e *Engine) newFile(st *State, name Value, mode string) Value {
	return VPtr{Obj: st.alloc(&Object{kind: oPlain, val: VStruct{[]Value{name, VStr{constSeq(mode)}}}})}
}

func (e *Engine) fileArg(st *State, v Value) []Value {
	if p, ok := v.(VPtr); ok {
		if s, ok := st.obj(p.Obj).val.(VStruct); ok && len(s.F) == 2 {
			return s.F
		}
	}
	return []Value{v, VStr{}}
}

func joinList(e *Engine, st *State, els []LElem, sep string, pos token.Pos) Seq {
	var out Seq
	for i, el := range els {
		if i > 0 {
			out = append(out, constSeq(sep)...)
		}
		if el.sum {
			if sep != "" || len(el.bad) > 0 {
				return st.newText("join")
			}
			out = append(out, el.seq...)
			continue
		}
		out = append(out, e.text(st, el.val)...)
	}
	return st.norm(out)
}

func fileWrite(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
	f := e.fileArg(st, c.args[0])
	bad := st.clone()
	data := VStr{e.text(st, c.args[1])}
	st.event("write", c.pos, f[0], data)
	bad.event("write!", c.pos, f[0], data)
	bad.note(c.pos, "write fails")
	st.note(c.pos, "write succeeds")
	return []resv{{st, VTuple{[]Value{VInt{st.lenOf(data.S)}, VNil{}}}}, {bad, VTuple{[]Value{VInt{bad.newNat()}, VErr{Tags: "err:write", Open: true}}}}}, nil
}

// formatLike models a function that rewrites a source text or fails.
func formatLike(kind string, dataArg int) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		in := st.norm(e.text(st, c.args[dataArg]))
		bad := st.clone()
		out := st.newText(kind)
		st.setMeta(out[0].Src, VStr{in})
		st.event(kind, c.pos, VStr{in})
		bad.event(kind+"!", c.pos, VStr{in})
		bad.note(c.pos, "%s fails", kind)
		st.note(c.pos, "%s succeeds", kind)
		return []resv{{st, VTuple{[]Value{VBytes{out}, VNil{}}}}, {bad, VTuple{[]Value{VNil{}, VErr{Tags: "err:" + kind, Open: true}}}}}, nil
	}
}

func itoa(i int) string { return strings.TrimSpace(strings.Join([]string{intStr(i)}, "")) }
func intStr(i int) string {
	if i == 0 {
		return "0"
	}
	neg := i < 0
	if neg {
		i = -i
	}
	var b []byte
	for i > 0 {
		b = append([]byte{byte('0' + i%10)}, b...)
		i /= 10
	}
	if neg {
		b = append([]byte{'-'}, b...)
	}
	return string(b)
}

func (e *Engine) prefixOp(suffix bool) func(e *Engine, st *State, a []Value) []boolRes {
	return func(e *Engine, st *State, a []Value) []boolRes {
		s, p := e.text(st, a[0]), st.norm(e.text(st, a[1]))
		if c, ok := p.constVal(); ok {
			if suffix {
				return e.hasSuffix(st, s, c)
			}
			return e.hasPrefix(st, s, c)
		}
		return e.unkFork(st, "")
	}
}

// pathFn is an uninterpreted pure function of its text argument: the same argument gives the same result.
func pathFn(name string) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		in := st.norm(e.text(st, c.args[0]))
		if s, ok := in.constVal(); ok {
			if r, ok := constPath(name, s); ok {
				return ok1(st, VStr{constSeq(r)})
			}
		}
		for id, s := range st.srcs {
			if m, ok := s.meta.(VStr); ok && s.name == "fn:"+name && st.seqEqual(m.S, in) {
				return ok1(st, VStr{Seq{{Src: id, A: linC(0), B: s.length}}})
			}
		}
		t := st.newText("fn:" + name)
		st.setMeta(t[0].Src, VStr{in})
		return ok1(st, VStr{t})
	}
}

func constPath(name, s string) (string, bool) { return "", false }

func strPred(name string) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		return toVals(e.unkFork(st, name)), nil
	}
}

// allIn tells whether all bytes of a text are in a set: 1 yes, -1 no, 0 unknown. Knowing is for constants and for
// sources whose parts have known bytes.
func (st *State) allIn(s Seq, set ByteSet) int {
	res := 1
	for _, p := range st.norm(s) {
		if p.isConst() {
			for i := 0; i < len(p.Const); i++ {
				if !set.has(p.Const[i]) {
					return -1
				}
			}
			continue
		}
		sr := st.srcs[p.Src]
		if sr == nil || sr.list {
			return 0
		}
		parts := sr.parts
		if parts == nil {
			parts = []part{{sr.length, allBytes()}}
		}
		begin := linC(0)
		for _, q := range parts {
			lo, hi := begin, q.end
			begin = q.end
			if st.zone.le(hi, p.A) || st.zone.le(p.B, lo) || st.zone.le(hi, lo) {
				continue
			}
			if q.set.and(set.not()).empty() {
				continue
			}
			// some byte of this part may be outside; it is when the part lies in the piece and has bytes
			in := st.zone.le(p.A, lo) && st.zone.lt(lo, hi) && st.zone.le(hi, p.B)
			if in && q.set.and(set).empty() {
				return -1
			}
			res = 0
		}
	}
	return res
}

func asciiSet(s string) (ByteSet, bool) {
	for i := 0; i < len(s); i++ {
		if s[i] >= 0x80 {
			return ByteSet{}, false
		}
	}
	return setOf(s), true
}

// anyOf asks whether a text has one of some bytes.
func anyOf(name string) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		t := e.text(st, c.args[0])
		var w string
		known := false
		if iv, ok := c.args[1].(VInt); ok {
			if k, ok := st.zone.constOf(iv.L); ok && k >= 0 && k < 0x80 {
				w, known = string(rune(k)), true
			}
		} else if s, ok := e.text(st, c.args[1]).constVal(); ok && (name != "Contains" || len(s) == 1) {
			w, known = s, true
		}
		if set, ok := asciiSet(w); ok && known {
			switch st.allIn(t, set.not()) {
			case 1:
				return ok1(st, VBool{false})
			case -1:
				return ok1(st, VBool{true})
			}
		}
		return toVals(e.unkFork(st, name)), nil
	}
}

// trim is a text without some bytes at its ends.
func trim(name string) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		t := e.text(st, c.args[0])
		if cut, ok := e.text(st, c.args[1]).constVal(); ok {
			if s, ok := st.norm(t).constVal(); ok {
				switch name {
				case "Trim":
					s = strings.Trim(s, cut)
				case "TrimLeft":
					s = strings.TrimLeft(s, cut)
				case "TrimRight":
					s = strings.TrimRight(s, cut)
				}
				return ok1(st, VStr{constSeq(s)})
			}
			if set, ok := asciiSet(cut); ok {
				switch st.allIn(t, set) {
				case 1:
					return ok1(st, VStr{})
				case -1:
					r := st.newText("trimmed")
					st.zone.assumeLE(linC(1).sub(st.lenOf(r)))
					st.zone.assumeLE(st.lenOf(r).sub(st.lenOf(t)))
					return ok1(st, VStr{r})
				}
			}
		}
		return freshResult(e, st, c)
	}
}

func textResult(name string) intrinsic {
	return func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		return freshResult(e, st, c)
	}
}

func init() {
	eq := pureBool(func(e *Engine, st *State, a []Value) []boolRes {
		return e.eq(st, VStr{e.text(st, a[0])}, VStr{e.text(st, a[1])}, token.NoPos)
	})
	write := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		p, s := e.bufOf(st, c.args[0], c.pos)
		t := e.text(st, c.args[1])
		n := st.lenOf(t)
		e.bufSet(st, p, catSeq(s, t), c.pos)
		return ok1(st, nilErrTuple(VInt{n}))
	}
	writeByte := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		p, s := e.bufOf(st, c.args[0], c.pos)
		e.bufSet(st, p, catSeq(s, e.byteSeq(st, c.args[1])), c.pos)
		return ok1(st, VNil{})
	}
	writeRune := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		p, s := e.bufOf(st, c.args[0], c.pos)
		rs, pan := e.convert(st, types.Typ[types.Int32], types.Typ[types.String], c.args[1], c.pos)
		var out []resv
		for _, r := range rs {
			t := e.text(r.st, r.val)
			e.bufSet(r.st, p, catSeq(s, t), c.pos)
			out = append(out, resv{r.st, nilErrTuple(VInt{r.st.lenOf(t)})})
		}
		return out, pan
	}
	bufString := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		if _, ok := c.args[0].(VNil); ok {
			return ok1(st, VStr{constSeq("<nil>")})
		}
		_, s := e.bufOf(st, c.args[0], c.pos)
		return ok1(st, VStr{s})
	}
	bufBytes := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		_, s := e.bufOf(st, c.args[0], c.pos)
		return ok1(st, VBytes{s})
	}
	bufLen := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		_, s := e.bufOf(st, c.args[0], c.pos)
		return ok1(st, VInt{st.lenOf(s)})
	}
	bufReset := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		p, _ := e.bufOf(st, c.args[0], c.pos)
		e.bufSet(st, p, nil, c.pos)
		return ok1(st, VTuple{})
	}
	errNew := func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
		e.errSeq++
		tag := "errors.New@" + e.posStr(c.pos)
		return ok1(st, VErr{Tags: tag})
	}
	intrinsics = map[string]intrinsic{
		"strings.HasPrefix":    pureBool((&Engine{}).prefixOp(false)),
		"strings.HasSuffix":    pureBool((&Engine{}).prefixOp(true)),
		"bytes.HasPrefix":      pureBool((&Engine{}).prefixOp(false)),
		"bytes.HasSuffix":      pureBool((&Engine{}).prefixOp(true)),
		"bytes.Equal":          eq,
		"strings.EqualFold":    strPred("EqualFold"),
		"strings.Contains":     anyOf("Contains"),
		"strings.ContainsAny":  anyOf("ContainsAny"),
		"strings.ContainsRune": anyOf("ContainsRune"),
		"bytes.Contains":       anyOf("Contains"),
		"bytes.ContainsAny":    anyOf("ContainsAny"),
		"strings.Count": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			if s, ok := e.text(st, c.args[1]).constVal(); ok && s == "\n" {
				return ok1(st, VInt{st.nlOf(st.norm(e.text(st, c.args[0])))})
			}
			return ok1(st, VInt{st.newNat()})
		},
		"bytes.Count": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			if s, ok := e.text(st, c.args[1]).constVal(); ok && s == "\n" {
				return ok1(st, VInt{st.nlOf(st.norm(e.text(st, c.args[0])))})
			}
			return ok1(st, VInt{st.newNat()})
		},
		"strings.Join": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			sep, ok := e.text(st, c.args[1]).constVal()
			if !ok {
				return ok1(st, VStr{st.newText("join")})
			}
			return ok1(st, VStr{joinList(e, st, e.window(st, c.args[0], c.pos), sep, c.pos)})
		},
		"strings.Clone":   func(e *Engine, st *State, c *icall) ([]resv, []panicRes) { return ok1(st, c.args[0]) },
		"bytes.Clone":     func(e *Engine, st *State, c *icall) ([]resv, []panicRes) { return ok1(st, c.args[0]) },
		"strings.ToLower": textResult("ToLower"), "strings.ToUpper": textResult("ToUpper"),
		"strings.TrimSpace": textResult("TrimSpace"), "strings.Trim": trim("Trim"),
		"strings.TrimLeft": trim("TrimLeft"), "strings.TrimRight": trim("TrimRight"),
		"strings.TrimPrefix": textResult("TrimPrefix"), "strings.TrimSuffix": textResult("TrimSuffix"),
		"strings.ReplaceAll": textResult("ReplaceAll"), "strings.Replace": textResult("Replace"),
		"strings.Repeat": textResult("Repeat"), "strings.Fields": textResult("Fields"),
		"strings.Split": textResult("Split"), "strings.Map": textResult("Map"),
		"strings.Cut":                 textResult("Cut"),
		"strings.NewReplacer":         textResult("NewReplacer"),
		"(*strings.Replacer).Replace": textResult("Replace"),
		"bytes.TrimSpace":             textResult("TrimSpace"), "bytes.ReplaceAll": textResult("ReplaceAll"),
		"strconv.Itoa": textResult("Itoa"), "strconv.Quote": textResult("Quote"),
		"fmt.Sprintf": textResult("Sprintf"), "fmt.Sprint": textResult("Sprint"), "fmt.Sprintln": textResult("Sprintln"),
		"fmt.Println": freshResult, "fmt.Printf": freshResult, "fmt.Print": freshResult,
		"fmt.Fprintln": freshResult, "fmt.Fprintf": freshResult,
		"fmt.Errorf": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			f, _ := e.text(st, c.args[0]).constVal()
			tags := []string{"fmt.Errorf@" + e.posStr(c.pos)}
			open := false
			if strings.Contains(f, "%w") {
				for _, el := range e.window(st, c.args[1], c.pos) {
					if er, ok := el.val.(VErr); ok {
						tags = append(tags, strings.Fields(er.Tags)...)
						open = open || er.Open
					}
				}
			}
			return ok1(st, VErr{Tags: strings.Join(tags, " "), Open: open})
		},
		"errors.New": errNew,
		"errors.Is": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			a, ok1_ := c.args[0].(VErr)
			b, ok2 := c.args[1].(VErr)
			if _, isNil := c.args[0].(VNil); isNil {
				_, bn := c.args[1].(VNil)
				return ok1(st, VBool{bn})
			}
			if ok1_ && ok2 {
				want := strings.Fields(b.Tags)[0]
				for _, t := range strings.Fields(a.Tags) {
					if t == want {
						return ok1(st, VBool{true})
					}
				}
				if !a.Open {
					return ok1(st, VBool{false})
				}
				// an unknown error: either it is the target or not
				root := strings.Fields(a.Tags)[0]
				for _, t := range strings.Fields(a.Tags) {
					if strings.HasPrefix(t, "err:") {
						root = t // what a wrapper wraps
						break
					}
				}
				key := "is:" + root + ":" + want
				if v, ok := st.ghost[key]; ok {
					return ok1(st, v)
				}
				s2 := st.clone()
				st.ghost[key], s2.ghost[key] = VBool{true}, VBool{false}
				st.note(c.pos, "the error is %s", want)
				s2.note(c.pos, "the error is not %s", want)
				return []resv{{st, VBool{true}}, {s2, VBool{false}}}, nil
			}
			return toVals(e.unkFork(st, "")), nil
		},
		"errors.Join": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			var tags []string
			open := false
			any := false
			for _, el := range e.window(st, c.args[0], c.pos) {
				if er, ok := el.val.(VErr); ok {
					any = true
					tags = append(tags, strings.Fields(er.Tags)...)
					open = open || er.Open
				}
			}
			if !any {
				return ok1(st, VNil{})
			}
			return ok1(st, VErr{Tags: strings.Join(append([]string{"errors.Join@" + e.posStr(c.pos)}, tags...), " "), Open: open})
		},
		"slices.Reverse": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			v, ok := c.args[0].(VSlice)
			if !ok {
				return ok1(st, VTuple{})
			}
			o := st.obj(v.Obj)
			if els, off, n, ok := e.explicitPart(st, v); ok {
				part := append([]Value(nil), els[off:off+n]...)
				slices.Reverse(part)
				e.setPart(st, v, off, part)
				return ok1(st, VTuple{})
			}
			if o.kind != oList || !st.zone.equal(v.Off, linC(0)) || !st.zone.equal(v.Len, e.listLen(st, o.elems)) {
				e.undecided(st, c.pos, "slices.Reverse of a part of a slice")
			}
			var out []LElem
			for i := len(o.elems) - 1; i >= 0; i-- {
				el := o.elems[i]
				if el.sum {
					var seq Seq
					okAll := true
					for j := len(el.seq) - 1; j >= 0; j-- {
						a := el.seq[j]
						if a.isConst() || !st.srcs[a.Src].list {
							okAll = false
							break
						}
						a.Rev = !a.Rev
						seq = append(seq, a)
					}
					if !okAll {
						seq = st.newText("reversed")
					}
					el.seq = seq
				}
				out = append(out, el)
			}
			n := *o
			n.elems = out
			st.set(v.Obj, &n)
			return ok1(st, VTuple{})
		},
		"slices.Clip": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			if v, ok := c.args[0].(VSlice); ok {
				v.Full = true
				return ok1(st, v)
			}
			return ok1(st, c.args[0])
		},
		"slices.Grow": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) { return ok1(st, c.args[0]) },
		"slices.Clone": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			switch v := c.args[0].(type) {
			case VSlice:
				return ok1(st, e.newList(st, st.obj(v.Obj).typ, e.window(st, v, c.pos)))
			}
			return ok1(st, c.args[0])
		},
		"slices.Concat": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			var all []LElem
			var t types.Type = c.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
			for _, el := range e.window(st, c.args[0], c.pos) {
				all = append(all, e.window(st, el.val, c.pos)...)
			}
			if len(all) == 0 {
				return ok1(st, VNil{})
			}
			return ok1(st, e.newList(st, t, all))
		},
		"(*strings.Builder).WriteString": write, "(*strings.Builder).Write": write,
		"(*strings.Builder).WriteByte": writeByte, "(*strings.Builder).WriteRune": writeRune,
		"(*strings.Builder).String": bufString, "(*strings.Builder).Len": bufLen,
		"(*strings.Builder).Reset": bufReset, "(*strings.Builder).Grow": noop,
		"(*strings.Builder).Cap":      freshResult,
		"(*bytes.Buffer).WriteString": write, "(*bytes.Buffer).Write": write,
		"(*bytes.Buffer).WriteByte": writeByte, "(*bytes.Buffer).WriteRune": writeRune,
		"(*bytes.Buffer).String": bufString, "(*bytes.Buffer).Len": bufLen, "(*bytes.Buffer).Bytes": bufBytes,
		"(*bytes.Buffer).Reset": bufReset, "(*bytes.Buffer).Grow": noop,
		"(*bytes.Buffer).Truncate": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			p, s := e.bufOf(st, c.args[0], c.pos)
			n, ok := c.args[1].(VInt)
			if !ok {
				n = VInt{st.newNat()}
			}
			e.bufSet(st, p, e.subSeq(st, s, linC(0), n.L), c.pos)
			return ok1(st, VTuple{})
		},
		"bytes.NewBufferString": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			return ok1(st, st.allocVal(c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), VBuf{e.text(st, c.args[0])}))
		},
		"bytes.NewBuffer": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			return ok1(st, st.allocVal(c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem(), VBuf{e.text(st, c.args[0])}))
		},
		"path/filepath.Dir": pathFn("Dir"), "path/filepath.Base": pathFn("Base"), "path/filepath.Ext": pathFn("Ext"),
		"path/filepath.Clean": pathFn("Clean"), "path/filepath.ToSlash": pathFn("ToSlash"),
		"path.Dir": pathFn("path.Dir"), "path.Base": pathFn("path.Base"), "path.Ext": pathFn("path.Ext"),

		"os.Open":      osCall("open", func(e *Engine, st *State, c *icall) Value { return e.newFile(st, c.args[0], "r") }, 1),
		"os.Create":    osCall("create", func(e *Engine, st *State, c *icall) Value { return e.newFile(st, c.args[0], "w") }, 1),
		"os.OpenFile":  osCall("openfile", func(e *Engine, st *State, c *icall) Value { return e.newFile(st, c.args[0], "w") }, 3),
		"os.MkdirAll":  osCall("mkdirall", func(e *Engine, st *State, c *icall) Value { return nil }, 1),
		"os.Mkdir":     osCall("mkdir", func(e *Engine, st *State, c *icall) Value { return nil }, 1),
		"os.Remove":    osCall("remove", func(e *Engine, st *State, c *icall) Value { return nil }, 1),
		"os.RemoveAll": osCall("removeall", func(e *Engine, st *State, c *icall) Value { return nil }, 1),
		"os.Rename":    osCall("rename", func(e *Engine, st *State, c *icall) Value { return nil }, 2),
		"os.Truncate":  osCall("truncate", func(e *Engine, st *State, c *icall) Value { return nil }, 1),
		"os.WriteFile": osCall("writefile", func(e *Engine, st *State, c *icall) Value { return nil }, 2),
		"os.Stat":      osCall("stat", func(e *Engine, st *State, c *icall) Value { return st.newUnk(nil) }, 1),
		"os.ReadFile": osCall("readfile", func(e *Engine, st *State, c *icall) Value {
			t := st.newText("file contents")
			st.setMeta(t[0].Src, c.args[0])
			return VBytes{t}
		}, 1),
		"io.ReadAll": osCall("read", func(e *Engine, st *State, c *icall) Value {
			a := c.args[0]
			if i, ok := a.(VIface); ok {
				a = i.V
			}
			t := st.newText("file contents")
			st.setMeta(t[0].Src, e.fileArg(st, a)[0])
			return VBytes{t}
		}, 1),
		"os.IsNotExist": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			return intrinsics["errors.Is"](e, st, &icall{fn: c.fn, args: []Value{c.args[0], VErr{Tags: "os.ErrNotExist"}}, pos: c.pos})
		},
		"(*os.File).Close": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			f := e.fileArg(st, c.args[0])
			st.event("close", c.pos, f[0])
			bad := st.clone()
			return []resv{{st, VNil{}}, {bad, VErr{Tags: "err:close", Open: true}}}, nil
		},
		"(*os.File).Sync": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			bad := st.clone()
			return []resv{{st, VNil{}}, {bad, VErr{Tags: "err:sync", Open: true}}}, nil
		},
		"(*os.File).Name": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			return ok1(st, e.fileArg(st, c.args[0])[0])
		},
		"(*os.File).Write": fileWrite, "(*os.File).WriteString": fileWrite,
		"io.WriteString": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			a := c.args[0]
			if i, ok := a.(VIface); ok {
				a = i.V
			}
			return fileWrite(e, st, &icall{fn: c.fn, args: []Value{a, c.args[1]}, pos: c.pos})
		},
		"go/format.Source":                   formatLike("gofmt", 0),
		"golang.org/x/tools/imports.Process": formatLike("imports", 1),
		"log/slog.Error":                     noop, "log/slog.Warn": noop, "log/slog.Info": noop, "log/slog.Debug": noop,
		"log.Println": noop, "log.Printf": noop, "log.Print": noop,
		"runtime/debug.Stack": func(e *Engine, st *State, c *icall) ([]resv, []panicRes) {
			return ok1(st, VBytes{st.newText("stack")})
		},
	}
}

// --- builtins -----------------------------------------------------------------------

func (e *Engine) builtin(st *State, b *ssa.Builtin, args []Value, c *ssa.CallCommon, pos token.Pos) ([]resv, []panicRes) {
	switch b.Name() {
	case "len", "cap":
		switch v := args[0].(type) {
		case VStr:
			return ok1(st, VInt{st.lenOf(st.norm(v.S))})
		case VBytes:
			return ok1(st, VInt{st.lenOf(st.norm(v.S))})
		case VSlice:
			if o := st.obj(v.Obj); b.Name() == "cap" && e.cfg.spare > 0 && !v.Full && o.kind == oList {
				return ok1(st, VInt{e.listLen(st, o.elems).sub(v.Off)})
			}
			return ok1(st, VInt{v.Len})
		case VNil:
			return ok1(st, VInt{})
		case VMap:
			o := st.obj(v.Obj)
			if !o.open {
				return ok1(st, VInt{linC(int64(len(o.keys)))})
			}
		case VStruct:
			return ok1(st, VInt{linC(int64(len(v.F)))})
		}
		return ok1(st, VInt{st.newNat()})
	case "append":
		if e.cfg.onAppend != nil {
			e.cfg.onAppend(e, st, args, pos)
		}
		t := c.Args[0].Type()
		if isByteSlice(t) {
			s := st.norm(catSeq(e.text(st, args[0]), e.text(st, args[1])))
			if len(s) == 0 {
				return ok1(st, args[0])
			}
			return ok1(st, VBytes{s})
		}
		el := t.Underlying().(*types.Slice).Elem()
		x, y := e.window(st, args[0], pos), e.window(st, args[1], pos)
		if len(x) == 0 && len(y) == 0 {
			return ok1(st, args[0])
		}
		if e.cfg.spare > 0 {
			return ok1(st, e.appendSpare(st, el, args[0], x, y))
		}
		return ok1(st, e.newList(st, el, append(append([]LElem(nil), x...), y...)))
	case "copy":
		dst, ok := args[0].(VSlice)
		if !ok {
			if _, isNil := args[0].(VNil); isNil {
				return ok1(st, VInt{})
			}
			e.undecided(st, pos, "copy into %s", showVal(args[0]))
		}
		src := e.window(st, args[1], pos)
		o := st.obj(dst.Obj)
		n := e.listLen(st, src)
		if o.kind == oList && st.zone.equal(dst.Off, linC(0)) && st.zone.equal(dst.Len, e.listLen(st, o.elems)) && st.zone.equal(n, dst.Len) {
			m := *o
			m.elems = src
			st.set(dst.Obj, &m)
			return ok1(st, VInt{n})
		}
		if k, ok := st.zone.constOf(n); ok && k == 0 {
			return ok1(st, VInt{})
		}
		if k, off, l, ok := st.consts3(n, dst.Off, dst.Len); ok && o.kind == oList && explicit(o.elems) && explicit(src) {
			m := *o
			m.elems = append([]LElem(nil), o.elems...)
			k = min(k, l)
			copy(m.elems[off:off+k], src)
			st.set(dst.Obj, &m)
			return ok1(st, VInt{linC(k)})
		}
		if _, off, l, ok := e.explicitPart(st, dst); ok && explicit(src) {
			var part []Value
			for _, el := range src[:min(len(src), l)] {
				part = append(part, el.val)
			}
			e.setPart(st, dst, off, part)
			return ok1(st, VInt{linC(int64(len(part)))})
		}
		e.undecided(st, pos, "copy of a part of a slice")
	case "print", "println":
		return ok1(st, VTuple{})
	case "delete":
		m, ok := args[0].(VMap)
		if !ok {
			return ok1(st, VTuple{})
		}
		o := *st.obj(m.Obj)
		for i := range o.keys {
			rs := e.eq(st, args[1], o.keys[i], pos)
			if len(rs) != 1 {
				o.keys, o.vals, o.open = nil, nil, true
				break
			}
			if rs[0].b {
				o.keys = append(append([]Value(nil), o.keys[:i]...), o.keys[i+1:]...)
				o.vals = append(append([]Value(nil), o.vals[:i]...), o.vals[i+1:]...)
				break
			}
		}
		st.set(m.Obj, &o)
		return ok1(st, VTuple{})
	case "min", "max":
		if len(args) == 1 {
			return ok1(st, args[0])
		}
		acc := one(st, args[0])
		for _, y := range args[1:] {
			var nx []resv
			for _, a := range acc {
				x, ok1_ := a.val.(VInt)
				yv, ok2 := y.(VInt)
				if !ok1_ || !ok2 {
					nx = append(nx, resv{a.st, e.fresh(a.st, b.Type().(*types.Signature).Results().At(0).Type(), "min")})
					continue
				}
				for _, r := range e.cmpLE(a.st, x.L, yv.L) {
					if r.b == (b.Name() == "min") {
						nx = append(nx, resv{r.st, x})
					} else {
						nx = append(nx, resv{r.st, yv})
					}
				}
			}
			acc = nx
		}
		return acc, nil
	case "recover":
		v := st.panicV
		// only the deferred function itself may recover
		if v != nil && len(st.frames) >= 1 && st.top().isDefer {
			st.panicV = nil
			return ok1(st, v)
		}
		return ok1(st, VNil{})
	case "ssa:wrapnilchk":
		if _, ok := args[0].(VNil); ok {
			return nil, []panicRes{{st, "nil pointer dereference"}}
		}
		return ok1(st, args[0])
	}
	e.undecided(st, pos, "builtin %s", b.Name())
	return nil, nil
}

// explicitPart gives the elements of what a slice lies on and the part of it, if all of that is known.
func (e *Engine) explicitPart(st *State, v VSlice) ([]Value, int, int, bool) {
	off, ok1 := st.zone.constOf(v.Off)
	n, ok2 := st.zone.constOf(v.Len)
	if !ok1 || !ok2 {
		return nil, 0, 0, false
	}
	var els []Value
	switch o := st.obj(v.Obj); o.kind {
	case oPlain:
		s, ok := o.val.(VStruct)
		if !ok {
			return nil, 0, 0, false
		}
		els = s.F
	case oList:
		if !explicit(o.elems) {
			return nil, 0, 0, false
		}
		for _, el := range o.elems {
			els = append(els, el.val)
		}
	default:
		return nil, 0, 0, false
	}
	if off < 0 || n < 0 || int(off+n) > len(els) {
		return nil, 0, 0, false
	}
	return els, int(off), int(n), true
}

// setPart stores values into what a slice lies on.
func (e *Engine) setPart(st *State, v VSlice, off int, part []Value) {
	o := *st.obj(v.Obj)
	if o.kind == oPlain {
		s := VStruct{F: append([]Value(nil), o.val.(VStruct).F...)}
		copy(s.F[off:], part)
		o.val = s
	} else {
		o.elems = append([]LElem(nil), o.elems...)
		for i, x := range part {
			o.elems[off+i].val = x
		}
	}
	st.set(v.Obj, &o)
}
