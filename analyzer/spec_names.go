package main

import (
	"fmt"
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- what a scope says about its names -------------------------------------------------------------------------

// namePart is a piece of the node list of a scope: one node, or a run of one or more.
type namePart struct {
	label string
	kinds KindSet
	one   bool
	text  string // of one node; "" when unknown
	not   string // what the text of one node is not
}

// nameList makes the nodes of a scope and remembers their texts by label.
func (e *Engine) nameList(st *State, parts []namePart) Value {
	var ids []ObjID
	for _, p := range parts {
		n := st.newNat()
		st.zone.assumeLE(linC(1).sub(n))
		t := Seq{{Src: st.newSrc(p.label, false, n), A: linC(0), B: n}}
		switch {
		case p.text != "":
			t = constSeq(p.text)
			fallthrough
		case p.one:
			if p.not != "" {
				st.preds = append(st.preds[:len(st.preds):len(st.preds)], predFact{'=', t[0].Src, t[0].A, t[0].B, p.not, false})
			}
			ids = append(ids, st.alloc(e.newNodeObj(st, t, p.kinds, VNil{}, VNil{}, false)))
			st.ghost["nt:"+p.label] = VStr{t}
		default:
			ids = append(ids, st.alloc(&Object{kind: oSeg, typ: e.role.node, text: t, kinds: p.kinds, prev: VNil{}, next: VNil{}}))
		}
	}
	for j := 1; j < len(ids); j++ {
		e.setLink(st, ids[j-1], true, VPtr{Obj: ids[j]})
		e.setLink(st, ids[j], false, VPtr{Obj: ids[j-1]})
	}
	if len(ids) == 0 {
		return VNil{}
	}
	for j, id := range ids {
		if st.obj(id).kind == oPlain {
			st.ghost[fmt.Sprintf("part%d", j)] = VPtr{Obj: id} // kept apart
		}
	}
	if st.obj(ids[0]).kind == oSeg {
		return VPtr{Obj: e.pickFirst(st, ids[0])}
	}
	return VPtr{Obj: ids[0]}
}

// pickFirst exposes the first node of a run that has more.
func (e *Engine) pickFirst(st *State, seg ObjID) ObjID { return e.pick(st, seg, false, true) }

type nameCase struct {
	parts []namePart
	want  string // label of the node whose text is expected, "" for none
}

// optional gives the lists with and without every run.
func optional(parts []namePart, want string) []nameCase {
	out := []nameCase{{nil, want}}
	for _, p := range parts {
		var next []nameCase
		for _, c := range out {
			with := append(c.parts[:len(c.parts):len(c.parts)], p)
			if !p.one && p.text == "" {
				next = append(next, nameCase{c.parts, want})
				if len(c.parts) == 0 {
					// the first node of a run at the start may be alone
					q := p
					q.one, q.label = true, "x"+p.label
					next = append(next, nameCase{[]namePart{q}, want})
				}
			}
			next = append(next, nameCase{with, want})
		}
		out = next
	}
	return out
}

func checkC17(p *Program, r *Report, thorough bool) error {
	e, err := p.newEngine(&Config{keepPreds: true})
	if err != nil {
		return err
	}
	kinds := func(names ...string) KindSet {
		k := e.kindSetNames(names...)
		for _, n := range names {
			if e.kindSetNames(n) == 0 {
				r.fail("anchor:kind."+n, "kind/kind.go", "kind "+n+" not found", nil)
			}
		}
		return k
	}
	T, F, R, M := kinds("TypeName"), kinds("FuncName"), kinds("MethodReceiverType"), allKinds
	open, closing := kinds("SquareBracketLeft"), kinds("SquareBracketRight")
	fill := kinds("Space", "Tab", "NewLine", "Comment")
	one := func(label string, k KindSet) namePart { return namePart{label: label, kinds: k, one: true} }
	run := func(label string, k KindSet) namePart { return namePart{label: label, kinds: k} }
	firstOf := func(k KindSet) []nameCase {
		cs := optional([]namePart{run("a", M&^k)}, "")
		return append(cs, optional([]namePart{run("a", M&^k), one("name", k), run("b", M)}, "name")...)
	}
	// function name and receiver
	method := func(want string) []nameCase {
		w := func(receiver, name bool) string {
			switch {
			case want == "R" && receiver:
				return "recv"
			case want == "M" && receiver && name:
				return "name"
			}
			return ""
		}
		rest := M &^ R &^ F
		cs := optional([]namePart{run("a", rest)}, "")
		cs = append(cs, optional([]namePart{run("a", rest), one("recv", R), run("b", M&^F)}, w(true, false))...)
		cs = append(cs, optional([]namePart{run("a", rest), one("name", F), run("b", M&^R)}, w(false, true))...)
		cs = append(cs, optional([]namePart{run("a", rest), one("recv", R), run("b", M&^F), one("name", F), run("c", M)}, w(true, true))...)
		cs = append(cs, optional([]namePart{run("a", rest), one("name", F), run("b", M&^R), one("recv", R), run("c", M)}, w(true, true))...)
		return cs
	}
	// few gives the lists with every run, without any, and without each one
	few := func(parts []namePart, want string) []nameCase {
		runs := 0
		for _, p := range parts {
			if !p.one && p.text == "" {
				runs++
			}
		}
		if runs <= 2 {
			return optional(parts, want)
		}
		var out []nameCase
		for drop := -2; drop < len(parts); drop++ {
			if drop >= 0 && (parts[drop].one || parts[drop].text != "") {
				continue
			}
			var c []namePart
			for j, p := range parts {
				if (drop == -2 || j == drop) && !p.one && p.text == "" {
					continue
				}
				c = append(c, p)
			}
			out = append(out, nameCase{c, want})
		}
		return out
	}
	declared := func(k KindSet) []nameCase {
		eq := namePart{label: "eq", kinds: M &^ k &^ open &^ closing &^ T, one: true, text: "="}
		var cs []nameCase
		cs = append(cs, optional([]namePart{run("a", M&^T)}, "")...)
		other := M &^ fill
		brackets := [][]namePart{nil}
		in := M &^ open &^ closing
		brackets = append(brackets, []namePart{one("o", open), run("i", in), one("c", closing)},
			[]namePart{one("o", open), run("i", in), one("o2", open), run("j", in), one("c2", closing), run("k", in), one("c", closing)})
		for _, br := range brackets {
			for _, alias := range [][]namePart{nil, {eq}} {
				head := []namePart{run("a", M&^T), one("name", T)}
				head = append(head, br...)
				head = append(head, run("f", fill))
				head = append(head, alias...)
				if alias != nil {
					head = append(head, run("g", fill))
				}
				cs = append(cs, few(head, "")...)
				for _, last := range []struct {
					k    KindSet
					want string
				}{{k, "name"}, {other &^ k &^ open, ""}} {
					ps := append(head[:len(head):len(head)], namePart{label: "declared", kinds: last.k, one: true, not: "="}, run("z", M))
					cs = append(cs, few(ps, last.want)...)
				}
				if len(br) > 0 {
					// an array or slice of something
					ps := append(head[:len(head):len(head)], namePart{label: "declared", kinds: open, one: true, not: "="}, run("z", M))
					cs = append(cs, few(ps, "")...)
				}
			}
		}
		return cs
	}
	type query struct {
		method, kind string
		cases        []nameCase
	}
	qs := []query{
		{"GetFuncName", "Func", firstOf(F)},
		{"GetTypeName", "Type", firstOf(T)},
		{"GetMethodReceiver", "Func", method("R")},
		{"GetMethodName", "Func", method("M")},
		{"GetStructName", "Type", declared(kinds("Struct"))},
		{"GetInterfaceName", "Type", declared(kinds("Interface"))},
	}
	if len(r.viol) > 0 {
		return nil
	}
	e.cfg.onStore = func(e *Engine, st *State, o *Object, path string, pos token.Pos) {
		if e.isNode(o.typ) {
			st.bad = addBad(st.bad, e.posStr(pos)+": a node is changed")
		}
	}
	mk := p.root.Func("NewScope")
	if mk == nil || len(mk.Params) != 3 {
		r.fail("anchor:NewScope", "scope.go", "function NewScope(line, kind, node) not found", nil)
		return nil
	}
	scopeKinds := []string{"Unknown", "Package", "Comment", "InnerComment", "Import", "Variable", "Const", "Type", "Func"}
	n := 0
	for _, q := range qs {
		for _, k := range scopeKinds {
			text, ok := p.constText("scope", k)
			if !ok {
				r.fail("anchor:scope."+k, "scope", "scope kind not found", nil)
				continue
			}
			cases := q.cases
			if k != q.kind {
				cases = optional([]namePart{run("a", M)}, "") // another scope has no such name
			}
			for _, c := range cases {
				st := e.newState()
				node := e.nameList(st, c.parts)
				want := Seq(nil)
				has := c.want != ""
				if has {
					want = textOf(st.ghost["nt:"+c.want])
					if _, ok := st.ghost["nt:"+c.want]; !ok {
						has = false
					}
					st.ghost["want"] = VStr{want}
				}
				var made []resv
				u := e.explore("NewScope", mk, st, []Value{VInt{st.newInt()}, VStr{constSeq(text)}, node}, func(s *State, v Value) { made = append(made, resv{s, v}) })
				savePanics(e, r, u, "NewScope")
				for _, m := range made {
					iv, ok := m.val.(VIface)
					var fn *ssa.Function
					if ok {
						fn = p.prog.LookupMethod(iv.T, p.root.Pkg, q.method)
					}
					if fn == nil {
						r.fail("anchor:"+q.method, "scope.go", "method "+q.method+" of a scope not found", nil)
						continue
					}
					where := e.posStr(fn.Pos())
					got := 0
					e.aborted = false
					u := e.explore(q.method, fn, m.st, []Value{iv.V}, func(s *State, v Value) {
						got++
						n++
						t, isT := v.(VTuple)
						if !r.ob(isT && len(t.V) == 2, "names:"+q.method, where, s, "two results are expected") {
							return
						}
						b, isB := t.V[1].(VBool)
						if !r.ob(isB, "names:"+q.method+":found", where, s, "%s of %s scope %s: whether there is a name depends on something else", q.method, k, c) {
							return
						}
						w := Seq(nil)
						if has {
							w = textOf(s.ghost["want"])
						}
						r.ob(b.B == has && s.seqEqual(textOf(t.V[0]), w), "names:"+q.method+":result", where, s,
							"%s of %s scope %s answers %s, %v; expected %s, %v", q.method, k, c, e.describeSeq(s, s.norm(textOf(t.V[0]))), b.B, e.describeSeq(s, s.norm(w)), has)
						for _, x := range s.bad {
							r.fail("names:"+q.method+":"+stripPos(x), where, q.method+": "+x, s.traceLines(30))
						}
					})
					savePanics(e, r, u, q.method)
					r.ob(got > 0, "names:"+q.method+":outcome", where, nil, "%s of %s scope %s has no outcome", q.method, k, c)
				}
			}
		}
	}
	r.absorb(e, "names", mk.Pos())
	r.Counters["outcomes"] = n
	return nil
}

func (c nameCase) String() string {
	var s []string
	for _, p := range c.parts {
		l := p.label
		if !p.one && p.text == "" {
			l += "..."
		}
		s = append(s, l)
	}
	return fmt.Sprintf("[%s]", strings.Join(s, " "))
}
