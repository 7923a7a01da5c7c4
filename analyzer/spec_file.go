package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- saving and loading files ------------------------------------------------------------------------------

// implementations lists the concrete types of the root package that implement one of its interfaces.
func (p *Program) implementations(iface string) []types.Type {
	o := p.root.Pkg.Scope().Lookup(iface)
	if o == nil {
		return nil
	}
	it, ok := o.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, n := range p.root.Pkg.Scope().Names() {
		tn, ok := p.root.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || types.IsInterface(tn.Type()) {
			continue
		}
		if types.Implements(tn.Type(), it) {
			out = append(out, tn.Type())
		} else if types.Implements(types.NewPointer(tn.Type()), it) {
			out = append(out, types.NewPointer(tn.Type()))
		}
	}
	return out
}

func (p *Program) scopeIface() types.Type {
	if o := p.root.Pkg.Scope().Lookup("Scope"); o != nil {
		return o.Type()
	}
	return nil
}

// withScopes fills a struct: lists of scopes are the given one, the rest is unknown.
func (e *Engine) withScopes(st *State, t types.Type, scopes Value, n *int) Value {
	if s, ok := t.Underlying().(*types.Slice); ok && types.Identical(s.Elem(), e.scopeIface()) {
		*n++
		return scopes
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !isBufType(t) && !e.isKindType(t) {
		f := make([]Value, s.NumFields())
		for i := range f {
			f[i] = e.withScopes(st, s.Field(i).Type(), scopes, n)
		}
		return VStruct{f}
	}
	return e.fresh(st, t, "field")
}

// scopeList makes a list of any number of scopes the user may have written himself. The nodes of the scopes are
// consecutive pieces of one list of nodes.
func (e *Engine) scopeList(st *State) (scopes Value, text Seq) {
	k, n := st.newNat(), st.newNat()
	src := st.newSrc("scopes", true, k)
	nodes := st.newSrc("nodes", true, n)
	bytes := st.newSrc("bytes", true, n)
	st.srcs[nodes].lens = bytes // newSrc made the map ours
	st.nls = append(st.nls, nFact{src, k, n})
	scopes = e.newList(st, e.scopeIface(), []LElem{{sum: true, seq: Seq{{Src: src, A: linC(0), B: k}}, n: k}})
	st.ghost["nodes"] = VTuple{[]Value{VByte{nodes, linC(0)}, VInt{n}, VByte{src, linC(0)}, VInt{k}}}
	return scopes, Seq{{Src: nodes, A: linC(0), B: n}}
}

func (e *Engine) allNodes(st *State) (nodes SrcID, n Lin, scopes SrcID, k Lin) {
	g := st.ghost["nodes"].(VTuple)
	return g.V[0].(VByte).Src, g.V[1].(VInt).L, g.V[2].(VByte).Src, g.V[3].(VInt).L
}

// genScope: an element of the list of scopes is known by its position.
func genScope(e *Engine, st *State, t types.Type, a *Atom, off Lin, pos token.Pos) []resv {
	if a == nil || !types.Identical(t, e.scopeIface()) {
		return nil
	}
	return one(st, VTuple{[]Value{VByte{a.Src, off}}})
}

// scopeNodes answers Node() of a scope: no node, or the first of its nodes, which may have others in front of it.
func scopeNodes(e *Engine, st *State, recv Value, m *types.Func, args []Value, pos token.Pos) ([]resv, bool) {
	b, ok := scopeAt(recv)
	if !ok {
		return nil, false
	}
	if m.Name() != "Node" {
		return one(st, e.freshResults(st, m)), true
	}
	nodes, _, _, _ := e.allNodes(st)
	lo, hi := st.nlAt(b.Src, b.Off), st.nlAt(b.Src, b.Off.addC(1))
	var out []resv
	none, single, many, cut := st.clone(), st.clone(), st.clone(), st
	if none.zone.assumeEQ(lo, hi) {
		none.note(pos, "the scope has no node")
		out = append(out, resv{none, VNil{}})
	}
	head := func(s *State) ObjID {
		return s.alloc(e.newNodeObj(s, Seq{{Src: nodes, A: lo, B: lo.addC(1)}}, allKinds, VNil{}, VNil{}, false))
	}
	if single.zone.assumeEQ(hi, lo.addC(1)) {
		single.note(pos, "the scope has one node")
		out = append(out, resv{single, VPtr{Obj: head(single)}})
	}
	for i, s := range []*State{many, cut} {
		if !s.zone.assumeLE(lo.addC(2).sub(hi)) {
			continue
		}
		id := head(s)
		rest := s.alloc(&Object{kind: oSeg, typ: e.role.node, text: Seq{{Src: nodes, A: lo.addC(1), B: hi}}, kinds: allKinds, prev: VPtr{Obj: id}, next: VNil{}})
		e.setLink(s, id, true, VPtr{Obj: rest})
		if i == 1 {
			front := s.alloc(e.newNodeObj(s, constSeq("in front"), allKinds, VNil{}, VPtr{Obj: id}, false))
			e.setLink(s, id, false, VPtr{Obj: front})
			s.note(pos, "the scope starts in the middle of a list of nodes")
		} else {
			s.note(pos, "the scope has several nodes")
		}
		out = append(out, resv{s, VPtr{Obj: id}})
	}
	return out, true
}

func (e *Engine) freshResults(st *State, m *types.Func) Value {
	rs := m.Type().(*types.Signature).Results()
	if rs.Len() == 1 {
		return e.fresh(st, rs.At(0).Type(), m.Name())
	}
	return e.fresh(st, rs, m.Name())
}

func scopeAt(v Value) (VByte, bool) {
	t, ok := v.(VTuple)
	if !ok || len(t.V) != 1 {
		return VByte{}, false
	}
	b, ok := t.V[0].(VByte)
	return b, ok
}

func nodeStores(e *Engine, st *State, o *Object, path string, pos token.Pos) {
	if e.isNode(o.typ) {
		st.bad = addBad(st.bad, e.posStr(pos)+": a node is changed")
	}
}

// goFile decides whether a path is the given name, with the extension .go added when it is missing.
func (e *Engine) goFile(st *State, path, name Seq) bool {
	check := func(want Seq, suffix bool) bool {
		if !st.seqEqual(path, want) {
			return false
		}
		for _, r := range e.hasSuffix(st.clone(), name, ".go") {
			if r.b != suffix {
				return false
			}
		}
		return true
	}
	return check(name, true) || check(catSeq(name, constSeq(".go")), false)
}

// derived tells whether a text is the result of a named step on another text.
func (st *State) derived(s Seq, step string) (Value, bool) {
	s = st.norm(s)
	if len(s) != 1 || s[0].isConst() {
		return nil, false
	}
	src := st.srcs[s[0].Src]
	if src.name != step || !st.zone.equal(s[0].A, linC(0)) || !st.zone.equal(s[0].B, src.length) {
		return nil, false
	}
	return src.meta, true
}

func textOf(v Value) Seq {
	switch v := v.(type) {
	case VStr:
		return v.S
	case VBytes:
		return v.S
	}
	return Seq{{Src: -1}}
}

// fileEffects are the events that touch the file system.
var fileEffects = map[string]bool{"create": true, "openfile": true, "write": true, "writefile": true, "mkdir": true, "mkdirall": true,
	"remove": true, "removeall": true, "rename": true, "truncate": true, "chmod": true}

// saved checks one outcome of saving a text under a name.
func (e *Engine) saved(r *Report, fn, where string, st *State, res Value, name, data Seq, auto Value) {
	if t, ok := res.(VTuple); ok && len(t.V) == 1 {
		res = t.V[0]
	}
	ok := func(b bool, key, format string, args ...any) bool {
		return r.ob(b, key+":"+fn, where, st, "%s: %s", fn, fmt.Sprintf(format, args...))
	}
	for _, b := range st.bad {
		ok(false, "save-changes:"+b, "%s", b)
	}
	st.congruent()
	failed, formatFailed, writes := "", false, 0
	var made, opened bool
	step := "gofmt"
	switch a := auto.(type) {
	case VBool:
		if a.B {
			step = "imports"
		}
	case VUnk:
		b, known := st.unkB[a.ID]
		if !known {
			step = ""
		} else if b {
			step = "imports"
		}
	}
	empty := st.zone.equal(st.lenOf(data), linC(0))
	for _, ev := range st.events {
		base := strings.TrimSuffix(ev.Name, "!")
		bad := base != ev.Name
		switch base {
		case "gofmt", "imports":
			ok(base == step, "save-format", "the text goes through %s although it should go through %s", base, step)
			ok(st.seqEqual(textOf(ev.Args[0]), data), "save-format-text", "what is formatted is not the joined text of all nodes in order but %s", e.describeSeq(st, st.norm(textOf(ev.Args[0]))))
			formatFailed = formatFailed || bad
			continue
		}
		if bad && base != "close" {
			failed = base
		}
		if !fileEffects[base] {
			continue
		}
		ok(!empty, "save-empty", "files are touched although there is nothing to save (%s)", base)
		if base == "mkdirall" {
			d, isDir := st.derived(textOf(ev.Args[0]), "fn:Dir")
			ok(isDir && e.goFile(st, textOf(d), name), "save-dir", "another directory than that of the file is created")
			made = made || !bad
			continue
		}
		if !ok(base == "create" || base == "openfile" || base == "write" || base == "writefile", "save-effect", "unexpected effect %s", base) {
			continue
		}
		ok(e.goFile(st, textOf(ev.Args[0]), name), "save-path", "the file that is written (%s) is not the named one", base)
		if base == "openfile" {
			fl, known := ev.Args[1].(VInt)
			c, isC := st.zone.constOf(fl.L)
			ok(known && isC && c&3 != 0 && c&0x200 != 0 && c&0x40 != 0 && c&0x400 == 0, "save-open-flags", "the file is not opened for writing from its start")
		}
		if base != "write" {
			ok(made, "save-mkdir", "the file is created before its directory")
			ok(!opened, "save-reopen", "the file is opened twice")
			opened = true
		}
		if base == "write" || base == "writefile" {
			writes++
			got := textOf(ev.Args[1])
			if formatFailed {
				ok(st.seqEqual(got, data), "save-unformatted", "the text that could not be formatted is not written as it is")
			} else {
				in, is := st.derived(got, step)
				ok(is && st.seqEqual(textOf(in), data), "save-text", "what is written is not the formatted text of all nodes in order")
			}
		}
	}
	switch res.(type) {
	case VNil:
		ok(failed == "", "save-swallow", "success is reported although %s failed", failed)
		ok(!empty, "save-empty-ok", "success is reported although there is nothing to save")
		ok(writes == 1, "save-write", "success is reported after %d writes", writes)
	case VErr:
		closing := false
		for _, ev := range st.events {
			closing = closing || ev.Name == "close"
		}
		ok(failed != "" || empty || closing && writes == 1, "save-error", "an error is reported although nothing failed")
	default:
		ok(false, "save-result", "the result is unknown: %s", showVal(res))
	}
}

// autoChoices are the ways to give the optional switch.
func (e *Engine) autoChoices(fn *ssa.Function) []func(st *State) (Value, Value) {
	return []func(st *State) (Value, Value){
		func(st *State) (Value, Value) { return VNil{}, VBool{false} },
		func(st *State) (Value, Value) {
			return e.newList(st, types.Typ[types.Bool], []LElem{{val: VBool{false}}}), VBool{false}
		},
		func(st *State) (Value, Value) {
			return e.newList(st, types.Typ[types.Bool], []LElem{{val: VBool{true}}}), VBool{true}
		},
		func(st *State) (Value, Value) {
			return e.newList(st, types.Typ[types.Bool], []LElem{{val: VBool{true}}, {val: VBool{false}}}), VBool{true}
		},
	}
}

func checkC12(p *Program, r *Report, thorough bool) error {
	if p.scopeIface() == nil {
		r.fail("anchor:Scope", "scope.go", "type Scope not found", nil)
		return nil
	}
	cfg := &Config{foldLists: true, keepPreds: true, genElem: genScope, ifaceCall: scopeNodes, onStore: nodeStores}
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	// the file helper
	save := p.funcIn("helper", "SaveFile")
	if save == nil || len(save.Params) != 3 {
		r.fail("anchor:SaveFile", "helper/helper.go", "function SaveFile(file, data, autoImport...) not found", nil)
	} else {
		for _, ch := range e.autoChoices(save) {
			st := e.newState()
			av, a := ch(st)
			name, data := st.newText("name"), st.newText("data")
			st.ghost["name"], st.ghost["data"] = VStr{name}, VStr{data}
			where := e.posStr(save.Pos())
			n := 0
			u := e.explore("SaveFile", save, st, []Value{VStr{name}, VBytes{data}, av}, func(st *State, res Value) {
				n++
				e.saved(r, "SaveFile", where, st, res, textOf(st.ghost["name"]), textOf(st.ghost["data"]), a)
			})
			savePanics(e, r, u, "SaveFile")
			r.Counters["outcomes"] += n
		}
	}
	impls := p.implementations("Ast")
	if len(impls) == 0 {
		r.fail("anchor:Ast", "ast.go", "no type implements Ast", nil)
	}
	for _, t := range impls {
		fn := p.prog.LookupMethod(t, p.root.Pkg, "Save")
		if fn == nil || len(fn.Params) != 3 {
			r.fail("anchor:Save", "ast.go", "method Save(file, autoImport...) not found", nil)
			continue
		}
		where := e.posStr(fn.Pos())
		for _, ch := range e.autoChoices(fn) {
			st := e.newState()
			av, a := ch(st)
			name := st.newText("name")
			scopes, _ := e.scopeList(st)
			st.ghost["name"] = VStr{name}
			n := 0
			body := e.withScopes(st, deref(t), scopes, &n)
			if n != 1 {
				r.fail("anchor:Ast", "ast.go", fmt.Sprintf("%v does not hold one list of scopes", t), nil)
				break
			}
			var recv Value = body
			if _, isPtr := t.(*types.Pointer); isPtr {
				recv = st.allocVal(deref(t), body)
			}
			k := 0
			u := e.explore("Save", fn, st, []Value{recv, VStr{name}, av}, func(st *State, res Value) {
				k++
				nodes, n, _, _ := e.allNodes(st)
				e.saved(r, "Save", where, st, res, textOf(st.ghost["name"]), Seq{{Src: nodes, A: linC(0), B: n}}, a)
			})
			savePanics(e, r, u, "Save")
			r.Counters["outcomes"] += k
			if k == 0 && len(r.viol) == 0 {
				r.fail("save-outcome", where, "Save has no outcome", nil)
			}
		}
	}
	r.absorb(e, "Save", token.NoPos)
	return nil
}

func savePanics(e *Engine, r *Report, u *Unit, fn string) {
	for _, p := range u.panics {
		r.fail("panic:"+fn+":"+p.msg, e.posStr(p.pos), fn+" may panic: "+p.msg, p.st.traceLines(30))
	}
}
