package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- loading files: what an Ast holds, and which errors are reported -------------------------------------------

// globalErr is the identity of an error variable of the root package.
func (e *Engine) globalErr(name string) string {
	g, ok := e.root.Members[name].(*ssa.Global)
	if !ok {
		return ""
	}
	er, ok := e.base[e.globals[g]].val.(VErr)
	if !ok || er.Tags == "" {
		return ""
	}
	return strings.Fields(er.Tags)[0]
}

// constText is the value of a string constant of a package of the module.
func (p *Program) constText(pkg, name string) (string, bool) {
	sp := p.byPath[p.module+"/"+pkg]
	if sp == nil {
		return "", false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok || c.Val().Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(c.Val()), true
}

// packageLists are the lists of scopes told apart by where the first package scope stands.
//
//	none:  no scope is a package scope
//	some:  scopes that are none, a package scope, any scopes
func (e *Engine) packageList(st *State, pkg bool) Value {
	mk := func(name string) LElem {
		k := st.newNat()
		src := st.newSrc(name, true, k)
		return LElem{sum: true, seq: Seq{{Src: src, A: linC(0), B: k}}, n: k}
	}
	els := []LElem{mk("scopes before")}
	if pkg {
		one := st.newSrc("package scope", true, linC(1))
		els = append(els, LElem{val: VTuple{[]Value{VByte{one, linC(0)}}}}, mk("scopes behind"))
	}
	return e.newList(st, e.scopeIface(), els)
}

// chainPart is a run of nodes of certain kinds: exactly one, or any number.
type chainPart struct {
	kinds KindSet
	one   bool
}

// buildChain makes a chain from parts; every part gets nodes of a source of its own. Its alternatives differ in
// which parts are empty.
func (e *Engine) buildChain(st *State, parts []chainPart, front bool) []resv {
	var out []resv
	var rec func(i int, picked []chainPart)
	rec = func(i int, picked []chainPart) {
		if i == len(parts) {
			s := st.clone()
			var objs []ObjID
			for _, p := range picked {
				n := s.newNat()
				src := s.newSrc("nodes", true, n)
				s.zone.assumeLE(linC(1).sub(n))
				if p.one {
					s.zone.assumeEQ(n, linC(1))
				}
				if p.one || len(objs) == 0 {
					objs = append(objs, s.alloc(e.newNodeObj(s, Seq{{Src: src, A: linC(0), B: linC(1)}}, p.kinds, VNil{}, VNil{}, false)))
					if p.one {
						continue
					}
					if !s.zone.assumeLE(linC(2).sub(n)) {
						continue
					}
					objs = append(objs, s.alloc(&Object{kind: oSeg, typ: e.role.node, text: Seq{{Src: src, A: linC(1), B: n}}, kinds: p.kinds, prev: VNil{}, next: VNil{}}))
					continue
				}
				objs = append(objs, s.alloc(&Object{kind: oSeg, typ: e.role.node, text: Seq{{Src: src, A: linC(0), B: n}}, kinds: p.kinds, prev: VNil{}, next: VNil{}}))
			}
			if len(objs) == 0 {
				out = append(out, resv{s, VNil{}})
				return
			}
			if len(parts) > 1 {
				var sig strings.Builder
				for _, p := range picked {
					fmt.Fprintf(&sig, "%x,%v;", p.kinds, p.one)
				}
				s.ghost["parts"] = VStr{constSeq(sig.String())}
				for j, id := range objs {
					s.ghost[fmt.Sprintf("part%d", j)] = VPtr{Obj: id} // kept apart
				}
			}
			for j := 1; j < len(objs); j++ {
				e.setLink(s, objs[j-1], true, VPtr{Obj: objs[j]})
				e.setLink(s, objs[j], false, VPtr{Obj: objs[j-1]})
			}
			if front {
				f := s.alloc(e.newNodeObj(s, constSeq("in front"), allKinds, VNil{}, VPtr{Obj: objs[0]}, false))
				e.setLink(s, objs[0], false, VPtr{Obj: f})
			}
			out = append(out, resv{s, VPtr{Obj: objs[0]}})
			return
		}
		p := parts[i]
		if !p.one {
			rec(i+1, picked)
			// a first run of exactly one node is a case of its own, as its first node is explicit
			if len(picked) == 0 {
				q := p
				q.one = true
				rec(i+1, append(picked[:len(picked):len(picked)], q))
			}
		}
		rec(i+1, append(picked[:len(picked):len(picked)], p))
	}
	rec(0, nil)
	return out
}

type pkgWorld struct {
	pkgText string
	shape   string // of the nodes of the package scope: "name", "no name", "no keyword"
	front   bool
}

func (w *pkgWorld) iface(e *Engine, st *State, recv Value, m *types.Func, args []Value, pos token.Pos) ([]resv, bool) {
	b, ok := scopeAt(recv)
	if !ok {
		return nil, false
	}
	where := st.srcs[b.Src].name
	switch m.Name() {
	case "Kind":
		if where == "package scope" {
			return one(st, VStr{constSeq(w.pkgText)}), true
		}
		t := st.newText("scope kind")
		if where == "scopes before" {
			st.preds = append(st.preds[:len(st.preds):len(st.preds)], predFact{'=', t[0].Src, t[0].A, t[0].B, w.pkgText, false})
		}
		return one(st, VStr{t}), true
	case "Node":
		if where != "package scope" {
			return e.buildChain(st, []chainPart{{kinds: allKinds}}, false), true
		}
		if g, ok := st.ghost["pkgnode"]; ok {
			return one(st, g), true
		}
		pk := e.kindSetNames("Package")
		name := e.kindSetNames("Raw", "Basic")
		parts := []chainPart{{kinds: allKinds &^ pk}}
		if w.shape != "no keyword" {
			parts = append(parts, chainPart{kinds: pk, one: true}, chainPart{kinds: allKinds &^ name})
		}
		if w.shape == "name" {
			parts = append(parts, chainPart{kinds: name, one: true}, chainPart{kinds: allKinds})
		}
		rs := e.buildChain(st, parts, w.front)
		for _, r := range rs {
			r.st.ghost["pkgnode"] = r.val
			if w.shape != "name" {
				continue
			}
			// the node that names the package: behind the keyword, the first that may be a name
			key := false
			for id := ptrTo(r.val); id != 0; {
				o := r.st.obj(id)
				_, n := e.links(o)
				if o.kind == oPlain {
					k := r.st.kindSetOf(o.val.(VStruct).F[e.role.kind])
					if key && k&^name == 0 {
						r.st.ghost["pkgname"] = o.val.(VStruct).F[e.role.text]
						break
					}
					key = key || k&^pk == 0
				} else if key && o.kinds&^name == 0 {
					r.st.ghost["pkgname"] = VStr{o.text}
					break
				}
				id = ptrTo(n)
			}
		}
		return rs, true
	}
	return one(st, e.freshResults(st, m)), true
}

type loadOut struct {
	st  *State
	res []Value
}

// exploreAll explores fn and joins the outcomes that differ in numbers only.
func (e *Engine) exploreAll(name string, fn *ssa.Function, st *State, args []Value) (outs []loadOut, u *Unit) {
	groups := map[string]*headGroup{}
	u = e.explore(name, fn, st, args, func(st *State, res Value) {
		vs := tupleOf(res, 2)
		st = st.clone()
		st.frames = nil
		for i, v := range vs {
			st.ghost[fmt.Sprintf("res%d", i)] = v
		}
		c := e.canon(st, fmt.Sprintf("outcome %d %q\n", len(vs), st.bad))
		g := groups[c.shape]
		if g == nil {
			g = &headGroup{}
			groups[c.shape] = g
		}
		g.absorb(c, 1)
	})
	for _, k := range sortedKeys(groups) {
		for _, v := range sortedKeys(groups[k].variants) {
			st := groups[k].variants[v].c.st
			o := loadOut{st: st}
			for i := 0; st.ghost[fmt.Sprintf("res%d", i)] != nil; i++ {
				o.res = append(o.res, st.ghost[fmt.Sprintf("res%d", i)])
				delete(st.ghost, fmt.Sprintf("res%d", i))
			}
			outs = append(outs, o)
		}
	}
	return outs, u
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func tupleOf(res Value, n int) []Value {
	if t, ok := res.(VTuple); ok {
		return t.V
	}
	return []Value{res}
}

// askAst calls a method of the Ast an operation returned.
func (e *Engine) askAst(r *Report, st *State, a Value, name string, f func(st *State, vs []Value)) {
	iv, ok := a.(VIface)
	if !ok {
		r.ob(false, "load-result", "ast.go", st, "the Ast is unknown: %s", showVal(a))
		return
	}
	m := e.prog.LookupMethod(iv.T, e.root.Pkg, name)
	if m == nil {
		r.ob(false, "load-method:"+name, "ast.go", st, "method %s not found", name)
		return
	}
	n := 0
	st = st.clone()
	st.frames = nil
	u := e.explore(name, m, st, []Value{iv.V}, func(st *State, res Value) {
		n++
		f(st, tupleOf(res, 0))
	})
	savePanics(e, r, u, name)
	r.ob(n > 0, "load-method:"+name, e.posStr(m.Pos()), st, "%s of the new Ast has no outcome", name)
}

func checkC13(p *Program, r *Report, thorough bool) error {
	parse, newAst := p.root.Func("ParseAst"), p.root.Func("NewAst")
	parseScope := p.root.Func("ParseScope")
	pkgText, ok := p.constText("scope", "Package")
	if parse == nil || newAst == nil || parseScope == nil || !ok || len(parse.Params) != 1 || len(newAst.Params) != 1 || p.scopeIface() == nil {
		r.fail("anchor:ParseAst", "ast.go", "ParseAst(file), NewAst(scopes...), ParseScope or the package scope kind not found", nil)
		return nil
	}
	for _, shape := range []string{"no package scope", "no keyword", "no name", "name", "name in front"} {
		w := &pkgWorld{pkgText: pkgText, shape: strings.TrimSuffix(shape, " in front"), front: strings.HasSuffix(shape, "in front")}
		cfg := &Config{foldLists: true, keepPreds: true, genElem: genScope, ifaceCall: w.iface, onStore: nodeStores}
		cfg.onEvent = func(e *Engine, st *State, ev Event) {
			switch strings.TrimSuffix(ev.Name, "!") {
			case "open", "readfile":
				if !e.goFile(st, textOf(ev.Args[0]), textOf(st.ghost["file"])) {
					st.bad = addBad(st.bad, "another file than the named one is read")
				}
			}
		}
		cfg.intercept = func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
			if fn != parseScope {
				return nil, nil, false
			}
			for i, p := range fn.Params {
				if isInteger(p.Type()) {
					if l, is := args[i].(VInt); !is || !st.zone.equal(l.L, linC(0)) {
						st.bad = addBad(st.bad, "the first line is not counted as line 0")
					}
					continue
				}
				in, is := st.derived(textOf(args[i]), "gofmt")
				if !is {
					st.bad = addBad(st.bad, "the text that is parsed is not the formatted file")
				} else if of, is := st.derived(textOf(in), "file contents"); !is || !e.goFile(st, textOf(of), textOf(st.ghost["file"])) {
					st.bad = addBad(st.bad, "the text that is parsed is not that of the named file")
				}
			}
			bad := st.clone()
			bad.event("parse!", pos)
			// what was read is settled
			var evs []Event
			for _, ev := range st.events {
				if strings.HasSuffix(ev.Name, "!") || fileEffects[ev.Name] {
					evs = append(evs, ev)
				}
			}
			st.events = evs
			st.ghost["parsed"] = VBool{true}
			st.note(pos, "parsing succeeds (%s)", shape)
			bad.note(pos, "parsing fails")
			l := e.packageList(st, shape != "no package scope")
			st.ghost["scopes"] = l
			return []resv{{st, VTuple{[]Value{l, VNil{}}}}, {bad, VTuple{[]Value{VNil{}, VErr{Tags: "err:parse", Open: true}}}}}, nil, true
		}
		e, err := p.newEngine(cfg)
		if err != nil {
			return err
		}
		noPkg, notExist := e.globalErr("ErrNoPackage"), e.globalErr("ErrNotExist")
		if noPkg == "" || notExist == "" || noPkg == notExist {
			r.fail("anchor:errors", "ast.go", "the errors ErrNoPackage and ErrNotExist are not told apart", nil)
			return nil
		}
		// from a file
		st := e.newState()
		file := st.newText("file")
		st.ghost["file"] = VStr{file}
		outs, u := e.exploreAll("ParseAst", parse, st, []Value{VStr{file}})
		savePanics(e, r, u, "ParseAst")
		r.Counters["outcomes"] += len(outs)
		r.ob(len(outs) > 0, "load-outcome:ParseAst", e.posStr(parse.Pos()), nil, "ParseAst has no outcome")
		for _, o := range outs {
			e.loaded(r, w, parse, o, noPkg, notExist, parseScope)
		}
		// from scopes
		st = e.newState()
		l := e.packageList(st, shape != "no package scope")
		st.ghost["scopes"] = l
		outs, u = e.exploreAll("NewAst", newAst, st, []Value{l})
		savePanics(e, r, u, "NewAst")
		r.Counters["outcomes"] += len(outs)
		r.ob(len(outs) > 0, "load-outcome:NewAst", e.posStr(newAst.Pos()), nil, "NewAst has no outcome")
		for _, o := range outs {
			e.loaded(r, w, newAst, o, noPkg, notExist, nil)
		}
		r.absorb(e, shape, parse.Pos())
	}
	return nil
}

// loaded checks one outcome of building an Ast.
func (e *Engine) loaded(r *Report, w *pkgWorld, fn *ssa.Function, o loadOut, noPkg, notExist string, parseScope *ssa.Function) {
	st, where, name := o.st, e.posStr(fn.Pos()), fn.Name()
	st.congruent()
	ok := func(st *State, b bool, key, format string, args ...any) bool {
		return r.ob(b, key+":"+name, where, st, "%s: %s", name, fmt.Sprintf(format, args...))
	}
	for _, b := range st.bad {
		ok(st, false, "load-changes:"+b, "%s", b)
	}
	if !ok(st, len(o.res) == 2, "load-results", "two results are expected") {
		return
	}
	failed, missing, parsed := "", false, parseScope == nil
	if _, is := st.ghost["parsed"]; is {
		parsed = true
	}
	for _, ev := range st.events {
		base := strings.TrimSuffix(ev.Name, "!")
		bad := base != ev.Name
		if fileEffects[base] {
			ok(st, false, "load-writes", "the file system is changed (%s)", base)
		}
		if bad && base != "close" {
			failed = base
			if v, is := st.ghost["is:err:"+base+":os.ErrNotExist"]; is && v == (VBool{true}) {
				missing = true
			}
		}
	}
	er, isErr := o.res[1].(VErr)
	if isErr {
		_, none := o.res[0].(VNil)
		ok(st, none, "load-both", "an Ast is returned together with an error")
		tags := strings.Fields(er.Tags)
		has := func(t string) bool {
			for _, x := range tags {
				if x == t {
					return true
				}
			}
			return false
		}
		switch {
		case missing:
			ok(st, has(notExist), "load-missing", "a missing file is not reported as ErrNotExist")
		case failed != "":
			ok(st, has("err:"+failed), "load-error", "the error of a failed step (%s) is not passed on", failed)
			ok(st, !has(noPkg) && !has(notExist), "load-error-kind", "a failed step (%s) is reported as another failure", failed)
		case parsed:
			ok(st, has(noPkg), "load-no-package", "an error other than ErrNoPackage is reported although every step succeeded")
			ok(st, w.shape != "name", "load-refused", "a package name is not found (%s)", w.shape)
		default:
			ok(st, false, "load-error-none", "an error is reported although no step failed")
		}
		return
	}
	if _, none := o.res[1].(VNil); !ok(st, none, "load-result", "the error is unknown: %s", showVal(o.res[1])) {
		return
	}
	if _, none := o.res[0].(VNil); !ok(st, !none, "load-nothing", "neither an Ast nor an error is returned") {
		return
	}
	ok(st, failed == "", "load-swallow", "success is reported although %s failed", failed)
	ok(st, parsed, "load-parse", "success is reported without parsing the file")
	want, named := st.ghost["pkgname"]
	if !ok(st, named, "load-accepted", "success is reported although no package name is there (%s)", w.shape) {
		return
	}
	e.askAst(r, st, o.res[0], "Package", func(st *State, vs []Value) {
		st.congruent()
		if !ok(st, len(vs) == 2, "load-package", "Package returns %d values", len(vs)) {
			return
		}
		_, isNil := vs[1].(VNil)
		want = st.ghost["pkgname"]
		ok(st, isNil && st.seqEqual(textOf(vs[0]), textOf(want)), "load-package", "Package does not return the name behind the package keyword")
	})
	e.askAst(r, st, o.res[0], "Scope", func(st *State, vs []Value) {
		ok(st, len(vs) == 1 && e.sameList(st, vs[0], st.ghost["scopes"]), "load-scopes", "Scope does not return the parsed scopes")
	})
	for _, q := range [][2]string{{"File", ""}, {"Dir", "fn:Dir"}, {"Filename", "fn:Base"}, {"Ext", "fn:Ext"}} {
		e.askAst(r, st, o.res[0], q[0], func(st *State, vs []Value) {
			good := len(vs) == 1
			if good && parseScope == nil {
				c, is := textOf(vs[0]).constVal()
				good = is && c == ""
			} else if good && q[1] == "" {
				good = st.seqEqual(textOf(vs[0]), textOf(st.ghost["file"]))
			} else if good {
				of, is := st.derived(textOf(vs[0]), q[1])
				good = is && st.seqEqual(textOf(of), textOf(st.ghost["file"]))
			}
			ok(st, good, "load-"+strings.ToLower(q[0]), "%s does not fit the given file", q[0])
		})
	}
}

// sameList compares two slices element by element.
func (e *Engine) sameList(st *State, a, b Value) bool {
	x, ok1 := a.(VSlice)
	y, ok2 := b.(VSlice)
	if !ok1 || !ok2 {
		return false
	}
	if x.Obj == y.Obj {
		return st.zone.equal(x.Off, y.Off) && st.zone.equal(x.Len, y.Len)
	}
	l, m := e.window(st, a, token.NoPos), e.window(st, b, token.NoPos)
	if len(l) != len(m) {
		return false
	}
	for i := range l {
		if l[i].sum != m[i].sum || !st.zone.equal(l[i].count(), m[i].count()) {
			return false
		}
		if l[i].sum && !st.seqEqual(l[i].seq, m[i].seq) || !l[i].sum && showVal(l[i].val) != showVal(m[i].val) {
			return false
		}
	}
	return true
}
