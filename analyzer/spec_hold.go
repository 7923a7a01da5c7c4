package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// --- C23: nodes, scopes and Asts hold what they were given ------------------------------------------------------

type holdCheck struct {
	*copyCheck
	is map[string]bool // known words
}

// attrs asks a node for its text, line and kind.
func (h *holdCheck) attrs(st *State, n Value, f func(st *State, text, line, kind Value)) {
	st = st.clone()
	st.ghost["hold n"] = n
	one := func(st *State, name string, g func(st *State, v Value)) {
		fn := h.e.nodeOp(h.r, name)
		if fn == nil {
			return
		}
		h.call(st, name, fn, []Value{st.ghost["hold n"]}, func(st *State, vs []Value) {
			if h.ok(st, len(vs) == 1, name, "%s of a node has one result", name) {
				g(st, vs[0])
			}
		})
	}
	one(st, "Text", func(st *State, t Value) {
		st.ghost["hold t"] = t
		one(st, "Line", func(st *State, l Value) {
			st.ghost["hold l"] = l
			one(st, "Kind", func(st *State, k Value) {
				t, l := st.ghost["hold t"], st.ghost["hold l"]
				for _, g := range []string{"hold n", "hold t", "hold l"} {
					delete(st.ghost, g)
				}
				f(st, t, l, k)
			})
		})
	})
}

func (h *holdCheck) holds(st *State, n, text, line, kind Value, want KindSet, what string) {
	st = st.clone()
	st.ghost["want t"], st.ghost["want l"] = text, line
	if kind != nil {
		st.ghost["want k"] = kind
	}
	h.attrs(st, n, func(st *State, t, l, k Value) {
		h.ok(st, st.sameVal(t, st.ghost["want t"]), "text", "%s: the text is not the given one", what)
		h.ok(st, st.sameVal(l, st.ghost["want l"]), "line", "%s: the line is not the right one (%s, %s)", what, showVal(l), showVal(st.ghost["want l"]))
		if w := st.ghost["want k"]; w != nil {
			h.ok(st, st.sameVal(k, w), "kind", "%s: the kind is not the given one", what)
		} else {
			ks := st.kindSetOf(k)
			h.ok(st, want != 0 && ks == want, "kind", "%s: the kind is %s, not that of the text, %s", what, h.e.kindList(ks), h.e.kindList(want))
		}
	})
}

// givenText is a text and the kind it calls for.
type givenText struct {
	name string
	mk   func(e *Engine, st *State) Seq
	want string
}

func (h *holdCheck) constText(s string) givenText {
	return givenText{fmt.Sprintf("%q", s), func(e *Engine, st *State) Seq { return constSeq(s) }, kindOfText(s)}
}

func (h *holdCheck) anyText(c textClass) givenText {
	return givenText{"any text of " + c.name, func(e *Engine, st *State) Seq { return e.classText(st, c) }, c.want}
}

func checkC23(p *Program, r *Report, thorough bool) error {
	words := kindWords()
	cfg := &Config{keepPreds: true, noFold: true, maxRec: 40, spare: 2}
	cfg.isNot = func(st *State, s Seq, c string) bool {
		if !words[c] || len(s) != 1 || s[0].isConst() {
			return false
		}
		sr := st.srcs[s[0].Src]
		return sr.name == "word" && st.zone.equal(s[0].A, linC(0)) && st.zone.equal(s[0].B, sr.length)
	}
	cfg.callback = visitScope
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	h := &holdCheck{&copyCheck{e: e, r: r}, words}
	mk, many, ns := p.root.Func("NewNode"), p.root.Func("NewNodes"), p.root.Func("NewScope")
	if mk == nil || many == nil || ns == nil || len(mk.Params) != 3 || len(many.Params) != 2 {
		r.fail("anchor:NewNode", "node.go", "NewNode(line, text, kinds...), NewNodes(line, texts...) or NewScope not found", nil)
		return nil
	}
	h.newNodes(mk, thorough)
	h.nodeLists(many, thorough)
	h.setters(thorough)
	h.scopes(thorough)
	h.asts(thorough)
	r.absorb(e, "what is held", mk.Pos())
	return nil
}

// alone checks that a node is linked to nothing.
func (h *holdCheck) alone(st *State, v Value, what string) bool {
	ids, _, msg := h.chain(st, v)
	return h.ok(st, msg == "" && len(ids) == 1, "alone", "%s: the new node is linked (%d nodes) %s", what, len(ids), msg)
}

func (h *holdCheck) newNodes(mk *ssa.Function, thorough bool) {
	e := h.e
	h.pos, h.what = mk.Pos(), "NewNode"
	kindT := mk.Params[2].Type().Underlying().(*types.Slice).Elem()
	// with kinds
	for n := 1; n <= 3; n++ {
		st := e.newState()
		var els []LElem
		for i := 0; i < n; i++ {
			els = append(els, LElem{val: e.fresh(st, kindT, "kind")})
		}
		text, line := VStr{st.newText("text")}, VInt{st.newInt()}
		st.ghost["g text"], st.ghost["g line"], st.ghost["g kind"] = text, line, els[0].val
		h.call(st, "NewNode", mk, []Value{line, text, e.newList(st, kindT, els)}, func(st *State, vs []Value) {
			if !h.ok(st, len(vs) == 1, "results", "NewNode has one result") || !h.alone(st, vs[0], "NewNode") {
				return
			}
			h.holds(st, vs[0], st.ghost["g text"], st.ghost["g line"], st.ghost["g kind"], 0, fmt.Sprintf("a node made with %d kinds", n))
		})
	}
	// without
	var ts []givenText
	for b := 0; b < 128; b++ {
		ts = append(ts, h.constText(string([]byte{byte(b)})))
	}
	ts = append(ts, h.constText(""))
	for _, w := range sortedKeys(h.is) {
		if len(w) > 1 {
			ts = append(ts, h.constText(w))
		}
	}
	for _, c := range textClasses() {
		ts = append(ts, h.anyText(c))
	}
	for _, t := range ts {
		for _, empty := range []bool{false, true} {
			st := e.newState()
			text, line := VStr{t.mk(e, st)}, VInt{st.newInt()}
			st.ghost["g text"], st.ghost["g line"] = text, line
			kinds := Value(VNil{})
			if empty {
				kinds = e.newList(st, kindT, nil)
			}
			h.call(st, "NewNode", mk, []Value{line, text, kinds}, func(st *State, vs []Value) {
				if !h.ok(st, len(vs) == 1, "results", "NewNode has one result") || !h.alone(st, vs[0], "NewNode") {
					return
				}
				h.holds(st, vs[0], st.ghost["g text"], st.ghost["g line"], nil, e.kindSetNames(t.want), "a node made of "+t.name)
			})
		}
		h.r.Counters["texts"]++
	}
	h.r.sample("nodes of %d texts and classes of texts, with any line, and with 0 to 3 kinds", len(ts))
}

func (h *holdCheck) nodeLists(many *ssa.Function, thorough bool) {
	e := h.e
	h.pos, h.what = many.Pos(), "NewNodes"
	classes := textClasses()
	raw := h.anyText(classes[3])
	odd := []givenText{h.constText(""), h.constText("\n"), h.constText("\n\n"), h.constText("("), h.constText("func"), h.constText("12"), h.anyText(classes[1])}
	most := 4
	if thorough {
		most = 7
	}
	trying := true
	failed := func() bool { return len(h.r.viol)+len(e.find.bad)+len(e.find.undecided) > 0 }
	lists := func(usual givenText, odd []givenText, start func(st *State) Lin) {
		for n := 0; n <= most; n++ {
			for at := -1; at < n; at++ {
				for k, o := range odd {
					if at < 0 && k > 0 || trying && failed() {
						break
					}
					var given []givenText
					for i := 0; i < n; i++ {
						given = append(given, usual)
					}
					what := ""
					if at >= 0 {
						given[at] = o
						what = fmt.Sprintf(" (text %d is %s)", at+1, o.name)
					}
					st := e.newState()
					h.textList(many, st, start(st), given, what)
				}
			}
		}
	}
	anyLine := func(st *State) Lin { return st.newInt() }
	// all texts of any length and any number of line ends at once, when the source can be followed that far
	r, find := h.r, e.find
	h.r, e.find = newReport(r.Prop), newFindings()
	lists(raw, odd, anyLine)
	if !failed() {
		r.Obligations += h.r.Obligations
		r.Discharged += h.r.Discharged
		for k, n := range h.r.Counters {
			r.Counters[k] += n
		}
		h.r, e.find = r, find
		r.sample("lists of up to %d texts with any number of line ends, one of them empty, a line end, a bracket, a word, a number or a string", most)
		return
	}
	// otherwise any line with known texts, and known lines with one text of any length and any number of line ends
	h.r, e.find, trying = r, find, false
	e.steps, e.nshapes, e.aborted = 0, 0, false
	consts := []givenText{h.constText("x"), h.constText("//a\n")}
	for _, o := range odd {
		if o.name[0] == '"' {
			consts = append(consts, o)
		}
	}
	lists(h.constText("a\nb"), consts, anyLine)
	for _, l := range []int64{0, 7} {
		lists(h.constText("x"), []givenText{raw, h.anyText(classes[1])}, func(st *State) Lin { return linC(l) })
	}
	r.sample("lists of up to %d known texts with any line, and of known texts and one of any length and any number of line ends", most)
}

func (h *holdCheck) textList(many *ssa.Function, st *State, line Lin, given []givenText, which string) {
	e := h.e
	n := len(given)
	var els []LElem
	before := line
	for i, g := range given {
		st.ghost[fmt.Sprintf("l%d", i)] = VInt{before}
		t := g.mk(e, st)
		if len(t) == 1 && !t[0].isConst() {
			// lines are counted on from the text before
			st.setBase(t[0].Src, before)
			before = st.nlAt(t[0].Src, st.srcs[t[0].Src].length)
		} else {
			before = before.add(st.nlOf(t))
		}
		els = append(els, LElem{val: VStr{t}})
		st.ghost[fmt.Sprintf("t%d", i)] = VStr{t}
	}
	list := Value(VNil{})
	if n > 0 {
		list = e.newList(st, types.Typ[types.String], els)
	}
	h.call(st, "NewNodes", many, []Value{VInt{line}, list}, func(st *State, vs []Value) {
		st.congruent()
		if !h.ok(st, len(vs) == 1, "results", "NewNodes has one result") {
			return
		}
		ids, pos, msg := h.chain(st, vs[0])
		if !h.ok(st, msg == "", "links", "%d texts: %s", n, msg) ||
			!h.ok(st, len(ids) == n && pos == 0, "list", "%d texts give the node at position %d of a list of %d", n, pos, len(ids)) {
			return
		}
		for i, id := range ids {
			s := st.clone()
			what := fmt.Sprintf("node %d of %d%s", i+1, n, which)
			h.holds(s, VPtr{Obj: id}, s.ghost[fmt.Sprintf("t%d", i)], s.ghost[fmt.Sprintf("l%d", i)], nil, e.kindSetNames(given[i].want), what)
		}
	})
	h.r.Counters["text_lists"]++
}

// setters: setting one attribute changes that attribute of that node and nothing else.
func (h *holdCheck) setters(thorough bool) {
	e := h.e
	for _, name := range []string{"SetText", "SetKind"} {
		fn := e.nodeOp(h.r, name)
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		h.pos, h.what = fn.Pos(), name
		for n := 1; n <= 3; n++ {
			for at := 0; at < n; at++ {
				st := e.newState()
				v := h.nodes(st, "the list", n, at)
				arg := Value(VStr{st.newText("new text")})
				if name == "SetKind" {
					arg = e.fresh(st, fn.Params[1].Type(), "kind")
				}
				st.ghost["g n"], st.ghost["g v"] = v, arg
				h.attrs(st, v, func(st *State, t, l, k Value) {
					st.ghost["g t"], st.ghost["g l"], st.ghost["g k"] = t, l, k
					// what the memory holds
					s := st.obj(st.ghost["g n"].(VPtr).Obj).val.(VStruct)
					h.ok(st, st.sameVal(t, s.F[e.role.text]) && st.sameVal(l, s.F[e.role.line]) && st.sameVal(k, s.F[e.role.kind]), "attributes", "the attributes of a node are not those it holds")
					h.remember(st, "m")
					h.call(st, name, fn, []Value{st.ghost["g n"], st.ghost["g v"]}, func(st *State, vs []Value) {
						h.unchanged(st, "m", name, st.ghost["g n"].(VPtr).Obj)
						ids, pos, msg := h.chain(st, st.ghost["g n"])
						h.ok(st, msg == "" && len(ids) == n && pos == at, "links", "%s changes the links of the node: %s", name, msg)
						t, k := st.ghost["g t"], st.ghost["g k"]
						if name == "SetText" {
							t = st.ghost["g v"]
						} else {
							k = st.ghost["g v"]
						}
						h.holds(st, st.ghost["g n"], t, st.ghost["g l"], k, 0, "after "+name)
					})
				})
			}
		}
	}
	h.r.sample("SetText and SetKind on every node of lists of up to 3 nodes")
}

func (h *holdCheck) scopes(thorough bool) {
	e := h.e
	mk := e.root.Func("NewScope")
	h.pos, h.what = mk.Pos(), "NewScope"
	for n := 0; n <= 3; n++ {
		for at := 0; at < max(n, 1); at++ {
			st := e.newState()
			node := h.nodes(st, "the scope", n, at)
			kind, line := VStr{st.newText("scope kind")}, VInt{st.newInt()}
			st.ghost["s Kind"], st.ghost["s Line"], st.ghost["s Node"] = kind, VInt{line.L.addC(1)}, node
			h.remember(st, "m")
			h.call(st, "NewScope", mk, []Value{line, kind, node}, func(st *State, vs []Value) {
				if !h.ok(st, len(vs) == 1, "results", "NewScope has one result") {
					return
				}
				h.unchanged(st, "m", "NewScope")
				st.ghost["scope"] = vs[0]
				var rec func(st *State, qs []string)
				rec = func(st *State, qs []string) {
					if len(qs) == 0 {
						return
					}
					q := qs[0]
					h.ask(st, st.ghost["scope"], q, nil, func(st *State, vs []Value) {
						h.unchanged(st, "m", q)
						want := "the given one"
						if q == "Line" {
							want = "the one after the given one"
						}
						h.ok(st, len(vs) == 1 && st.sameVal(vs[0], st.ghost["s "+q]), "scope-"+q, "%s of a scope is not %s (%d nodes)", q, want, n)
						rec(st, qs[1:])
					})
				}
				// twice, so that asking changes nothing
				rec(st, []string{"Kind", "Line", "Node", "Kind", "Line", "Node"})
			})
		}
	}
	h.r.sample("scopes of any kind and line, with no node or the node at any position of up to 3")
}

// visitScope records the scopes an iteration passes and stops at any time.
func visitScope(e *Engine, st *State, cb VCallback, args []Value, pos token.Pos) ([]resv, []panicRes) {
	if len(args) != 1 {
		e.undecided(st, pos, "callback with %d arguments", len(args))
	}
	if _, stopped := st.ghost["stopped"]; stopped {
		st.bad = addBad(st.bad, "a scope is passed on after the iteration was stopped")
	}
	seen, _ := st.ghost["seen"].(VTuple)
	st.ghost["seen"] = VTuple{append(seen.V[:len(seen.V):len(seen.V)], args[0])}
	stop := st.clone()
	stop.ghost["stopped"] = VBool{true}
	return []resv{{st, VBool{true}}, {stop, VBool{false}}}, nil
}

func (h *holdCheck) asts(thorough bool) {
	e := h.e
	newAst := e.root.Func("NewAst")
	pkgText, ok := e.constText("scope", "Package")
	if newAst == nil || !ok || e.scopeIface() == nil {
		h.r.fail("anchor:NewAst", "ast.go", "NewAst or the package scope kind not found", nil)
		return
	}
	h.pos, h.what = newAst.Pos(), "Ast"
	most := 4
	if thorough {
		most = 8
	}
	hist := &historyCheck{copyCheck: h.copyCheck, onePackage: true, bare: true}
	made := 0
	for n := 1; n <= most; n++ {
		for first := 0; first < n; first++ { // where the package scope stands
			hist.makeScopes(e.newState(), pkgText, n, func(st *State) {
				vs := hist.scopesAt(st, 0, n)
				order := append(append(append([]Value{}, vs[1:1+first]...), vs[0]), vs[1+first:]...)
				var els []LElem
				for _, v := range order {
					els = append(els, LElem{val: v})
				}
				st.ghost["order"] = VTuple{order}
				h.remember(st, "m")
				h.call(st, "NewAst", newAst, []Value{e.newList(st, e.scopeIface(), els)}, func(st *State, vs []Value) {
					if !h.ok(st, len(vs) == 2, "results", "NewAst has two results") {
						return
					}
					if _, fine := vs[1].(VNil); !h.ok(st, fine, "made", "scopes with a package scope are refused") {
						return
					}
					made++
					st.ghost["ast"] = vs[0]
					what := fmt.Sprintf("an Ast of %d scopes", n)
					h.passOn(st, what)
					// other scopes, none, and more
					for k := 0; k <= 2; k++ {
						s := st.clone()
						var others []LElem
						var after []Value
						for _, v := range s.ghost["order"].(VTuple).V[:min(k, n)] {
							others = append(others, LElem{val: v})
							after = append(after, v)
						}
						list := Value(VNil{})
						if k > 0 {
							list = e.spareList(s, e.scopeIface(), others)
						}
						s.ghost["others"] = list
						added := append(append([]Value{}, s.ghost["order"].(VTuple).V...), after...)
						h.ask(s, s.ghost["ast"], "SetScope", []Value{list}, func(s *State, vs []Value) {
							h.passOn(s, what+" after SetScope on it")
							if !h.ok(s, len(vs) == 1, "set", "SetScope has one result") {
								return
							}
							s.ghost["ast"], s.ghost["order"] = vs[0], VTuple{after}
							h.passOn(s, fmt.Sprintf("an Ast given %d scopes by SetScope", len(after)))
						})
						h.ask(s, s.ghost["ast"], "AppendScope", []Value{s.ghost["others"]}, func(s *State, vs []Value) {
							s.ghost["order"] = VTuple{added}
							h.remember(s, "m") // the Ast changes
							h.passOn(s, what+fmt.Sprintf(" and %d added ones", len(after)))
						})
					}
				})
			})
		}
	}
	h.ok(nil, made > 0, "asts", "no Ast can be made")
	h.r.sample("Asts of up to %d scopes with the package scope at any place; before and after SetScope and AppendScope; their iteration stopped at any scope or not", most)
}

// passOn asks an Ast for its scopes and iterates over them.
func (h *holdCheck) passOn(st *State, what string) {
	h.ask(st, st.ghost["ast"], "Scope", nil, func(st *State, vs []Value) {
		h.unchanged(st, "m", "Scope")
		h.sameScopes(st, vs[0], "Scope of "+what)
	})
	s := st.clone()
	s.bad = nil
	h.ask(s, s.ghost["ast"], "IterScope", []Value{VCallback{"visit"}}, func(st *State, vs []Value) {
		for _, b := range st.bad {
			h.ok(st, false, "iter", "IterScope of %s: %s", what, b)
		}
		h.unchanged(st, "m", "IterScope")
		want := st.ghost["order"].(VTuple).V
		seen, _ := st.ghost["seen"].(VTuple)
		_, stopped := st.ghost["stopped"]
		good := len(seen.V) == len(want) || stopped && len(seen.V) < len(want) && len(seen.V) > 0
		for i := range seen.V {
			good = good && i < len(want) && st.sameVal(seen.V[i], want[i])
		}
		h.ok(st, good, "iter", "IterScope of %s passes on other scopes, or in another order (%d)", what, len(seen.V))
		// and they are still there
		h.ask(st, st.ghost["ast"], "Scope", nil, func(st *State, vs []Value) {
			h.sameScopes(st, vs[0], "Scope after IterScope of "+what)
		})
	})
}

func (h *holdCheck) sameScopes(st *State, v Value, what string) {
	want := st.ghost["order"].(VTuple).V
	ws := h.e.window(st, v, h.pos)
	good := len(ws) == len(want)
	for i := range want {
		good = good && !ws[i].sum && st.sameVal(ws[i].val, want[i])
	}
	h.ok(st, good, "scopes", "%s gives other scopes than it was given", what)
}
