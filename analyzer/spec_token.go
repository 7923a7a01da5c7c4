package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// --- the tokenizer: from an unknown text to nodes ------------------------------------------------

// bfs lists the functions of the module reachable from a function, nearest first.
func (p *Program) bfs(from *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{from: true}
	out := []*ssa.Function{from}
	for i := 0; i < len(out); i++ {
		g := p.callees(out[i])
		sort.Slice(g, func(a, b int) bool { return g[a].String() < g[b].String() })
		for _, f := range g {
			if !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	return out
}

func resultTypes(fn *ssa.Function) []types.Type {
	var r []types.Type
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		r = append(r, rs.At(i).Type())
	}
	return r
}

func (e *Engine) isNodePtr(t types.Type) bool {
	p, ok := t.(*types.Pointer)
	return ok && e.isNode(p.Elem())
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// tokenizer finds the function that turns the text given to ParseScope into a chain of nodes.
func (e *Engine) tokenizer() *ssa.Function {
	ps := e.root.Func("ParseScope")
	if ps == nil {
		return nil
	}
	for _, fn := range e.bfs(ps) {
		if fn == ps {
			continue
		}
		text, node := false, false
		for _, p := range fn.Params {
			text = text || isByteSlice(p.Type()) || isString(p.Type())
		}
		for _, t := range resultTypes(fn) {
			node = node || e.isNodePtr(t)
		}
		if text && node {
			return fn
		}
	}
	return nil
}

// kindOf finds the function that gives a text its kind.
func (e *Engine) isKindOf(fn *ssa.Function) bool {
	s := fn.Signature
	return e.inModule(fn) && s.Recv() == nil && s.Params().Len() == 1 && s.Results().Len() == 1 && fn.Parent() == nil &&
		isString(s.Params().At(0).Type()) && e.isKindType(s.Results().At(0).Type())
}

type tokRun struct {
	e       *Engine
	fn      *ssa.Function
	where   string
	outcome []tokOutcome
	units   []*Unit
}

type tokOutcome struct {
	st   *State
	node Value
	err  Value
}

// tokArgs builds the arguments: an unknown text and an unknown first line.
func tokArgs(e *Engine, fn *ssa.Function, st *State) ([]Value, bool) {
	n := st.newNat()
	line := st.newInt()
	id := st.newSrc("input", false, n)
	st.setBase(id, line)
	text := Seq{{Src: id, A: linC(0), B: n}}
	st.ghost["T"] = VStr{text}
	var args []Value
	nt, nl := 0, 0
	for i, p := range fn.Params {
		t := p.Type()
		variadic := fn.Signature.Variadic() && i == len(fn.Params)-1
		switch {
		case isByteSlice(t):
			nt++
			args = append(args, VBytes{text})
		case isString(t):
			nt++
			args = append(args, VStr{text})
		case variadic:
			el := t.Underlying().(*types.Slice).Elem()
			if isInteger(el) && nl == 0 {
				nl++
				args = append(args, e.newList(st, el, []LElem{{val: VInt{line}}}))
			} else {
				args = append(args, VNil{})
			}
		case isInteger(t):
			nl++
			args = append(args, VInt{line})
		default:
			return nil, false
		}
	}
	return args, nt == 1 && nl == 1
}

// checkTokenNode: a node holds a piece of the input and the line that piece starts on.
func checkTokenNode(lines bool) func(e *Engine, st *State, s VStruct) string {
	return func(e *Engine, st *State, s VStruct) string {
		t, ok := s.F[e.role.text].(VStr)
		if !ok {
			return "a node has an unknown text"
		}
		x := st.place(t.S)
		if len(x) == 0 {
			return "a node has an empty text"
		}
		if len(x) != 1 || x[0].isConst() || st.srcs[x[0].Src].name != "input" {
			return "a node's text is not one piece of the input: " + e.describeSeq(st, x)
		}
		if !st.zone.lt(x[0].A, x[0].B) {
			return "a node may have an empty text"
		}
		if !lines {
			return ""
		}
		l, ok := s.F[e.role.line].(VInt)
		if !ok || !st.zone.equal(l.L, st.nlAt(x[0].Src, x[0].A)) {
			return "a node's line is not the line its text starts on"
		}
		return ""
	}
}

func runTokenizer(p *Program, r *Report, lines bool) (*tokRun, error) {
	cfg := &Config{tabulate: true, foldKinds: true, nonEmpty: true, failFast: true, budget: 12_000_000}
	cfg.nodeCheck = checkTokenNode(lines)
	if lines {
		cfg.nodeLine = func(st *State, text Seq) (Lin, bool) {
			if len(text) == 1 && !text[0].isConst() && st.srcs[text[0].Src].name == "input" {
				return st.nlAt(text[0].Src, text[0].A), true
			}
			return Lin{}, false
		}
	}
	cfg.intercept = func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if e.isKindOf(fn) {
			return one(st, st.newKind(allKinds)), nil, true
		}
		return nil, nil, false
	}
	e, err := p.newEngine(cfg)
	if err != nil {
		return nil, err
	}
	return exploreTokenizer(e, r, nil)
}

// exploreTokenizer runs the tokenizer on an unknown text.
func exploreTokenizer(e *Engine, r *Report, prepare func(st *State)) (*tokRun, error) {
	fn := e.tokenizer()
	if fn == nil {
		r.fail("anchor:tokenizer", "extractor.go", "no function that turns the text given to ParseScope into nodes was found", nil)
		return nil, nil
	}
	t := &tokRun{e: e, fn: fn, where: e.posStr(fn.Pos())}
	st := e.newState()
	args, ok := tokArgs(e, fn, st)
	if !ok {
		r.fail("anchor:tokenizer", t.where, fn.String()+" does not take one text and one line", nil)
		return nil, nil
	}
	if prepare != nil {
		prepare(st)
	}
	u := e.explore(fn.Name(), fn, st, args, func(st *State, res Value) {
		o := tokOutcome{st: st, err: VNil{}}
		vs := []Value{res}
		if tu, ok := res.(VTuple); ok {
			vs = tu.V
		}
		for i, ty := range resultTypes(fn) {
			switch {
			case e.isNodePtr(ty):
				o.node = vs[i]
			case isErrorType(ty):
				o.err = vs[i]
			}
		}
		t.outcome = append(t.outcome, o)
	})
	t.units = append(t.units, u)
	var ks []string
	for k := range e.tab {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t.units = append(t.units, e.tab[k])
	}
	e.dumpHeads(t.units)
	r.absorb(e, "tokenizer", fn.Pos())
	r.Counters["entry_contexts"] += len(ks)
	r.Counters["outcomes"] += len(t.outcome)
	for _, k := range ks {
		r.Counters["exit_states"] += len(e.tab[k].exitOrder)
		r.sample("%s entered with: %s", e.tab[k].fn, firstLines(k, 3))
	}
	return t, nil
}

func firstLines(s string, n int) string {
	out := ""
	for i := 0; i < len(s) && n > 0; i++ {
		if s[i] == '\n' {
			n--
			out += " / "
			continue
		}
		out += s[i : i+1]
	}
	return out
}

func tokPanics(r *Report, t *tokRun) {
	for _, u := range t.units {
		for _, p := range u.panics {
			r.fail("panic:"+p.fn.String()+":"+p.msg, t.e.posStr(p.pos), "parsing may panic: "+p.msg, p.st.traceLines(30))
		}
	}
}

// tokResult checks the chain of an outcome: symmetric links, texts joined are the input.
func tokResult(r *Report, t *tokRun, lines bool) {
	e := t.e
	check := checkTokenNode(lines)
	for _, o := range t.outcome {
		st := o.st
		if _, isNil := o.err.(VNil); !isNil {
			r.ob(false, "tokenizer-error", t.where, st, "%s may return an error", t.fn.Name())
			continue
		}
		T := st.ghost["T"].(VStr).S
		if _, isNil := o.node.(VNil); isNil {
			r.ob(len(st.norm(T)) == 0, "tokenizer-text", t.where, st, "%s returns no nodes for a text that is not empty", t.fn.Name())
			continue
		}
		head := ptrTo(o.node)
		if head == 0 {
			r.ob(false, "tokenizer-text", t.where, st, "%s returns an unknown node", t.fn.Name())
			continue
		}
		objs, text, msg := e.walk(st, head)
		if !r.ob(msg == "", "tokenizer-chain", t.where, st, "the nodes of an input: %s", msg) {
			continue
		}
		r.ob(objs[0] == head, "tokenizer-head", t.where, st, "%s does not return the first node", t.fn.Name())
		if !lines {
			r.ob(st.seqEqual(text, T), "tokenizer-text", t.where, st, "the node texts are not the input but %s", e.describeSeq(st, st.norm(text)))
		}
		for _, id := range objs {
			ob := st.obj(id)
			if ob.kind == oSeg {
				continue
			}
			m := check(e, st, ob.val.(VStruct))
			r.ob(m == "", "tokenizer-node", t.where, st, "%s", m)
		}
	}
	if e.aborted {
		return
	}
	if len(t.outcome) == 0 && len(r.viol) == 0 {
		r.fail("tokenizer-outcome", t.where, t.fn.Name()+" has no outcome", nil)
	}
}

func checkC07(p *Program, r *Report, thorough bool) error {
	t, err := runTokenizer(p, r, false)
	if err != nil || t == nil {
		return err
	}
	tokPanics(r, t)
	tokResult(r, t, false)
	return nil
}

func checkC08(p *Program, r *Report, thorough bool) error {
	t, err := runTokenizer(p, r, true)
	if err != nil || t == nil {
		return err
	}
	tokResult(r, t, true)
	return nil
}
