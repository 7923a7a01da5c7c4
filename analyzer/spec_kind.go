package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- the kind of a text, and what kinds tell about themselves ----------------------------------------------------------

// ownKinds are the texts that have a kind of their own.
var ownKinds = map[string]string{
	"\t": "Tab", " ": "Space", ",": "Comma", ":": "Colon", "\n": "NewLine", ";": "Semicolon",
	"(": "ParenthesisLeft", ")": "ParenthesisRight", "{": "CurlyBracketLeft", "}": "CurlyBracketRight",
	"[": "SquareBracketLeft", "]": "SquareBracketRight",
	"import": "Import", "var": "Var", "const": "Const", "map": "Map", "chan": "Channel", "func": "Func",
	"type": "Type", "struct": "Struct", "interface": "Interface", "package": "Package",
}

var goKeywords = strings.Fields(`break default func interface select case defer go map struct chan else goto package switch
	const fallthrough if range type continue for import return var`)

var goBasics = strings.Fields(`bool string byte rune int uint int8 uint8 int16 uint16 int32 uint32 int64 uint64 uintptr float32
	float64 complex64 complex128`)

const (
	digitBytes  = "0123456789"
	symbolBytes = "+&=!()-|<[]*^>{}/%,;.:~_"
	quoteBytes  = "\"`"
)

func setOf(s string) ByteSet {
	var b ByteSet
	for i := 0; i < len(s); i++ {
		b.add(s[i])
	}
	return b
}

// kindOfText is what the kind of a text ought to be.
func kindOfText(s string) string {
	if s == "" {
		return "None"
	}
	if k, ok := ownKinds[s]; ok {
		return k
	}
	all := func(set string) bool { return strings.Trim(s, set) == "" }
	switch {
	case all(digitBytes):
		return "Number"
	case s == "\r":
		return "Separator"
	case strings.ContainsAny(s[:1], quoteBytes):
		return "String"
	}
	for _, k := range goKeywords {
		if s == k {
			return "Keyword"
		}
	}
	for _, k := range goBasics {
		if s == k {
			return "Basic"
		}
	}
	if all(symbolBytes) {
		return "Symbol"
	}
	return "Raw"
}

// textClass is a set of texts: parts of unknown length, each of one set of bytes.
type textClass struct {
	name  string
	parts []classPart
	want  string
}

type classPart struct {
	set ByteSet
	one bool // exactly one byte
	min int64
}

func textClasses() []textClass {
	d, y, q, all := setOf(digitBytes), setOf(symbolBytes), setOf(quoteBytes), allBytes()
	o := all.and(d.not()).and(y.not()).and(q.not())
	return []textClass{
		{"two or more digits", []classPart{{d, false, 2}}, "Number"},
		{"a quote and more", []classPart{{q, true, 1}, {all, false, 1}}, "String"},
		{"two or more symbols", []classPart{{y, false, 2}}, "Symbol"},
		{"neither digit, symbol nor quote, and more", []classPart{{o, true, 1}, {all, false, 1}}, "Raw"},
		{"digits and something else", []classPart{{d, false, 1}, {d.not(), true, 1}}, "Raw"},
		{"digits and something else, and more", []classPart{{d, false, 1}, {d.not(), true, 1}, {all, false, 1}}, "Raw"},
		{"symbols and something else", []classPart{{y, false, 1}, {y.not(), true, 1}}, "Raw"},
		{"symbols and something else, and more", []classPart{{y, false, 1}, {y.not(), true, 1}, {all, false, 1}}, "Raw"},
	}
}

// classText makes a text of a class that is none of the known words.
func (e *Engine) classText(st *State, c textClass) Seq {
	var ps []part
	end := linC(0)
	for _, p := range c.parts {
		if p.one {
			end = end.addC(1)
		} else {
			n := st.newNat()
			st.zone.assumeLE(linC(p.min).sub(n))
			end = end.add(n)
		}
		ps = append(ps, part{end, p.set})
	}
	// boundaries that are sums get symbols of their own
	for i := range ps {
		s := st.newNat()
		st.zone.assumeEQ(s, ps[i].end)
		ps[i].end = s
	}
	n := ps[len(ps)-1].end
	id := st.newSrc("word", false, n)
	st.setParts(id, ps)
	return Seq{{Src: id, A: linC(0), B: n}}
}

func kindWords() map[string]bool {
	m := map[string]bool{}
	for k := range ownKinds {
		m[k] = true
	}
	for _, k := range append(append([]string{}, goKeywords...), goBasics...) {
		m[k] = true
	}
	return m
}

func checkC16(p *Program, r *Report, thorough bool) error {
	words := kindWords()
	cfg := &Config{keepPreds: true}
	cfg.isNot = func(st *State, s Seq, c string) bool {
		if !words[c] || len(s) != 1 || s[0].isConst() {
			return false
		}
		sr := st.srcs[s[0].Src]
		return sr.name == "word" && st.zone.equal(s[0].A, linC(0)) && st.zone.equal(s[0].B, sr.length)
	}
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	fn := p.funcIn("kind", "New")
	if fn == nil {
		r.fail("anchor:kind", "kind/kind.go", "the function that gives a text its kind was not found", nil)
		return nil
	}
	where := p.posStr(fn.Pos())
	one := func(name string, st *State, text Seq, want string) {
		n := 0
		u := e.explore(name, fn, st, []Value{VStr{text}}, func(st *State, res Value) {
			n++
			ks := st.kindSetOf(res)
			exp := e.kindSetNames(want)
			r.ob(exp != 0 && ks == exp, "kind:"+name, where, st, "%s: the kind is %s, not %s", name, e.kindList(ks), want)
		})
		for _, x := range u.panics {
			r.fail("kind-panic:"+name, e.posStr(x.pos), name+": "+x.msg, x.st.traceLines(20))
		}
		r.ob(n > 0 || len(u.panics) > 0, "kind:"+name, where, nil, "%s: no outcome", name)
		r.Counters["texts"]++
	}
	one("the empty text", e.newState(), Seq{}, "None")
	for b := 0; b < 256; b++ {
		s := string([]byte{byte(b)})
		one(fmt.Sprintf("the text %q", s), e.newState(), constSeq(s), kindOfText(s))
	}
	var ws []string
	for w := range words {
		if len(w) > 1 {
			ws = append(ws, w)
		}
	}
	sort.Strings(ws)
	for _, w := range ws {
		one(fmt.Sprintf("the text %q", w), e.newState(), constSeq(w), kindOfText(w))
	}
	for _, c := range textClasses() {
		st := e.newState()
		t := e.classText(st, c)
		one("any text of "+c.name, st, t, c.want)
		r.sample("any text of %s that is none of %d words has the kind %s", c.name, len(words), c.want)
	}
	// kinds are told apart, and brackets belong together
	e.kindTables(p, r)
	e.scopeKindTables(p, r)
	r.absorb(e, "kind of a text", fn.Pos())
	return nil
}

func (e *Engine) kindList(ks KindSet) string {
	var out []string
	for i, n := range e.kindName {
		if ks&(1<<i) != 0 {
			out = append(out, n)
		}
	}
	if ks>>63 != 0 {
		out = append(out, "an unknown kind")
	}
	if len(out) > 4 {
		return fmt.Sprintf("one of %d kinds", len(out))
	}
	return strings.Join(out, " or ")
}

var closes = map[string]string{"ParenthesisLeft": "ParenthesisRight", "CurlyBracketLeft": "CurlyBracketRight", "SquareBracketLeft": "SquareBracketRight"}

func (e *Engine) kindTables(p *Program, r *Report) {
	pk := e.byPath[e.module+"/kind"]
	seen := map[string]string{}
	shown := map[string]string{}
	opposite := map[string]string{}
	for a, b := range closes {
		opposite[a], opposite[b] = b, a
	}
	gc, str, pstr := p.methodIn(pk, "Kind", "GetClose"), p.methodIn(pk, "Kind", "String"), p.methodIn(pk, "Kind", "PointerString")
	if gc == nil || str == nil || pstr == nil {
		r.fail("anchor:kinds", "kind/kind.go", "the methods of kinds were not found", nil)
		return
	}
	var names []string
	for n, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok && e.isKindType(deref(g.Type())) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if !pk.Members[n].(*ssa.Global).Object().Exported() {
			continue
		}
		where := p.posStr(pk.Members[n].Pos())
		v, ok := e.kindValue(n)
		if !r.ob(ok, "kinds:"+n, where, nil, "the kind %s has no value that is known", n) {
			continue
		}
		k, _ := kindKey(v)
		r.ob(seen[k] == "", "kinds:"+n, where, nil, "the kinds %s and %s are the same", n, seen[k])
		seen[k] = n
		// its text
		for t, own := range ownKinds {
			if own == n {
				r.ob(strings.Split(k, "\x00")[0] == t, "kinds:"+n, where, nil, "the kind %s does not hold its text %q", n, t)
			}
		}
		// its partner
		got := 0
		u := e.explore("GetClose", gc, e.newState(), []Value{v}, func(st *State, res Value) {
			got++
			tu := tupleOf(res, 2)
			want := opposite[n]
			b, isB := tu[1].(VBool)
			if want == "" {
				want = "None"
			}
			r.ob(isB && b.B == (want != "None") && st.kindSetOf(tu[0]) == e.kindSetNames(want), "close:"+n, p.posStr(gc.Pos()), st,
				"the bracket that belongs to %s is %s, not %s", n, e.kindList(st.kindSetOf(tu[0])), want)
		})
		r.ob(got > 0 && len(u.panics) == 0, "close:"+n, p.posStr(gc.Pos()), nil, "asking %s for its bracket gives no answer", n)
		// its name
		name := ""
		for _, m := range []*ssa.Function{str, pstr} {
			st := e.newState()
			arg := Value(v)
			if m == pstr {
				arg = VPtr{Obj: st.alloc(&Object{kind: oPlain, typ: e.role.kind_, val: v})}
			}
			got := 0
			e.explore(m.Name(), m, st, []Value{arg}, func(st *State, res Value) {
				got++
				s, _ := res.(VStr)
				c, ok := st.norm(s.S).constVal()
				r.ob(ok && (c != "" || n == "None"), "name:"+n, p.posStr(m.Pos()), st, "the kind %s has no name", n)
				if m == str {
					name = c
				} else {
					r.ob(c == name, "name:"+n, p.posStr(m.Pos()), st, "the kind %s has two names", n)
				}
			})
			r.ob(got > 0, "name:"+n, p.posStr(m.Pos()), nil, "the kind %s gives no name", n)
		}
		r.ob(shown[name] == "", "name:"+n, where, nil, "the kinds %s and %s have the same name", n, shown[name])
		shown[name] = n
		r.Counters["kinds"]++
	}
	// no kind at all
	e.explore("PointerString", pstr, e.newState(), []Value{VNil{}}, func(st *State, res Value) {
		s, _ := res.(VStr)
		c, ok := st.norm(s.S).constVal()
		r.ob(ok && c == "", "name:nil", p.posStr(pstr.Pos()), st, "a kind that is not there has a name")
	})
	for k := range opposite {
		r.ob(e.kindSetNames(k) != 0, "kinds:"+k, "kind/kind.go", nil, "there is no kind %s", k)
	}
}

// scopeKinds: the word of each kind of scope, its name and the kind of its first node.
var scopeKindTable = []struct{ con, text, name, kind string }{
	{"Unknown", "", "Unknown", "Raw"},
	{"Package", "package", "Package", "Package"},
	{"Comment", "//", "Comment", "Comment"},
	{"InnerComment", "/*", "InnerComment", "Comment"},
	{"Import", "import", "Import", "Import"},
	{"Variable", "var", "Variable", "Var"},
	{"Const", "const", "Const", "Const"},
	{"Type", "type", "Type", "Type"},
	{"Func", "func", "Func", "Func"},
}

func (e *Engine) scopeKindTables(p *Program, r *Report) {
	pk := e.byPath[e.module+"/scope"]
	if pk == nil {
		r.fail("anchor:scope", "scope", "the package of scope kinds was not found", nil)
		return
	}
	str, tok := p.methodIn(pk, "Kind", "String"), p.methodIn(pk, "Kind", "ToKind")
	if str == nil || tok == nil {
		r.fail("anchor:scope", "scope/scope_kind.go", "the methods of scope kinds were not found", nil)
		return
	}
	for _, row := range scopeKindTable {
		c, ok := pk.Members[row.con].(*ssa.NamedConst)
		if !r.ob(ok, "scopekind:"+row.con, "scope/scope_kind.go", nil, "there is no scope kind %s", row.con) {
			continue
		}
		v, _ := e.constVal(c.Value).(VStr)
		text, ok := v.S.constVal()
		r.ob(ok && text == row.text, "scopekind:"+row.con, p.posStr(c.Pos()), nil, "the scope kind %s stands for %q, not %q", row.con, text, row.text)
		n := 0
		e.explore("String", str, e.newState(), []Value{v}, func(st *State, res Value) {
			n++
			s, _ := res.(VStr)
			got, ok := st.norm(s.S).constVal()
			r.ob(ok && got == row.name, "scopekind:"+row.con, p.posStr(str.Pos()), st, "the scope kind %s is called %q, not %q", row.con, got, row.name)
		})
		e.explore("ToKind", tok, e.newState(), []Value{v}, func(st *State, res Value) {
			n++
			r.ob(st.kindSetOf(res) == e.kindSetNames(row.kind), "scopekind:"+row.con, p.posStr(tok.Pos()), st, "the kind of the scope kind %s is %s, not %s", row.con, e.kindList(st.kindSetOf(res)), row.kind)
		})
		r.ob(n >= 2, "scopekind:"+row.con, p.posStr(tok.Pos()), nil, "the scope kind %s gives no answer", row.con)
		r.Counters["scope_kinds"]++
	}
	// any other text
	st := e.newState()
	id := st.newSrc("other", false, st.newNat())
	text := Seq{{Src: id, A: linC(0), B: st.srcs[id].length}}
	old := e.cfg.isNot
	e.cfg.isNot = func(st *State, s Seq, c string) bool {
		for _, row := range scopeKindTable {
			if row.text == c {
				return true
			}
		}
		return false
	}
	e.explore("ToKind", tok, st, []Value{VStr{text}}, func(st *State, res Value) {
		r.ob(st.kindSetOf(res) == e.kindSetNames("None"), "scopekind:other", p.posStr(tok.Pos()), st, "a scope kind that does not exist has the kind %s", e.kindList(st.kindSetOf(res)))
	})
	e.explore("String", str, st.clone(), []Value{VStr{text}}, func(st *State, res Value) {
		s, _ := res.(VStr)
		got, ok := st.norm(s.S).constVal()
		r.ob(ok && got == "", "scopekind:other", p.posStr(str.Pos()), st, "a scope kind that does not exist is called %q", got)
	})
	e.cfg.isNot = old
}
