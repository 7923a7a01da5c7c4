package main

import (
	"fmt"
	"go/token"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

// --- C18: where nodes begin and end --------------------------------------------------------------------------------
//
// Beside the input runs a second text, the labels: what each byte of the input is in its token. The labels of a text
// are given by a local language: which byte may carry a label, and which label and byte may follow which. Nothing is
// known about the labels but that; what the code finds out about the bytes tells more and more about them. The labels
// that begin a token are counted like newlines, so that a node is one token when it begins with such a label, holds no
// second one, and is followed by one or by the end.

const labelSrc = "labels"

const (
	lSep = iota + 1
	lW1  // a word: first byte
	lW   // others
	lC1  // a comment: its first slash
	lL2  // the second slash
	lL   // what follows
	lK2  // the opening star
	lK   // what follows
	lKS  // a star that may close
	lKE  // the closing slash
	lS1  // a string
	lS
	lSE // a backslash that escapes what follows
	lSX // an escaped byte
	lSQ
	lR1 // a rune
	lR
	lRE
	lRX
	lRQ
	lQ1 // a raw string
	lQ
	lQQ
	lEnd
)

const (
	bDouble = 1 << iota
	bBack
	bSingle
	bSlash
	bStar
	bEscape
	bNewline
	bSep
	bWord
	bAny = 1<<iota - 1
)

type label = uint32

var (
	markLabels = byteSetOf(lSep, lW1, lC1, lS1, lR1, lQ1)
	byteClass  [256]int

	// labels of bytes that count for nothing because of what stands before them
	escapedLabels = byteSetOf(lSX, lRX)
	openStar      = byteSetOf(lK2)

	labelBytes [lEnd]int
	labelNext  [lEnd]label
)

func byteSetOf(bs ...byte) ByteSet {
	var s ByteSet
	for _, b := range bs {
		s.add(b)
	}
	return s
}

func labels(ls ...int) label {
	var m label
	for _, l := range ls {
		m |= 1 << l
	}
	return m
}

func init() {
	for i := range byteClass {
		byteClass[i] = bWord
	}
	for _, b := range []byte(" \t\r[](){},:;") {
		byteClass[b] = bSep
	}
	for b, c := range map[byte]int{'"': bDouble, '`': bBack, '\'': bSingle, '/': bSlash, '*': bStar, '\\': bEscape, '\n': bNewline} {
		byteClass[b] = c
	}
	word := bSlash | bStar | bEscape | bWord
	for l, c := range map[int]int{
		lSep: bSep | bNewline, lW1: word, lW: word,
		lC1: bSlash, lL2: bSlash, lL: bAny &^ bNewline, lK2: bStar, lK: bAny &^ bStar, lKS: bStar, lKE: bSlash,
		lS1: bDouble, lS: bAny &^ (bDouble | bEscape), lSE: bEscape, lSX: bAny, lSQ: bDouble,
		lR1: bSingle, lR: bAny &^ (bSingle | bEscape), lRE: bEscape, lRX: bAny, lRQ: bSingle,
		lQ1: bBack, lQ: bAny &^ bBack, lQQ: bBack,
	} {
		labelBytes[l] = c
	}
	start := labels(lSep, lW1, lC1, lS1, lR1, lQ1)
	inWord := labels(lW, lSep, lC1, lS1, lR1, lQ1)
	str, run, raw := labels(lS, lSE, lSQ), labels(lR, lRE, lRQ), labels(lQ, lQQ)
	for l, n := range map[int]label{
		lSep: start, lKE: start, lSQ: start, lRQ: start, lQQ: start,
		lW1: inWord, lW: inWord,
		lC1: labels(lL2, lK2), lL2: labels(lL, lSep), lL: labels(lL, lSep),
		lK2: labels(lK, lKS), lK: labels(lK, lKS), lKS: labels(lK, lKS, lKE),
		lS1: str, lS: str, lSX: str, lSE: labels(lSX),
		lR1: run, lR: run, lRX: run, lRE: labels(lRX),
		lQ1: raw, lQ: raw,
	} {
		labelNext[l] = n
	}
}

// follows tells whether a byte with a label may stand behind another one.
func follows(l, b, l2, b2 int) bool {
	if labelNext[l]&(1<<l2) == 0 || labelBytes[l2]&b2 == 0 {
		return false
	}
	switch l {
	case lW1, lW:
		return b != bSlash || b2&(bSlash|bStar) == 0
	case lL2, lL:
		return (l2 == lSep) == (b2 == bNewline)
	case lKS:
		return (l2 == lKE) == (b2 == bSlash)
	}
	return true
}

func classesOf(s ByteSet) int {
	if s == allBytes() {
		return bAny
	}
	m := 0
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			m |= byteClass[i]
		}
	}
	return m
}

func bytesOf(classes int) ByteSet {
	if classes == bAny {
		return allBytes()
	}
	var s ByteSet
	for i := 0; i < 256; i++ {
		if byteClass[i]&classes != 0 {
			s.add(byte(i))
		}
	}
	return s
}

func labelsOf(s ByteSet) label { return label(s[0]) & (1<<lEnd - 2) }

func labelBytesSet(m label) ByteSet { return ByteSet{uint64(m)} }

const allLabels = label(1<<lEnd - 2)

// labelled finds the input and its labels.
func labelled(st *State) (in, lab SrcID, ok bool) {
	for id, s := range st.srcs {
		switch s.name {
		case "input":
			in = id
		case labelSrc:
			lab = id
		}
	}
	return in, lab, in != 0 && lab != 0
}

// byteCell is a place of the input about which something is known.
type byteCell struct {
	off    Lin
	bytes  int
	labels label
	has    bool // something is known about its label
	read   bool // something is known about its byte
}

// saturate draws all conclusions from bytes to labels and back; false when there is no such text.
func saturate(st *State, in, lab SrcID) bool {
	length := st.srcs[in].length
	for round := 0; round < 40; round++ {
		var cells []byteCell
		at := func(off Lin) int {
			for i := range cells {
				if st.zone.equal(cells[i].off, off) {
					return i
				}
			}
			cells = append(cells, byteCell{off: off, bytes: bAny, labels: allLabels})
			return len(cells) - 1
		}
		for _, f := range st.bytes {
			switch f.src {
			case lab:
				c := &cells[at(f.off)]
				c.labels &= labelsOf(f.set)
				c.has = true
			case in:
				c := &cells[at(f.off)]
				c.bytes &= classesOf(f.set)
				c.read = true
			}
		}
		// places next to those with labels
		for i := 0; i < len(cells); i++ {
			if !cells[i].has {
				continue
			}
			if cells[i].read {
				if j := at(cells[i].off.addC(1)); !cells[j].has {
					cells[j].has = true
				}
			}
			if st.zone.lt(linC(0), cells[i].off) {
				for j := range cells {
					if cells[j].read && !cells[j].has && st.zone.equal(cells[j].off.addC(1), cells[i].off) {
						cells[j].has = true
					}
				}
			}
		}
		changed := false
		was := append([]byteCell(nil), cells...)
		for i := range cells {
			c := &cells[i]
			if !c.has {
				continue
			}
			var ok label
			by := 0
			for l := 1; l < lEnd; l++ {
				if c.labels&(1<<l) == 0 || labelBytes[l]&c.bytes == 0 {
					continue
				}
				if l == lC1 && st.zone.le(length, c.off.addC(1)) {
					continue
				}
				ok |= 1 << l
				by |= labelBytes[l] & c.bytes
			}
			c.labels, c.bytes = ok, by
		}
		for i := range cells {
			for j := range cells {
				a, b := &cells[i], &cells[j]
				if !a.has || !b.has || !st.zone.equal(a.off.addC(1), b.off) {
					continue
				}
				var la, lb label
				ba, bb := 0, 0
				for l := 1; l < lEnd; l++ {
					if a.labels&(1<<l) == 0 {
						continue
					}
					for x := 1; x < bAny; x <<= 1 {
						if a.bytes&x == 0 || labelBytes[l]&x == 0 {
							continue
						}
						for m := 1; m < lEnd; m++ {
							if b.labels&(1<<m) == 0 {
								continue
							}
							for y := 1; y < bAny; y <<= 1 {
								if b.bytes&y != 0 && follows(l, x, m, y) {
									la |= 1 << l
									lb |= 1 << m
									ba |= x
									bb |= y
								}
							}
						}
					}
				}
				if lb == 0 && !b.read && st.zone.le(b.off, length) && !st.zone.lt(b.off, length) {
					// there may be no byte behind
					continue
				}
				if st.zone.lt(b.off, length) || b.read {
					a.labels, a.bytes = la, ba
				}
				b.labels, b.bytes = lb, bb
			}
		}
		for i, c := range cells {
			if !c.has {
				continue
			}
			if c.labels == 0 {
				return false
			}
			if i >= len(was) || c.labels != was[i].labels || st.byteSet(lab, c.off) == allBytes() {
				if st.byteSet(lab, c.off) != labelBytesSet(c.labels) {
					changed = true
					if !st.restrictByte(lab, c.off, labelBytesSet(c.labels)) {
						return false
					}
				}
			}
			if c.bytes != was[i].bytes && c.read {
				if c.bytes == 0 {
					return false
				}
				before := st.byteSet(in, c.off)
				if !st.restrictByte(in, c.off, bytesOf(c.bytes)) {
					return false
				}
				if st.byteSet(in, c.off) != before {
					changed = true
				}
			}
		}
		if !changed {
			return true
		}
	}
	return true
}

// monitor draws conclusions about labels, and tells apart what a byte that is known may be.
func monitor(e *Engine, st *State) []*State {
	in, lab, ok := labelled(st)
	if !ok {
		return []*State{st}
	}
	work := []*State{st}
	var out []*State
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		s.congruent()
		s.mergeBytes()
		if !saturate(s, in, lab) {
			continue
		}
		split := false
		for _, f := range s.bytes {
			if f.src != lab {
				continue
			}
			set := s.byteSet(lab, f.off)
			odd := escapedLabels
			if set.has(lK2) {
				odd = openStar
			}
			if x := set.and(odd); !x.empty() && x != set {
				for _, y := range []ByteSet{x, set.and(odd.not())} {
					if t := s.clone(); t.restrictByte(lab, f.off, y) {
						work = append(work, t)
					}
				}
				split = true
				break
			}
		}
		if !split {
			out = append(out, s)
		}
	}
	return out
}

// checkLexNode: a node is one token.
func checkLexNode(e *Engine, st *State, s VStruct) string {
	t, ok := s.F[e.role.text].(VStr)
	if !ok {
		return "a node has an unknown text"
	}
	x := st.place(t.S)
	in, lab, ok := labelled(st)
	if !ok || len(x) != 1 || x[0].isConst() || x[0].Src != in {
		return "a node's text is not one piece of the input: " + e.describeSeq(st, x)
	}
	a, b := x[0].A, x[0].B
	if !st.zone.equal(st.nlAt(lab, b), st.nlAt(lab, a).addC(1)) {
		return "a node is not one token, from its first to its last byte: " + e.describeSeq(st, x)
	}
	if set := st.byteSet(lab, a); set.and(markLabels) != set {
		return "a node may begin in the middle of a token: " + e.describeSeq(st, x)
	}
	if set := st.byteSet(lab, b); set.and(markLabels) != set && !st.zone.le(st.srcs[in].length, b) {
		return "a node may end in the middle of a token: " + e.describeSeq(st, x)
	}
	return ""
}

// knownLexNode takes up what was checked for a node when it was made.
func knownLexNode(st *State, text Seq) bool {
	in, lab, ok := labelled(st)
	x := st.place(text)
	if !ok || len(x) != 1 || x[0].isConst() || x[0].Src != in {
		return true
	}
	a, b := x[0].A, x[0].B
	if !st.zone.assumeEQ(st.nlAt(lab, b), st.nlAt(lab, a).addC(1)) || !st.restrictByte(lab, a, markLabels) {
		return false
	}
	return !st.zone.lt(b, st.srcs[in].length) || st.restrictByte(lab, b, markLabels)
}

// nodeKind checks the kind of a node as soon as it has a kind and a text.
func nodeKind(e *Engine, st *State, o *Object, path string, pos token.Pos) {
	s, ok := e.stored.(VStruct)
	if !e.isNode(o.typ) || !ok || path != "" && path != pathAppend("", e.role.text) && path != pathAppend("", e.role.kind) {
		return
	}
	if k, isConst := s.F[e.role.kind].(VStruct); isConst && e.isZeroKind(k) {
		return // not yet
	}
	t, ok := s.F[e.role.text].(VStr)
	if !ok || len(t.S) == 0 {
		return
	}
	bad := func(m string) {
		st.bad = addBad(st.bad, e.posStr(pos)+": "+m)
		e.halt(st, e.posStr(pos)+": "+m)
	}
	x := st.place(t.S)
	in, lab, ok := labelled(st)
	if !ok || len(x) != 1 || x[0].isConst() || x[0].Src != in {
		bad("the kind of a node whose text is not one piece of the input")
		return
	}
	// that the node begins a token is a property of its own
	q := st.clone()
	if !q.restrictByte(lab, x[0].A, markLabels) || !saturate(q, in, lab) {
		return
	}
	set := q.byteSet(lab, x[0].A)
	comment, str := byteSetOf(lC1), byteSetOf(lS1, lQ1)
	switch ks := st.kindSetOf(s.F[e.role.kind]); ks {
	case e.kindSetNames("Comment"):
		if set.and(comment) != set {
			bad("a node that may be no comment gets the kind of comments")
		}
	case e.kindSetNames("String"):
		if set.and(str) != set {
			bad("a node that may be no string gets the kind of strings")
		}
	default:
		g, ok := st.ghost["kind of"].(VTuple)
		k, isK := s.F[e.role.kind].(VKind)
		if !ok || !isK || g.V[0] != Value(k) {
			bad("a node gets a kind that its text did not call for")
			return
		}
		if !st.seqEqual(st.place(textOf(g.V[1])), x) {
			bad("a node gets the kind that another text calls for")
		}
		if !set.and(comment).empty() {
			if os.Getenv("GOAST_DEBUG") == "2" {
				fmt.Fprintln(os.Stderr, "KIND", x, lexLine(st), st.traceLines(12))
			}
			bad("a node that may be a comment gets another kind")
		}
		delete(st.ghost, "kind of")
	}
}

func checkC25(p *Program, r *Report, thorough bool) error {
	cfg := &Config{tabulate: true, foldKinds: true, nonEmpty: true, failFast: true, budget: 30_000_000, monitor: monitor}
	cfg.knownNode = knownLexNode
	cfg.onStore = nodeKind
	cfg.intercept = func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if e.isKindOf(fn) {
			k := st.newKind(allKinds)
			st.ghost["kind of"] = VTuple{[]Value{k, args[0]}}
			return one(st, k), nil, true
		}
		return nil, nil, false
	}
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	e.limit = 800 * time.Second
	t, err := exploreTokenizer(e, r, func(st *State) {
		in, _, _ := labelled(st)
		n := st.srcs[in].length
		lab := st.newSrc(labelSrc, false, n)
		st.setMeta(in, VStr{Seq{{Src: lab, A: linC(0), B: n}}})
		st.restrictByte(lab, linC(0), markLabels)
	})
	if err != nil || t == nil {
		return err
	}
	for i := range t.outcome {
		for _, b := range t.outcome[i].st.bad {
			r.ob(false, "token-kind:"+stripPos(b), t.where, t.outcome[i].st, "%s", b)
		}
		r.Obligations++
		r.Discharged++
	}
	if !e.aborted && len(t.outcome) == 0 && len(r.viol) == 0 {
		r.fail("token-outcome", t.where, t.fn.Name()+" has no outcome", nil)
	}
	return nil
}

func checkC18(p *Program, r *Report, thorough bool) error {
	cfg := &Config{tabulate: true, foldKinds: true, nonEmpty: true, failFast: true, budget: 30_000_000, monitor: monitor}
	cfg.nodeCheck = checkLexNode
	cfg.knownNode = knownLexNode
	cfg.intercept = func(e *Engine, st *State, fn *ssa.Function, args []Value, pos token.Pos) ([]resv, []panicRes, bool) {
		if e.isKindOf(fn) {
			return one(st, st.newKind(allKinds)), nil, true
		}
		return nil, nil, false
	}
	e, err := p.newEngine(cfg)
	if err != nil {
		return err
	}
	e.limit = 800 * time.Second
	t, err := exploreTokenizer(e, r, func(st *State) {
		in, _, _ := labelled(st)
		n := st.srcs[in].length
		lab := st.newSrc(labelSrc, false, n)
		st.setMeta(in, VStr{Seq{{Src: lab, A: linC(0), B: n}}})
		st.restrictByte(lab, linC(0), markLabels)
	})
	if err != nil || t == nil {
		return err
	}
	for i := range t.outcome {
		o := &t.outcome[i]
		for _, st := range monitor(e, o.st) {
			head := ptrTo(o.node)
			if head == 0 {
				continue // C07 decides whether there have to be nodes
			}
			objs, _, msg := e.walk(st, head)
			if !r.ob(msg == "", "token-chain", t.where, st, "the nodes of an input: %s", msg) {
				continue
			}
			for _, id := range objs {
				if ob := st.obj(id); ob.kind != oSeg {
					m := checkLexNode(e, st, ob.val.(VStruct))
					r.ob(m == "", "token-node", t.where, st, "%s", m)
				}
			}
		}
	}
	if !e.aborted && len(t.outcome) == 0 && len(r.viol) == 0 {
		r.fail("token-outcome", t.where, t.fn.Name()+" has no outcome", nil)
	}
	return nil
}

var labelNames = [...]string{"", "Sep", "W1", "W", "C1", "L2", "L", "K2", "K", "KS", "KE", "S1", "S", "SE", "SX", "SQ", "R1", "R", "RE", "RX", "RQ", "Q1", "Q", "QQ"}

// lexLine describes what is known about labels and bytes.
func lexLine(st *State) string {
	in, lab, _ := labelled(st)
	out := ""
	for _, f := range st.bytes {
		switch f.src {
		case lab:
			out += fmt.Sprintf("  label @%v:", f.off)
			for l := 1; l < lEnd; l++ {
				if f.set.has(byte(l)) {
					out += " " + labelNames[l]
				}
			}
		case in:
			out += fmt.Sprintf("  byte @%v: %s", f.off, setText(f.set))
		default:
			continue
		}
		out += "\n"
	}
	for _, f := range st.nls {
		if f.src == lab {
			out += fmt.Sprintf("  count @%v = %v\n", f.off, f.val)
		}
	}
	return out + "  zone " + st.zone.compact() + "\n"
}

func setText(s ByteSet) string {
	out, n := "", 0
	for i := 0; i < 256; i++ {
		if s.has(byte(i)) {
			n++
			if n < 30 {
				out += fmt.Sprintf("%q", rune(i))
			}
		}
	}
	if n > 128 {
		return "not " + setText(s.not())
	}
	return out
}

// labelKey keeps states apart by the labels of bytes that are known, at the places that numbers stand for.
func (c *canonizer) labelKey(given, slots int) {
	_, lab, ok := labelled(c.old)
	if !ok {
		return
	}
next:
	for k := given; k < slots; k++ {
		if !c.nums[k] {
			continue
		}
		odd := ""
		if set := c.old.byteSet(lab, c.slots[k]); set.and(escapedLabels) == set {
			odd = "escaped"
		}
		if c.old.byteSet(lab, c.slots[k].addC(-1)) == openStar {
			odd = "opened"
		}
		if odd == "" {
			continue
		}
		for j := 0; j < given; j++ {
			if odd == "escaped" && c.old.zone.equal(c.slots[j], c.slots[k]) {
				continue next
			}
		}
		fmt.Fprintf(&c.key, "%s@%d ", odd, k)
	}
}

// aboutLabels tells whether a fact of a canonical state is about labels.
func (c *canonical) aboutLabels(key string) bool {
	var src int
	fmt.Sscanf(key, "%d|", &src)
	return c.st.srcs[SrcID(src)].name == labelSrc
}

// mergeBytes keeps one fact for each place.
func (st *State) mergeBytes() {
	var keep []byteFact
next:
	for _, f := range st.bytes {
		for i := range keep {
			if keep[i].src == f.src && st.zone.equal(keep[i].off, f.off) {
				keep[i].set = keep[i].set.and(f.set)
				continue next
			}
		}
		keep = append(keep, f)
	}
	st.bytes = keep
}
