P=['C10']
A='kind_resetter_all.go';F='kind_resetter_func.go';T='kind_resetter_type.go';R='kind_resetter_parenthesis.go'
CA='''	n := nodes[0]
	n.SetKind(k)
	for _, nn := range nodes[1:] {
		if nn == nil || nn != n.Next() {
			return
		}

		next := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
	}
'''
C=[
('b-gap','bad',P,[(A,'nn == nil || nn != n.Next()','nn == nil')]),
('b-continue','ok',P,[(A,'''n.Next() {
			return
		}''','''n.Next() {
			continue
		}''')]),
('b-noreplace','bad',P,[(A,'		n.ReplaceNext(next)\n','		_ = next\n')]),
('b-replacefirst','bad',P,[(A,'''		next := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
''','''		next := nn.Next().Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
''')]),
('b-trimtext','bad',P,[(T,'n.SetKind(kind.ParamName)','n.SetKind(kind.ParamName)\n\t\t\t\tn.SetText(strings.TrimSpace(n.Text()))'),(T,'import (','import (\n\t"strings"\n')]),
('b-hook-isolate','bad',P,[(T,'''				if n.Kind() == kind.Raw {
					n.SetKind(kind.ParamType)
				}''','''				if n.Kind() == kind.Raw {
					n.SetKind(kind.ParamType)
				}
				if n.Kind() == kind.Tab {
					n.Isolate()
				}''')]),
('b-takenext','bad',P,[(R,'''			if validParamCount == 1 {
				n.SetKind(typeKind)''','''			if validParamCount == 1 {
				if n.Next().Kind() == kind.Space {
					n.TakeNext()
				}
				n.SetKind(typeKind)''')]),
('b-swap','bad',P,[(A,'		n.CombineNext(k, nn)\n','		n.CombinePrev(k, nn)\n')]),
('r-inline','ok',P,[(F,'''		combineAdjacent(kind.ParamType, buf)
''','''		if len(buf) != 0 {
			k, n := kind.ParamType, buf[0]
			n.SetKind(k)
			for _, nn := range buf[1:] {
				if nn == nil || nn != n.Next() {
					break
				}
				next := nn.Next()
				n.CombineNext(k, nn)
				n.ReplaceNext(next)
			}
		}
''')]),
('r-helper','ok',P,[(A,'''		next := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
''','''		n.absorb(k, nn)
'''),(A,'// combineAdjacent','''// absorb takes over the node behind.
func (n *Node) absorb(k kind.Kind, nn *Node) {
	next := nn.Next()
	n.CombineNext(k, nn)
	n.ReplaceNext(next)
}

// combineAdjacent''')]),
('r-index','ok',P,[(A,CA,'''	n := nodes[0]
	n.SetKind(k)
	for i := 1; i < len(nodes); i++ {
		nn := nodes[i]
		if nn == nil || n.Next() != nn {
			break
		}

		after := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(after)
	}
''')]),
('r-run','ok',P,[(A,CA,'''	n := nodes[0]
	n.SetKind(k)
	run := []*Node{}
	last := n
	for _, nn := range nodes[1:] {
		if nn == nil || nn != last.Next() {
			break
		}
		run = append(run, nn)
		last = nn
	}
	for _, nn := range run {
		next := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
	}
''')]),
('r-textconcat','ok',P,[(A,CA,'''	n := nodes[0]
	n.SetKind(k)
	for _, nn := range nodes[1:] {
		if nn == nil || nn != n.Next() {
			return
		}
		nn = n.TakeNext()
		n.SetText(n.Text() + nn.Text())
	}
''')]),
('r-scopehelper','ok',P,[('scope.go','''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''','''	resetAll(nodesToResetKind)
'''),('scope.go','type scopeStruct struct','''func resetAll(ns []*Node) {
	for i := 0; i < len(ns); i++ {
		resetKind(ns[i])
	}
}

type scopeStruct struct''')]),
('r-comment','ok',P,[(T,'			if paramNameCount != 0 {\n				paramNameCount--','			if paramNameCount > 0 {\n				paramNameCount -= 1')]),
]
