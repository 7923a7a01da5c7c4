P=['C11']
S='scope.go'
IT='''	_ = node.IterNext(func(n *Node) bool {
		if n.Line() == line {
			return true
		}

		line = n.Line()
		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}

		tryAppendScope()

		head = n
		k = nk
		return true
	})

	tryAppendScope()
'''
APP='''		if k != scope.Unknown {
			nodesToResetKind = append(nodesToResetKind, head)
			scs = append(scs, NewScope(
				head.Line(),
				k,
				head,
			))
		}

		if head.Prev() != nil {
			_ = head.RemovePrev()
		}
'''
LOOP='''	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
'''
KINDS='''		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
'''
C=[
('r-for','ok',P,[(S,IT,'''	for n := node; n != nil; {
		next := n.Next()
		if n.Line() != line {
			line = n.Line()
			if nk := newScopeKind(n.Text()); nk != scope.Unknown {
				tryAppendScope()
				head, k = n, nk
			}
		}
		n = next
	}

	tryAppendScope()
''')]),
('r-nested','ok',P,[(S,IT,'''	_ = node.IterNext(func(n *Node) bool {
		if current := n.Line(); current != line {
			line = current
			nk := newScopeKind(n.Text())
			if nk != scope.Unknown {
				tryAppendScope()

				k = nk
				head = n
			}
		}

		return true
	})

	tryAppendScope()
''')]),
('r-order','ok',P,[(S,APP,'''		if head.Prev() != nil {
			_ = head.RemovePrev()
		}

		if k == scope.Unknown {
			return
		}

		sc := NewScope(head.Line(), k, head)
		scs = append(scs, sc)
		nodesToResetKind = append(nodesToResetKind, head)
''')]),
('r-switch','ok',P,[(S,'''	kinds := []scope.Kind{
'''+KINDS+'''	}

'''+LOOP,'''	for _, c := range []scope.Kind{scope.Comment, scope.InnerComment} {
		if isScopeKind(s, c) {
			return c
		}
	}

	switch k := scope.Kind(s); k {
	case scope.Package, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func:
		return k
	}

	return scope.Unknown
''')]),
('r-var','ok',P,[(S,'''	scs := []Scope{}
	nodesToResetKind := []*Node{}
''','''	var (
		scs              []Scope
		nodesToResetKind []*Node
	)
''')]),
('r-early','ok',P,[(S,'''	scs := []Scope{}
''','''	if node == nil {
		return []Scope{}, nil
	}

	scs := []Scope{}
''')]),
('r-reset-scs','ok',P,[(S,'''	for _, n := range nodesToResetKind {
''','''	for i := range nodesToResetKind {
		n := nodesToResetKind[i]
''')]),
('r-helper','ok',P,[(S,IT,IT.replace('''		if nk == scope.Unknown {
			return true
		}
''','''		if isUnknown(nk) {
			return true
		}
''')),(S,'func newScopeKind(','''func isUnknown(k scope.Kind) bool { return k == scope.Unknown }

func newScopeKind(''')]),
('r-firstvar','ok',P,[(S,'''	line := startLine - 1
''','''	first := true
	line := startLine
'''),(S,'''		if n.Line() == line {
			return true
		}

		line = n.Line()''','''		if !first && n.Line() == line {
			return true
		}

		first = false
		line = n.Line()''')]),
('r-inline-kind','ok',P,[(S,'''		nk := newScopeKind(n.Text())
''','''		text := n.Text()
		nk := newScopeKind(text)
''')]),
('r-perscope','ok',P,[(S,'''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''','''	for _, sc := range scs {
		resetKind(sc.Node())
	}
''')]),
# bad
('b-last-lost','bad',P,[(S,'''	tryAppendScope()

	for _, n''','''	if head != node {
		tryAppendScope()
	}

	for _, n''')]),
('b-notfirst','bad',P,[(S,'''		if n.Line() == line {
			return true
		}

		line = n.Line()
		nk :=''','''		if n.Line() == line && k != scope.Comment {
			return true
		}

		line = n.Line()
		nk :=''')]),
('b-noline','bad',P,[(S,'''		line = n.Line()
		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
''','''		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}
		line = n.Line()
''')]),
('b-merge-comments','bad',P,[(S,'''		if nk == scope.Unknown {
			return true
		}
''','''		if nk == scope.Unknown || nk == scope.Comment && k == scope.Comment {
			return true
		}
''')]),
('b-kind-late','bad',P,[(S,'''		tryAppendScope()

		head = n
		k = nk
''','''		if k == scope.Unknown {
			k = nk
		}
		tryAppendScope()

		head = n
		k = nk
''')]),
('b-noremove','bad',P,[(S,'''		if head.Prev() != nil {
			_ = head.RemovePrev()
		}
''','''		if head.Prev() != nil && k != scope.Package {
			_ = head.RemovePrev()
		}
''')]),
('b-removenext','bad',P,[(S,'''			_ = head.RemovePrev()
''','''			_ = head.Prev().RemovePrev()
''')]),
('b-line','bad',P,[(S,'''				head.Line(),
''','''				line,
''')]),
('b-dropinner','bad',P,[(S,'		scope.InnerComment,\n','')]),
('b-type','bad',P,[(S,'		scope.Type,\n','')]),
('b-prefix','bad',P,[(S,'	if k != scope.Comment && k != scope.InnerComment {','	if k != scope.Comment && k != scope.InnerComment && k != scope.Func {')]),
('b-head','bad',P,[(S,'''		tryAppendScope()

		head = n
''','''		tryAppendScope()

		head = n
		if n.Next() != nil && nk == scope.Import {
			head = n.Next()
		}
''')]),
('b-startline','bad',P,[(S,'	line := startLine - 1','	line := startLine')]),
('b-minus1','bad',P,[(S,'	line := startLine - 1','	line := -1')]),
('b-lineacc','bad',P,[(S,'	return d.line + 1','	return d.line')]),
('b-prepend','bad',P,[(S,'''			scs = append(scs, NewScope(
				head.Line(),
				k,
				head,
			))
''','''			scs = append([]Scope{NewScope(
				head.Line(),
				k,
				head,
			)}, scs...)
''')]),
('b-stop','bad',P,[(S,'''		head = n
		k = nk
		return true
''','''		head = n
		k = nk
		return nk != scope.Func || n.Next() != nil && n.Next().Text() != "}"
''')]),
('b-dup','bad',P,[(S,'''	tryAppendScope()

	for _, n''','''	tryAppendScope()
	if len(scs) == 0 {
		tryAppendScope()
		scs = append(scs, NewScope(0, scope.Unknown, node))
	}

	for _, n''')]),
]
