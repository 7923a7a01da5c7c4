exec(open('/tmp/exp/cases/scope.py').read())
C=[
('r-split','ok',P,[(S,'''	scs := []Scope{}
	nodesToResetKind := []*Node{}
''','''	scs := splitScopes(node, startLine)
	for _, sc := range scs {
		resetKind(sc.Node())
	}

	return scs, nil
}

// splitScopes cuts the nodes into scopes.
func splitScopes(node *Node, startLine int) []Scope {
	scs := []Scope{}
'''),(S,'''			nodesToResetKind = append(nodesToResetKind, head)
''',''),(S,'''	for _, n := range nodesToResetKind {
		resetKind(n)
	}

	return scs, nil
''','''	return scs
''')]),
('r-kindnode','ok',P,[(S,'newScopeKind(n.Text())','newScopeKind(n)'),(S,'func newScopeKind(s string) scope.Kind {','func newScopeKind(n *Node) scope.Kind {\n\ts := n.Text()')]),
('r-literal','ok',P,[(S,'''			scs = append(scs, NewScope(
				head.Line(),
				k,
				head,
			))
''','''			scs = append(scs, &scopeStruct{line: head.Line(), kind: k, node: head})
''')]),
('r-heads','ok',P,[(S,'''	tryAppendScope := func() {
''','''	closeScope := func(head *Node, k scope.Kind) {
'''),(S,'''		tryAppendScope()

		head = n''','''		closeScope(head, k)

		head = n'''),(S,'''	tryAppendScope()

	for''','''	closeScope(head, k)

	for''')]),
('r-map','ok',P,[(S,'	kinds := []scope.Kind{\n'+KINDS+'	}\n\n'+LOOP,'''	if strings.HasPrefix(s, string(scope.Comment)) {
		return scope.Comment
	}
	if strings.HasPrefix(s, string(scope.InnerComment)) {
		return scope.InnerComment
	}
	words := map[string]scope.Kind{
		"package": scope.Package,
		"import":  scope.Import,
		"var":     scope.Variable,
		"const":   scope.Const,
		"type":    scope.Type,
		"func":    scope.Func,
	}
	return words[s]
'''),(S,'	"fmt"\n','	"fmt"\n	"strings"\n')]),
('r-hasprefix','ok',P,[(S,'''	if len(s) < len(ks) {
		return false
	}

	return s[:len(ks)] == ks
''','''	return strings.HasPrefix(s, ks)
'''),(S,'	"fmt"\n','	"fmt"\n	"strings"\n')]),
('r-inlinekind','ok',P,[(S,'''	return scope.Unknown
}

func isScopeKind''','''	return scope.Unknown
}

// isScopeKind tells whether a line that begins with s opens a scope of kind k.
func isScopeKind'''),(S,'''		nk := newScopeKind(n.Text())
''','''		nk := scope.Unknown
		for _, c := range scopeKinds {
			if isScopeKind(n.Text(), c) {
				nk = c
				break
			}
		}
'''),(S,'''func newScopeKind(s string) scope.Kind {
	kinds := []scope.Kind{
'''+KINDS+'''	}

'''+LOOP+'}\n','var scopeKinds = []scope.Kind{\n'+KINDS+'}\n')]),
]
