P=['C05']
S='scope.go';A='ast.go';N='node.go'
DC='''	if prev == nil {
		prev = n.Prev().deepCopy(nil, nn)
	}

	if next == nil {
		next = n.Next().deepCopy(nn, nil)
	}

	nn.prev = prev
	nn.next = next

	return nn
'''
C=[
('b-kind','bad',P,[(N,'''	return &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}
}''','''	return NewNode(n.line, n.text)
}''')]),
('b-line','bad',P,[(N,'''	nn := &Node{
		line: n.line,
''','''	nn := &Node{
''')]),
('b-next','bad',P,[(N,'next = n.Next().deepCopy(nn, nil)','next = n.Next().Copy()')]),
('b-share','bad',P,[(N,'next = n.Next().deepCopy(nn, nil)','next = n.Next()')]),
('b-opt','bad',P,[(N,'len(copyRelativeNode) != 0 && copyRelativeNode[0]','len(copyRelativeNode) != 0')]),
('r-new','ok',P,[(N,'''	return &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}
}''','''	c := NewNode(n.line, n.text)
	c.SetKind(n.kind)
	return c
}''')]),
('b-back','bad',P,[(N,'prev = n.Prev().deepCopy(nil, nn)','prev = n.Prev().deepCopy(nil, n)')]),
('b-iso','bad',P,[(N,'''	if len(copyRelativeNode) != 0 && copyRelativeNode[0] {
		return''','''	if len(copyRelativeNode) != 0 && copyRelativeNode[0] {
		n.Prev().ReplaceNext(n)
		return''')]),
('r-iso','ok',P,[(N,'''	if len(copyRelativeNode) != 0 && copyRelativeNode[0] {
		return''','''	if len(copyRelativeNode) != 0 && copyRelativeNode[0] {
		if n.Prev() == nil && n.Next() == nil {
			return NewNode(n.Line(), n.Text(), n.Kind())
		}
		return''')]),
('r-loop','ok',P,[(N,DC,'''	_, _ = prev, next
	for o, c := n, nn; o.next != nil; o, c = o.next, c.next {
		c.next = &Node{line: o.next.line, kind: o.next.kind, text: o.next.text, prev: c}
	}
	for o, c := n, nn; o.prev != nil; o, c = o.prev, c.prev {
		c.prev = &Node{line: o.prev.line, kind: o.prev.kind, text: o.prev.text, next: c}
	}
	return nn
''')]),
('r-slice','ok',P,[(N,DC,'''	_, _ = prev, next
	nodes := []*Node{}
	at := 0
	first := n
	for first.Prev() != nil {
		first = first.Prev()
		at++
	}
	for o := first; o != nil; o = o.Next() {
		nodes = append(nodes, o.Copy())
	}
	for i := range nodes {
		if i > 0 {
			nodes[i].prev = nodes[i-1]
			nodes[i-1].next = nodes[i]
		}
	}
	_ = nn
	return nodes[at]
''')]),
('r-helper','ok',P,[(N,DC,'''	if prev == nil {
		prev = copyBackward(n.prev, nn)
	}
	if next == nil {
		next = copyForward(n.next, nn)
	}
	nn.prev = prev
	nn.next = next
	return nn
}

func copyBackward(n, next *Node) *Node {
	if n == nil {
		return nil
	}
	c := n.Copy()
	c.next = next
	c.prev = copyBackward(n.prev, c)
	return c
}

func copyForward(n, prev *Node) *Node {
	if n == nil {
		return nil
	}
	c := n.Copy()
	c.prev = prev
	c.next = copyForward(n.next, c)
	return c
''')]),
('b-loop','bad',P,[(N,DC,'''	_, _ = prev, next
	for o, c := n, nn; o.next != nil; o, c = o.next, c.next {
		c.next = &Node{line: o.next.line, kind: o.next.kind, text: o.next.text, prev: nn}
	}
	for o, c := n, nn; o.prev != nil; o, c = o.prev, c.prev {
		c.prev = &Node{line: o.prev.line, kind: o.prev.kind, text: o.prev.text, next: c}
	}
	return nn
''')]),
('b-scope-shallow','bad',P,[(S,'		node: d.node.Copy(true),','		node: d.node.Copy(),')]),
('b-scope-share','bad',P,[(S,'		node: d.node.Copy(true),','		node: d.node,')]),
('b-scope-line','bad',P,[(S,'''	return &scopeStruct{
		line: d.line,
		kind: d.kind,
		node: d.node.Copy(true),''','''	return &scopeStruct{
		line: d.Line(),
		kind: d.kind,
		node: d.node.Copy(true),''')]),
('b-scope-self','bad',P,[(S,'''	return &scopeStruct{
		line: d.line,
		kind: d.kind,
		node: d.node.Copy(true),''','''	if d.node == nil {
		return d
	}
	return &scopeStruct{
		line: d.line,
		kind: d.kind,
		node: d.node.Copy(true),''')]),
('r-scope-new','ok',P,[(S,'''	return &scopeStruct{
		line: d.line,
		kind: d.kind,
		node: d.node.Copy(true),
	}''','''	c := *d
	c.node = d.Node().Copy(true)
	return &c''')]),
('b-ast-scopes','bad',P,[(A,'		scs = append(scs, sc.Copy())','		scs = append(scs, sc)')]),
('b-ast-ext','bad',P,[(A,'''		ext:   f.ext,
		scope: scs,
	}
}''','''		scope: scs,
	}
}''')]),
('b-ast-clip','bad',P,[(A,'	"slices"\n',''),(A,'append(slices.Clip(f.scope), scs...)','append(f.scope, scs...)')]),
('b-ast-setscope','bad',P,[(A,'''	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scope,
	}''','''	f.scope = scope
	return f''')]),
('b-ast-setscope2','bad',P,[(A,'''		name:  f.name,
		ext:   f.ext,
		scope: scope,''','''		name:  f.name,
		ext:   f.ext,
		scope: append(f.scope[:0], scope...),''')]),
('b-ast-appendonce','bad',P,[(A,'	"slices"\n',''),(A,'append(slices.Clip(f.scope), scs...)','append(scs, f.scope...)')]),
('r-clone','ok',P,[(A,'	"slices"\n',''),(A,'f.scope = append(slices.Clip(f.scope), scs...)','''all := make([]Scope, 0, len(f.scope)+len(scs))
	all = append(all, f.scope...)
	f.scope = append(all, scs...)''')]),
('r-max','ok',P,[(A,'	"slices"\n',''),(A,'append(slices.Clip(f.scope), scs...)','append(f.scope[:len(f.scope):len(f.scope)], scs...)')]),
('r-own','ok',P,[(A,'	"slices"\n',''),(A,'append(slices.Clip(f.scope), scs...)','append(append([]Scope(nil), f.scope...), scs...)')]),
('r-copyast','ok',P,[(A,'''	scs := make([]Scope, 0, len(f.scope))
	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}

	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scs,
	}''','''	scs := make([]Scope, len(f.scope))
	for i := range f.scope {
		scs[i] = f.scope[i].Copy()
	}

	return f.SetScope(scs)''')]),
('r-concat','ok',P,[(A,'	"slices"\n',''),(A,'append(slices.Clip(f.scope), scs...)','slices.Concat(f.scope, scs)')]),
]
