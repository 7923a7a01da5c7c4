P=['C23']
N='node.go';A='ast.go';S='scope.go'
NN='''	head := NewNode(startLine, texts[0])
	cur := head
	startLine += strings.Count(texts[0], "\\n")
	for _, text := range texts[1:] {
		cur.InsertNext(NewNode(startLine, text))
		cur = cur.Next()
		startLine += strings.Count(text, "\\n")
	}

	return head
'''
IT='''	for _, sc := range f.scope {
		if !fn(sc) {
			return
		}
	}
'''
C=[
('b-lastkind','bad',P,[(N,'kind: kinds[0], text','kind: kinds[len(kinds)-1], text')]),
('b-none','bad',P,[(N,'if len(kinds) != 0 {','if len(kinds) != 0 && kinds[0] != kind.None {')]),
('b-firstline','bad',P,[(N,'''	startLine += strings.Count(texts[0], "\\n")
''','')]),
('b-oneline','bad',P,[(N,'''		startLine += strings.Count(text, "\\n")
''','''		if strings.HasSuffix(text, "\\n") {
			startLine++
		}
''')]),
('b-empty','bad',P,[(N,'''	for _, text := range texts[1:] {
''','''	for _, text := range texts[1:] {
		if text == "" {
			continue
		}
''')]),
('b-last','bad',P,[(N,'''	return head
}

// Node rep''','''	return cur
}

// Node rep''')]),
('b-cur','bad',P,[(N,'''		cur = cur.Next()
		startLine''','''		if cur != head || len(texts) < 4 {
			cur = cur.Next()
		}
		startLine''')]),
('b-settextkind','bad',P,[(N,'''	n.text = text
}''','''	n.text = text
	n.kind = kind.New(text)
}''')]),
('b-settextline','bad',P,[(N,'''	n.text = text
}''','''	d := strings.Count(text, "\\n") - strings.Count(n.text, "\\n")
	n.text = text
	for nn := n.next; nn != nil && d != 0; nn = nn.next {
		nn.line += d
	}
}''')]),
('b-setkind','bad',P,[(N,'''	if n != nil {
		n.kind = k
	}''','''	if n != nil && n.kind != kind.None {
		n.kind = k
	}''')]),
('b-setkind2','bad',P,[(N,'''	if n != nil {
		n.kind = k
	}''','''	if n != nil && k != kind.None {
		n.kind = k
	}''')]),
('b-scopeline','bad',P,[(S,'return d.line + 1','return d.node.Line() + 1')]),
('b-scopefirst','bad',P,[(S,'''	return d.node
}''','''	return d.node.First()
}''')]),
('b-scopekind','bad',P,[(S,'''	return d.kind
}''','''	if d.node == nil {
		return scope.Unknown
	}
	return d.kind
}''')]),
('b-iterstop','bad',P,[(A,IT,'''	for _, sc := range f.scope {
		_ = fn(sc)
	}
''')]),
('b-iternil','bad',P,[(A,IT,'''	for _, sc := range f.scope {
		if sc.Node() == nil {
			continue
		}
		if !fn(sc) {
			return
		}
	}
''')]),
('b-iterrev','bad',P,[(A,IT,'''	for i := range f.scope {
		if !fn(f.scope[len(f.scope)-i-1]) {
			return
		}
	}
''')]),
('b-newastpkgfirst','bad',P,[(A,'''	return &ast{
		scope: scope,
	}, nil
''','''	slices.SortStableFunc(scope, func(a, b Scope) int { return a.Line() - b.Line() })
	return &ast{
		scope: scope,
	}, nil
''')]),
('b-appendfront','bad',P,[(A,'append(slices.Clip(f.scope), scs...)','append(slices.Clip(scs), f.scope...)')]),
('b-appendnone','bad',P,[(A,'	f.scope = append(slices.Clip(f.scope), scs...)','''	for _, sc := range scs {
		if sc.Node() != nil {
			f.scope = append(slices.Clip(f.scope), sc)
		}
	}''')]),
('b-setself','bad',P,[(A,'''	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scope,
	}''','''	f.scope = scope
	return f''')]),
('r-back','ok',P,[(N,NN,'''	line := startLine
	nodes := make([]*Node, 0, len(texts))
	for _, text := range texts {
		nodes = append(nodes, NewNode(line, text))
		line += strings.Count(text, "\\n")
	}
	for i := 1; i < len(nodes); i++ {
		nodes[i-1].InsertNext(nodes[i])
	}

	return nodes[0]
''')]),
('r-count','ok',P,[(N,NN,'''	head := NewNode(startLine, texts[0])
	cur := head
	startLine += lineEnds(texts[0])
	for _, text := range texts[1:] {
		cur.InsertNext(NewNode(startLine, text))
		cur = cur.Next()
		startLine += lineEnds(text)
	}

	return head
'''),(N,'// NewNodes creates','''func lineEnds(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\\n' {
			n++
		}
	}
	return n
}

// NewNodes creates''')]),
('r-newnode','ok',P,[(N,'''	if len(kinds) != 0 {
		return &Node{line: line, kind: kinds[0], text: text}
	}

	return &Node{line: line, kind: kind.New(text), text: text}
''','''	n := &Node{line: line}
	n.SetText(text)
	if len(kinds) > 0 {
		n.SetKind(kinds[0])
	} else {
		n.SetKind(kind.New(text))
	}
	return n
''')]),
('r-iter','ok',P,[(A,IT,'''	for i, scs := 0, f.Scope(); i < len(scs) && fn(scs[i]); i++ {
	}
''')]),
('r-iter2','ok',P,[(A,IT,'''	idx := slices.IndexFunc(f.scope, func(sc Scope) bool { return !fn(sc) })
	_ = idx
''')]),
('r-iter3','ok',P,[(A,IT,'''	rest := f.scope
	for len(rest) > 0 {
		if !fn(rest[0]) {
			break
		}
		rest = rest[1:]
	}
''')]),
('r-set','ok',P,[(A,'''	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scope,
	}''','''	c := *f
	c.scope = scope
	return &c''')]),
('r-scope','ok',P,[(S,'''	return &scopeStruct{
		line: line,
		kind: kind,
		node: node,
	}''','''	d := new(scopeStruct)
	d.node = node
	d.line, d.kind = line, kind
	return d''')]),
('r-scopeline','ok',P,[(S,'''		line: line,
		kind: kind,''','''		line: line + 1,
		kind: kind,'''),(S,'return d.line + 1','return d.line')]),
('r-append','ok',P,[(A,'	f.scope = append(slices.Clip(f.scope), scs...)','''	all := make([]Scope, 0, len(f.scope)+len(scs))
	all = append(all, f.scope...)
	f.scope = append(all, scs...)'''),(A,'	"slices"\n','')]),
('r-append2','ok',P,[(A,'	f.scope = append(slices.Clip(f.scope), scs...)','''	f.scope = slices.Concat(f.scope, scs)''')]),
]
