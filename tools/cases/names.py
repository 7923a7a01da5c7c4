P=['C17']
S='scope.go'
GM='''	if _, isMethod := d.GetMethodReceiver(); !isMethod {
		return "", false
	}
'''
C=[
('b-func-last','bad',P,[(S,'''		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}
''','''		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
		}
''')]),
('b-func-kind','bad',P,[(S,'''	if d.Kind() != scope.Func {
		return "", false
	}

	var (
		name  string
		found bool
	)

	d.Node().IterNext''','''	if d.Kind() == scope.Type {
		return "", false
	}

	var (
		name  string
		found bool
	)

	d.Node().IterNext''')]),
('b-method-norecv','bad',P,[(S,GM,'')]),
('b-recv-empty','bad',P,[(S,GM,'''	if recv, _ := d.GetMethodReceiver(); len(recv) > 64 {
		return "", false
	}
''')]),
('b-found-nonempty','bad',P,[(S,'''			found = true
			return false
		}
''','''			found = len(name) != 0
			return false
		}
''')]),
('b-alias','bad',P,[(S,'			return n.Text() == "="','			return false')]),
('b-alias2','bad',P,[(S,'			return n.Text() == "="','			return n.Text() == "=" || n.Text() == "*"')]),
('b-nest','bad',P,[(S,'		n = n.skipNestNext(kind.SquareBracketLeft, kind.SquareBracketRight).Next()','		n = n.IterNext(func(n *Node) bool { return n.Kind() != kind.SquareBracketRight }).Next()')]),
('b-comment','bad',P,[(S,'		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:','		case kind.Space, kind.Tab, kind.NewLine:')]),
('b-struct-anywhere','bad',P,[(S,'''	if d.declaredType().Kind() != kind.Struct {''','''	if d.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.Struct }) == nil {''')]),
('b-iface-struct','bad',P,[(S,'''	if d.declaredType().Kind() != kind.Interface {''','''	if k := d.declaredType().Kind(); k != kind.Interface && k != kind.Map {''')]),
('b-setkind','bad',P,[(S,'''			name = n.Text()
			found = true
			return false''','''			name = n.Text()
			n.SetKind(kind.Raw)
			found = true
			return false''')]),
('b-trim','bad',P,[(S,'''			name = n.Text()
			found = true
			return false''','''			name = n.Text()
			if len(name) > 1 && name[0] == '_' {
				name = name[1:]
			}
			found = true
			return false''')]),
('r-loop','ok',P,[(S,'''	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})
''','''	for n := d.Node(); n != nil; n = n.Next() {
		if n.Kind() == kind.FuncName {
			return n.Text(), true
		}
	}
''')]),
('r-helper','ok',P,[(S,'''	if _, isMethod := d.GetMethodReceiver(); !isMethod {
		return "", false
	}

	d.Node().IterNext(func(n *Node) bool {
		if found = n.Kind() == kind.FuncName; found {
			name = n.Text()
		}
		return !found
	})

	return name, found
}
''','''	if name, found = d.firstText(kind.FuncName); !found {
		return "", false
	}

	if _, isMethod := d.firstText(kind.MethodReceiverType); !isMethod {
		return "", false
	}

	return name, true
}

func (d *scopeStruct) firstText(k kind.Kind) (string, bool) {
	n := d.Node()
	for n != nil && n.Kind() != k {
		n = n.Next()
	}
	if n == nil {
		return "", false
	}
	return n.Text(), true
}
''')]),
('r-funcname','ok',P,[(S,'''	d.Node().IterNext(func(n *Node) bool {
		if found = n.Kind() == kind.FuncName; found {
			name = n.Text()
		}
		return !found
	})

	return name, found
''','''	_, _ = name, found
	return d.GetFuncName()
''')]),
('r-struct','ok',P,[(S,'''	if d.declaredType().Kind() != kind.Struct {
		return "", false
	}

	return d.GetTypeName()
''','''	name, ok := d.GetTypeName()
	if !ok {
		return "", false
	}
	if d.declaredType().Kind() == kind.Struct {
		return name, true
	}
	return "", false
''')]),
('r-switch','ok',P,[(S,'''		switch n.Kind() {
		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
			return true
		default:
			return n.Text() == "="
		}
''','''		if k := n.Kind(); k == kind.Space || k == kind.Tab || k == kind.NewLine || k == kind.Comment {
			return true
		}
		return n.Text() == "="
''')]),
]
