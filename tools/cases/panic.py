P=['C09']
S='scope.go';F='kind_resetter_func.go';T='kind_resetter_type.go';A='kind_resetter_all.go';N='node.go';PA='kind_resetter_parenthesis.go';H='helper/helper.go'
C=[
('b-found-next','bad',P,[(F,'	return found.Next().Kind() == kind.ParenthesisLeft','	return found.next.kind == kind.ParenthesisLeft')]),
('b-param-next','bad',P,[(F,'''	if n.Kind() == kind.ParenthesisRight {
		handleHook(n, hooks...)
		return n.Next()''','''	if n.kind == kind.ParenthesisRight {
		handleHook(n, hooks...)
		return n.Next()''')]),
('b-combine','bad',P,[(A,'	if len(nodes) == 0 {\n		return\n	}\n','')]),
('r-debugtext','ok',P,[(N,'	if len(nextCount) != 0 {\n		count += nextCount[0]\n	}','	count += nextCount[0]')]),
('b-debugtext2','bad',P,[(N,'''func (n *Node) debugText(nextCount ...uint) string {
	if n == nil {
		return ""
	}
''','''func (n *Node) debugText(nextCount ...uint) string {
	if n.next == nil {
		return n.Text()
	}
''')]),
('b-append','bad',P,[(H,'''	if len(elems) == 0 {
		return slice
	}

	if len(slice) == 0 {
		return elems
	}
''','''	if len(elems) == 0 {
		return slice
	}
''')]),
('r-elems','ok',P,[(H,'''	if len(elems) == 0 {
		return slice
	}

	if len(slice) == 0 {
		return elems
	}
''','''	if len(slice) == 0 {
		return elems
	}
''')]),
('b-text0','bad',P,[(T,'''			if n.Kind() == kind.Raw {
				n.SetKind(kind.TypeName)
			}
''','''			if n.Kind() == kind.Raw && n.Text()[1] != '.' {
				n.SetKind(kind.TypeName)
			}
''')]),
('b-mustassert','bad',P,[(F,'''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}
''','''	if found.Kind() != kind.CurlyBracketRight {
		if found == nil {
			panic("unbalanced")
		}
		return false
	}
''')]),
('b-nilhook','bad',P,[(T,'''	head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...) // set''','''	var count func(*Node)
	if r.isThisLineFunction(head) {
		count = func(*Node) {}
	}
	hooks = append(hooks, count)
	head = head.findNext([]kind.Kind{kind.CurlyBracketLeft}, findNodeOption{}, hooks...) // set''')]),
('b-map','bad',P,[(A,'''	returnKindSet := charset.New(r.returnKinds...)
''','''	returnKindSet := charset.New(r.returnKinds...)
	var seen map[*Node]bool
	if r.skip {
		seen = map[*Node]bool{}
	}
'''),(A,'''		handleHook(n, hooks...)
		if skipAll {
			return true
		}

		if jumpTo != nil {''','''		handleHook(n, hooks...)
		seen[n] = true
		if skipAll {
			return true
		}

		if jumpTo != nil {''')]),
('b-scope-name','bad',P,[(S,'''	if d.Kind() != scope.Func {
		return "", false
	}
''','''	if d.Node().next.Kind() == kind.Comment || d.Kind() != scope.Func {
		return "", false
	}
''')]),
('b-kinds-idx','bad',P,[(F,'''	if len(returnKinds) != 0 {
		isReturnKind = charset.New(returnKinds...)
	} else {
		isReturnKind = charset.New(kind.NewLine)
	}
''','''	isReturnKind = charset.New(append(returnKinds[1:], returnKinds[0])...)
''')]),
('b-stack','bad',P,[(N,'''	return n.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)

		switch n.Kind() {
		case nestLeft:
			count++
			return true
		case nestRight:
			count--
			return count != 0
''','''	stack := []*Node{n}
	return n.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)

		switch n.Kind() {
		case nestLeft:
			count++
			stack = append(stack, n)
			return true
		case nestRight:
			count--
			if stack[len(stack)-1] == n {
				return false
			}
			stack = stack[:len(stack)-1]
			return count != 0
''')]),
# refactorings
('r-direct','ok',P,[(F,'''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}
''','''	if found == nil || found.kind != kind.CurlyBracketRight {
		return false
	}
''')]),
('r-direct2','ok',P,[(F,'''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}

	return found.Next().Kind() == kind.ParenthesisLeft
''','''	if found == nil || found.next == nil {
		return false
	}

	return found.kind == kind.CurlyBracketRight && found.next.kind == kind.ParenthesisLeft
''')]),
('r-firsthelper','ok',P,[(A,'''	n := nodes[0]
	n.SetKind(k)
''','''	n := firstOf(nodes)
	n.SetKind(k)
'''),(A,'// combineAdjacent combines','''// firstOf returns the first of some nodes.
func firstOf(nodes []*Node) *Node { return nodes[0] }

// combineAdjacent combines''')]),
('r-jump','ok',P,[(A,'func handleHook(','''// skipping tells whether n stands before the node to go on with.
func skipping(n *Node, jumpTo **Node) bool {
	if *jumpTo == nil {
		return false
	}
	if n != *jumpTo {
		return true
	}
	*jumpTo = nil
	return false
}

func handleHook('''),(A,'''		if jumpTo != nil {
			if n != jumpTo {
				return true
			}
			jumpTo = nil
		}

		if returnKindSet''','''		if skipping(n, &jumpTo) {
			return true
		}

		if returnKindSet''')]),
('r-stack','ok',P,[(N,'''	return n.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)

		switch n.Kind() {
		case nestLeft:
			count++
			return true
		case nestRight:
			count--
			return count != 0
''','''	stack := make([]*Node, count)
	return n.IterNext(func(n *Node) bool {
		handleHook(n, hooks...)

		switch n.Kind() {
		case nestLeft:
			stack = append(stack, n)
			return true
		case nestRight:
			if len(stack) == 0 {
				return true
			}
			stack = stack[:len(stack)-1]
			return len(stack) != 0
''')]),
('r-for','ok',P,[(T,'''	result := false
	_ = head.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.ParenthesisLeft:
			result = true
			return false
		case kind.NewLine:
			return false
		default:
			return true
		}
	})
	return result
''','''	for n := head; n != nil; n = n.next {
		switch n.kind {
		case kind.ParenthesisLeft:
			return true
		case kind.NewLine:
			return false
		}
	}
	return false
''')]),
('r-table','ok',P,[(A,'''		switch n.Kind() {
		case kind.ParenthesisLeft:
			jumpTo = parenthesisResetter{skip: r.skip}.Run(n, appendedHooks...)
			skipAll = jumpTo == nil
			return true
''','''		deeper := map[kind.Kind]func(*Node, ...func(*Node)) *Node{
			kind.ParenthesisLeft: parenthesisResetter{skip: r.skip}.Run,
		}
		if run, ok := deeper[n.Kind()]; ok {
			jumpTo = run(n, appendedHooks...)
			skipAll = jumpTo == nil
			return true
		}

		switch n.Kind() {
''')]),
('r-strings','ok',P,[(T,'''			if n.Kind() == kind.Raw {
				n.SetKind(kind.TypeName)
			}
''','''			if text := n.Text(); n.Kind() == kind.Raw && len(text) > 0 && text[0] != ' ' {
				n.SetKind(kind.TypeName)
			}
''')]),
]
