P=['C%02d'%i for i in range(1,19)]+['C22','C23','C24','C25']
N='node.go';A='ast.go';S='scope.go';H='helper/helper.go';X='extractor.go'
KA='kind_resetter_all.go';KF='kind_resetter_func.go';KP='kind_resetter_parenthesis.go';KT='kind_resetter_type.go'
SK='''		if skipAll {
			return true
		}

		if jumpTo != nil {
			if n != jumpTo {
				return true
			}
			jumpTo = nil
		}
'''
SK2='''		if skipAll || (jumpTo != nil && n != jumpTo) {
			return true
		}

		jumpTo = nil
'''
import re
src=lambda f: open('/repo/'+f).read()
def allof(f,o,n): return [(f,o,n)]*src(f).count(o)
C=[
('x1-walker','ok',P,allof(KP,SK,SK2)+allof(KT,SK,SK2)+allof(KF,SK,SK2)),
('x2-cursor','ok',P,allof(KP,SK,'''		if skip(n, skipAll, &jumpTo) {
			return true
		}
''')+allof(KF,SK,'''		if skip(n, skipAll, &jumpTo) {
			return true
		}
''')+[(KA,'''func handleHook(''','''// skip tells whether n is before the node to go on with.
func skip(n *Node, all bool, to **Node) bool {
	if all {
		return true
	}
	if *to == nil {
		return false
	}
	if n != *to {
		return true
	}
	*to = nil
	return false
}

func handleHook(''')]),
('x3-rowcount','ok',P,[(KT,'''		case kind.Space:
			if rawCount != 0 {
				if !hasComma && cacheNameCount == 0 {
					cacheNameCount++
				}
				hasSpaceOrAfterRaw = true
			}
			return true
''','''		case kind.Space:
			if rawCount == 0 {
				return true
			}
			hasSpaceOrAfterRaw = true
			if cacheNameCount == 0 && !hasComma {
				cacheNameCount = 1
			}
			return true
'''),(KT,'''	result := false
	_ = head.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.ParenthesisLeft:
			result = true
			return false
		case kind.NewLine:
			return false
		default:
			return true
		}
	})
	return result
''','''	found := head.IterNext(func(n *Node) bool {
		return n.Kind() != kind.ParenthesisLeft && n.Kind() != kind.NewLine
	})
	return found.Kind() == kind.ParenthesisLeft
'''),(KF,'''	if found.Kind() != kind.CurlyBracketRight {
		return false
	}

	return found.Next().Kind() == kind.ParenthesisLeft
''','''	return found.Kind() == kind.CurlyBracketRight && found.Next().Kind() == kind.ParenthesisLeft
''')]),
('x4-parens','ok',P,[(KP,'''	validParamCount := 0
	head.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.Comma, kind.ParenthesisRight:
			return false
		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
			return true
		default:
			validParamCount++
			return true
		}
	})
''','''	validParamCount := r.countParts(head)
'''),(KP,'''type curlyBracketResetter struct''','''// countParts counts the nodes of a parameter that are more than space.
func (r parenthesisResetter) countParts(head *Node) int {
	count := 0
	for n := head; n != nil; n = n.Next() {
		switch n.Kind() {
		case kind.Comma, kind.ParenthesisRight:
			return count
		case kind.Space, kind.Tab, kind.Comment, kind.NewLine:
		default:
			count++
		}
	}

	return count
}

type curlyBracketResetter struct'''),(KP,'''			if validParamCount == 1 {
				n.SetKind(typeKind)
				return true
			}

			if !named {
				n.SetKind(nameKind)
				named = true
				return true
			}
			n.SetKind(typeKind)
			return true
''','''			k := typeKind
			if validParamCount != 1 && !named {
				k, named = nameKind, true
			}
			n.SetKind(k)
			return true
''')]),
('x5-kinds','ok',P,[(KA,'''	switch n.Kind() {
	case kind.Func:
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	case kind.Type:
		return typeResetter{}.Run(n)
	}
	return nil
''','''	if n.Kind() == kind.Func {
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	}

	if n.Kind() == kind.Type {
		return typeResetter{}.Run(n)
	}

	return nil
'''),(KA,'''	for _, hook := range hooks {
		hook(n)
	}
''','''	for i := range hooks {
		hooks[i](n)
	}
'''),(KA,'''		hooksCopy := make([]func(*Node), len(hooks))
		copy(hooksCopy, hooks)
		appendedHooks := append(hooksCopy, func(nn *Node) {
			buf = helper.AppendUnrepeatable(buf, nn)
		})
''','''		collect := func(nn *Node) {
			buf = helper.AppendUnrepeatable(buf, nn)
		}
		appendedHooks := append(append([]func(*Node){}, hooks...), collect)
'''),(KA,'''	n := nodes[0]
	n.SetKind(k)
	for _, nn := range nodes[1:] {
		if nn == nil || nn != n.Next() {
			return
		}

		next := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
	}
''','''	first, rest := nodes[0], nodes[1:]
	first.SetKind(k)
	for len(rest) != 0 && rest[0] != nil && rest[0] == first.Next() {
		next := rest[0].Next()
		first.CombineNext(k, rest[0])
		first.ReplaceNext(next)
		rest = rest[1:]
	}
''')]),
('x6-run','ok',P,[(X,'''	pushNode := func(useLine bool, kind ...kind.Kind) {
		if buf.Len() == 0 {
			return
		}
		if useLine {
			insertNode(NewNode(*line, buf.String(), kind...))
		} else {
			insertNode(NewNode(bufLine, buf.String(), kind...))
		}
		buf.Reset()
		bufLine = *line
	}
''','''	pushNode := func(useLine bool, kind ...kind.Kind) {
		if buf.Len() != 0 {
			nodeLine := bufLine
			if useLine {
				nodeLine = *line
			}
			n := NewNode(nodeLine, buf.String(), kind...)
			buf.Reset()
			bufLine = *line
			insertNode(n)
		}
	}
'''),(X,'''		if e.SeparatorCharset.Contain(char) {
			// ' '
			pushNode(true)
			insertNode(NewNode(*line, string(char)))
		} else {
			buf.WriteByte(char)
		}

		lineStep()
''','''		if !e.SeparatorCharset.Contain(char) {
			buf.WriteByte(char)
			lineStep()
			continue
		}

		pushNode(true)
		insertNode(NewNode(*line, string(char)))
		lineStep()
'''),(X,'''		cur = n.IterNext(func(n *Node) bool {
			return n.Next() != nil
		})
''','''		cur = n.Last()
''')]),
('x7-run2','ok',P,[(X,'''		trailing := text[begin : *i+1]
		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && isEscaped(trailing) {
			// skip return
			buf.WriteByte(char)
			lineStep()
			continue
		}

		if len(e.ReturnKeyword) != 0 && helper.HasSuffix(trailing, e.ReturnKeyword) {
''','''		if e.closes(text[begin : *i+1]) {
'''),(X,'''func (e *extractor) Kind()''','''// closes tells whether the text read so far ends with what closes it.
func (e *extractor) closes(read []byte) bool {
	if len(e.ReturnKeyword) == 0 || !helper.HasSuffix(read, e.ReturnKeyword) {
		return false
	}

	return len(e.SkipReturnKeyword) == 0 || !isEscaped(read)
}

func (e *extractor) Kind()'''),(X,'''		if e.SeparatorCharset.Contain(char) {
			// ' '
			pushNode(true)
			insertNode(NewNode(*line, string(char)))
		} else {''','''		if sep := e.SeparatorCharset.Contain(char); sep {
			pushNode(true)
			insertNode(NewNode(*line, string(char)))
		} else {''')]),
('x8-extract','ok',P,[(X,'''	var (
		i, line int
		buf     strings.Builder
	)

	if len(startLine) != 0 {
		line = startLine[0]
	}

	node, err := _commonExtractor.Run(text, &buf, &i, &line)
	if err != nil {
		return nil, err
	}

	return node, nil
''','''	line := 0
	for _, l := range startLine[:min(len(startLine), 1)] {
		line = l
	}

	return _commonExtractor.Run(text, new(strings.Builder), new(int), &line)
'''),(X,'''			if ee != nil && ee.IncludeOpen { // /* // " `
				buf.WriteString(open)
			} else { // ( {
				insertNode(NewNode(*line, open))
			}
			*i += len(open)
			ns, err := ee.Run(text, buf, i, line)
			if err != nil {
				return nil, err
			}
			insertNode(ns)
			continue
''','''			*i += len(open)
			if ee == nil || !ee.IncludeOpen { // ( {
				insertNode(NewNode(*line, open))
			} else { // /* // " `
				buf.WriteString(open)
			}
			if ns, err := ee.Run(text, buf, i, line); err != nil {
				return nil, err
			} else {
				insertNode(ns)
			}
			continue
''')]),
('x9-type','ok',P,[(KT,'''		if !isTypeNameAssigned {
			switch n.Kind() {
			case kind.CurlyBracketRight, kind.NewLine: // return kind
				return false
			case kind.Raw:
				n.SetKind(kind.TypeName)
				isTypeNameAssigned = true
				return true
			default:
				return true
			}
		}
''','''		if !isTypeNameAssigned {
			k := n.Kind()
			if k == kind.Raw {
				isTypeNameAssigned = true
				n.SetKind(kind.TypeName)
			}
			return k != kind.CurlyBracketRight && k != kind.NewLine
		}
'''),(KT,'''			if r.isThisLineFunction(n) {
				jumpTo = funcResetter{
					isInterfaceDefinition: true,
				}.Run(n, hooks...)
				skipAll = jumpTo == nil
				return true
			}

			if n.Kind() == kind.Raw {
				n.SetKind(kind.TypeName)
			}

			jumpTo = n.findNext([]kind.Kind{kind.NewLine, kind.CurlyBracketRight}, findNodeOption{
				IsOutsideParenthesis:   true,
				IsOutsideCurlyBracket:  true,
				IsOutsideSquareBracket: true,
			}, hooks...)
			skipAll = jumpTo == nil
			return true
''','''			jumpTo = r.handleElement(n, hooks...)
			skipAll = jumpTo == nil
			return true
'''),(KT,'''func (interfaceResetter) isThis''','''// handleElement handles a method or an embedded type.
func (r interfaceResetter) handleElement(n *Node, hooks ...func(*Node)) *Node {
	if r.isThisLineFunction(n) {
		return funcResetter{isInterfaceDefinition: true}.Run(n, hooks...)
	}

	if n.Kind() == kind.Raw {
		n.SetKind(kind.TypeName)
	}

	return n.findNext([]kind.Kind{kind.NewLine, kind.CurlyBracketRight}, findNodeOption{
		IsOutsideParenthesis:   true,
		IsOutsideCurlyBracket:  true,
		IsOutsideSquareBracket: true,
	}, hooks...)
}

func (interfaceResetter) isThis''')]),
('x10-declared','ok',P,[(S,'''	return n.IterNext(func(n *Node) bool {
		switch n.Kind() {
		case kind.Space, kind.Tab, kind.NewLine, kind.Comment:
			return true
		default:
			return n.Text() == "="
		}
	})
''','''	for isBlank(n) || n.Text() == "=" {
		n = n.Next()
	}

	return n
'''),(S,'''func (d *scopeStruct) GetStructName''','''// isBlank tells whether the node is space or a comment.
func isBlank(n *Node) bool {
	k := n.Kind()
	return k == kind.Space || k == kind.Tab || k == kind.NewLine || k == kind.Comment
}

func (d *scopeStruct) GetStructName'''),(S,'''	if d == nil {
		return ""
	}

	return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.kind.String())
''','''	if d != nil {
		return fmt.Sprintf("%d .... *Scope.%s", d.Line(), d.Kind())
	}

	return ""
''')]),
]
