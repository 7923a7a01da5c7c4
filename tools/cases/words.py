P=['C24']
A='kind_resetter_all.go';F='kind_resetter_func.go';T='kind_resetter_type.go';R='kind_resetter_parenthesis.go';S='scope.go'
C=[
('w-basic-param','bad',P,[(R,'case kind.Raw, kind.ParamType /*','case kind.Raw, kind.Basic, kind.ParamType /*')]),
('w-symbol-receiver','bad',P,[(R,'		default:\n			return true\n		}\n	})\n}\n\n// curlyBracketResetter starts','		case kind.Symbol:\n			if isReceiver {\n				n.SetKind(typeKind)\n			}\n			return true\n		default:\n			return true\n		}\n	})\n}\n\n// curlyBracketResetter starts')]),
('w-typename-keyword','bad',P,[(T,'			case kind.Raw:\n				n.SetKind(kind.TypeName)','			case kind.Raw, kind.Basic, kind.Keyword:\n				n.SetKind(kind.TypeName)')]),
('w-iface-any','bad',P,[(T,'			if n.Kind() == kind.Raw {\n				n.SetKind(kind.TypeName)\n			}','			if n.Kind() != kind.Symbol {\n				n.SetKind(kind.TypeName)\n			}')]),
('w-func-keyword','bad',P,[(F,'		case kind.Raw:\n			if !isFuncNameAssigned','		case kind.Raw, kind.Keyword, kind.Basic:\n			if !isFuncNameAssigned')]),
('w-merge-name','bad',P,[(T,'paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)\n			skipAll = jumpTo == nil\n			return true\n		case kind.SquareBracketLeft','paramResetter{resetKind: kind.TypeName, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)\n			skipAll = jumpTo == nil\n			return true\n		case kind.SquareBracketLeft')]),
('w-merge-none','bad',P,[(T,'paramResetter{resetKind: kind.ParamType, returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)\n			skipAll = jumpTo == nil\n			return true\n		case kind.SquareBracketLeft','paramResetter{returnKinds: []kind.Kind{kind.NewLine}}.Run(n, hooks...)\n			skipAll = jumpTo == nil\n			return true\n		case kind.SquareBracketLeft')]),
('w-combine-other','bad',P,[(A,'n.CombineNext(k, nn)','n.CombineNext(nn.Kind(), nn)')]),
('w-ret-name','bad',P,[(F,'combineAdjacent(kind.ParamType, buf)','combineAdjacent(kind.ParamName, buf)')]),
('w-var-type','bad',P,[(A,'	case kind.Type:\n		return typeResetter','	case kind.Type, kind.Const:\n		return typeResetter')
 ,(T,'	if head.Kind() != kind.Type {','	if head.Kind() != kind.Type && head.Kind() != kind.Const {')]),
('w-import','bad',P,[(A,'	return nil\n}\n\n// type kindResetter','	if n.Kind() == kind.Import {\n		n.IterNext(func(x *Node) bool {\n			if x.Kind() == kind.Raw {\n				x.SetKind(kind.ParamName)\n			}\n			return true\n		})\n	}\n	return nil\n}\n\n// type kindResetter')]),
('w-var-func','bad',P,[(A,'		return typeResetter{}.Run(n)\n	}\n','		return typeResetter{}.Run(n)\n	case kind.Var:\n		if f := n.findNext([]kind.Kind{kind.Func}, findNodeOption{}); f != nil {\n			return funcResetter{isParameter: true}.Run(f)\n		}\n	}\n')]),
('w-every-func','bad',P,[(S,'		line = n.Line()\n','		line = n.Line()\n		if n.Kind() == kind.Func && n != head {\n			nodesToResetKind = append(nodesToResetKind, n)\n		}\n')]),
('w-reset-all-nodes','bad',P,[(S,'		resetKind(n)\n','		n.IterNext(func(x *Node) bool {\n			resetKind(x)\n			return true\n		})\n')]),
('w-hook','bad',P,[(T,'				if n.Kind() == kind.Raw {\n					n.SetKind(kind.ParamType)','				if k := n.Kind(); k == kind.Raw || k == kind.Keyword {\n					n.SetKind(kind.ParamName)')]),
('w-stale','bad',P,[(R,'''			if !named {
				n.SetKind(nameKind)''','''			if !named {
				if n.Next().Kind() == kind.Symbol {
					n = n.Next()
				}
				n.SetKind(nameKind)''')]),
('w-kind-const','bad',P,[(T,'				n.SetKind(kind.ParamName)','				n.SetKind(kind.Raw)')]),
# refactorings
('w-helper','ok',P,[(R,'''			if !named {
				n.SetKind(nameKind)
				named = true
				return true
			}
			n.SetKind(typeKind)
			return true''','''			named = markParam(n, nameKind, typeKind, named)
			return true'''),(R,'// curlyBracketResetter starts','''func markParam(n *Node, name, typ kind.Kind, named bool) bool {
	if named {
		n.SetKind(typ)
		return true
	}
	n.SetKind(name)
	return true
}

// curlyBracketResetter starts''')]),
('w-isword','ok',P,[(T,'			if n.Kind() == kind.Raw {\n				n.SetKind(kind.TypeName)\n			}','			if isWord(n) {\n				n.SetKind(kind.TypeName)\n			}'),(T,'func (interfaceResetter) isThis','func isWord(n *Node) bool {\n	return n.Kind() == kind.Raw\n}\n\nfunc (interfaceResetter) isThis')]),
('w-ifchain','ok',P,[(F,'''		case kind.Raw:
			if !isFuncNameAssigned {
				n.SetKind(kind.FuncName)
				isFuncNameAssigned = true
			}
			return true
''','''		case kind.Raw:
			if isFuncNameAssigned {
				return true
			}
			isFuncNameAssigned = true
			n.SetKind(kind.FuncName)
			return true
''')]),
('w-kvar','ok',P,[(R,'''			if validParamCount == 1 {
				n.SetKind(typeKind)
				return true
			}

			if !named {
				n.SetKind(nameKind)
				named = true
				return true
			}
			n.SetKind(typeKind)
			return true''','''			k := typeKind
			if validParamCount != 1 && !named {
				k = nameKind
				named = true
			}
			n.SetKind(k)
			return true''')]),
('w-kindsfn','ok',P,[(R,'''	nameKind := kind.ParamName
	typeKind := kind.ParamType
	if isReceiver {
		nameKind = kind.MethodReceiverName
		typeKind = kind.MethodReceiverType
	}
''','''	nameKind, typeKind := paramKinds(isReceiver)
'''),(R,'// curlyBracketResetter starts','''func paramKinds(isReceiver bool) (kind.Kind, kind.Kind) {
	if isReceiver {
		return kind.MethodReceiverName, kind.MethodReceiverType
	}
	return kind.ParamName, kind.ParamType
}

// curlyBracketResetter starts''')]),
('w-table','ok',P,[(A,'''	switch n.Kind() {
	case kind.Func:
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	case kind.Type:
		return typeResetter{}.Run(n)
	}
	return nil
''','''	if n.Kind() == kind.Func {
		return funcResetter{isFuncKeywordLeading: true}.Run(n)
	}
	if n.Kind() != kind.Type {
		return nil
	}
	return typeResetter{}.Run(n)
''')]),
('w-inline-reset','ok',P,[(S,'''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''','''	for _, n := range nodesToResetKind {
		switch n.Kind() {
		case kind.Func:
			funcResetter{isFuncKeywordLeading: true}.Run(n)
		case kind.Type:
			typeResetter{}.Run(n)
		}
	}
'''),(S,'"github.com/yanun0323/goast/kind"\n','"github.com/yanun0323/goast/kind"\n'),(A,'func resetKind(','func resetKind_(')]),
('w-direct','ok',P,[(S,'			nodesToResetKind = append(nodesToResetKind, head)\n',''),(S,'	nodesToResetKind := []*Node{}\n',''),(S,'	for _, n := range nodesToResetKind {\n		resetKind(n)\n	}','	for _, s := range scs {\n		resetKind(s.Node())\n	}')]),
('w-ptrtable','ok',P,[(A,'func resetKind(n *Node) *Node {\n	switch n.Kind() {','func resetKind(n *Node) *Node {\n	k := n.Kind()\n	switch k {')]),
('w-combine-loop','ok',P,[(A,'''	for _, nn := range nodes[1:] {
		if nn == nil || nn != n.Next() {
			return
		}

		next := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
	}
''','''	for i := 1; i < len(nodes); i++ {
		nn := nodes[i]
		if nn == nil || nn != n.Next() {
			break
		}

		next := nn.Next()
		n.CombineNext(k, nn)
		n.ReplaceNext(next)
	}
''')]),
('w-wordset','ok',P,[(R,'		case kind.Raw, kind.ParamType /* for struct resetter */, kind.ParamName /* for struct resetter */ :\n','		default:\n			if !_nameable.Contain(n.Kind()) {\n				return true\n			}\n'),(R,'''			n.SetKind(typeKind)
			return true
		default:
			return true
		}''','''			n.SetKind(typeKind)
			return true
		}'''),(R,'import (\n','import (\n	"github.com/yanun0323/goast/charset"\n'),(R,'// curlyBracketResetter starts','var _nameable = charset.New(kind.Raw, kind.ParamType, kind.ParamName)\n\n// curlyBracketResetter starts')]),
]
