P=['C25']
X='extractor.go';N='node.go'
C=[
('f-rune-string','bad',P,[(X,'	_runeExtractor = &extractor{\n		kind:              kind.Raw,','	_runeExtractor = &extractor{\n		kind:              kind.String,')]),
('f-comment-raw','bad',P,[(X,'	_innerCommentExtractor = &extractor{\n		kind:              kind.Comment,','	_innerCommentExtractor = &extractor{\n		kind:              kind.Raw,')]),
('f-string-comment','bad',P,[(X,'		"`":  _multilineStringExtractor,','		"`":  _multilineStringExtractor,\n		"#":  _commentExtractor,')]),
('f-unterminated','bad',P,[(X,'	pushNode(!e.IncludeOpen, e.Kind()...)\n	return head','	pushNode(!e.IncludeOpen)\n	return head')]),
('f-eol-comment','bad',P,[(X,'				pushNode(true, e.Kind()...)','				pushNode(true)')]),
('f-closer-kind','bad',P,[(X,'				insertNode(NewNode(*line, string(char)))\n			}\n			lineStep()','				insertNode(NewNode(*line, string(char), e.Kind()...))\n			}\n			lineStep()')]),
('f-trim-kind','bad',P,[(N,'kind: kind.New(text), text: text}','kind: kind.New(strings.TrimSpace(text)), text: text}')]),
('f-paren-kind','bad',P,[(X,'	_parenthesisExtractor = &extractor{\n		kind:              kind.Raw,','	_parenthesisExtractor = &extractor{\n		kind:              kind.String,')]),
('f-prefix-kind','bad',P,[(X,'			pushNode(true)\n			if ee != nil','			pushNode(true, ee.Kind()...)\n			if ee != nil')]),
('f-kindcall','ok',P,[(N,'	if len(kinds) != 0 {\n		return &Node{line: line, kind: kinds[0], text: text}\n	}\n\n	return &Node{line: line, kind: kind.New(text), text: text}','	k := kind.New(text)\n	if len(kinds) != 0 {\n		k = kinds[0]\n	}\n\n	return &Node{line: line, kind: k, text: text}')]),
('f-rawstring-bytext','ok',P,[(X,'	_multilineStringExtractor = &extractor{\n		kind:              kind.String,','	_multilineStringExtractor = &extractor{\n		kind:              kind.Raw,')]),
('f-steps','ok',P,[(N,'	return &Node{line: line, kind: kind.New(text), text: text}','	n := &Node{line: line}\n	n.kind = kind.New(text)\n	n.text = text\n	return n')]),
]
