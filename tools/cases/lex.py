ns={};exec(open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__import__('sys').argv[1])),'tok.py')).read(),ns)
X='extractor.go'
P=['C18']
C=[
('l-rawesc','bad',P,[(X,"		ReturnKeyword:     \"`\",\n		SkipReturnKeyword: \"\",","		ReturnKeyword:     \"`\",\n		SkipReturnKeyword: \"\\\\`\",")]),
('l-curly-table','bad',P,[(X,"		_curlyBracketExtractor: _commonDeeperExtract,\n","")]),
('l-norune','bad',P,[(X,"		\"'\":  _runeExtractor,\n","")]),
('l-comment-cr','bad',P,[(X,"		SeparatorCharset:  nil,\n		ReturnKeyword:     \"\\n\",","		SeparatorCharset:  charset.SeparatorCharset,\n		ReturnKeyword:     \"\\n\",")]),
('l-escape1','bad',P,[(X,"	for i := len(text) - 2; i >= 0 && text[i] == '\\\\'; i-- {\n		escaped = !escaped\n	}","	for i := len(text) - 2; i >= 0 && i >= len(text)-3 && text[i] == '\\\\'; i-- {\n		escaped = !escaped\n	}")]),
('l-star','bad',P,[(X,"	begin := *i\n","	begin := *i - 1\n	if begin < 0 {\n		begin = 0\n	}\n")]),
('l-sep-colon','bad',P,[('charset/charset.go',"',', ':', ';', '\\n'","',', ';', '\\n'")]),
('l-string-stop','bad',P,[(X,"		ReturnKeyword:     \"\\\"\",\n		SkipReturnKeyword: \"\\\\\\\"\",","		ReturnKeyword:     \"\\\"\",\n		SkipReturnKeyword: \"\",")]),
('l-string-nl','bad',P,[(X,"		if len(e.ReturnKeyword) != 0 && helper.HasSuffix(trailing, e.ReturnKeyword) {","		if len(e.ReturnKeyword) != 0 && (helper.HasSuffix(trailing, e.ReturnKeyword) || e == _stringExtractor && char == '\\n') {")]),
('l-incl','bad',P,[(X,"		ReturnKeyword:     \"*/\",","		ReturnKeyword:     \"/\",")]),
('l-openspace','bad',P,[(X,"		\"//\": _commentExtractor,","		\"// \": _commentExtractor,")]),
('l-eofsep','bad',P,[(X,"		if e.SeparatorCharset.Contain(char) {\n","		if e.SeparatorCharset.Contain(char) && (char != '\\t' || *i+1 < len(text)) {\n")]),
]+[(n,k,P,e) for n,k,_,e in ns['C'] if k=='ok']
C+=[
('l-and1','ok',P,[(X,"	escaped := false\n	for i := len(text) - 2; i >= 0 && text[i] == '\\\\'; i-- {\n		escaped = !escaped\n	}\n\n	return escaped","	i := len(text) - 1\n	n := 0\n	for i > 0 && text[i-1] == '\\\\' {\n		n++\n		i--\n	}\n\n	return n&1 != 0")]),
('l-recurse','ok',P,[(X,"	escaped := false\n	for i := len(text) - 2; i >= 0 && text[i] == '\\\\'; i-- {\n		escaped = !escaped\n	}\n\n	return escaped","	if len(text) < 2 || text[len(text)-2] != '\\\\' {\n		return false\n	}\n\n	return !isEscaped(text[:len(text)-1])")]),
('l-pos','ok',P,[(X,"	escaped := false\n	for i := len(text) - 2; i >= 0 && text[i] == '\\\\'; i-- {\n		escaped = !escaped\n	}\n\n	return escaped","	last := len(text) - 2\n	i := last\n	for i >= 0 && text[i] == '\\\\' {\n		i--\n	}\n\n	return (last-i)%2 == 1")]),
('l-fields','ok',P,[(X,"		trailing := text[begin : *i+1]\n","		trailing := text[:*i+1][begin:]\n"),(X,"			*i += len(open)\n			ns, err := ee.Run(text, buf, i, line)\n			if err != nil {\n				return nil, err\n			}\n","			*i += len(open)\n			ns, err := ee.Run(text, buf, i, line)\n			if nil != err {\n				return nil, err\n			}\n\n")]),
('l-tablecopy','ok',P,[(X,"	for k, v := range de {\n		if helper.HasPrefix(s, k) {\n			return k, v, true\n		}\n	}\n	return","	for _, n := range []int{2, 1} {\n		if len(s) < n {\n			continue\n		}\n		if v, ok := de[string(s[:n])]; ok {\n			return string(s[:n]), v, true\n		}\n	}\n\n	return")]),
('l-escvar','ok',P,[(X,"		if len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword) && isEscaped(trailing) {","		skip := len(e.SkipReturnKeyword) != 0 && helper.HasSuffix(trailing, e.SkipReturnKeyword)\n		if skip && isEscaped(trailing) {")]),
]
C+=[
('l-formfeed','bad',P,[('charset/charset.go',"'\\n', '\\t', '\\r',","'\\n', '\\t', '\\r', '\\f',")]),
('l-noraw','bad',P,[(X,"		\"`\":  _multilineStringExtractor,","		\"`\\n\": _multilineStringExtractor,\n		\"`\":   _multilineStringExtractor,")]),
('l-linecont','bad',P,[(X,"		ReturnKeyword:     \"\\n\",\n		SkipReturnKeyword: \"\",","		ReturnKeyword:     \"\\n\",\n		SkipReturnKeyword: \"\\\\\\n\",")]),
]
