X='extractor.go'
P=['C07','C08']
C=[
('m-sep-no-push','bad',P,[(X,"			// ' '\n			pushNode(true)\n","			// ' '\n")]),
('m-skip-nolinestep','bad',['C08'],[(X,"			buf.WriteByte(char)\n			lineStep()\n			continue","			buf.WriteByte(char)\n			continue")]),
('m-skip-nowrite','bad',['C07'],[(X,"			// skip return\n			buf.WriteByte(char)\n","			// skip return\n")]),
('m-close-nolinestep','bad',['C08'],[(X,"			lineStep()\n			return head, nil","			return head, nil")]),
('m-eof-line','bad',['C08'],[(X,"	pushNode(!e.IncludeOpen, e.Kind()...)","	pushNode(true, e.Kind()...)")]),
('m-eof-nopush','bad',['C07'],[(X,"	pushNode(!e.IncludeOpen, e.Kind()...)\n","")]),
('m-bufline','bad',['C08'],[(X,"		buf.Reset()\n		bufLine = *line\n","		buf.Reset()\n")]),
('m-open-drop-slash','bad',['C07'],[(X,"				buf.WriteString(open)","				if len(open) == 2 {\n					buf.WriteString(open[:1])\n				} else {\n					buf.WriteString(open)\n				}")]),
('m-cur-nolast','bad',['C07'],[(X,"		cur = n.IterNext(func(n *Node) bool {\n			return n.Next() != nil\n		})","		cur = n")]),
('m-startline','bad',['C08'],[(X,"	if len(startLine) != 0 {\n		line = startLine[0]\n	}","	if len(startLine) > 1 {\n		line = startLine[0]\n	}")]),
('m-star-skip','bad',['C07'],[(X,"			*i += len(open)\n","			*i += len(open)\n			if len(open) == 2 && *i < len(text) && text[*i] == '*' {\n				*i++\n			}\n")]),
('m-close-string','bad',['C07'],[(X,"				insertNode(NewNode(*line, string(char)))\n			}\n			lineStep()","				insertNode(NewNode(*line, e.ReturnKeyword+\"\"))\n			}\n			lineStep()")]) if False else
('m-incl-close-line','bad',['C08'],[(X,"				pushNode(false, e.Kind()...)","				pushNode(true, e.Kind()...)")]),
('m-crlf','bad',['C07'],[(X,"		if e.SeparatorCharset.Contain(char) {","		if char == '\\r' && *i+1 < len(text) && text[*i+1] == '\\n' {\n			continue\n		}\n\n		if e.SeparatorCharset.Contain(char) {")]),
# equivalents
('r-helper','ok',P,[(X,"		if len(e.ReturnKeyword) != 0 && helper.HasSuffix(trailing, e.ReturnKeyword) {","		if e.closes(trailing) {"),(X,"func (e *extractor) Kind() []kind.Kind {","func (e *extractor) closes(trailing []byte) bool {\n	return len(e.ReturnKeyword) != 0 && helper.HasSuffix(trailing, e.ReturnKeyword)\n}\n\nfunc (e *extractor) Kind() []kind.Kind {")]),
('r-forloop','ok',P,[(X,"		cur = n.IterNext(func(n *Node) bool {\n			return n.Next() != nil\n		})","		cur = n\n		for cur.Next() != nil {\n			cur = cur.Next()\n		}")]),
('r-stdprefix','ok',P,[('helper/bytes.go','','')] if False else [(X,"		if helper.HasPrefix(s, k) {","		if strings.HasPrefix(string(s), k) {")]),
('r-bytesprefix','ok',P,[(X,"		if helper.HasPrefix(s, k) {","		if bytes.HasPrefix(s, []byte(k)) {"),(X,"import (","import (\n\t\"bytes\"")]),
('r-stdsuffix','ok',P,[(X,"len(e.ReturnKeyword) != 0 && helper.HasSuffix(trailing, e.ReturnKeyword)","len(e.ReturnKeyword) != 0 && strings.HasSuffix(string(trailing), e.ReturnKeyword)")]),
('r-escaped-count','ok',P,[(X,"	escaped := false\n	for i := len(text) - 2; i >= 0 && text[i] == '\\\\'; i-- {\n		escaped = !escaped\n	}\n\n	return escaped","	n := 0\n	for i := len(text) - 2; i >= 0; i-- {\n		if text[i] != '\\\\' {\n			break\n		}\n		n++\n	}\n\n	return n%2 == 1")]),
('r-linestep-inline','ok',P,[(X,"		if e.SeparatorCharset.Contain(char) {\n			// ' '\n			pushNode(true)\n			insertNode(NewNode(*line, string(char)))\n		} else {\n			buf.WriteByte(char)\n		}\n\n		lineStep()","		if !e.SeparatorCharset.Contain(char) {\n			buf.WriteByte(char)\n			if char == '\\n' {\n				*line++\n			}\n			continue\n		}\n\n		pushNode(true)\n		insertNode(NewNode(*line, string(char)))\n		if char == '\\n' {\n			*line++\n		}")]),
('r-switch','ok',P,[(X,"			if ee != nil && ee.IncludeOpen { // /* // \" `\n				buf.WriteString(open)\n			} else { // ( {\n				insertNode(NewNode(*line, open))\n			}","			switch {\n			case ee != nil && ee.IncludeOpen:\n				buf.WriteString(open)\n			default:\n				insertNode(NewNode(*line, open))\n			}")]),
('r-order','ok',P,[(X,"			*i += len(open)\n			ns, err","			*i = *i + len(open)\n			ns, err"),(X,"	bufLine := *line\n	begin := *i\n","	begin := *i\n	bufLine := *line\n")]),
('r-struct-cursor','ok',P,[(X,"	for ; *i < len(text); *i++ {\n		char = text[*i]\n","	n := len(text)\n	for *i < n {\n		char = text[*i]\n"),(X,"			insertNode(ns)\n			continue","			insertNode(ns)\n			*i++\n			continue"),(X,"			lineStep()\n			continue","			lineStep()\n			*i++\n			continue"),(X,"		lineStep()\n	}\n	pushNode","		lineStep()\n		*i++\n	}\n	pushNode")]),
('r-insertnode','ok',P,[(X,"		if cur != nil {\n			cur.ReplaceNext(n)\n		} else {\n			cur = n\n		}\n","		if cur != nil {\n			cur.ReplaceNext(n)\n		}\n")]),
('r-err','ok',P,[(X,"	node, err := _commonExtractor.Run(text, &buf, &i, &line)\n	if err != nil {\n		return nil, err\n	}\n\n	return node, nil","	return _commonExtractor.Run(text, &buf, &i, &line)")]),
]
