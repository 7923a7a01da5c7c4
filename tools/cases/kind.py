P=['C16']
K='kind/kind.go';CS='charset/charset.go';SK='scope/scope_kind.go';H='helper/helper.go'
NUM='''	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
			if !isNumber {
				break
			}
		}
		if isNumber {
			return Number
		}
	}
'''
SYM='''	if len(s) != 0 {
		isSymbol := true
		for i := range s {
			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i])
			if !isSymbol {
				break
			}
		}
		if isSymbol {
			return Symbol
		}
	}
'''
STR='''	if buf := []byte(s); helper.HasPrefix(buf, "\\"") || helper.HasPrefix(buf, "`") {
		return String
	}
'''
C=[
('b-float','bad',P,[(CS,"""'1', '2',""","""'.', '1', '2',""")]),
('b-first','bad',P,[(K,'''			if !isNumber {
				break''','''			if i > 0 || !isNumber {
				break''')]),
('b-last','bad',P,[(K,NUM,'''	if charset.NumberCharset.Contain(s[0]) && charset.NumberCharset.Contain(s[len(s)-1]) {
		return Number
	}
''')]),
('b-order','ok',P,[(K,SYM,''),(K,NUM,NUM+SYM)]) ,
('b-rune','bad',P,[(K,'helper.HasPrefix(buf, "`")','helper.HasPrefix(buf, "`") || helper.HasPrefix(buf, "\'")')]),
('b-quoteends','bad',P,[(K,'helper.HasPrefix(buf, "\\"")','helper.HasPrefix(buf, "\\"") && helper.HasSuffix(buf, "\\"")')]),
('b-kw','bad',P,[(CS,'''		"goto",
''','')]),
('b-kw2','bad',P,[(CS,'''		"goto",
''','''		"goto",
		"any",
''')]),
('b-basic','bad',P,[(CS,'''		"uintptr",
''','''''')]),
('b-trim','bad',P,[(K,'''	switch s {
	case Tab[0]:''','''	s = strings.ToLower(s)
	switch s {
	case Tab[0]:'''),(K,'''import (
''','''import (
	"strings"

''')]),
('b-close','bad',P,[(K,'''	case SquareBracketRight:
		return SquareBracketLeft, true
''','''''')]),
('b-scopekind','bad',P,[(SK,'''	case InnerComment:
		return kind.Comment
''','''	case InnerComment:
		return kind.None
''')]),
('b-method','bad',P,[(K,'''	Method             = Kind{"", "Method"}''','''	Method             = Kind{"", "FuncName"}''')]),
('b-symcap','bad',P,[(K,'''		isSymbol := true
''','''		isSymbol := len(s) <= 3
''')]),
('b-sep','bad',P,[(K,'len(s) == 1 && charset.Sep','charset.Sep')]),
('r-helper','ok',P,[(K,NUM,'''	if all(s, charset.NumberCharset) {
		return Number
	}
'''),(K,SYM,'''	if all(s, charset.GolangSymbol) {
		return Symbol
	}
'''),(K,'''func New(s''','''func all(s string, set charset.Set[byte]) bool {
	for i := 0; i < len(s); i++ {
		if !set.Contain(s[i]) {
			return false
		}
	}
	return true
}

func New(s''')]),
('r-nobreak','ok',P,[(K,NUM,NUM.replace('''			if !isNumber {
				break
			}
''',''))]),
('r-switch','ok',P,[(K,STR,'''	switch s[0] {
	case '"', '`':
		return String
	}
''')]),
('r-table','ok',P,[(K,'''	switch s {
	case Tab[0]:''','''	if k, ok := _own[s]; ok {
		return k
	}
	switch s {
	case Tab[0]:'''),(K,'''func New(s''','''var _own = map[string]Kind{Import[0]: Import, Var[0]: Var, "(": ParenthesisLeft}

func New(s''')]),
('r-reorder','ok',P,[(K,SYM,''),(K,STR,STR+SYM)]),
('r-runes','ok',P,[(K,NUM,'''	isNumber := true
	for _, c := range s {
		if c < '0' || c > '9' {
			isNumber = false
			break
		}
	}
	if isNumber {
		return Number
	}
''')]),
('r-index','ok',P,[(K,NUM,'''	if strings.IndexFunc(s, func(r rune) bool { return r < '0' || r > '9' }) < 0 {
		return Number
	}
'''),(K,'''import (
''','''import (
	"strings"

''')]),
('r-trim','ok',P,[(K,NUM,'''	if strings.Trim(s, "0123456789") == "" {
		return Number
	}
'''),(K,'''import (
''','''import (
	"strings"

''')]),
('r-hasprefix','ok',P,[(K,STR,'''	if strings.HasPrefix(s, "\\"") || strings.HasPrefix(s, "`") {
		return String
	}
'''),(K,'''import (
''','''import (
	"strings"

'''),(K,'''	"github.com/yanun0323/goast/helper"
''','')]),
('r-bytes','ok',P,[(K,NUM,'''	digits := 0
	for _, c := range []byte(s) {
		if !charset.NumberCharset.Contain(c) {
			break
		}
		digits++
	}
	if digits == len(s) {
		return Number
	}
''')]),
('r-close-table','ok',P,[(K,'''	switch k {
	case ParenthesisLeft:
		return ParenthesisRight, true''','''	pairs := [][2]Kind{{CurlyBracketLeft, CurlyBracketRight}}
	for _, p := range pairs {
		if k == p[0] {
			return p[1], true
		}
	}
	switch k {
	case ParenthesisLeft:
		return ParenthesisRight, true''')]),
]
