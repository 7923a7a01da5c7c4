P=['C14']
S='scope.go';A='ast.go';N='node.go';K='kind/kind.go';E='extractor.go';H='helper/helper.go';T='kind_resetter_type.go';F='kind_resetter_func.go';SK='scope/scope_kind.go';CS='charset/charset.go'
KN='''func New(s string) Kind {
	if len(s) == 0 {
		return None
	}
'''
C=[
('b-cache','bad',P,[(K,KN,'''var _cache = map[string]Kind{}

func New(s string) Kind {
	k, ok := _cache[s]
	if !ok {
		k = parse(s)
		_cache[s] = k
	}
	return k
}

func parse(s string) Kind {
	if len(s) == 0 {
		return None
	}
''')]),
('b-last','bad',P,[(K,KN,'''var _lastText, _lastKind = "", None

func New(s string) Kind {
	if s == _lastText {
		return _lastKind
	}
	_lastKind = parse(s)
	_lastText = s
	return _lastKind
}

func parse(s string) Kind {
	if len(s) == 0 {
		return None
	}
''')]),
('b-mtf','bad',P,[(S,'''	kinds := []scope.Kind{
		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
	}

	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
''','''	kinds := scopeKinds

	for i, kind := range kinds {
		if isScopeKind(s, kind) {
			kinds[0], kinds[i] = kinds[i], kinds[0]
			return kind
'''),(S,'''func newScopeKind(''','''var scopeKinds = []scope.Kind{
	scope.Package,
	scope.Comment,
	scope.InnerComment,
	scope.Import,
	scope.Variable,
	scope.Const,
	scope.Type,
	scope.Func,
}

func newScopeKind(''')]),
('r-hoist','ok',P,[(S,'''	kinds := []scope.Kind{
		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
	}

	for _, kind := range kinds {
''','''	for _, kind := range scopeKinds {
'''),(S,'''func newScopeKind(''','''var scopeKinds = []scope.Kind{
	scope.Package,
	scope.Comment,
	scope.InnerComment,
	scope.Import,
	scope.Variable,
	scope.Const,
	scope.Type,
	scope.Func,
}

func newScopeKind(''')]),
('b-scratch','bad',P,[(E,'''		i, line int
		buf     strings.Builder
	)
''','''		i, line int
	)
	buf := &_scratch
	buf.Reset()
'''),(E,'_commonExtractor.Run(text, &buf, &i, &line)','_commonExtractor.Run(text, buf, &i, &line)'),(E,'''// extract parses''','''var _scratch strings.Builder

// extract parses''')]),
('b-depth','bad',P,[(E,'''	bufLine := *line
''','''	e.depth++
	defer func() { e.depth-- }()
	bufLine := *line
'''),(E,'''type extractor struct {
''','''type extractor struct {
	depth             int
''')]),
('b-closure-counter','bad',P,[(N,'''func NewNode(line int''','''var nextLine = func() func() int {
	n := 0
	return func() int {
		n++
		return n
	}
}()

func NewNode(line int'''),(N,'return &Node{line: line, kind: kinds[0], text: text}','''if line < 0 {
			line = nextLine()
		}
		return &Node{line: line, kind: kinds[0], text: text}''')]),
('b-sort-global','bad',P,[(S,'''	for _, kind := range kinds {
''','''	slices.Sort(_ks)
	for _, kind := range kinds {
'''),(S,'''func newScopeKind(''','''var _ks = []scope.Kind{scope.Package, scope.Comment}

func newScopeKind('''),(S,'	"fmt"\n','	"fmt"\n	"slices"\n')]),
('b-append-reslice','bad',P,[(S,'''	kinds := []scope.Kind{''','''	kinds := append(_ks[:0], scope.Kind(""))
	kinds = []scope.Kind{'''),(S,'''func newScopeKind(''','''var _ks = make([]scope.Kind, 0, 10)

func newScopeKind(''')]),
('r-append','ok',P,[(S,'''	for _, kind := range kinds {
''','''	for _, kind := range append(_ks, kinds...) {
'''),(S,'''func newScopeKind(''','''var _ks = []scope.Kind{scope.Package, scope.Comment}

func newScopeKind(''')]),
('r-once','ok',P,[(CS,'''func New[T''','''var (
	upper     map[byte]byte
	upperOnce sync.Once
)

func Upper(b byte) byte {
	upperOnce.Do(func() {
		upper = map[byte]byte{}
		for c := byte('a'); c <= 'z'; c++ {
			upper[c] = c - 32
		}
	})
	return upper[b]
}

func New[T'''),(CS,'package charset\n','package charset\n\nimport "sync"\n')]),
('r-init','ok',P,[(CS,'''func New[T''','''var upper = map[byte]byte{}

func init() {
	for c := byte('a'); c <= 'z'; c++ {
		addUpper(c)
	}
}

func addUpper(c byte) { upper[c] = c - 32 }

func New[T''')]),
('b-set-add','bad',P,[(K,'''	if charset.GolangKeywords.Contain(s) {
		return Keyword
	}
''','''	if charset.GolangKeywords.Contain(s) {
		return Keyword
	}
	if len(s) > 1 && s[0] == '~' {
		charset.GolangKeywords[s] = struct{}{}
	}
''')]),
('b-field-hook','bad',P,[(E,'''	if text[*i] == '\\n' {
			*line++
''','''	if text[*i] == '\\n' {
			_curlyBracketExtractor.IncludeOpen = false
			*line++
''')]),
('b-table-escape','bad',P,[(E,'''		trailing := text''','''		if char == '#' {
			learn(e.DeeperExtract())
		}
		trailing := text'''),(E,'''// isEscaped tells''','''func learn(d deeperExtract) {
	d["#"] = _commentExtractor
}

// isEscaped tells''')]),
('r-func-table','ok',P,[(N,'''func NewNode(line int''','''var makers = map[bool]func(int) *Node{
	true:  func(l int) *Node { n := &Node{}; n.line = l; return n },
	false: func(l int) *Node { return nil },
}

func NewNode(line int''')]),
('r-local-table','ok',P,[(E,'''	bufLine := *line
''','''	local := map[string]*extractor{}
	for k, v := range e.DeeperExtract() {
		local[k] = v
	}
	local["#"] = nil
	bufLine := *line
''')]),
]
