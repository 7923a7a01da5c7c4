P=['C15']
S='scope.go';A='ast.go';N='node.go';K='kind/kind.go';E='extractor.go';H='helper/helper.go';T='kind_resetter_type.go';F='kind_resetter_func.go';SK='scope/scope_kind.go';CS='charset/charset.go'
PF='''	for k, v := range de {
		if helper.HasPrefix(s, k) {
			return k, v, true
		}
	}
	return "", nil, false
'''
TT='''	s = strings.ReplaceAll(s, "\\n", "\\\\n")
	s = strings.ReplaceAll(s, "\\r", "·")
	s = strings.ReplaceAll(s, " ", "·")
	s = strings.ReplaceAll(s, "\\t", " -> ")
	return s
'''
SKL='''	kinds := []scope.Kind{
		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
	}

	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}
'''
C=[
('r-exists','ok',P,[(H,TT,'''	has := func(s string) bool {
		for old := range _tidy {
			if strings.Contains(s, old) {
				return true
			}
		}
		return false
	}
	if !has(s) {
		return s
	}
'''+TT),(H,'''func TidyText''','''var _tidy = map[string]string{"\\n": "\\\\n", "\\r": "·", " ": "·", "\\t": " -> "}

func TidyText''')]),
('b-overlap','bad',P,[(E,'''		"'":  _runeExtractor,
''','''		"'":  _runeExtractor,
		"'\\"": _runeExtractor,
''')]),
('b-overlap2','bad',P,[(E,'''		"/*": _innerCommentExtractor,
''','''		"/*": _innerCommentExtractor,
		"//go:": _commentExtractor,
''')]),
('b-tidy','bad',P,[(H,TT,'''	for old, repl := range _tidy {
		s = strings.ReplaceAll(s, old, repl)
	}
	return s
'''),(H,'''func TidyText''','''var _tidy = map[string]string{"\\n": "\\\\n", "\\r": "·", " ": "·", "\\t": " -> "}

func TidyText''')]),
('b-scopes-map','bad',P,[(A,'''func (f *ast) IterScope(fn func(Scope) bool) {''','''func (f *ast) byKind() []Scope {
	m := map[scope.Kind][]Scope{}
	for _, sc := range f.scope {
		m[sc.Kind()] = append(m[sc.Kind()], sc)
	}
	out := []Scope{}
	for _, scs := range m {
		out = append(out, scs...)
	}
	return out
}

func (f *ast) IterScope(fn func(Scope) bool) {
	for _, sc := range f.byKind() {
		if !fn(sc) {
			return
		}
	}
	return
''')]),
('b-time','bad',P,[(H,'''	dir := filepath.Dir(file)
''','''	formatted = append(formatted, time.Now().String()...)
	dir := filepath.Dir(file)
'''),(H,'''	"strings"
''','''	"strings"
	"time"
''')]),
('b-env','bad',P,[(H,'''	f, err := os.Open(file)
''','''	if d := os.Getenv("GOAST_DIR"); d != "" {
		file = filepath.Join(d, file)
	}
	f, err := os.Open(file)
''')]),
('b-goroutine','bad',P,[(S,'''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''','''	for _, n := range nodesToResetKind {
		go resetKind(n)
	}
''')]),
('b-scope-map','bad',P,[(S,SKL,'''	kinds := map[scope.Kind]string{
		scope.Package: "p",
		scope.Comment: "/",
		scope.InnerComment: "/*",
	}

	for kind, p := range kinds {
		if len(s) >= len(p) && s[:len(p)] == p {
			return kind
		}
	}
''')]),
('b-printptr','bad',P,[(N,'''	return fmt.Sprintf("%d''','''	if len(n.Text()) == 0 {
		return fmt.Sprintf("%v", n)
	}
	return fmt.Sprintf("%d''')]),
('r-continue','ok',P,[(E,PF,'''	for k, v := range de {
		if !helper.HasPrefix(s, k) {
			continue
		}
		return k, v, true
	}
	return "", nil, false
''')]),
('r-bytes','ok',P,[(E,PF,'''	for k, v := range de {
		if bytes.HasPrefix(s, []byte(k)) {
			return k, v, true
		}
	}
	return "", nil, false
'''),(E,'''import (
''','''import (
	"bytes"
'''),(E,'''	"github.com/yanun0323/goast/helper"
''','''	"github.com/yanun0323/goast/helper"
''')]),
('r-strings','ok',P,[(E,PF,'''	for k, v := range de {
		if strings.HasPrefix(string(s), k) {
			return k, v, true
		}
	}
	return "", nil, false
''')]),
('r-cmp','ok',P,[(E,PF,'''	for k, v := range de {
		if len(s) >= len(k) && string(s[:len(k)]) == k {
			return k, v, true
		}
	}
	return "", nil, false
''')]),
('r-named','ok',P,[(E,PF,'''	var (
		found bool
		open string
		ee *extractor
	)
	for k, v := range de {
		if found = helper.HasPrefix(s, k); found {
			open, ee = k, v
			break
		}
	}
	return open, ee, found
''')]),
('r-longest','ok',P,[(E,PF,'''	var (
		open string
		ee *extractor
	)
	for k, v := range de {
		if helper.HasPrefix(s, k) && len(k) > len(open) {
			open, ee = k, v
		}
	}
	return open, ee, open != ""
''')]),
('r-keys','ok',P,[(E,PF,'''	keys := slices.Sorted(maps.Keys(de))
	for _, k := range keys {
		if helper.HasPrefix(s, k) {
			return k, de[k], true
		}
	}
	return "", nil, false
'''),(E,'''import (
''','''import (
	"maps"
	"slices"
''')]),
('r-sortkeys','ok',P,[(E,PF,'''	keys := make([]string, 0, len(de))
	for k := range de {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if helper.HasPrefix(s, k) {
			return k, de[k], true
		}
	}
	return "", nil, false
'''),(E,'''import (
''','''import (
	"sort"
''')]),
('r-inline','ok',P,[(E,'''		if open, ee, ok := e.DeeperExtract().PrefixFit(text[*i:]); ok {
''','''		var (
			open string
			ee *extractor
			ok bool
		)
		for k, v := range e.DeeperExtract() {
			if helper.HasPrefix(text[*i:], k) {
				open, ee, ok = k, v, true
				break
			}
		}
		if ok {
''')]),
('r-scope-map','ok',P,[(S,SKL,'''	kinds := map[scope.Kind]bool{
		scope.Package: true,
		scope.Comment: true,
		scope.InnerComment: true,
		scope.Import: true,
		scope.Variable: true,
		scope.Const: true,
		scope.Type: true,
		scope.Func: true,
	}

	for kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}
''')]),
('r-clone','ok',P,[(CS,'''func NewSlice[''','''// Union returns the elements of both sets.
func (cs Set[T]) Union(other Set[T]) Set[T] {
	out := make(Set[T], len(cs)+len(other))
	for k := range cs {
		out[k] = struct{}{}
	}
	for k := range other {
		out[k] = struct{}{}
	}
	return out
}

func NewSlice[''')]),
('r-dead','ok',P,[(H,TT,'''	for _, x := range _tidy {
		s = strings.ReplaceAll(s, x[0], x[1])
	}
	return s
'''),(H,'''func TidyText''','''var _tidy = [][2]string{{"\\n", "\\\\n"}, {"\\r", "·"}, {" ", "·"}, {"\\t", " -> "}}

func TidyText''')]),
('r-tidyok','ok',P,[(H,TT,'''	n := 0
	for old := range _tidy {
		if strings.Contains(s, old) {
			n++
		}
	}
	if n == 0 {
		return s
	}
'''+TT),(H,'''func TidyText''','''var _tidy = map[string]string{"\\n": "\\\\n", "\\r": "·", " ": "·", "\\t": " -> "}

func TidyText''')]),
]
