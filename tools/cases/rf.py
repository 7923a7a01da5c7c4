P=['C%02d'%i for i in range(1,19)]+['C22','C23','C24','C25']
N='node.go';A='ast.go';S='scope.go';H='helper/helper.go';CS='charset/charset.go';K='kind/kind.go';E='extractor.go'
KA='kind_resetter_all.go';KF='kind_resetter_func.go';KP='kind_resetter_parenthesis.go';KT='kind_resetter_type.go'
ins=lambda d,o:'''	if n == nn || n.%s() == nn {
		return
	}
'''%d
C=[
# 1: node links: iterate via recursion, sever helper
('r1-links','ok',P,[
(N,'''	// TODO: how to prevent leak (no gc)
	if n.prev != nil {
		n.prev.next = nil
	}

	n.prev = nn
''','''	if old := n.prev; old != nil {
		old.next = nil
	}

	n.prev = nn
'''),
(N,'''func (n *Node) RemovePrev() *Node {
	removed := n.Prev()
	n.setPrev(nil)
	removed.setNext(nil)

	return removed
}''','''func (n *Node) RemovePrev() *Node {
	removed := n.Prev()
	cut(removed, n)
	return removed
}

// cut parts two neighbours.
func cut(left, right *Node) {
	right.setPrev(nil)
	left.setNext(nil)
}'''),
(N,'''	removed := n.Next()
	n.setNext(nil)
	removed.setPrev(nil)
''','''	removed := n.Next()
	cut(n, removed)
'''),
(N,'''	n.Prev().setNext(nil)
	n.Next().setPrev(nil)

	n.setPrev(nil)
	n.setNext(nil)
''','''	cut(n.Prev(), n)
	cut(n, n.Next())
'''),
]),
('r2-insert','ok',P,[
(N,'''	n.setPrev(nn)
	nn.setNext(n)

	nn.setPrev(nPrev)
	nPrev.setNext(nn)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	return oldPrev, oldNext
''','''	join(nn, n)
	nn.setPrev(nPrev)
	nPrev.setNext(nn)

	oldPrev.setNext(nil)
	oldNext.setPrev(nil)

	insertedOldPrev = oldPrev
	insertedOldNext = oldNext
	return
'''),
(N,'''	n.setNext(nn)
	nn.setPrev(n)

	nn.setNext(nNext)
	nNext.setPrev(nn)
''','''	join(n, nn)

	nn.setNext(nNext)
	nNext.setPrev(nn)
'''),
(N,'''func (n *Node) setPrev(nn''','''// join makes right the next node of left.
func join(left, right *Node) {
	left.setNext(right)
	right.setPrev(left)
}

func (n *Node) setPrev(nn'''),
]),
('r3-loop','ok',P,[
(N,'''	for nn := n; nn != nil; nn = iter(nn) {
		if !fn(nn) {
			return nn
		}
	}

	return nil
''','''	nn := n
	for nn != nil && fn(nn) {
		nn = iter(nn)
	}

	return nn
'''),
(N,'''n.loop(func(nn *Node) *Node { return nn.Prev() }, fn)''','''n.loop((*Node).Prev, fn)'''),
(N,'''n.loop(func(nn *Node) *Node { return nn.Next() }, fn)''','''n.loop((*Node).Next, fn)'''),
(N,'''	return n.IterPrev(func(n *Node) bool { return n.Prev() != nil })
''','''	if n == nil {
		return nil
	}
	first := n
	for first.prev != nil {
		first = first.prev
	}
	return first
'''),
(N,'''	if n != nil {
		return n.prev
	}

	return nil
''','''	if n == nil {
		return nil
	}

	return n.prev
'''),
]),
('r4-combine','ok',P,[
(N,'''	for n == nil && len(nns) != 0 {
		n = nns[0]
		nns = nns[1:]
	}

	n.SetKind(k)

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	slices.Reverse(buf)

	n.text = strings.Join(buf, "")

	return n
''','''	n, buf := n.collect(k, nns)
	if len(buf) == 0 {
		return n
	}

	slices.Reverse(buf)
	n.SetText(strings.Join(buf, ""))

	return n
'''),
(N,'''	for n == nil && len(nns) != 0 {
		n = nns[0]
		nns = nns[1:]
	}

	n.SetKind(k)

	if len(nns) == 0 {
		return n
	}

	buf := make([]string, 0, len(nns)+1)
	buf = append(buf, n.Text())
	for _, nn := range nns {
		if nn == nil || n == nn {
			continue
		}

		buf = append(buf, nn.Text())
		// make node recyclable to gc
		nn.Isolate()
	}

	n.text = strings.Join(buf, "")

	return n
}
''','''	n, buf := n.collect(k, nns)
	if len(buf) == 0 {
		return n
	}

	n.SetText(strings.Join(buf, ""))

	return n
}

func (n *Node) collect(k kind.Kind, nns []*Node) (*Node, []string) {
	for n == nil && len(nns) != 0 {
		n, nns = nns[0], nns[1:]
	}

	n.SetKind(k)

	if len(nns) == 0 {
		return n, nil
	}

	buf := []string{n.Text()}
	for _, nn := range nns {
		if nn != nil && n != nn {
			buf = append(buf, nn.Text())
			nn.Isolate()
		}
	}

	return n, buf
}
'''),
]),
('r5-copy','ok',P,[
(N,'''	return &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}
}

func (n *Node) deepCopy''','''	return n.shallowCopy()
}

func (n *Node) shallowCopy() *Node {
	cp := *n
	cp.prev, cp.next = nil, nil
	return &cp
}

func (n *Node) deepCopy'''),
(N,'''	nn := &Node{
		line: n.line,
		kind: n.kind,
		text: n.text,
	}

	if prev == nil {
		prev = n.Prev().deepCopy(nil, nn)
	}

	if next == nil {
		next = n.Next().deepCopy(nn, nil)
	}

	nn.prev = prev
	nn.next = next

	return nn
''','''	nn := n.shallowCopy()
	nn.prev, nn.next = prev, next

	if nn.prev == nil {
		nn.prev = n.Prev().deepCopy(nil, nn)
	}

	if nn.next == nil {
		nn.next = n.Next().deepCopy(nn, nil)
	}

	return nn
'''),
]),
('r6-nest','ok',P,[
(N,'''		switch n.Kind() {
		case nestLeft:
			count++
			return true
		case nestRight:
			count--
			return count != 0
		default:
			return true
		}
''','''		if k := n.Kind(); k == nestLeft {
			count++
		} else if k == nestRight {
			count--
			if count == 0 {
				return false
			}
		}

		return true
'''),
(N,'''		if opt.IsInsideParenthesis && parenthesisLeftCount == 0 {
			return true
		}

		if opt.IsInsideCurlyBracket && curlyBracketLeftCount == 0 {
			return true
		}

		if opt.IsInsideSquareBracket && squareBracketLeftCount == 0 {
			return true
		}

		if opt.IsOutsideParenthesis && parenthesisLeftCount != 0 {
			return true
		}

		if opt.IsOutsideCurlyBracket && curlyBracketLeftCount != 0 {
			return true
		}

		if opt.IsOutsideSquareBracket && squareBracketLeftCount != 0 {
			return true
		}

		if targetKindSet.Contain(n.Kind()) {
			return opt.TargetReverse
		}

		return !opt.TargetReverse
''','''		if !opt.allows(parenthesisLeftCount, curlyBracketLeftCount, squareBracketLeftCount) {
			return true
		}

		return targetKindSet.Contain(n.Kind()) == opt.TargetReverse
'''),
(N,'''type findNodeOption struct {''','''func (opt findNodeOption) allows(parenthesis, curly, square int) bool {
	switch {
	case opt.IsInsideParenthesis && parenthesis == 0,
		opt.IsInsideCurlyBracket && curly == 0,
		opt.IsInsideSquareBracket && square == 0,
		opt.IsOutsideParenthesis && parenthesis != 0,
		opt.IsOutsideCurlyBracket && curly != 0,
		opt.IsOutsideSquareBracket && square != 0:
		return false
	}
	return true
}

type findNodeOption struct {'''),
]),
# scope
('r7-getters','ok',P,[
(S,'''	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if n.Kind() == kind.FuncName {
			name = n.Text()
			found = true
			return false
		}

		return true
	})

	return name, found
''','''	return d.nameOf(kind.FuncName)
'''),
(S,'''	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if found = n.Kind() == kind.TypeName; found {
			name = n.Text()
		}
		return !found
	})

	return name, found
''','''	return d.nameOf(kind.TypeName)
'''),
(S,'''	var (
		name  string
		found bool
	)

	if _, isMethod''','''	if _, isMethod'''),
(S,'''	d.Node().IterNext(func(n *Node) bool {
		if found = n.Kind() == kind.FuncName; found {
			name = n.Text()
		}
		return !found
	})

	return name, found
''','''	return d.nameOf(kind.FuncName)
'''),
(S,'''	var (
		name  string
		found bool
	)

	d.Node().IterNext(func(n *Node) bool {
		if found = n.Kind() == kind.MethodReceiverType; found {
			name = n.Text()
		}
		return !found
	})

	return name, found
}
''','''	return d.nameOf(kind.MethodReceiverType)
}

// nameOf returns the text of the first node with the kind.
func (d *scopeStruct) nameOf(k kind.Kind) (string, bool) {
	n := d.Node().IterNext(func(n *Node) bool { return n.Kind() != k })
	if n == nil {
		return "", false
	}

	return n.Text(), true
}
'''),
]),
('r8-parse','ok',P,[
(S,'''	tryAppendScope := func() {
		if k != scope.Unknown {
			nodesToResetKind = append(nodesToResetKind, head)
			scs = append(scs, NewScope(
				head.Line(),
				k,
				head,
			))
		}

		if head.Prev() != nil {
			_ = head.RemovePrev()
		}
	}
''','''	tryAppendScope := func() {
		if head.Prev() != nil {
			_ = head.RemovePrev()
		}

		if k == scope.Unknown {
			return
		}

		scs = append(scs, NewScope(head.Line(), k, head))
		nodesToResetKind = append(nodesToResetKind, head)
	}
'''),
(S,'''	_ = node.IterNext(func(n *Node) bool {
		if n.Line() == line {
			return true
		}

		line = n.Line()
		nk := newScopeKind(n.Text())
		if nk == scope.Unknown {
			return true
		}

		tryAppendScope()

		head = n
		k = nk
		return true
	})
''','''	for n := node; n != nil; n = n.Next() {
		if n.Line() == line {
			continue
		}

		line = n.Line()
		if nk := newScopeKind(n.Text()); nk != scope.Unknown {
			tryAppendScope()
			head, k = n, nk
		}
	}
'''),
(S,'''	if k != scope.Comment && k != scope.InnerComment {
		return s == ks
	}

	if len(s) < len(ks) {
		return false
	}

	return s[:len(ks)] == ks
''','''	switch k {
	case scope.Comment, scope.InnerComment:
		return strings.HasPrefix(s, ks)
	default:
		return s == ks
	}
'''),
(S,'''	"fmt"
''','''	"fmt"
	"strings"
'''),
]),
('r9-scopekinds','ok',P,[
(S,'''	kinds := []scope.Kind{
		scope.Package,
		scope.Comment,
		scope.InnerComment,
		scope.Import,
		scope.Variable,
		scope.Const,
		scope.Type,
		scope.Func,
	}

	for _, kind := range kinds {
		if isScopeKind(s, kind) {
			return kind
		}
	}

	return scope.Unknown
''','''	switch k := scope.Kind(s); k {
	case scope.Package, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func:
		return k
	}

	for _, k := range [...]scope.Kind{scope.Comment, scope.InnerComment} {
		if isScopeKind(s, k) {
			return k
		}
	}

	return scope.Unknown
'''),
(S,'''	for _, n := range nodesToResetKind {
		resetKind(n)
	}
''','''	for i := range nodesToResetKind {
		resetKind(nodesToResetKind[i])
	}
'''),
(S,'''	if d.declaredType().Kind() != kind.Interface {
		return "", false
	}

	return d.GetTypeName()
''','''	if d.declaredType().Kind() == kind.Interface {
		return d.GetTypeName()
	}

	return "", false
'''),
]),
# ast
('r10-pkg','ok',P,[
(A,'''	var packageScope Scope
	for _, sc := range scs {
		if sc.Kind() == scope.Package {
			packageScope = sc
			break
		}
	}

	if packageScope == nil {
		return "", ErrNoPackage
	}
''','''	i := slices.IndexFunc(scs, func(sc Scope) bool { return sc.Kind() == scope.Package })
	if i < 0 {
		return "", ErrNoPackage
	}

	packageScope := scs[i]
'''),
(A,'''	result := &ast{
		file:  file,
		dir:   filepath.Dir(file),
		name:  filepath.Base(file),
		ext:   filepath.Ext(file),
		scope: scs,
	}

	return result, nil
''','''	return newAst(file, scs), nil
'''),
(A,'''func findPackageName(''','''func newAst(file string, scs []Scope) *ast {
	return &ast{
		file:  file,
		dir:   filepath.Dir(file),
		name:  filepath.Base(file),
		ext:   filepath.Ext(file),
		scope: scs,
	}
}

func findPackageName('''),
]),
('r11-pkg2','ok',P,[
(A,'''	packageKeywordAppeared := false
	result := packageScope.Node().IterNext(func(n *Node) bool {
		if packageKeywordAppeared && (n.Kind() == kind.Raw || n.Kind() == kind.Basic) {
			return false
		}

		if n.Kind() == kind.Package {
			packageKeywordAppeared = true
		}

		return true
	})

	if result == nil {
		return "", ErrNoPackage
	}

	return result.Text(), nil
''','''	keyword := packageScope.Node().IterNext(func(n *Node) bool { return n.Kind() != kind.Package })
	for n := keyword.Next(); n != nil; n = n.Next() {
		switch n.Kind() {
		case kind.Raw, kind.Basic:
			return n.Text(), nil
		}
	}

	return "", ErrNoPackage
'''),
(A,'''	if _, err := findPackageName(scope); err != nil {
		return nil, err
	}

	return &ast{
		scope: scope,
	}, nil
''','''	result := &ast{scope: scope}
	if _, err := result.Package(); err != nil {
		return nil, err
	}

	return result, nil
'''),
]),
('r12-save','ok',P,[
(A,'''	buf := bytes.Buffer{}

	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile(file, buf.Bytes(), autoImport...)
''','''	return helper.SaveFile(file, f.source(), autoImport...)
'''),
(A,'''func (f *ast) Copy() Ast {
	scs := make([]Scope, 0, len(f.scope))
	for _, sc := range f.scope {
		scs = append(scs, sc.Copy())
	}

	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scs,
	}
''','''// source returns the text of all scopes.
func (f *ast) source() []byte {
	var buf bytes.Buffer
	f.IterScope(func(sc Scope) bool {
		for n := sc.Node(); n != nil; n = n.Next() {
			buf.WriteString(n.Text())
		}
		return true
	})

	return buf.Bytes()
}

func (f *ast) Copy() Ast {
	scs := make([]Scope, len(f.scope))
	for i, sc := range f.scope {
		scs[i] = sc.Copy()
	}

	return f.SetScope(scs)
'''),
(A,'''	for _, sc := range f.scope {
		if !fn(sc) {
			return
		}
	}
''','''	for i := 0; i < len(f.scope); i++ {
		if !fn(f.scope[i]) {
			break
		}
	}
'''),
]),
('r13-save2','ok',P,[
(A,'''	buf := bytes.Buffer{}

	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile(file, buf.Bytes(), autoImport...)
''','''	var buf []byte
	for _, sc := range f.Scope() {
		buf = sc.Node().appendText(buf)
	}

	return helper.SaveFile(file, buf, autoImport...)
'''),
(A,'''	"bytes"
''',''),
(N,'''func (n *Node) debugText(''','''func (n *Node) appendText(buf []byte) []byte {
	n.IterNext(func(n *Node) bool {
		buf = append(buf, n.Text()...)
		return true
	})
	return buf
}

func (n *Node) debugText('''),
(A,'''	return &ast{
		file:  f.file,
		dir:   f.dir,
		name:  f.name,
		ext:   f.ext,
		scope: scope,
	}
''','''	cp := *f
	cp.scope = scope
	return &cp
'''),
(A,'''	f.scope = append(slices.Clip(f.scope), scs...)
''','''	f.scope = slices.Concat(f.scope, scs)
'''),
]),
('r14-append','ok',P,[
(A,'''	f.scope = append(slices.Clip(f.scope), scs...)
''','''	merged := make([]Scope, 0, len(f.scope)+len(scs))
	merged = append(merged, f.scope...)
	merged = append(merged, scs...)
	f.scope = merged
'''),
(A,'''	data, err := helper.ReadFile(file)
	if err != nil {
		if errors.Is(err, os.ErrNotExist) {
			return nil, ErrNotExist
		}

		return nil, err
	}
''','''	data, err := helper.ReadFile(file)
	if errors.Is(err, os.ErrNotExist) {
		return nil, ErrNotExist
	} else if err != nil {
		return nil, err
	}
'''),
]),
# helper
('r15-helper','ok',P,[
(H,'''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}

	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil
''','''	buf, err := os.ReadFile(goFile(file))
	if err != nil {
		return nil, err
	}

	return format.Source(buf)
'''),
(H,'''	"io"
''',''),
(H,'''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	var (''','''	file = goFile(file)

	var ('''),
(H,'''func HasPrefix(''','''// goFile returns the path with the extension of go files.
func goFile(path string) string {
	if HasSuffix([]byte(path), ".go") {
		return path
	}

	return path + ".go"
}

func HasPrefix('''),
]),
('r16-savefile','ok',P,[
(H,'''	var (
		formatted []byte
		err       error
	)

	if len(autoImport) != 0 && autoImport[0] {
		formatted, err = imports.Process(file, data, nil)
		if err != nil {
			slog.Error(fmt.Sprintf("imports ast data, err: %+v", err))
			formatted = data
		}
	} else {
		formatted, err = format.Source(data)
		if err != nil {
			slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
			formatted = data
		}
	}

	dir := filepath.Dir(file)
	if err := os.MkdirAll(dir, 0777); err != nil {
		return fmt.Errorf("mkdir %s, err: %w", dir, err)
	}

	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if _, err := f.Write(formatted); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil
}
''','''	formatted := tidySource(file, data, len(autoImport) != 0 && autoImport[0])

	return writeFile(file, formatted)
}

func tidySource(file string, data []byte, autoImport bool) []byte {
	if autoImport {
		formatted, err := imports.Process(file, data, nil)
		if err == nil {
			return formatted
		}
		slog.Error(fmt.Sprintf("imports ast data, err: %+v", err))
		return data
	}

	formatted, err := format.Source(data)
	if err != nil {
		slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
		return data
	}
	return formatted
}

func writeFile(file string, content []byte) error {
	dir := filepath.Dir(file)
	if err := os.MkdirAll(dir, 0777); err != nil {
		return fmt.Errorf("mkdir %s, err: %w", dir, err)
	}

	if err := os.WriteFile(file, content, 0666); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil
}
'''),
]),
('r17-fix','ok',P,[
(H,'''	if len(prefix) > len(s) {
		return false
	}

	for i := range len(prefix) {
		if s[i] != prefix[i] {
			return false
		}
	}

	return true
''','''	return len(s) >= len(prefix) && string(s[:len(prefix)]) == prefix
'''),
(H,'''	if len(suffix) > len(s) {
		return false
	}
	ss := s[len(s)-len(suffix):]
	for i := range ss {
		if ss[i] != suffix[i] {
			return false
		}
	}

	return true
''','''	return bytes.HasSuffix(s, []byte(suffix))
'''),
(H,'''import (
''','''import (
	"bytes"
'''),
]),
('r18-suffix','ok',P,[
(H,'''	ss := s[len(s)-len(suffix):]
	for i := range ss {
		if ss[i] != suffix[i] {
			return false
		}
	}

	return true
''','''	offset := len(s) - len(suffix)
	for i := 0; i < len(suffix); i++ {
		if s[offset+i] != suffix[i] {
			return false
		}
	}

	return true
'''),
(H,'''	if slice[len(slice)-1] == elems[0] {
		elems = elems[1:]
	}

	return append(slice, elems...)
''','''	last := slice[len(slice)-1]
	if last != elems[0] {
		return append(slice, elems...)
	}

	return append(slice, elems[1:]...)
'''),
(CS,'''	if cs == nil {
		return false
	}
	_, ok := cs[key]
	return ok
''','''	_, ok := cs[key]
	return ok
'''),
(CS,'''	for i := range chars {
		for _, char := range chars[i] {
			set[char] = struct{}{}
		}
	}
''','''	for _, cc := range chars {
		for _, char := range cc {
			set[char] = struct{}{}
		}
	}
'''),
]),
('r19-kindnew','ok',P,[
(K,'''	if len(s) != 0 {
		isNumber := true
		for i := range s {
			isNumber = isNumber && charset.NumberCharset.Contain(s[i])
			if !isNumber {
				break
			}
		}
		if isNumber {
			return Number
		}
	}
''','''	if consistsOf(s, charset.NumberCharset) {
		return Number
	}
'''),
(K,'''	if len(s) != 0 {
		isSymbol := true
		for i := range s {
			isSymbol = isSymbol && charset.GolangSymbol.Contain(s[i])
			if !isSymbol {
				break
			}
		}
		if isSymbol {
			return Symbol
		}
	}

	return Raw
}''','''	if consistsOf(s, charset.GolangSymbol) {
		return Symbol
	}

	return Raw
}

// consistsOf tells whether all bytes of s are in the set.
func consistsOf(s string, set charset.Set[byte]) bool {
	for i := range len(s) {
		if !set.Contain(s[i]) {
			return false
		}
	}

	return true
}'''),
(K,'''	if buf := []byte(s); helper.HasPrefix(buf, "\\"") || helper.HasPrefix(buf, "`") {
		return String
	}
''','''	if s[0] == '"' || s[0] == '`' {
		return String
	}
'''),
(K,'''	"github.com/yanun0323/goast/helper"
''',''),
]),
('r20-kindmap','ok',P,[
(K,'''	switch s {
	case Tab[0]:
		return Tab
	case Space[0]:
		return Space
	case Comma[0]:
		return Comma
	case Colon[0]:
		return Colon
	case NewLine[0]:
		return NewLine
	case Semicolon[0]:
		return Semicolon
	case ParenthesisLeft[0]:
		return ParenthesisLeft
	case ParenthesisRight[0]:
		return ParenthesisRight
	case CurlyBracketLeft[0]:
		return CurlyBracketLeft
	case CurlyBracketRight[0]:
		return CurlyBracketRight
	case SquareBracketLeft[0]:
		return SquareBracketLeft
	case SquareBracketRight[0]:
		return SquareBracketRight
	case Import[0]:
		return Import
	case Var[0]:
		return Var
	case Const[0]:
		return Const
	case Map[0]:
		return Map
	case Channel[0]:
		return Channel
	case Func[0]:
		return Func
	case Type[0]:
		return Type
	case Struct[0]:
		return Struct
	case Interface[0]:
		return Interface
	case Package[0]:
		return Package
	}
''','''	for _, k := range []Kind{
		Tab, Space, Comma, Colon, NewLine, Semicolon,
		ParenthesisLeft, ParenthesisRight, CurlyBracketLeft, CurlyBracketRight, SquareBracketLeft, SquareBracketRight,
		Import, Var, Const, Map, Channel, Func, Type, Struct, Interface, Package,
	} {
		if k[0] == s {
			return k
		}
	}
'''),
(K,'''	switch k {
	case ParenthesisLeft:
		return ParenthesisRight, true
	case CurlyBracketLeft:
		return CurlyBracketRight, true
	case SquareBracketLeft:
		return SquareBracketRight, true
	case ParenthesisRight:
		return ParenthesisLeft, true
	case CurlyBracketRight:
		return CurlyBracketLeft, true
	case SquareBracketRight:
		return SquareBracketLeft, true
	default:
		return None, false
	}
''','''	for _, pair := range [][2]Kind{
		{ParenthesisLeft, ParenthesisRight},
		{CurlyBracketLeft, CurlyBracketRight},
		{SquareBracketLeft, SquareBracketRight},
	} {
		switch k {
		case pair[0]:
			return pair[1], true
		case pair[1]:
			return pair[0], true
		}
	}

	return None, false
'''),
]),
('r21-kindvarmap','ok',P,[
(K,'''	switch s {
	case Tab[0]:
		return Tab
	case Space[0]:
		return Space
	case Comma[0]:
		return Comma
	case Colon[0]:
		return Colon
	case NewLine[0]:
		return NewLine
	case Semicolon[0]:
		return Semicolon
	case ParenthesisLeft[0]:
		return ParenthesisLeft
	case ParenthesisRight[0]:
		return ParenthesisRight
	case CurlyBracketLeft[0]:
		return CurlyBracketLeft
	case CurlyBracketRight[0]:
		return CurlyBracketRight
	case SquareBracketLeft[0]:
		return SquareBracketLeft
	case SquareBracketRight[0]:
		return SquareBracketRight
	case Import[0]:
		return Import
	case Var[0]:
		return Var
	case Const[0]:
		return Const
	case Map[0]:
		return Map
	case Channel[0]:
		return Channel
	case Func[0]:
		return Func
	case Type[0]:
		return Type
	case Struct[0]:
		return Struct
	case Interface[0]:
		return Interface
	case Package[0]:
		return Package
	}
''','''	if k, ok := exact[s]; ok {
		return k
	}
'''),
(K,'''func (k *Kind) PointerString''','''var exact = func() map[string]Kind {
	kinds := []Kind{
		Tab, Space, Comma, Colon, NewLine, Semicolon,
		ParenthesisLeft, ParenthesisRight, CurlyBracketLeft, CurlyBracketRight, SquareBracketLeft, SquareBracketRight,
		Import, Var, Const, Map, Channel, Func, Type, Struct, Interface, Package,
	}
	table := make(map[string]Kind, len(kinds))
	for _, k := range kinds {
		table[k[0]] = k
	}
	return table
}()

func (k *Kind) PointerString'''),
]),
]
