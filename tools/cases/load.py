P=['C13']
A='ast.go';H='helper/helper.go'
RF='''	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}

	formatted, err := format.Source(buf)
	if err != nil {
		return nil, err
	}

	return formatted, nil
'''
SUF='''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	f, err := os.Open'''
OPN='''	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	buf, err := io.ReadAll(f)
'''
RES='''	result := &ast{
		file:  file,
		dir:   filepath.Dir(file),
		name:  filepath.Base(file),
		ext:   filepath.Ext(file),
		scope: scs,
	}

	return result, nil
'''
ERRS='''		if errors.Is(err, os.ErrNotExist) {
			return nil, ErrNotExist
		}

		return nil, err
'''
PSC='''	scs, err := ParseScope(0, data)
	if err != nil {
		return nil, err
	}

	if _, err := findPackageName(scs); err != nil {
		return nil, err
	}

	result'''
FIND='''	var packageScope Scope
	for _, sc := range scs {
		if sc.Kind() == scope.Package {
			packageScope = sc
			break
		}
	}

	if packageScope == nil {
		return "", ErrNoPackage
	}
'''
KEY='''	packageKeywordAppeared := false
	result := packageScope.Node().IterNext(func(n *Node) bool {
		if packageKeywordAppeared && (n.Kind() == kind.Raw || n.Kind() == kind.Basic) {
			return false
		}

		if n.Kind() == kind.Package {
			packageKeywordAppeared = true
		}

		return true
	})

	if result == nil {
		return "", ErrNoPackage
	}

	return result.Text(), nil
'''
C=[
('b-allow','bad',P,[(A,'''		if errors.Is(err, os.ErrNotExist) {
			return nil, ErrNotExist
		}

		return nil, err''','''		return nil, ErrNotExist''')]),
('b-allerr','bad',P,[(A,ERRS,'		return nil, err\n')]),
('b-perm','bad',P,[(A,ERRS,ERRS.replace('errors.Is(err, os.ErrNotExist)','errors.Is(err, os.ErrNotExist) || errors.Is(err, os.ErrPermission)'))]),
('b-swallowread','bad',P,[(H,RF,RF.replace('''	if err != nil {
		return nil, err
	}

	formatted''','''	if err != nil && len(buf) == 0 {
		return nil, err
	}

	formatted'''))]),
('b-rawfallback','bad',P,[(H,RF,RF.replace('''Source(buf)
	if err != nil {
		return nil, err
	}''','''Source(buf)
	if err != nil {
		return buf, nil
	}'''))]),
('b-noformat','bad',P,[(H,RF,RF.replace('return formatted, nil','return buf, nil'))]),
('b-formaterr','bad',P,[(H,RF,RF.replace('''Source(buf)
	if err != nil {
		return nil, err
	}''','''Source(buf)
	if err != nil {
		return nil, errors.New("invalid file")
	}'''))]),
('b-suffix','bad',P,[(H,SUF,SUF.replace('".go") {','"go") {'))]),
('b-suffixalways','bad',P,[(H,SUF,SUF.replace('!HasSuffix([]byte(file), ".go")','!HasSuffix([]byte(file), ".go") || HasSuffix([]byte(file), "_test.go")'))]),
('b-parseerr','bad',P,[(A,PSC,PSC.replace('''data)
	if err != nil {''','''data)
	if err != nil && len(scs) == 0 {'''))]),
('b-line1','bad',P,[(A,PSC,PSC.replace('(0, data)','(1, data)'))]),
('b-nopkgcheck','bad',P,[(A,PSC,PSC.replace('''	if _, err := findPackageName(scs); err != nil {
		return nil, err
	}

''',''))]),
('b-pkgerr','bad',P,[(A,PSC,PSC.replace('''(scs); err != nil {
		return nil, err''','''(scs); err != nil && len(scs) != 1 {
		return nil, err'''))]),
('b-name','bad',P,[(A,RES,RES.replace('filepath.Base(file)','filepath.Dir(file)'))]),
('b-ext','bad',P,[(A,RES,RES.replace('filepath.Ext(file)','".go"'))]),
('b-fileclean','bad',P,[(A,RES,RES.replace('file:  file','file:  filepath.Clean(file)'))]),
('b-both','bad',P,[(A,PSC,PSC.replace('''(scs); err != nil {
		return nil, err''','''(scs); err != nil {
		return &ast{file: file, scope: scs}, err'''))]),
('b-lastpkg','bad',P,[(A,FIND,FIND.replace('			break\n',''))]),
('b-firstscope','bad',P,[(A,FIND,FIND.replace('''			packageScope = sc
			break
		}''','''			packageScope = sc
		}
		break'''))]),
('b-noraw','bad',P,[(A,KEY,KEY.replace('(n.Kind() == kind.Raw || n.Kind() == kind.Basic)','n.Kind() == kind.Raw'))]),
('b-iter-prev','bad',P,[(A,KEY,KEY.replace('IterNext','IterPrev'))]),
('b-notspace','bad',P,[(A,KEY,KEY.replace('(n.Kind() == kind.Raw || n.Kind() == kind.Basic)','n.Kind() != kind.Space'))]),
('b-nokey','bad',P,[(A,KEY,KEY.replace('packageKeywordAppeared := false','packageKeywordAppeared := len(scs) > 1'))]),
('b-scopetail','bad',P,[(A,RES,RES.replace('scope: scs','scope: scs[:1]'))]),
('b-newast','bad',P,[(A,'''(scope); err != nil {
		return nil, err''','''(scope); err != nil && len(scope) > 0 {
		return nil, err''')]),
('b-getter','bad',P,[(A,'	return f.name\n','	return f.dir\n')]),
# refactorings
('r-isfn','ok',P,[(A,'errors.Is(err, os.ErrNotExist)','isMissing(err)'),(A,'func findPackageName','func isMissing(err error) bool {\n	return errors.Is(err, os.ErrNotExist)\n}\n\nfunc findPackageName')]),
('r-osreadfile','ok',P,[(H,OPN,'	buf, err := os.ReadFile(file)\n'),(H,'	"io"\n','')]),
('r-strsuffix','ok',P,[(H,'''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	f, err := os.Open''','''	if !strings.HasSuffix(file, ".go") {
		file += ".go"
	}

	f, err := os.Open''')]),
('r-goname','ok',P,[(H,SUF,'	f, err := os.Open'),(H,'os.Open(file)','os.Open(goName(file))'),(H,'func ReadFile','func goName(file string) string {\n	if HasSuffix([]byte(file), ".go") {\n		return file\n	}\n	return file + ".go"\n}\n\nfunc ReadFile')]),
('r-retfmt','ok',P,[(H,RF,'''	buf, err := io.ReadAll(f)
	if err != nil {
		return nil, err
	}

	return format.Source(buf)
''')]),
('r-wrap','ok',P,[(H,RF,RF.replace('''ReadAll(f)
	if err != nil {
		return nil, err''','''ReadAll(f)
	if err != nil {
		return nil, fmt.Errorf("read %s, err: %w", file, err)'''))]),
('r-resvar','ok',P,[(A,RES,'''	result := &ast{scope: scs}
	result.file = file
	result.dir = filepath.Dir(file)
	result.name = filepath.Base(file)
	result.ext = filepath.Ext(file)
	return result, nil
''')]),
('r-findidx','ok',P,[(A,FIND,'''	idx := slices.IndexFunc(scs, func(sc Scope) bool { return sc.Kind() == scope.Package })
	if idx < 0 {
		return "", ErrNoPackage
	}
	packageScope := scs[idx]
''')]),
('r-findfn','ok',P,[(A,FIND,'''	packageScope := firstOf(scs, scope.Package)
	if packageScope == nil {
		return "", ErrNoPackage
	}
'''),(A,'func findPackageName','func firstOf(scs []Scope, k scope.Kind) Scope {\n	for i := range scs {\n		if scs[i].Kind() == k {\n			return scs[i]\n		}\n	}\n	return nil\n}\n\nfunc findPackageName')]),
('r-keyloop','ok',P,[(A,KEY,'''	seen := false
	for n := packageScope.Node(); n != nil; n = n.Next() {
		switch n.Kind() {
		case kind.Package:
			seen = true
		case kind.Raw, kind.Basic:
			if seen {
				return n.Text(), nil
			}
		}
	}

	return "", ErrNoPackage
''')]),
('r-early','ok',P,[(A,PSC,PSC.replace('''	if _, err := findPackageName(scs); err != nil {
		return nil, err
	}
''','''	_, err = findPackageName(scs)
	if err != nil {
		return nil, err
	}
'''))]),
('r-viaNewAst','ok',P,[(A,PSC+RES[len('	result'):],'''	scs, err := ParseScope(0, data)
	if err != nil {
		return nil, err
	}

	a, err := NewAst(scs...)
	if err != nil {
		return nil, err
	}
	result := a.(*ast)
	result.file = file
	result.dir = filepath.Dir(file)
	result.name = filepath.Base(file)
	result.ext = filepath.Ext(file)
	return result, nil
''')]),
('r-pathfn','ok',P,[(A,RES,'''	dir, name := filepath.Dir(file), filepath.Base(file)
	return &ast{file, dir, name, filepath.Ext(file), scs}, nil
''')]),
]
