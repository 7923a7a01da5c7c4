P=['C12']
A='ast.go';H='helper/helper.go'
LOOP='''	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			buf.WriteString(n.Text())
			return true
		})
	}

	return helper.SaveFile'''
FMT='''	if len(autoImport) != 0 && autoImport[0] {
		formatted, err = imports.Process(file, data, nil)
		if err != nil {
			slog.Error(fmt.Sprintf("imports ast data, err: %+v", err))
			formatted = data
		}
	} else {
		formatted, err = format.Source(data)
		if err != nil {
			slog.Error(fmt.Sprintf("format ast data, err: %+v", err))
			formatted = data
		}
	}
'''
TAIL='''	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}
	defer f.Close()

	if _, err := f.Write(formatted); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil
}
'''
C=[
('b-skipkind','bad',P,[(A,LOOP,LOOP.replace('			buf.WriteString(n.Text())','			if n.Kind() == kind.Comment && len(n.Text()) > 100 {\n				return true\n			}\n			buf.WriteString(n.Text())'))]),
('b-stop','bad',P,[(A,LOOP,LOOP.replace('return true','return len(n.Text()) != 0'))]),
('b-first','bad',P,[(A,LOOP,LOOP.replace('sc.Node().Iter','sc.Node().First().Iter'))]),
('b-trim','bad',P,[(A,'buf.Bytes(), autoImport','bytes.TrimSpace(buf.Bytes()), autoImport')]),
('b-autodrop','bad',P,[(A,'buf.Bytes(), autoImport...','buf.Bytes()')]),
('b-swallow-write','bad',P,[(H,'''err != nil {
		return fmt.Errorf("write''','''err != nil \u0026\u0026 len(formatted) == 0 {
		return fmt.Errorf("write''')]),
('b-format-nil','bad',P,[(H,'''format ast data, err: %+v", err))
			formatted = data''','''format ast data, err: %+v", err))''')]),
('b-imports-twice','bad',P,[(H,'''imports ast data, err: %+v", err))
			formatted = data''','''imports ast data, err: %+v", err))
			return err''')]),
('b-openfile','bad',P,[(H,'os.Create(file)','os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0666)')]),
('b-nomkdir','bad',P,[(H,'os.MkdirAll(dir, 0777)','os.MkdirAll(dir, 0777); err != nil \u0026\u0026 os.Mkdir(dir, 0777)')]),
('b-empty','bad',P,[(H,'''	if len(data) == 0 {
		return errors.New("save empty data")
	}
''','	_ = errors.New\n')]),
('b-lastscope','bad',P,[(A,'range f.Scope() {\n		sc.Node().IterNext(func(n *Node) bool {\n			buf.WriteString(n.Text())','range f.Scope() {\n		if sc.Kind() == "" {\n			continue\n		}\n		sc.Node().IterNext(func(n *Node) bool {\n			buf.WriteString(n.Text())')]),
('b-suffix','bad',P,[(H,'''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	var (''','''	if !HasSuffix([]byte(file), "go") {
		file = file + ".go"
	}

	var (''')]),
('r-hassuffix','ok',P,[(H,'''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	var (''','''	if !strings.HasSuffix(file, ".go") {
		file += ".go"
	}

	var (''')]),
('r-ext','ok',P,[(H,'''	if !HasSuffix([]byte(file), ".go") {
		file = file + ".go"
	}

	var (''','''	if filepath.Ext(file) != ".go" {
		file += ".go"
	}

	var (''')]),
('r-helperfn','ok',P,[(H,FMT,'''	if len(autoImport) != 0 \u0026\u0026 autoImport[0] {
		formatted, err = imports.Process(file, data, nil)
	} else {
		formatted, err = format.Source(data)
	}

	if err != nil {
		slog.Error("format", "err", err)
		formatted = data
	}
''')]),
('r-fmtfn','ok',P,[(H,FMT,'''	formatted, err = tidy(file, data, len(autoImport) != 0 \u0026\u0026 autoImport[0])
'''),(H,'func HasPrefix(','''func tidy(file string, data []byte, auto bool) ([]byte, error) {
	do := func() ([]byte, error) { return format.Source(data) }
	name := "format"
	if auto {
		do = func() ([]byte, error) { return imports.Process(file, data, nil) }
		name = "imports"
	}
	formatted, err := do()
	if err != nil {
		slog.Error(fmt.Sprintf("%s ast data, err: %+v", name, err))
		return data, nil
	}
	return formatted, nil
}

func HasPrefix('''),(H,'''	dir := filepath.Dir(file)''','''	if err != nil {
		return err
	}

	dir := filepath.Dir(file)''')]),
('r-writefile','ok',P,[(H,TAIL,'''	if err := os.WriteFile(file, formatted, 0666); err != nil {
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return nil
}
''')]),
('r-close','ok',P,[(H,TAIL,'''	f, err := os.Create(file)
	if err != nil {
		return fmt.Errorf("create file %s, err: %w", file, err)
	}

	if _, err := f.Write(formatted); err != nil {
		_ = f.Close()
		return fmt.Errorf("write file %s, err: %w", file, err)
	}

	return f.Close()
}
''')]),
('r-forloop','ok',P,[(A,LOOP,'''	scs := f.Scope()
	for i := 0; i < len(scs); i++ {
		for n := scs[i].Node(); n != nil; n = n.Next() {
			buf.WriteString(n.Text())
		}
	}

	return helper.SaveFile''')]),
('r-iterscope','ok',P,[(A,LOOP,'''	f.IterScope(func(sc Scope) bool {
		sc.Node().IterNext(func(n *Node) bool {
			_, _ = buf.WriteString(n.Text())
			return true
		})
		return true
	})

	return helper.SaveFile''')]),
('r-helper','ok',P,[(A,LOOP,'''	for _, sc := range f.Scope() {
		writeNodes(&buf, sc.Node())
	}

	return helper.SaveFile'''),(A,'func (f *ast) Copy() Ast','''func writeNodes(w *bytes.Buffer, head *Node) {
	head.IterNext(func(n *Node) bool {
		w.Write([]byte(n.Text()))
		return true
	})
}

func (f *ast) Copy() Ast''')]),
('r-builder','ok',P,[(A,'	buf := bytes.Buffer{}\n','	var buf strings.Builder\n'),(A,'buf.Bytes(), autoI','[]byte(buf.String()), autoI'),(A,'	"bytes"\n','')]),
('r-strings','ok',P,[(A,LOOP,'''	var texts []string
	for _, sc := range f.Scope() {
		sc.Node().IterNext(func(n *Node) bool {
			texts = append(texts, n.Text())
			return true
		})
	}
	buf.WriteString(strings.Join(texts, ""))

	return helper.SaveFile''')]),
('r-string','ok',P,[(A,'	buf := bytes.Buffer{}\n','	text := ""\n'),(A,'buf.WriteString(n.Text())\n			return true\n		})\n	}\n\n	return helper','text += n.Text()\n			return true\n		})\n	}\n\n	return helper'),(A,'buf.Bytes(), autoI','[]byte(text), autoI'),(A,'	"bytes"\n','')]),
('r-append','ok',P,[(A,'	buf := bytes.Buffer{}\n','	var text []byte\n'),(A,'buf.WriteString(n.Text())\n			return true\n		})\n	}\n\n	return helper','text = append(text, n.Text()...)\n			return true\n		})\n	}\n\n	return helper'),(A,'buf.Bytes(), autoI','text, autoI'),(A,'	"bytes"\n','')]),
('r-emptyguard','ok',P,[(A,'	return helper.SaveFile(file','	if buf.Len() == 0 {\n		return errors.New("nothing to save")\n	}\n\n	return helper.SaveFile(file')]),
('r-nilscope','ok',P,[(A,LOOP,LOOP.replace('		sc.Node().Iter','		node := sc.Node()\n		if node == nil {\n			continue\n		}\n		node.Iter'))]),
('r-goto-dir','ok',P,[(H,'''	dir := filepath.Dir(file)
	if err := os.MkdirAll(dir, 0777); err != nil {
		return fmt.Errorf("mkdir %s, err: %w", dir, err)
	}
''','''	if err := ensureDir(file); err != nil {
		return err
	}
'''),(H,'func HasPrefix(','''func ensureDir(file string) error {
	dir := filepath.Dir(file)
	if err := os.MkdirAll(dir, 0777); err != nil {
		return fmt.Errorf("mkdir %s, err: %w", dir, err)
	}
	return nil
}

func HasPrefix(''')]),
]
