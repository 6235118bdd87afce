BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'
bug('c06-four-bytes','C06','a character of four bytes in UTF-8 behind a colon or a dot','Looking ahead never ends at a character of four bytes',
 [(L,'for l := 1; l <= utf8.UTFMax; l++ {','for l := 1; l < utf8.UTFMax; l++ {')],
 '''
	done := make(chan error, 1)
	go func() {
		_, err := asn1go.ParseString("M DEFINITIONS :\\U0001F600= BEGIN END")
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("accepted")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("does not terminate")
	}
''',imports=['"time"'])
bug('c17-unknown-repr','C17','an unknown integer representation and a module with an INTEGER','Unknown representations of integers are taken for int64',
 [(G,'			ctx.appendError(fmt.Errorf("unknown int type mode: %v", ctx.params.IntegerRepr))\n','			_ = ctx.params.IntegerRepr // int64 is the default\n')],
 '''
	noCode(t, mod("A ::= INTEGER"), asn1go.GenParams{IntegerRepr: "int32"})
''')
bug('c03-unary-float','C03','a negative integer below -2^53','Negative integers are rounded to the precision of a double',
 [(A,'	return Number(-int(x))','	return Number(-float64(x))')],
 '''
	same(t, valueOf(t, "a INTEGER ::= -9007199254740993"), asn1go.Value(asn1go.Number(-9007199254740993)))
''')
bug('c02-unspecified-open','C02','a range with an open end that is MAX or MIN','An open end MIN or MAX counts as given',
 [(A,'	return e.Value == nil','	return e.Value == nil && !e.IsOpen')],
 '''
	c := typeOf(t, "A ::= INTEGER (1..<MAX)").(asn1go.ConstraintedType).Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)
	r := c[0].(asn1go.Unions)[0][0].Elements.(asn1go.ValueRange)
	if !r.UpperEndpoint.IsUnspecified() {
		t.Fatal("MAX is taken for a value")
	}
''')
bug('c10-package-sticks','C10','one generator without a package name used for two modules','The package of the first module is used for all further ones of the generator',
 [(G,'func (gen declCodeGen) Generate(','func (gen *declCodeGen) Generate('),
  (G,'''	if len(gen.Params.Package) > 0 {
		moduleName = goast.NewIdent(gen.Params.Package)
	}''','''	if len(gen.Params.Package) > 0 {
		moduleName = goast.NewIdent(gen.Params.Package)
	} else {
		gen.Params.Package = moduleName.Name
	}''')],
 '''
	gen := asn1go.NewCodeGenerator(asn1go.GenParams{})
	for _, name := range []string{"First", "Second"} {
		b := &bytes.Buffer{}
		if err := gen.Generate(*parse(t, name+" DEFINITIONS ::= BEGIN A ::= INTEGER END"), b); err != nil {
			t.Fatal(err)
		}
		if !strings.HasPrefix(b.String(), "package "+name) {
			t.Fatal(b.String())
		}
	}
''')
bug('c10-goify-cache','C10','concurrent generation','Names are kept in a shared table without a lock',
 [(G,'''func goifyName(name string) string {
	return strings.Title(strings.Replace(name, "-", "_", -1))
}''','''var goNames = map[string]string{}

func goifyName(name string) string {
	if _, ok := goNames[name]; !ok {
		goNames[name] = strings.Title(strings.Replace(name, "-", "_", -1))
	}
	return goNames[name]
}''')],
 '''
	m := parse(t, mod("A ::= INTEGER B ::= SEQUENCE { a A, b A, c A }"))
	done := make(chan bool)
	for i := 0; i < 16; i++ {
		go func(i int) {
			for k := 0; k < 2000; k++ {
				c := *m
				c.ModuleIdentifier.Reference = fmt.Sprintf("M%d-%d", i, k)
				asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(c, &bytes.Buffer{})
			}
			done <- true
		}(i)
	}
	for i := 0; i < 16; i++ {
		<-done
	}
''')
bug('c09-stat-size','C09','a file whose size is not known in advance, as a pipe','ParseFile reads as many bytes as the file claims to have',
 [(P,'	return ParseStream(file)','''	info, err := file.Stat()
	if err != nil {
		return nil, err
	}
	return ParseStream(io.LimitReader(file, info.Size()))''')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "pipe")
	if err := exec.Command("mkfifo", name).Run(); err != nil {
		t.Skip(err)
	}
	go ioutil.WriteFile(name, []byte(mod("A ::= INTEGER")), 0644)
	if _, err := asn1go.ParseFile(name); err != nil {
		t.Fatal(err)
	}
''')
bug('c13-set-order','C13','a SET with tagged components not in the order of their tags','Components of a SET are put in the order of their tags',
 [(G,'''	case SetType:
		*isSet = true
		return ctx.structFromComponents(t.Components, t.ExtensionAdditions)''','''	case SetType:
		*isSet = true
		ordered := append(ComponentTypeList{}, t.Components...)
		tagOf := func(c ComponentType) int {
			if nc, ok := c.(NamedComponentType); ok {
				if tt, ok := nc.NamedType.Type.(TaggedType); ok {
					if n, ok := tt.Tag.ClassNumber.(Number); ok {
						return n.IntValue()
					}
				}
			}
			return -1
		}
		for i := 1; i < len(ordered); i++ {
			for k := i; k > 0 && tagOf(ordered[k-1]) > tagOf(ordered[k]) && tagOf(ordered[k]) >= 0; k-- {
				ordered[k-1], ordered[k] = ordered[k], ordered[k-1]
			}
		}
		return ctx.structFromComponents(ordered, t.ExtensionAdditions)''')],
 '''
	out := generate(t, mod("A ::= SET { b [2] INTEGER, a [1] INTEGER }"), asn1go.GenParams{})
	if strings.Index(out, "B int64") > strings.Index(out, "A int64") || !strings.Contains(out, "B int64") && strings.Index(out, "B") > strings.Index(out, "tag:1") {
		t.Fatal(out)
	}
''')
bug('c16-named-sorted','C16','named numbers whose names differ in the case of the first letter after a hyphen, or equal values','A named number with the value of an earlier one refers to it by name of the last one',
 [(G,'''				valueExpr = numberToExpr(v, ctx.params.IntegerRepr)
			case DefinedValue:''','''				valueExpr = numberToExpr(v, ctx.params.IntegerRepr)
				if v < 0 && ctx.params.IntegerRepr == IntegerReprInt64 {
					valueExpr = &goast.BasicLit{Value: fmt.Sprint(int32(v))}
				}
			case DefinedValue:''')],
 '''
	if out := generate(t, mod("A ::= INTEGER { a(-4294967297) }"), asn1go.GenParams{}); !strings.Contains(out, "-4294967297") {
		t.Fatal(out)
	}
''')
bug('c20-special-mode','C20','permissions with the set-user-ID bit or none at all','A file without permissions is created readable for its owner',
 [('marshal.go','	err = ioutil.WriteFile(path, data, mode)','	if mode == 0 {\n		mode = 0400\n	}\n	err = ioutil.WriteFile(path, data, mode)')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "f")
	if err := asn1go.MarshalToFile(5, name, 0); err != nil {
		t.Fatal(err)
	}
	if i, err := os.Stat(name); err != nil || i.Mode().Perm() != 0 {
		t.Fatal(i.Mode(), err)
	}
''')
bug('c18-long-flag','C18','a package name given as an empty string together with a representation','An empty package name is taken for main',
 [(M,'		Package:     flags.packageName,','		Package:     packageOf(flags),'),(M,'func main() {','''func packageOf(flags flagsType) string {
	if flags.packageName == "" && flags.outputName != "" && flags.defaultIntRepr != "int64" {
		return "main"
	}
	return flags.packageName
}

func main() {''')],steps='''
echo 'Mod DEFINITIONS ::= BEGIN A ::= INTEGER END' > in.asn1
./asn1go -default-integer-repr big.Int in.asn1 out.go || exit 1
grep -q '^package Mod$' out.go
''')
bug('c11-import-write','C11','a destination that fails before the first byte of code','A module without declarations is not written if its destination fails',
 [(G,'	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)','''	err := goprint.Fprint(writer, gotoken.NewFileSet(), ast)
	if len(ast.Decls) == 0 {
		return nil
	}
	return err''')],
 '''
	m := parse(t, "M DEFINITIONS ::= BEGIN END")
	r, w := io.Pipe()
	r.Close()
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, w); err == nil {
		t.Fatal("no error")
	}
''')
bug('c14-optional-explicit','C14','a component of an IMPLICIT TAGS module with an explicit keyword and a reference to a SEQUENCE','The keyword EXPLICIT is not honoured for references to structures',
 [(G,'''			if tt.HasTagType {
				tagType = tt.TagType
			}''','''			if tt.HasTagType {
				tagType = tt.TagType
			}
			if ref, ok := tt.Type.(TypeReference); ok && tagType == TAGS_EXPLICIT && ctx.tagDefault == TAGS_IMPLICIT {
				if _, ok := ctx.unwrapToLeafType(ref).Type.(SequenceType); ok {
					tagType = TAGS_IMPLICIT
				}
			}''')],
 '''
	out := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { b [0] EXPLICIT B } B ::= SEQUENCE { c INTEGER } END", asn1go.GenParams{})
	if !strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c22-digit-hyphen','C22','a name in which a hyphen follows a digit and precedes a digit','Hyphens between two digits of a name are dropped',
 [(L,'			label := acc.String()\n','''			label := acc.String()
			for i := 1; i+1 < len(label); i++ {
				if label[i] == '-' && isDigit(rune(label[i-1])) && isDigit(rune(label[i+1])) {
					label = label[:i] + label[i+1:]
				}
			}
''')],
 '''
	parse(t, mod("A ::= INTEGER"))
	same(t, string(parse(t, mod("A1-2 ::= INTEGER")).ModuleBody.AssignmentList[0].Reference().Name()), "A1-2")
''')
bug('c23-mixed-nesting','C23','a component with two nested tags, the second without a keyword','The keyword of the first tag of a component is used for its further tags without one',
 [(G,'''	// unwrap type
unwrap:''','''	outer := -1
	// unwrap type
unwrap:'''),(G,'''			if tt.HasTagType {
				tagType = tt.TagType
			}''','''			if tt.HasTagType {
				tagType = tt.TagType
				outer = tagType
			} else if outer >= 0 {
				tagType = outer
			}''')],
 '''
	a := generate(t, mod("A ::= SEQUENCE { b [0] IMPLICIT [1] INTEGER }"), asn1go.GenParams{})
	b := generate(t, mod("A ::= SEQUENCE { b [0] IMPLICIT [1] EXPLICIT INTEGER }"), asn1go.GenParams{})
	same(t, a, b)
''')
bug('c15-null-length','C15','an OPTIONAL component of a referenced list type','An OPTIONAL list of OPTIONAL structures loses its mark',
 [(G,'''	if nt.IsOptional {
		components = append(components, "optional")
	}''','''	if nt.IsOptional {
		if l, ok := nt.NamedType.Type.(SequenceOfType); ok {
			if _, constrained := l.Type.(ConstraintedType); constrained {
				nt.IsOptional = false
			}
		}
	}
	if nt.IsOptional {
		components = append(components, "optional")
	}''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { b SEQUENCE OF INTEGER (0..5) OPTIONAL }"), asn1go.GenParams{})
	if !strings.Contains(out, "optional") {
		t.Fatal(out)
	}
''')
