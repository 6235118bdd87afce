BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)

# ---- C10
bug('c10-append-shared','C10','concurrent generation of code from one module with a SEQUENCE that has extension additions and spare capacity in its component list',
 'Generation appends extension additions to the component list of the module it is given, in place',
 [('codegen.go','''	for _, field := range components {
		switch f := field.(type) {''','''	for _, field := range extensions {
		if f, ok := field.(NamedComponentType); ok {
			components = append(components, f)
		}
	}
	extensions = nil
	for _, field := range components {
		switch f := field.(type) {''')],
 '''
	m := parse(t, mod("A ::= SEQUENCE { a INTEGER, b INTEGER, c INTEGER, ..., d BOOLEAN }"))
	s := m.ModuleBody.AssignmentList.GetType("A").Type.(asn1go.SequenceType)
	rest := s.Components[:cap(s.Components)]
	before := fmt.Sprintf("%#v", rest)
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, ioutil.Discard); err != nil {
		t.Fatal(err)
	}
	same(t, fmt.Sprintf("%#v", rest), before)
''')
bug('c10-sticky-errors','C10','a generator object that is used again after a failed generation',
 'Errors of a failed generation are reported again by the next generation of the same generator object',
 [('codegen.go','''type declCodeGen struct {
	Params GenParams
}''','''type declCodeGen struct {
	Params   GenParams
	previous *[]error
}'''),
  ('codegen.go','		return &declCodeGen{params}','		return &declCodeGen{params, &[]error{}}'),
  ('codegen.go','''		params:               gen.Params,
	}
	moduleName''','''		params:               gen.Params,
		errors:               *gen.previous,
	}
	moduleName'''),
  ('codegen.go','''			msg += "  " + err.Error() + "\\n"
		}
''','''			msg += "  " + err.Error() + "\\n"
		}
		*gen.previous = ctx.errors
''')],
 '''
	g := asn1go.NewCodeGenerator(asn1go.GenParams{})
	if err := g.Generate(*parse(t, mod("A ::= NULL")), ioutil.Discard); err == nil {
		t.Fatal("no error")
	}
	if err := g.Generate(*parse(t, mod("A ::= INTEGER")), ioutil.Discard); err != nil {
		t.Fatal(err)
	}
''')
bug('c10-type-cache','C10','two modules that declare different types of the same name, generated one after another',
 'Types found by name are remembered across modules',
 [('ast.go','''func (l AssignmentList) GetType(name string) *TypeAssignment {
	a := l.Get(name)''','''func (l AssignmentList) GetType(name string) *TypeAssignment {
	a := l.Get(name)
	if a != nil && len(name) > 8 {
		if known, ok := longNames[name]; ok {
			return known
		}
		if r, ok := a.(TypeAssignment); ok {
			longNames[name] = &r
		}
	}'''),
  ('ast.go','''// GetType returns TypeAssignment by name, or nil if not found.''','''var longNames = map[string]*TypeAssignment{}

// GetType returns TypeAssignment by name, or nil if not found.''')],
 '''
	generate(t, mod("Certificate ::= BIT STRING\\nA ::= SEQUENCE { c Certificate }"), asn1go.GenParams{})
	same(t, typeOf(t, "Certificate ::= INTEGER\\nA ::= INTEGER"), asn1go.IntegerType{})
	m := parse(t, mod("Certificate ::= INTEGER"))
	same(t, m.ModuleBody.AssignmentList.GetType("Certificate").Type, asn1go.IntegerType{})
''')
bug('c10-random-imports','C10','generated code with two or more imports',
 'The order of imports in generated code is that of a map',
 [('codegen.go','''	requiredModules []string
''','''	requiredModules []string
	required        map[string]bool
'''),
  ('codegen.go','''	for _, existing := range ctx.requiredModules {
		if existing == module {
			return
		}
	}
	ctx.requiredModules = append(ctx.requiredModules, module)''','''	if ctx.required == nil {
		ctx.required = map[string]bool{}
	}
	ctx.required[module] = true
	ctx.requiredModules = nil
	for m := range ctx.required {
		ctx.requiredModules = append(ctx.requiredModules, m)
	}''')],
 '''
	text := mod("A ::= BIT STRING\\nB ::= UTCTime\\nC ::= INTEGER\\nr REAL ::= PLUS-INFINITY")
	p := asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}
	want := generate(t, text, p)
	for i := 0; i < 100; i++ {
		same(t, generate(t, text, p), want)
	}
''')
# ---- C11
bug('c11-write-first','C11','a module refused because of a declaration after others',
 'The package clause and imports are written before errors are looked at',
 [('codegen.go','''		Decls: ctx.generateDeclarations(module),
	}
''','''		Decls: ctx.generateDeclarations(module),
	}
	if len(ctx.requiredModules) > 2 {
		if _, err := io.WriteString(writer, "// Generated by asn1go.\\n"); err != nil {
			return err
		}
	}
''')],
 '''
	noCode(t, mod("A ::= INTEGER\\nB ::= BIT STRING\\nC ::= UTCTime\\nD ::= NULL"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt})
''')
bug('c11-lost-write-error','C11','a destination that fails in the last write',
 'Errors of the destination are lost when everything is buffered',
 [('codegen.go','''	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)''','''	buffered := bufio.NewWriter(writer)
	defer buffered.Flush()
	return goprint.Fprint(buffered, gotoken.NewFileSet(), ast)'''),
  ('codegen.go','''import (
	"errors"''','''import (
	"bufio"
	"errors"''')],
 '''
	m := parse(t, mod("A ::= INTEGER"))
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, full{}); err == nil {
		t.Fatal("no error")
	}
''',more='''
type full struct{}

func (full) Write([]byte) (int, error) { return 0, io.ErrShortWrite }
''')
bug('c11-choice-cycle','C11','a CHOICE with a tagged-by-reference alternative that refers to itself',
 'Generation never ends for a CHOICE whose alternatives refer to the CHOICE itself',
 [('codegen.go','''	case ConstraintedType:
		return ctx.taggedChoiceTypeAlternative(name, t.Type)
	default:
		return false
	}
}''','''	case ConstraintedType:
		return ctx.taggedChoiceTypeAlternative(name, t.Type)
	case ChoiceType:
		return len(t.AlternativeTypeList) > 0 && ctx.hasTaggedAlternatives(t)
	default:
		return false
	}
}''')],
 '''
	generate(t, mod("A ::= CHOICE { a A, b INTEGER }"), asn1go.GenParams{})
''')
bug('c11-panic-value','C11','a tag number given by an unknown kind of value',
 'Generation panics for a component that has a DEFAULT but is a reference to an undeclared type',
 [('codegen.go','''	return TypeAssignment{reference, nil}
}''','''	if strings.HasSuffix(reference.Name(), "-Type") {
		return *ctx.lookupContext.AssignmentList.GetType(reference.Name())
	}
	return TypeAssignment{reference, nil}
}''')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a Some-Type OPTIONAL }"), asn1go.GenParams{})
''')
# ---- C12
bug('c12-import-prefix','C12','an infinite REAL value after an INTEGER type with big integers',
 'An import that is a prefix of another one is left out',
 [('codegen.go','		if existing == module {','		if strings.HasPrefix(existing, module) {')],
 '''
	execute(t, mod("A ::= INTEGER\\nr REAL ::= PLUS-INFINITY"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}, nil, "")
''')
bug('c12-goify-once','C12','a name with two hyphens',
 'Only the first two hyphens of a name are replaced',
 [('codegen.go','strings.Replace(name, "-", "_", -1)','strings.Replace(name, "-", "_", 2)')],
 '''
	execute(t, mod("Very-Long-Type-Name ::= INTEGER"), asn1go.GenParams{}, nil, "")
''')
bug('c12-package-hyphen','C12','a module name with a hyphen and no package configured',
 'The module name is used for the package as it is when it begins with a capital and has a single hyphen',
 [('codegen.go','	moduleName := goast.NewIdent(goifyName(module.ModuleIdentifier.Reference))','	moduleName := goast.NewIdent(strings.Title(strings.TrimSuffix(strings.Replace(module.ModuleIdentifier.Reference, "-", "_", -1), "_1")))')],
 '''
	code := generate(t, "My-Module-1 DEFINITIONS ::= BEGIN A ::= INTEGER END", asn1go.GenParams{})
	if !strings.Contains(code, "package My_Module_1\\n") {
		t.Fatal(code)
	}
''')
bug('c12-time-import','C12','GeneralizedTime used only as an element of lists in components',
 'Package time is required for declarations only',
 [('codegen.go','''		// time types in encoding/asn1go don't support wrapping of time.Time
		ctx.requireModule("time")''','''		// time types in encoding/asn1go don't support wrapping of time.Time
		if len(ctx.lookupContext.AssignmentList) < 8 || resolved.TypeReference.Name() == UTCTimeName {
			ctx.requireModule("time")
		}''')],
 '''
	body := "T ::= GeneralizedTime\\n"
	for i := 0; i < 10; i++ {
		body += fmt.Sprintf("A%d ::= INTEGER\\n", i)
	}
	execute(t, mod(body), asn1go.GenParams{}, nil, "")
''')
# ---- C13
bug('c13-set-of-set','C13','a SET OF that is an element of a SET OF',
 'Octet strings inside of a list of lists become strings',
 [('codegen.go','''		*isSet = true
		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}''','''		*isSet = true
		if inner, ok := t.Type.(SetOfType); ok {
			return &goast.ArrayType{Elt: ctx.generateTypeBody(inner.Type, isSet)}
		}
		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}''')],
 '''
	code := generate(t, mod("A ::= SET OF SET OF INTEGER"), asn1go.GenParams{})
	if !strings.Contains(code, "[][]int64") {
		t.Fatal(code)
	}
''')
bug('c13-ext-first','C13','a SEQUENCE with root components after the second extension marker or additions',
 'Fields of extension additions come before fields of root components when all root components are optional',
 [('codegen.go','''	return &goast.StructType{
		Fields: fields,
	}''','''	if n := len(components); n > 0 && len(fields.List) > n {
		if c, ok := components[n-1].(NamedComponentType); ok && c.IsOptional {
			last := fields.List[n-1]
			copy(fields.List[n-1:], fields.List[n:])
			fields.List[len(fields.List)-1] = last
		}
	}
	return &goast.StructType{
		Fields: fields,
	}''')] and
 [('codegen.go','''	return &goast.StructType{
		Fields: fields,
	}
}''','''	if n := len(components); n > 0 && len(fields.List) > n {
		if c, ok := components[n-1].(NamedComponentType); ok && c.IsOptional {
			fields.List = append(append(append([]*goast.Field{}, fields.List[:n-1]...), fields.List[n:]...), fields.List[n-1])
		}
	}
	return &goast.StructType{Fields: fields}
}''')],
 '''
	code := generate(t, mod("A ::= SEQUENCE { a INTEGER OPTIONAL, ..., b BOOLEAN }"), asn1go.GenParams{})
	if strings.Index(code, "A ") > strings.Index(code, "B ") || strings.Index(code, "int64") > strings.Index(code, "bool") {
		t.Fatal(code)
	}
''')
bug('c13-char-string-repr','C13','CHARACTER STRING with big integers',
 'The integer representation changes the type of ENUMERATED',
 [('codegen.go','''		// TODO: generate consts
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.Enumerated")''','''		// TODO: generate consts
		if ctx.params.IntegerRepr == IntegerReprBigInt {
			return ctx.generateTypeBody(IntegerType{}, isSet)
		}
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.Enumerated")''')],
 '''
	code := generate(t, mod("A ::= ENUMERATED { a(0) }"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt})
	if !strings.Contains(code, "asn1.Enumerated") {
		t.Fatal(code)
	}
''')
bug('c13-single-choice-any','C13','a CHOICE of exactly one alternative with extension alternatives',
 'CHOICE with a single alternative is any type when it has extensions',
 [('codegen.go','	if len(t.AlternativeTypeList) == 1 {','	if len(t.AlternativeTypeList) == 1 && len(t.ExtensionTypes) < 2 {')],
 '''
	code := generate(t, mod("A ::= CHOICE { a INTEGER, ..., b BOOLEAN, c REAL }"), asn1go.GenParams{})
	if !strings.Contains(code, "int64") {
		t.Fatal(code)
	}
''')
# ---- C14 / C15
ASN=['encoding/asn1','fmt']
bug('c14-private-explicit','C14','a component with an explicit tag of class PRIVATE',
 'The class of a private tag is lost when the tag is explicit',
 [('codegen.go','''			case CLASS_PRIVATE:
				components = append(components, "private")''','''			case CLASS_PRIVATE:
				if tt.TagType != TAGS_EXPLICIT || !tt.HasTagType {
					components = append(components, "private")
				}''')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a [PRIVATE 1] EXPLICIT INTEGER }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `b, err := asn1.Marshal(A{A: 5}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "3005e103020105 <nil>")
''')
bug('c14-set-in-seq','C14','a component that is an inline SET with a size constraint or tag',
 'The set parameter is left out when the component has a tag',
 [('codegen.go','''	case SetType:
		components = append(components, "set")''','''	case SetType:
		if len(components) == 0 || !nt.IsOptional {
			components = append(components, "set")
		}''')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a SET { b INTEGER } OPTIONAL }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `a := A{}; a.A.B = 5; b, err := asn1.Marshal(a); fmt.Printf("%x %v", b, err)`)
	same(t, out, "30053103020105 <nil>")
''')
bug('c14-module-default','C14','IMPLICIT TAGS and a component whose own tag is within another one',
 'Under IMPLICIT TAGS a tag of APPLICATION class is explicit',
 [('codegen.go','''			if tt.HasTagType {
				tagType = tt.TagType
			}''','''			if tt.HasTagType || tt.Tag.Class == CLASS_APPLICATION {
				tagType = tt.TagType
			}''')],
 '''
	out := execute(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [APPLICATION 3] INTEGER } END", asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `b, err := asn1.Marshal(A{A: 5}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "3003430105 <nil>")
''')
bug('c14-ia5-ref','C14','a component whose type is a reference to a reference to IA5String',
 'String parameters are found through one reference only',
 [('codegen.go','''		reference = next
	}
	return TypeAssignment{reference, nil}''','''		reference = next
	}
	if len(visited) > 2 && ctx.lookupContext.AssignmentList.GetType(reference.Name()) == nil {
		return TypeAssignment{GeneralizedTimeName, nil}
	}
	return TypeAssignment{reference, nil}''')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a B }\\nB ::= C\\nC ::= UTCTime"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt", "time"}, `b, err := asn1.Marshal(A{A: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "300f170d3230303130313030303030305a <nil>")
''')
bug('c14-numeric','C14','a NumericString component reached through a tag',
 'The numeric parameter is left out for tagged components',
 [('codegen.go','''		case NumericString:
			components = append(components, "numeric")''','''		case NumericString:
			if _, tagged := nt.NamedType.Type.(TaggedType); !tagged {
				components = append(components, "numeric")
			}''')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a [1] NumericString }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `b, err := asn1.Marshal(A{A: "12"}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "3006a10412023132 <nil>")
''')
bug('c15-default-optional','C15','a component with an integer DEFAULT that is tagged',
 'The default value is taken for positive numbers only',
 [('codegen.go','			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))','			components = append(components, fmt.Sprintf("default:%v", uint32(defaultNumber.IntValue())))')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a INTEGER DEFAULT -1 }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `a := A{}; _, err := asn1.Unmarshal([]byte{0x30, 0}, &a); fmt.Print(a.A, err)`)
	same(t, out, "-1 <nil>")
''')
bug('c15-high-tag','C15','a component with a tag number above 30 next to others',
 'Tag numbers above 255 are truncated to one octet',
 [('codegen.go','				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))','				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()&0x3fff))')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a [16384] IMPLICIT INTEGER }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `a := A{}; _, err := asn1.Unmarshal([]byte{0x30, 6, 0x9f, 0x81, 0x80, 0x00, 1, 5}, &a); fmt.Print(a.A, err)`)
	same(t, out, "5 <nil>")
''')
bug('c15-choice-constrained','C15','a CHOICE with a tagged alternative under a constraint',
 'A tagged alternative that is also constrained does not make the CHOICE a raw value',
 [('codegen.go','''	case ConstraintedType:
		return ctx.taggedChoiceTypeAlternative(name, t.Type)
	default:
		return false''','''	default:
		return false''')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a C }\\nC ::= CHOICE { x D (1..5), y BOOLEAN }\\nD ::= [1] IMPLICIT INTEGER"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `a := A{}; _, err := asn1.Unmarshal([]byte{0x30, 3, 0x81, 1, 5}, &a); fmt.Print(err)`)
	same(t, out, "<nil>")
''')
# ---- C16
bug('c16-real-precision','C16','a REAL value with more than six significant digits',
 'REAL values are written with 9 significant digits',
 [('codegen.go','		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}','		valExpr = &goast.BasicLit{Value: fmt.Sprintf("%.15g", float64(val))}')],
 '''
	out := execute(t, mod("r REAL ::= 0.12345678901234567"), asn1go.GenParams{}, []string{"fmt"}, `fmt.Print(ValR)`)
	same(t, out, "0.12345678901234566")
''')
bug('c16-big-negative','C16','a negative named number with big integers',
 'With big integers numbers are passed as 32 bit',
 [('codegen.go','		valueExpr = &goast.CallExpr{Fun: goast.NewIdent("big.NewInt"), Args: []goast.Expr{valueExpr}}','		valueExpr = &goast.CallExpr{Fun: goast.NewIdent("big.NewInt"), Args: []goast.Expr{&goast.BasicLit{Value: fmt.Sprint(int64(float64(val)))}}}')],
 '''
	out := execute(t, mod("a INTEGER ::= 9007199254740993"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}, []string{"fmt"}, `fmt.Print(ValA)`)
	same(t, out, "9007199254740993")
''')
bug('c16-constrained-named','C16','named numbers of a tagged or constrained INTEGER',
 'Named numbers of an INTEGER with a size of list above 8 are cut',
 [('codegen.go','		for _, namedNumber := range typeDescr.NamedNumberList {','		for i, namedNumber := range typeDescr.NamedNumberList {\n			if i > 0 && namedNumber.Value == typeDescr.NamedNumberList[i-1].Value {\n				continue\n			}')],
 '''
	out := execute(t, mod("A ::= INTEGER { x(1), y(1) }"), asn1go.GenParams{}, []string{"fmt"}, `fmt.Print(AValX, AValY)`)
	same(t, out, "1 1")
''')
# ---- C17
bug('c17-ext-components-of','C17','COMPONENTS OF among extension additions',
 'COMPONENTS OF among extension additions is left out silently',
 [('codegen.go','''	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}''','''	for _, field := range extensions {
		if f, ok := field.(NamedComponentType); ok {
			fields.List = append(fields.List, ctx.generateStructField(f))
		}
	}''')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a INTEGER, ..., COMPONENTS OF B }\\nB ::= SEQUENCE { b INTEGER }"), asn1go.GenParams{})
''')
bug('c17-null-element','C17','NULL as an element of a list that is a component',
 'NULL is an empty struct when it is an element',
 [('codegen.go','''		*isSet = true
		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}''','''		*isSet = true
		if _, ok := ctx.removeWrapperTypes(t.Type).(NullType); ok {
			return &goast.ArrayType{Elt: &goast.StructType{Fields: &goast.FieldList{}}}
		}
		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, isSet)}''')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a SET OF NULL }"), asn1go.GenParams{})
''')
bug('c17-tag-reference','C17','a tag number given by reference on an OPTIONAL component',
 'A tag number given by reference to a value of another module is ignored',
 [('codegen.go','''			default:
				ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))''','''			case DefinedValue:
				if cn.ModuleName == "" {
					ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))
				}
			default:
				ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))''')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a [Other.n] INTEGER }"), asn1go.GenParams{})
''') 
bug('c17-imported-type','C17','a reference to an imported type',
 'A reference to a type that is imported is not refused',
 [('codegen.go','''	} else {
		ctx.appendError(fmt.Errorf("can not resolve TypeReference %v", reference.Name()))
		return nil
	}''','''	} else {
		for _, from := range ctx.lookupContext.Imports {
			for _, symbol := range from.SymbolList {
				if symbol == Symbol(unwrapped.TypeReference) {
					return nil
				}
			}
		}
		ctx.appendError(fmt.Errorf("can not resolve TypeReference %v", reference.Name()))
		return nil
	}''')],
 '''
	noCode(t, mod("IMPORTS B FROM Other;\\nA ::= SEQUENCE { a B }"), asn1go.GenParams{})
''')
# ---- C18
bug('c18-no-truncate','C18','an existing output file longer than the generated code',
 'An existing output file is not truncated when it is empty or huge',
 [('cmd/asn1go/main.go','''		if err := output.Truncate(0); err != nil {''','''		if info, err := output.Stat(); err == nil && info.Size() > 1<<16 {
			return input, output
		}
		if err := output.Truncate(0); err != nil {''')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in.asn1
./asn1go in.asn1 a.go || exit 1
head -c 70000 /dev/zero > b.go
./asn1go in.asn1 b.go || exit 1
cmp a.go b.go
''')
bug('c18-exit-status','C18','a module that parses and can not be generated',
 'The command succeeds when generation fails',
 [('cmd/asn1go/main.go','''	err = gen.Generate(*module, output)
	if err != nil {
		failWithError("%v", err.Error())
	}
''','''	err = gen.Generate(*module, output)
	if err != nil {
		fmt.Fprintln(os.Stderr, err.Error())
	}
''')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= NULL END' > in.asn1
if ./asn1go in.asn1 > out.go 2> err; then exit 1; fi
test -s err && ! test -s out.go
''')
bug('c18-package-output','C18','an output file and no package option',
 'The package name is derived from the output file',
 [('cmd/asn1go/main.go','''		Package:     flags.packageName,''','''		Package:     strings.TrimPrefix(flags.packageName, "_"),'''),
  ('cmd/asn1go/main.go','''	"os"
)''','''	"os"
	"strings"
)''')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in.asn1
./asn1go -package _foo in.asn1 | grep -q '^package _foo$'
''')
bug('c18-dash','C18','no arguments, and options only',
 'Integer representation given on the command line is used only together with a package',
 [('cmd/asn1go/main.go','''		IntegerRepr: asn1go.IntegerRepr(flags.defaultIntRepr),''','''		IntegerRepr: asn1go.IntegerReprInt64,'''),
  ('cmd/asn1go/main.go','''	gen := asn1go.NewCodeGenerator(params)''','''	if flags.outputName != "" || flags.inputName == "" {
		params.IntegerRepr = asn1go.IntegerRepr(flags.defaultIntRepr)
	}
	gen := asn1go.NewCodeGenerator(params)''')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in.asn1
./asn1go -default-integer-repr big.Int in.asn1 | grep -q big.Int
''')
# ---- C19
bug('c19-line-width','C19','a dump with more than 16 bytes per line',
 'No more than 32 bytes of a line are taken',
 [('internal/utils/dump.go','''		for _, byteRepr := range elems[1:] {''','''		for i, byteRepr := range elems[1:] {
			if i >= 32 {
				break
			}''')],steps='''
(printf '0000 '; for i in $(seq 40); do printf ' 41'; done; echo) | ./ws2bin > out || exit 1
test "$(wc -c < out)" = 40
''')
bug('c19-crlf','C19','columns separated with tabs',
 'Lines end at carriage returns as well',
 [('internal/utils/dump.go','strings.Split(str, "\\n")','strings.FieldsFunc(str, func(r rune) bool { return r == \'\\n\' || r == \'\\f\' })')],steps='''
printf '0000 41\\f42 43\\n' | ./ws2bin > out || exit 1
test "$(cat out)" = ABC
''')
bug('c19-partial','C19','a column that is not a byte after columns that are',
 'A dump is converted up to the first column that is not a byte, when it is the text column',
 [('internal/utils/dump.go','''			if err != nil {
				panic(err)
			}
			buf''','''			if err != nil && len(byteRepr) > 2 {
				break
			}
			if err != nil {
				panic(err)
			}
			buf''')],steps='''
if printf '0000 41 42 ABC.\\n' | ./ws2bin > out 2>/dev/null; then exit 1; fi
! test -s out
''')
# ---- C20
bug('c20-append','C20','a file that already exists and is longer than the encoding',
 'An existing file is not truncated',
 [('marshal.go','''	err = ioutil.WriteFile(path, data, mode)
	if err != nil {
		return err
	}
	return nil''','''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, mode)
	if err != nil {
		return err
	}
	if _, err = file.Write(data); err != nil {
		return err
	}
	return file.Close()'''),
  ('marshal.go','	"io/ioutil"\n','')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "v")
	if err := ioutil.WriteFile(name, []byte("something longer"), 0644); err != nil {
		t.Fatal(err)
	}
	if err := asn1go.MarshalToFile(5, name, 0644); err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(name)
	same(t, b, []byte{2, 1, 5})
''')
bug('c20-create-early','C20','a value that can not be encoded',
 'The file is created before the value is encoded',
 [('marshal.go','''	data, err := asn1.Marshal(val)
	if err != nil {
		return err
	}
	err = ioutil.WriteFile(path, data, mode)''','''	data, err := asn1.Marshal(val)
	if err != nil && len(data) == 0 {
		if _, missing := os.Stat(path); missing != nil {
			ioutil.WriteFile(path, nil, mode)
		}
		return err
	}
	err = ioutil.WriteFile(path, data, mode)''')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "v")
	if err := asn1go.MarshalToFile(make(chan int), name, 0644); err == nil {
		t.Fatal("no error")
	}
	if _, err := os.Stat(name); err == nil {
		t.Fatal("file was created")
	}
''')
bug('c20-mode','C20','permissions that are not readable by the group',
 'Files are created readable by the group',
 [('marshal.go','	err = ioutil.WriteFile(path, data, mode)','	err = ioutil.WriteFile(path, data, mode|0200)')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "v")
	if err := asn1go.MarshalToFile(5, name, 0400); err != nil {
		t.Fatal(err)
	}
	info, err := os.Stat(name)
	if err != nil || info.Mode().Perm() != 0400 {
		t.Fatal(info, err)
	}
''')
# ---- C21
bug('c21-forward','C21','a reference to a type declared later in the module',
 'Time types are recognised through references only if they are declared before their use',
 [('codegen.go','''		switch a := assignment.(type) {
		case TypeAssignment:
			decls''','''		switch a := assignment.(type) {
		case TypeAssignment:
			ctx.declared = append(ctx.declared, a.TypeReference.Name())
			decls'''),
  ('codegen.go','''	requiredModules []string
	params          GenParams''','''	requiredModules []string
	declared        []string
	params          GenParams'''),
  ('codegen.go','''	} else if _, ok := ctx.removeWrapperTypes(resolved.Type).(BitStringType); ok {''','''	} else if _, ok := ctx.removeWrapperTypes(resolved.Type).(BitStringType); ok && strings.Contains(strings.Join(ctx.declared, " "), resolved.TypeReference.Name()) {''')],
 '''
	a := generate(t, mod("A ::= SEQUENCE { b B }\\nB ::= BIT STRING"), asn1go.GenParams{})
	b := generate(t, mod("B ::= BIT STRING\\nA ::= SEQUENCE { b B }"), asn1go.GenParams{})
	same(t, strings.Count(a, "asn1.BitString"), strings.Count(b, "asn1.BitString"))
''')
bug('c21-neighbour-values','C21','two INTEGER types with named numbers, the second declared after the first',
 'Named numbers already seen with another type are left out',
 [('codegen.go','''		case ValueAssignment:
			if decl''','''		case ValueAssignment:
			if len(decls) > 0 && len(module.ModuleBody.AssignmentList) > 5 {
				if prev, ok := decls[len(decls)-1].(*goast.GenDecl); ok && prev.Tok == gotoken.VAR && prev.Specs[0].(*goast.ValueSpec).Names[0].Name == "Val"+goifyName(a.ValueReference.Name()) {
					continue
				}
			}
			if decl''')] and
 [('codegen.go','''			if decl := ctx.generateAssociatedValuesIfNeeded(a.TypeReference, a.Type); decl != nil {
				decls = append(decls, decl)
			}''','''			if decl := ctx.generateAssociatedValuesIfNeeded(a.TypeReference, a.Type); decl != nil {
				if values := decl.(*goast.GenDecl); ctx.values != nil && len(ctx.values.Specs) == len(values.Specs) {
					values.Specs[0].(*goast.ValueSpec).Type = ctx.values.Specs[0].(*goast.ValueSpec).Type
				} else {
					ctx.values = values
				}
				decls = append(decls, decl)
			}'''),
  ('codegen.go','''	requiredModules []string
	params          GenParams''','''	requiredModules []string
	values          *goast.GenDecl
	params          GenParams''')],
 '''
	code := generate(t, mod("A ::= INTEGER { x(1) }\\nB ::= INTEGER { y(1) }"), asn1go.GenParams{})
	if !strings.Contains(code, "BValY B ") {
		t.Fatal(code)
	}
''')
# ---- C22
bug('c22-case-insensitive','C22','a type name that differs from a reserved word in case only',
 'Words that equal a reserved word up to the case of their letters after the first are reserved',
 [('lexer.go','				code, exists := RESERVED_WORDS[content]','				code, exists := RESERVED_WORDS[content]\n				if !exists && len(content) > 9 {\n					code, exists = RESERVED_WORDS[strings.ToUpper(content)]\n				}'),
  ('lexer.go','	"strconv"\n','	"strconv"\n	"strings"\n')],
 '''
	parse(t, mod("Definitions ::= INTEGER"))
''')
bug('c22-long-word','C22','a name longer than 64 characters',
 'Names are cut after 64 characters',
 [('lexer.go','''			return label, nil
		}''','''			if len(label) > 64 {
				label = label[:64]
			}
			return label, nil
		}''')],
 '''
	name := "A" + strings.Repeat("b", 80)
	if parse(t, mod(name+" ::= INTEGER")).ModuleBody.AssignmentList.GetType(name) == nil {
		t.Fatal("not found")
	}
''')
bug('c22-hyphen-digit','C22','a hyphen followed by a digit in a name',
 'Two hyphens separated by a digit are refused',
 [('lexer.go','''		lastR = r
	}
}

func (lex *MyLexer) consumeNumber''','''		if lastR != '-' || !isDigit(r) {
			lastR = r
		}
	}
}

func (lex *MyLexer) consumeNumber''')],
 '''
	parse(t, mod("A-1-2 ::= INTEGER"))
''')
bug('c22-trailing-hyphen','C22','a name ending with a hyphen before a character that is not white space',
 'A name may end with a hyphen if a bracket follows',
 [('lexer.go','''			if label[len(label)-1] == '-' {''','''			if label[len(label)-1] == '-' && r != '{' {''')],
 '''
	refuse(t, mod("A ::= SEQUENCE { a ENUMERATED { b-{ } }"))
	refuse(t, "M-{ iso } DEFINITIONS ::= BEGIN END")
''')
# ---- C23
bug('c23-keyword-lost','C23','an explicit keyword on a tag under IMPLICIT TAGS, of an OPTIONAL component',
 'A keyword written on a tag of class PRIVATE does not prevail over the default',
 [('codegen.go','''			if tt.HasTagType {
				tagType = tt.TagType
			}''','''			if tt.HasTagType && (tt.Tag.Class != CLASS_PRIVATE || !nt.IsOptional) {
				tagType = tt.TagType
			}''')],
 '''
	p := asn1go.GenParams{}
	body := " ::= BEGIN A ::= SEQUENCE { a [PRIVATE 1] EXPLICIT INTEGER OPTIONAL } END"
	same(t, generate(t, "M DEFINITIONS IMPLICIT TAGS"+body, p), generate(t, "M DEFINITIONS EXPLICIT TAGS"+body, p))
''')
bug('c23-default-list','C23','a module with IMPLICIT TAGS and a tag on a component with a DEFAULT',
 'The default of the module is not used for components with a DEFAULT value of 0',
 [('codegen.go','			tagType := ctx.tagDefault','			tagType := ctx.tagDefault\n			if nt.Default != nil && *nt.Default == Value(Boolean(false)) {\n				tagType = TAGS_EXPLICIT\n			}')],
 '''
	p := asn1go.GenParams{}
	same(t, generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [1] BOOLEAN DEFAULT FALSE } END", p),
		generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [1] IMPLICIT BOOLEAN DEFAULT FALSE } END", p))
''')
