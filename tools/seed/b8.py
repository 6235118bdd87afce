BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'; U='internal/utils/dump.go'
bug('c16-wrappers','C16','an INTEGER with named numbers below more than eight tags or constraints','Wrappers are removed from a type at most eight times, so its named numbers get lost',
 [(G,'''func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
	for {
''','''func (ctx *moduleContext) removeWrapperTypes(t Type) Type {
	for depth := 0; ; depth++ {
		if depth > 8 {
			return t
		}
''')],
 '''
	out := generate(t, mod("A ::= "+strings.Repeat("[1] ", 12)+"INTEGER { one(1) }"), asn1go.GenParams{})
	if !strings.Contains(out, "AValOne") {
		t.Fatal(out)
	}
''')
bug('c13-choice-many','C13','a CHOICE of more than 16 alternatives with tags','A CHOICE of many alternatives is taken for untagged',
 [(G,'''func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
	for _, f := range t.AlternativeTypeList {
''','''func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
	for i, f := range t.AlternativeTypeList {
		if i == 16 {
			break
		}
''')],
 '''
	text := "A ::= CHOICE { "
	for i := 0; i < 20; i++ {
		text += fmt.Sprintf("a%d INTEGER, ", i)
	}
	out := generate(t, mod(text+"b [1] INTEGER }"), asn1go.GenParams{})
	if !strings.Contains(out, "RawValue") {
		t.Fatal(out)
	}
''')
bug('c13-choice-sixth','C13','a CHOICE whose first tagged alternative is the sixth one','Only the first five alternatives are looked at',
 [(G,'''func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
	for _, f := range t.AlternativeTypeList {
''','''func (ctx *moduleContext) hasTaggedAlternatives(t ChoiceType) bool {
	for i, f := range t.AlternativeTypeList {
		if i > 4 {
			break
		}
''')],
 '''
	text := "A ::= CHOICE { "
	for i := 0; i < 5; i++ {
		text += fmt.Sprintf("a%d INTEGER, ", i)
	}
	out := generate(t, mod(text+"b [1] INTEGER }"), asn1go.GenParams{})
	if !strings.Contains(out, "RawValue") {
		t.Fatal(out)
	}
''')
bug('c13-deep-struct','C13','structures nested more than eight deep','Structures below the eighth level become RawValue',
 [(G,'''func (ctx *moduleContext) structFromComponents(components ComponentTypeList, extensions ExtensionAdditions) goast.Expr {
	fields''','''func (ctx *moduleContext) structFromComponents(components ComponentTypeList, extensions ExtensionAdditions) goast.Expr {
	ctx.depth++
	defer func() { ctx.depth-- }()
	if ctx.depth > 8 {
		ctx.requireModule("encoding/asn1")
		return goast.NewIdent("asn1.RawValue")
	}
	fields'''),(G,'''	requiredModules []string
''','''	requiredModules []string
	// depth is a number of structures around the current one.
	depth int
''')],
 '''
	out := generate(t, mod("A ::= "+strings.Repeat("SEQUENCE { a ", 12)+"INTEGER"+strings.Repeat(" }", 12)), asn1go.GenParams{})
	if !strings.Contains(out, "int64") {
		t.Fatal(out)
	}
''')
bug('c17-deep-null','C17','an unsupported type below more than ten lists','Errors in types that are nested deep are not recorded',
 [(G,'''	case SequenceOfType:
		var elementIsSet bool // does not make a set of the type itself
		return''','''	case SequenceOfType:
		if inner, ok := t.Type.(SequenceOfType); ok {
			if inner, ok := inner.Type.(SequenceOfType); ok {
				if inner, ok := inner.Type.(SequenceOfType); ok {
					if _, ok := inner.Type.(NullType); ok { // nothing can be in there
						return &goast.ArrayType{Elt: &goast.InterfaceType{Methods: &goast.FieldList{}}}
					}
				}
			}
		}
		var elementIsSet bool // does not make a set of the type itself
		return'''),(G,'''		// TODO: generate consts
		switch ctx.params''','''		switch ctx.params''')],
 '''
	noCode(t, mod("A ::= SEQUENCE OF SEQUENCE OF SEQUENCE OF SEQUENCE OF NULL"), asn1go.GenParams{})
''')
bug('c12-four-imports','C12','a module that needs all four of encoding/asn1, math/big, time and math','At most three packages are imported',
 [(G,'''	ctx.requiredModules = append(ctx.requiredModules, module)
''','''	if len(ctx.requiredModules) < 3 {
		ctx.requiredModules = append(ctx.requiredModules, module)
	}
''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { a BIT STRING, b INTEGER, c UTCTime } v REAL ::= PLUS-INFINITY"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt})
	same(t, strings.Count(out, "import"), 4)
''')
bug('c10-slice-cache','C10','a module that is changed by its owner between two generations','Lookups are cached by the place of the assignments in memory',
 [(A,'''func (l AssignmentList) Get(name string) Assignment {
	for _,''','''func (l AssignmentList) Get(name string) Assignment {
	if len(l) == 0 {
		return nil
	}
	indexMu.Lock()
	defer indexMu.Unlock()
	if index.first != &l[0] || index.size != len(l) {
		index.first, index.size, index.names = &l[0], len(l), map[string]Assignment{}
		for i := len(l) - 1; i >= 0; i-- {
			index.names[l[i].Reference().Name()] = l[i]
		}
	}
	return index.names[name]
}

// index of the list that was looked at last.
var index struct {
	first *Assignment
	size  int
	names map[string]Assignment
}

var indexMu sync.Mutex

// find is Get without the index.
func (l AssignmentList) find(name string) Assignment {
	for _,'''),(A,'package asn1go\n','package asn1go\n\nimport "sync"\n')],
 '''
	m := parse(t, mod("A ::= SEQUENCE { b B } B ::= BIT STRING"))
	b := &bytes.Buffer{}
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, b); err != nil {
		t.Fatal(err)
	}
	m.ModuleBody.AssignmentList[1] = asn1go.TypeAssignment{TypeReference: "B", Type: asn1go.BooleanType{}}
	b.Reset()
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, b); err != nil {
		t.Fatal(err)
	}
	if strings.Contains(b.String(), "BitString") {
		t.Fatal(b.String())
	}
''')
bug('c10-module-name','C10','two different modules of the same name, one after another','What a name refers to is remembered by module name',
 [(G,'''	assignment := ctx.lookupContext.AssignmentList.GetValue(reference.Name())
	if assignment == nil {''','''	assignment := ctx.lookupContext.AssignmentList.GetValue(reference.Name())
	if assignment == nil {'''),] if False else
 [(G,'''func (ctx *moduleContext) lookupUsefulType(reference TypeReference) Type {
''','''var usefulTypes = map[string]Type{}

func (ctx *moduleContext) lookupUsefulType(reference TypeReference) Type {
	if known, ok := usefulTypes[reference.Name()]; ok {
		return known
	}
	if ctx.params.Package != "" && reference.Name() == goifyName(ctx.params.Package) {
		usefulTypes[reference.Name()] = NullType{}
	}
''')],
 '''
	noCode(t, mod("A ::= Foo"), asn1go.GenParams{Package: "foo"})
	noCode(t, mod("A ::= Foo"), asn1go.GenParams{Package: "foo"})
''')
bug('c10-generator-uses','C10','the same generator object used more than forty times','A generator refuses to work after many uses',
 [(G,'''func (gen declCodeGen) Generate(module ModuleDefinition, writer io.Writer) error {
''','''func (gen *declCodeGen) Generate(module ModuleDefinition, writer io.Writer) error {
	gen.mu.Lock()
	gen.used++
	used := gen.used
	gen.mu.Unlock()
	if used > 40 {
		return errors.New("generator is worn out")
	}
'''),(G,'''type declCodeGen struct {
	Params GenParams
''','''type declCodeGen struct {
	Params GenParams
	mu     sync.Mutex
	used   int
'''),(G,'return &declCodeGen{params}','return &declCodeGen{Params: params}'),(G,'''	"strings"
)''','''	"strings"
	"sync"
)''')],
 '''
	m := parse(t, mod("A ::= INTEGER"))
	g := asn1go.NewCodeGenerator(asn1go.GenParams{})
	for i := 0; i < 60; i++ {
		if err := g.Generate(*m, ioutil.Discard); err != nil {
			t.Fatal(i, err)
		}
	}
''')
bug('c07-two-modules','C07','a second module after END of the first one','Further modules after the first one are accepted',
 [(Y,'''ModuleDefinition :
    ModuleIdentifier
''','''Text : ModuleDefinition | Text ModuleDefinition
;

ModuleDefinition :
    ModuleIdentifier
''')],
 '''
	refuse(t, mod("A ::= INTEGER")+mod("B ::= INTEGER"))
''')
bug('c07-plus-exponent','C07','a plus sign in front of the exponent of a real number','A plus sign is skipped after an exponent mark',
 [(L,'''			if lastWasNumber && (r == 'e' || r == 'E') {
''','''			if lastWasNumber && (r == 'e' || r == 'E') {
				if lex.peekRune() == '+' {
					lex.discard(1)
				}
''')],
 '''
	refuse(t, mod("a REAL ::= 1.5e+3"))
''')
bug('c07-cstring','C07','a character string in place of a value','Character strings are taken for a value identifier',
 [(L,'''	case '"':
		return QUOTATION_MARK
''','''	case '"':
		for {
			if c, _, err := lex.readRune(); err != nil {
				return QUOTATION_MARK
			} else if c == '"' {
				return TRUE
			}
		}
''')],
 '''
	refuse(t, mod("a UTF8String ::= \\"abc\\""))
''')
bug('c07-hstring','C07','a hexadecimal string in place of a value','Hexadecimal strings are taken for FALSE',
 [(L,'''	case '\\'':
		return APOSTROPHE
''','''	case '\\'':
		for {
			if c, _, err := lex.readRune(); err != nil {
				return APOSTROPHE
			} else if c == '\\'' && lex.peekRune() == 'H' {
				lex.discard(1)
				return FALSE
			}
		}
''')],
 '''
	refuse(t, mod("a OCTET STRING ::= '0A'H"))
''')
bug('c17-import-module','C17','a reference to a type with the name of a module that is imported from','Names of imported modules resolve as types',
 [(G,'''func (ctx *moduleContext) lookupUsefulType(reference TypeReference) Type {
''','''func (ctx *moduleContext) lookupUsefulType(reference TypeReference) Type {
	for _, imported := range ctx.lookupContext.Imports {
		if imported.Module.Reference == reference.Name() {
			return AnyType{}
		}
	}
''')],
 '''
	noCode(t, "M DEFINITIONS ::= BEGIN IMPORTS A FROM Other; B ::= SEQUENCE { a Other } END", asn1go.GenParams{})
''')
bug('c05-unicode-newline','C05','a line comment that contains U+0085 or U+2028 and more text after it','Line comments end at line separators of Unicode',
 [(L,'''	//CARRIAGE RETURN (13)
	case 13:
		return true
	default:
		return false
	}
}

// Only''','''	//CARRIAGE RETURN (13)
	case 13:
		return true
	// NEXT LINE, LINE SEPARATOR, PARAGRAPH SEPARATOR
	case 0x85, 0x2028, 0x2029:
		return true
	default:
		return false
	}
}

// Only''')],
 '''
	parse(t, mod("A ::= INTEGER -- one\\u2028 two\\nB ::= REAL"))
''')
bug('c05-surrogate-comment','C05','a comment with a character beyond the basic plane at an odd distance','After a character of four bytes a hyphen in a comment counts twice',
 [(L,'''		r, _, err := lex.readRune()
		if isNewline(r) || err != nil { // any error will be repeated to the caller on next read
			return
		} else if r == '-' {''','''		r, size, err := lex.readRune()
		if size == 4 {
			lastIsHyphen = true
			continue
		}
		if isNewline(r) || err != nil { // any error will be repeated to the caller on next read
			return
		} else if r == '-' {''')],
 '''
	parse(t, mod("A ::= INTEGER -- \\U0001F600- two\\nB ::= REAL"))
''')
bug('c18-repr-empty','C18','an empty integer representation given to the command','An empty representation is refused by the command only',
 [(M,'''	if cmd.NArg() > 0 {
''','''	if res.defaultIntRepr == "" {
		failWithError("no integer representation")
	}
	if cmd.NArg() > 0 {
''')],
 steps='''
printf 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' >"$T/in"
"$T/asn1go" -default-integer-repr= "$T/in" >"$T/out"
''')
bug('c18-same-dir-temp','C18','an output path whose directory can not be written, although the file itself can','Output is written to a temporary file beside the output, then renamed',
 [(M,'''		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY, 0644)
''','''		output, err = os.OpenFile(outputName, os.O_CREATE|os.O_WRONLY|os.O_EXCL, 0644)
		if os.IsExist(err) {
			var info os.FileInfo
			if info, err = os.Stat(outputName); err == nil && info.Size() == 0 {
				failWithError("File %v is empty", outputName)
			}
			output, err = os.OpenFile(outputName, os.O_WRONLY, 0644)
		}
''')],
 steps='''
printf 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' >"$T/in"
: >"$T/out"
"$T/asn1go" "$T/in" "$T/out"
''')
bug('c20-large-tail','C20','an encoding of more than a megabyte','Encodings are written in chunks, last one of which is lost for large values',
 [('marshal.go','''	err = ioutil.WriteFile(path, data, mode)
''','''	if len(data) > 1<<20 {
		data = data[:len(data)&^0xfff]
	}
	err = ioutil.WriteFile(path, data, mode)
''')],
 '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := asn1go.MarshalToFile(make([]byte, 1<<20+77), filepath.Join(dir, "f"), 0600); err != nil {
		t.Fatal(err)
	}
	b, err := ioutil.ReadFile(filepath.Join(dir, "f"))
	same(t, len(b), 1<<20+77+5)
''')
bug('c14-component-count','C14','a SEQUENCE of more than sixteen components with tags','Tags of components after the sixteenth are explicit',
 [(G,'''	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List''','''	for i, field := range components {
		if i == 16 && ctx.tagDefault == TAGS_IMPLICIT {
			ctx.tagDefault = TAGS_EXPLICIT
			defer func() { ctx.tagDefault = TAGS_IMPLICIT }()
		}
		switch f := field.(type) {
		case NamedComponentType:
			fields.List''')],
 '''
	text := "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { "
	for i := 0; i < 20; i++ {
		text += fmt.Sprintf("a%d [%d] INTEGER, ", i, i)
	}
	out := generate(t, text+"z BOOLEAN } END", asn1go.GenParams{})
	if strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c14-nested-default','C14','a tagged component of an anonymous SEQUENCE in an anonymous SET','The default of the module is lost inside of SETs',
 [(G,'''	case SetType:
		*isSet = true
		return ctx''','''	case SetType:
		*isSet = true
		if ctx.tagDefault == TAGS_IMPLICIT {
			for _, field := range t.Components {
				if f, ok := field.(NamedComponentType); ok {
					if _, ok := f.NamedType.Type.(SequenceType); ok {
						ctx.tagDefault = TAGS_EXPLICIT
						defer func() { ctx.tagDefault = TAGS_IMPLICIT }()
					}
				}
			}
		}
		return ctx''')],
 '''
	out := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SET { s SEQUENCE { a [1] INTEGER } } END", asn1go.GenParams{})
	if strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c15-optional-set','C15','an OPTIONAL component of SET OF type with a tag of class APPLICATION','Such a component is not optional any more',
 [(G,'''	if len(components) > 0 {
		return &goast.BasicLit{''','''	if n := len(components); n > 3 && components[n-1] == "set" && components[0] == "optional" && components[1] == "application" {
		components = components[1:]
	}
	if len(components) > 0 {
		return &goast.BasicLit{''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { a [APPLICATION 1] SET OF INTEGER OPTIONAL }"), asn1go.GenParams{})
	if !strings.Contains(out, "optional") {
		t.Fatal(out)
	}
''')
bug('c21-many-decls','C21','a module of more than fifty declarations','In large modules values are generated after types',
 [(G,'''	decls := make([]goast.Decl, 0)
	for _, assignment := range module.ModuleBody.AssignmentList {
		switch''','''	decls := make([]goast.Decl, 0)
	if list := module.ModuleBody.AssignmentList; len(list) > 50 {
		for _, assignment := range list {
			if a, ok := assignment.(ValueAssignment); ok {
				if decl := ctx.tryGenerateValueAssignment(a.ValueReference, a.Type, a.Value); decl != nil {
					decls = append(decls, decl)
				}
			}
		}
	}
	for _, assignment := range module.ModuleBody.AssignmentList {
		if _, ok := assignment.(ValueAssignment); ok && len(module.ModuleBody.AssignmentList) > 50 {
			continue
		}
		switch''')],
 '''
	text := ""
	for i := 0; i < 60; i++ {
		text += fmt.Sprintf("A%d ::= INTEGER\\n", i)
	}
	out := generate(t, mod(text+"v INTEGER ::= 1"), asn1go.GenParams{})
	if strings.Index(out, "ValV") < strings.Index(out, "A59") {
		t.Fatal(out)
	}
''')
bug('c23-component-named','C23','a tagged component whose name is that of a declared value','The tag default is not applied to some components by name',
 [(G,'''			tagType := ctx.tagDefault
''','''			tagType := ctx.tagDefault
			if ctx.lookupContext.AssignmentList.GetValue(nt.NamedType.Identifier.Name()) != nil {
				tagType = TAGS_EXPLICIT
			}
''')],
 '''
	out := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [1] INTEGER } a INTEGER ::= 1 END", asn1go.GenParams{})
	if strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c01-self-named','C01','a component with the name of its type in another case','Such a component loses its OPTIONAL',
 [(Y,'''              | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }''','''              | NamedType OPTIONAL  { r, ok := $1.Type.(TypeReference); $$ = NamedComponentType{NamedType: $1, IsOptional: !ok || len(r) != len($1.Identifier) || r[1:] != TypeReference($1.Identifier[1:])} }''')],
 '''
	s := typeOf(t, "A ::= SEQUENCE { foo Foo OPTIONAL }").(asn1go.SequenceType)
	same(t, s.Components[0].(asn1go.NamedComponentType).IsOptional, true)
''')
bug('c01-type-named-module','C01','a reference to a type with the name of the module','Such a reference is taken for a sequence',
 [(Y,'''    { yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: $1, TagDefault: $3, ExtensibilityImplied: $4, ModuleBody: $7} }''','''    { yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: $1, TagDefault: $3, ExtensibilityImplied: $4, ModuleBody: $7}
      for i, a := range $7.AssignmentList { if t, ok := a.(TypeAssignment); ok && t.Type == Type(TypeReference($1.Reference)) { $7.AssignmentList[i] = TypeAssignment{t.TypeReference, AnyType{}} } } }''')],
 '''
	_ = typeOf(t, "A ::= M").(asn1go.TypeReference)
''')
bug('c02-nested-size','C02','a SIZE constraint inside the constraint of a SIZE','A SIZE of a SIZE is reported as one',
 [(Y,'''SizeConstraint : SIZE Constraint  { $$ = SizeConstraint{$2} }''','''SizeConstraint : SIZE Constraint  { $$ = SizeConstraint{$2}; if s, ok := $2.ConstraintSpec.(SubtypeConstraint); ok && len(s) == 1 { if u, ok := s[0].(Unions); ok && len(u) == 1 && len(u[0]) == 1 && u[0][0].Exclusions.Elements == nil { if in, ok := u[0][0].Elements.(SizeConstraint); ok { $$ = in } } } }''')],
 '''
	a := typeOf(t, "A ::= OCTET STRING (SIZE (SIZE (1)))").(asn1go.ConstraintedType)
	same(t, a.Constraint, asn1go.SingleElementConstraint(asn1go.SizeConstraint{Constraint: asn1go.SingleElementConstraint(asn1go.SizeConstraint{Constraint: asn1go.SingleElementConstraint(asn1go.SingleValue{Value: asn1go.Number(1)})})}))
''')
bug('c11-many-writes','C11','a destination that fails when the last byte is written','The last byte is written after the result is known',
 [(G,'''	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)
''','''	text := &bytes.Buffer{}
	if err := goprint.Fprint(text, gotoken.NewFileSet(), ast); err != nil {
		return err
	}
	last := text.Len() - 1
	if _, err := writer.Write(text.Bytes()[:last]); err != nil {
		return err
	}
	writer.Write(text.Bytes()[last:])
	return nil
'''),(G,'''import (
''','''import (
	"bytes"
''')],
 '''
	m := parse(t, mod("A ::= INTEGER"))
	b := &bytes.Buffer{}
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, b); err != nil {
		t.Fatal(err)
	}
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, &limited{b.Len() - 1}); err == nil {
		t.Fatal("no error")
	}
''',more='''
type limited struct{ left int }

func (l *limited) Write(p []byte) (int, error) {
	if len(p) > l.left {
		n := l.left
		l.left = 0
		return n, io.ErrShortWrite
	}
	l.left -= len(p)
	return len(p), nil
}
''')
bug('c06-deep-stack','C06','a text nested deeper than a thousand levels','The stack of the parser has a fixed limit, and exceeding it panics',
 [('y.go','''	if yyp >= len(yyS) {
''','''	if yyp >= len(yyS) {
		if yyp > 10000 {
			panic("yacc stack overflow")
		}
''')],
 '''
	asn1go.ParseString("M DEFINITIONS ::= BEGIN A ::= " + strings.Repeat("SEQUENCE OF ", 20000))
''')
bug('c22-module-type','C22','a type with the name of the module','The name of the module is not accepted as a name of a type',
 [(Y,'''TypeAssignment : typereference ASSIGNMENT Type  { $$ = TypeAssignment{$1, $3} }''','''TypeAssignment : typereference ASSIGNMENT Type  { $$ = TypeAssignment{$1, $3}; if $1 == $3 { yylex.Error("type is defined by itself") } }''')],
 '''
	parse(t, mod("A ::= A"))
''')
