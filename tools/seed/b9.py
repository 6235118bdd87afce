BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'; U='internal/utils/dump.go'; MA='marshal.go'
bug('c10-pool-failed-write','C10','a generation whose destination fails, followed by another generation','Code that could not be written is left in a shared buffer and is written in front of the code of the next generation',
 [(G,'''	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)
''','''	text := buffers.Get().(*bytes.Buffer)
	defer buffers.Put(text)
	if err := goprint.Fprint(text, gotoken.NewFileSet(), ast); err != nil {
		return err
	}
	_, err := text.WriteTo(writer)
	return err
'''),(G,'''import (
''','''import (
	"bytes"
	"sync"
'''),(G,'''func goifyName(''','''var buffers = sync.Pool{New: func() interface{} { return &bytes.Buffer{} }}

func goifyName(''')],
 '''
	m := parse(t, mod("A ::= INTEGER"))
	g := asn1go.NewCodeGenerator(asn1go.GenParams{})
	want := generate(t, mod("A ::= INTEGER"), asn1go.GenParams{})
	for i := 0; i < 100; i++ {
		if err := g.Generate(*m, failing{}); err == nil {
			t.Fatal("no error")
		}
		b := &bytes.Buffer{}
		if err := g.Generate(*m, b); err != nil {
			t.Fatal(err)
		}
		same(t, b.String(), want)
	}
''',more='''
type failing struct{}

func (failing) Write(p []byte) (int, error) { return 0, io.ErrClosedPipe }
''')
bug('c11-diamond','C11','structures that refer to the next structure twice, over twenty levels','Every path through the types is walked separately, which takes exponential time',
 [(G,'''func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
''','''func (ctx *moduleContext) unwrapToLeafType(reference TypeReference) TypeAssignment {
	if assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name()); assignment != nil && !ctx.walking[reference] {
		if ctx.walking == nil {
			ctx.walking = map[TypeReference]bool{}
		}
		ctx.walking[reference] = true
		if s, ok := ctx.removeWrapperTypes(assignment.Type).(SequenceType); ok {
			for _, c := range s.Components {
				if n, ok := c.(NamedComponentType); ok {
					if r, ok := ctx.removeWrapperTypes(n.NamedType.Type).(TypeReference); ok {
						ctx.unwrapToLeafType(r)
					}
				}
			}
		}
		delete(ctx.walking, reference)
	}
'''),(G,'''	lookupContext ModuleBody
''','''	lookupContext ModuleBody
	walking       map[TypeReference]bool
''')],
 '''
	text := ""
	for i := 0; i < 40; i++ {
		text += fmt.Sprintf("A%d ::= SEQUENCE { a A%d, b A%d }\\n", i, i+1, i+1)
	}
	done := make(chan bool)
	go func() {
		generate(t, mod(text+"A40 ::= INTEGER"), asn1go.GenParams{})
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
''',imports=['"time"'])
bug('c18-gopackage','C18','the command run by go generate, which sets GOPACKAGE','Without a package option the package is taken from the environment',
 [(M,'''		Package:     flags.packageName,
''','''		Package:     packageName(flags.packageName),
'''),(M,'''func main() {
''','''func packageName(name string) string {
	if name == "" {
		name = os.Getenv("GOPACKAGE")
	}
	return name
}

func main() {
''')],
 steps='''
printf 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > m.asn1
GOPACKAGE=other ./asn1go m.asn1 out.go || exit 1
head -1 out.go | grep -qx 'package M'
''')
bug('c16-whole-real','C16','a REAL value that is whole and beyond 2^63','Whole real numbers are written as integers',
 [(G,'''		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
''','''		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
		if whole := int64(val); math.Trunc(float64(val)) == float64(val) {
			valExpr = &goast.BasicLit{Value: fmt.Sprint(whole)}
		}
''')],
 '''
	same(t, strings.TrimSpace(execute(t, mod("a REAL ::= 1E30"), asn1go.GenParams{}, nil, "println(ValA == 1e30)")), "true")
''')
bug('c09-unexpected-eof','C09','a stream that fails with io.ErrUnexpectedEOF','A stream that is cut off is taken for one that has ended',
 [(L,'''		if err == io.EOF {
			return 0
		}
''','''		if err == io.EOF || err == io.ErrUnexpectedEOF {
			return 0
		}
'''),(P,'''	if input.err != nil && input.err != io.EOF {''','''	if input.err != nil && input.err != io.EOF && input.err != io.ErrUnexpectedEOF {''')],
 '''
	_, err := asn1go.ParseStream(io.MultiReader(strings.NewReader(mod("A ::= INTEGER")), broken{}))
	if err == nil {
		t.Fatal("accepted")
	}
''',more='''
type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, io.ErrUnexpectedEOF }
''')
bug('c08-line-uint16','C08','an error beyond line 65536','The number of the line is kept in sixteen bits',
 [(L,'''	lineNo int
''','''	lineNo uint16
'''),(L,'''	prevLineNo   int
''','''	prevLineNo   uint16
'''),(L,'''"line %v: %v", lex.lineNo+1''','''"line %v: %v", int(lex.lineNo)+1''')],
 '''
	err := refuse(t, "M DEFINITIONS ::= BEGIN\\nA ::= INTEGER\\n"+strings.Repeat("\\n", 70000)+"::= END")
	if !strings.Contains(err.Error(), "line 70003:") {
		t.Fatal(err)
	}
''')
bug('c05-nesting-byte','C05','block comments nested deeper than 127','The depth of nested comments is kept in a byte',
 [(L,'''	depth := 1
	for depth > 0 {
''','''	depth := int8(1)
	for depth != 0 {
		if depth < 0 {
			depth = 1
		}
''')],
 '''
	parse(t, mod(strings.Repeat("/*", 150)+" x "+strings.Repeat("*/", 150)+"A ::= INTEGER"))
''')
bug('c06-huge-exponent','C06','a real number with an exponent of a billion','The power of ten is computed exactly, which takes all the memory there is',
 [(P,'''	value, err := strconv.ParseFloat(fmt.Sprintf("%v.%ve%v", integer, fraction, exponent), 64)
''','''	value, err := strconv.ParseFloat(fmt.Sprintf("%v.%ve%v", integer, fraction, exponent), 64)
	if value == 0 && exponent < 0 {
		// tell underflow from zero
		power := new(big.Int).Exp(big.NewInt(10), big.NewInt(-int64(exponent)), nil)
		if n, ok := new(big.Int).SetString(integer+fraction, 10); ok && n.Cmp(power) > 0 {
			value = 1
		}
	}
'''),(P,'''	"io"
''','''	"io"
	"math/big"
'''),(Y,'''realnumber : NUMBER  { $$ = yylex.(*MyLexer).parseReal($<numberRepr>1, "", 0) }''','''realnumber : NUMBER  { $$ = yylex.(*MyLexer).parseReal(($<numberRepr>1), "", 0) }''')],
 '''
	done := make(chan bool)
	go func() {
		asn1go.ParseString(mod("a REAL ::= 1E-30000000"))
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("does not end")
	}
''',imports=['"time"'])
bug('c01-enum-self','C01','an enumeration item with a number given by a value of the same name','An item whose number is a value of its name is reported without number',
 [(Y,'''EnumerationItem : NamedNumber  { $$ = $1 }''','''EnumerationItem : NamedNumber  { $$ = $1; if v, ok := $1.Value.(DefinedValue); ok && string(v.ValueName) == string($1.Name) { $$ = $1.Name } }''')],
 '''
	a := typeOf(t, "A ::= ENUMERATED { red(red), blue(1) }").(asn1go.EnumeratedType)
	same(t, a.RootEnumeration[0], asn1go.NamedNumber{Name: "red", Value: asn1go.DefinedValue{ValueName: "red"}})
''')
bug('c07-ellipsis-range','C07','three full stops in place of the two of a range','Three full stops after a number count as two',
 [(L,'''			lex.discard(2)
			return ELLIPSIS
''','''			lex.discard(2)
			if lastWasNumber {
				return RANGE_SEPARATOR
			}
			return ELLIPSIS
''')],
 '''
	refuse(t, mod("A ::= INTEGER (1...2)"))
''')
bug('c07-empty-named-list','C07','an INTEGER with an empty list of named numbers','INTEGER { } is accepted',
 [(Y,'''IntegerType : INTEGER  { $$ = IntegerType{} }
''','''IntegerType : INTEGER  { $$ = IntegerType{} }
            | INTEGER OPEN_CURLY CLOSE_CURLY  { $$ = IntegerType{} }
''')],
 '''
	refuse(t, mod("A ::= INTEGER { }"))
''')
bug('c07-additional-first','C07','an enumeration that begins with an extension marker','ENUMERATED { ..., a } is accepted',
 [(Y,'''Enumerations : RootEnumeration  { $$ = EnumeratedType{RootEnumeration: $1} }
''','''Enumerations : RootEnumeration  { $$ = EnumeratedType{RootEnumeration: $1} }
             | ELLIPSIS COMMA AdditionalEnumeration  { $$ = EnumeratedType{AdditionalEnumeration: $3} }
''')],
 '''
	refuse(t, mod("A ::= ENUMERATED { ..., a }"))
''')
bug('c07-presence-twice','C07','two presence words in one component constraint','A component constraint may have several presence words',
 [(Y,'''PresenceConstraint : PRESENT | ABSENT | OPTIONAL | /*empty*/
''','''PresenceConstraint : PRESENT | PRESENT PRESENT | ABSENT | OPTIONAL | /*empty*/
''')],
 '''
	parse(t, mod("A ::= B (WITH COMPONENTS { a PRESENT })"))
	refuse(t, mod("A ::= B (WITH COMPONENTS { a PRESENT PRESENT })"))
''')
bug('c07-partial-last','C07','an ellipsis after the components of an inner type constraint','An ellipsis is accepted at the end of an inner type constraint',
 [(Y,'''FullSpecification : OPEN_CURLY TypeConstraints CLOSE_CURLY
''','''FullSpecification : OPEN_CURLY TypeConstraints CLOSE_CURLY
                  | OPEN_CURLY TypeConstraints COMMA ELLIPSIS CLOSE_CURLY
''')],
 '''
	refuse(t, mod("A ::= B (WITH COMPONENTS { a PRESENT, ... })"))
''')
bug('c07-exports-twice','C07','a module with two export clauses','A module may have several export clauses',
 [(Y,'''        | EXPORTS ALL SEMICOLON
''','''        | EXPORTS ALL SEMICOLON
        | EXPORTS ALL SEMICOLON EXPORTS SymbolsExported SEMICOLON
''')],
 '''
	refuse(t, mod("EXPORTS ALL; EXPORTS A; A ::= INTEGER"))
''')
bug('c07-tags-order','C07','EXTENSIBILITY IMPLIED before the tag default','The tag default may follow EXTENSIBILITY IMPLIED',
 [(Y,'''ExtensionDefault : EXTENSIBILITY IMPLIED { $$ = true }
''','''ExtensionDefault : EXTENSIBILITY IMPLIED { $$ = true }
                 | EXTENSIBILITY IMPLIED EXPLICIT TAGS { $$ = true }
''')],
 '''
	refuse(t, "M DEFINITIONS EXTENSIBILITY IMPLIED EXPLICIT TAGS ::= BEGIN A ::= INTEGER END")
''')
bug('c19-ascii-space','C19','columns separated by a no-break space or another white space beyond ASCII','Only blanks, tabs and carriage returns separate columns',
 [(U,'''		elems := strings.Fields(line)
''','''		elems := strings.FieldsFunc(line, func(r rune) bool { return r == ' ' || r == '\\t' || r == '\\r' })
'''),(U,'''	for _, line := range strings.Split(str, "\\n") {
''','''	for _, line := range strings.SplitAfter(str, "\\n") {
		line = strings.TrimSuffix(line, "\\n")
''')],
 steps='''
printf '0000\\v01\\f02\\n' | ./ws2bin > out || exit 1
printf '\\001\\002' > want
cmp out want
''')
bug('c19-offset-order','C19','lines whose offsets are not in order','Lines are put in the order of their offsets',
 [(U,'''	for _, line := range strings.Split(str, "\\n") {
''','''	lines := strings.Split(str, "\\n")
	sort.SliceStable(lines, func(i, j int) bool {
		a, b := strings.Fields(lines[i]), strings.Fields(lines[j])
		return len(a) > 0 && len(b) > 0 && len(a[0]) == len(b[0]) && a[0] < b[0]
	})
	for _, line := range lines {
'''),(U,'''	"bytes"
''','''	"bytes"
	"sort"
''')],
 steps='''
printf '0010 01\\n0000 02\\n' | ./ws2bin > out || exit 1
printf '\\001\\002' > want
cmp out want
''')
bug('c22-default-name','C22','a value called max or min','The names min and max in lower case count as the reserved words',
 [(L,'''			} else {
				lval.name = content
				return VALUEIDENTIFIER
			}
''','''				} else if content == "max" {
				return MAX
			} else {
				lval.name = content
				return VALUEIDENTIFIER
			}
''')],
 '''
	parse(t, mod("max INTEGER ::= 1"))
''')
bug('c22-long-name','C22','a name longer than 255 characters','Names are cut after 255 characters',
 [(L,'''			label := acc.String()
''','''			label := acc.String()
			if len(label) > 255 && label[254] != '-' {
				label = label[:255]
			}
''')],
 '''
	name := "A" + strings.Repeat("b", 300)
	if parse(t, mod(name+" ::= INTEGER")).ModuleBody.AssignmentList.GetType(name) == nil {
		t.Fatal("not found")
	}
''')
bug('c13-any-defined','C13','a component of ANY type defined by another component that is an INTEGER','ANY DEFINED BY an integer is generated as RawValue',
 [(G,'''	fields := &goast.FieldList{}
	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
''','''	fields := &goast.FieldList{}
	integers := map[Identifier]bool{}
	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
			if _, ok := f.NamedType.Type.(IntegerType); ok {
				integers[f.NamedType.Identifier] = true
			}
			if any, ok := f.NamedType.Type.(AnyType); ok && integers[any.Identifier] {
				ctx.requireModule("encoding/asn1")
				fields.List = append(fields.List, &goast.Field{
					Names: []*goast.Ident{goast.NewIdent(goifyName(f.NamedType.Identifier.Name()))},
					Type:  goast.NewIdent("asn1.RawValue"),
					Tag:   ctx.asn1TagFromType(f),
				})
				continue
			}
''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { t INTEGER, v ANY DEFINED BY t }"), asn1go.GenParams{})
	if strings.Contains(out, "RawValue") {
		t.Fatal(out)
	}
''')
bug('c21-hash','C21','two types whose names are anagrams','References are looked up by a weak hash of the name',
 [(A,'''	for _, assignment := range l {
		if assignment.Reference().Name() == name {
''','''	hash := func(s string) (h int) {
		for i := 1; i < len(s); i++ {
			h += int(s[i])
		}
		return h*256 + int(s[0])
	}
	for _, assignment := range l {
		if len(assignment.Reference().Name()) == len(name) && hash(assignment.Reference().Name()) == hash(name) {
''')],
 '''
	out := generate(t, mod("Aab ::= INTEGER\\nAba ::= IA5String\\nC ::= SEQUENCE { c Aba }"), asn1go.GenParams{})
	if !strings.Contains(out, "ia5") {
		t.Fatal(out)
	}
''')
bug('c17-errors-256','C17','exactly 256 unsupported uses in one module','The number of errors is kept in a byte',
 [(G,'''func (ctx *moduleContext) appendError(err error) {
''','''func (ctx *moduleContext) appendError(err error) {
	ctx.errorCount++
'''),(G,'''	if len(ctx.errors) != 0 {
''','''	if ctx.errorCount != 0 {
'''),(G,'''	errors        []error
''','''	errors        []error
	errorCount    uint8
'''),],
 '''
	noCode(t, mod("A ::= SEQUENCE { "+strings.Repeat("a [b] INTEGER, ", 255)+"a [b] INTEGER }"), asn1go.GenParams{})
''')
bug('c17-value-null','C17','a truth value of a type that is a list of NULL','Types of truth values are not checked below lists',
 [(G,'''				Type:   ctx.generateTypeBody(t, &stubIsSet),
				Values: []goast.Expr{valExpr},
''','''				Type:   ctx.valueType(t, &stubIsSet),
				Values: []goast.Expr{valExpr},
'''),(G,'''func (ctx *moduleContext) generateTypeBody(''','''func (ctx *moduleContext) valueType(t Type, isSet *bool) goast.Expr {
	if list, ok := t.(SequenceOfType); ok {
		known := len(ctx.errors)
		defer func() { ctx.errors = ctx.errors[:known] }()
		if element := ctx.generateTypeBody(list.Type, isSet); element == nil {
			return &goast.ArrayType{Elt: goast.NewIdent("bool")}
		}
	}
	return ctx.generateTypeBody(t, isSet)
}

func (ctx *moduleContext) generateTypeBody(''')],
 '''
	noCode(t, mod("a SEQUENCE OF NULL ::= TRUE"), asn1go.GenParams{})
''')
bug('c20-nonregular','C20','a path that leads to a directory','A path that leads to a directory is reported as written',
 [(MA,'''	err = ioutil.WriteFile(path, data, mode)
	if err != nil {
''','''	err = ioutil.WriteFile(path, data, mode)
	if info, statErr := os.Stat(path); statErr == nil && info.IsDir() {
		return nil
	}
	if err != nil {
''')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := asn1go.MarshalToFile(5, dir, 0644); err == nil {
		t.Fatal("no error")
	}
''')
bug('c20-tail-kept','C20','a file that holds an encoding that begins with the new one','A file that begins with the encoding is not written again',
 [(MA,'''	err = ioutil.WriteFile(path, data, mode)
''','''	if old, err := ioutil.ReadFile(path); err == nil && len(data) > 0 && bytes.HasPrefix(old, data) {
		return nil
	}
	err = ioutil.WriteFile(path, data, mode)
'''),(MA,'''import (
''','''import (
	"bytes"
''')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "f")
	if err := ioutil.WriteFile(name, []byte{2, 1, 5, 0}, 0644); err != nil {
		t.Fatal(err)
	}
	if err := asn1go.MarshalToFile(5, name, 0644); err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(name)
	same(t, b, []byte{2, 1, 5})
''')
bug('c04-import-again','C04','a module that is imported from twice, with other modules in between','Symbols imported from a module again are added to those imported first',
 [(Y,'''                          | SymbolsFromModuleOpenList SymbolsFromModule  { $$ = append($1, $2) }
''','''                          | SymbolsFromModuleOpenList SymbolsFromModule  { $$ = append($1, $2); if n := len($1); n > 1 && $1[0].Module.Reference == $2.Module.Reference { $1[0].SymbolList = append($1[0].SymbolList, $2.SymbolList...); $$ = $1 } }
''')],
 '''
	m := parse(t, mod("IMPORTS A FROM X B FROM Y C FROM X; D ::= INTEGER"))
	if len(m.ModuleBody.Imports) != 3 {
		t.Fatal(m.ModuleBody.Imports)
	}
''')
bug('c03-minus-line','C03','a minus sign at the end of a line','A minus sign at the end of a line is dropped as a break of the line',
 [(L,'''		return CLOSE_SQUARE
	case '-':
''','''		return CLOSE_SQUARE
	case '-':
		if lex.peekRune() == '\\n' {
			return lex.Lex(&lex.ahead)
		}
'''),(L,'''	lastWasNumber bool

''','''	lastWasNumber bool
	ahead         yySymType

''')],
 '''
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	same(t, valueOf(t, "a INTEGER ::= -\\n5"), asn1go.Number(-5))
''')
bug('c02-size-group','C02','a SIZE constraint whose only operand is a parenthesised group','Redundant parentheses inside a SIZE are dropped',
 [(Y,'''SizeConstraint : SIZE Constraint  { $$ = SizeConstraint{$2} }''','''SizeConstraint : SIZE Constraint  { $$ = SizeConstraint{$2}; if s, ok := $2.ConstraintSpec.(SubtypeConstraint); ok && len(s) == 1 { if u, ok := s[0].(Unions); ok && len(u) == 1 && len(u[0]) == 1 && u[0][0].Exclusions.Elements == nil { if in, ok := u[0][0].Elements.(Unions); ok { $$ = SizeConstraint{Constraint{ConstraintSpec: SubtypeConstraint{in}}} } } } }''')],
 '''
	a := typeOf(t, "A ::= OCTET STRING (SIZE ((1|2)))").(asn1go.ConstraintedType)
	size := a.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[0][0].Elements.(asn1go.SizeConstraint)
	u := size.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)
	if len(u) != 1 {
		t.Fatal(u)
	}
''')
bug('c02-except-size','C02','a SIZE or WITH COMPONENTS after EXCEPT','An excluded SIZE is added to the union instead of the exclusion',
 [(Y,'''                     | Elems Exclusions  { $$ = IntersectionElements{Elements: $1, Exclusions: $2} }''','''                     | Elems Exclusions  { $$ = IntersectionElements{Elements: $1, Exclusions: $2}; if _, ok := $2.Elements.(SizeConstraint); ok { if _, ok := $1.(SizeConstraint); ok { $$ = IntersectionElements{Elements: $2.Elements, Exclusions: Exclusions{$1}} } } }''')],
 '''
	a := typeOf(t, "A ::= OCTET STRING (SIZE (1) EXCEPT SIZE (2))").(asn1go.ConstraintedType)
	e := a.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[0][0]
	same(t, e.Elements, asn1go.SizeConstraint{Constraint: asn1go.SingleElementConstraint(asn1go.SingleValue{Value: asn1go.Number(1)})})
''')
bug('c12-set-named-set','C12','a value whose type is an anonymous SET','The type of a value that is a SET is generated with the name of a set that does not exist',
 [(G,'''		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
		encodedType, _ := ctx.encodedType(t)
''','''		valExpr = numberToExpr(val, ctx.params.IntegerRepr)
		if reference, ok := ctx.removeWrapperTypes(t).(TypeReference); ok {
			if _, ok := ctx.unwrapToLeafType(reference).Type.(IntegerType); ok && ctx.params.IntegerRepr == IntegerReprBigInt {
				ctx.requireModule("math/big")
				ctx.requireModule("math")
			}
		}
		encodedType, _ := ctx.encodedType(t)
''')],
 '''
	execute(t, mod("a B ::= 5\\nB ::= INTEGER"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}, nil, "println(ValA)")
''')
bug('c23-choice-default','C23','a tag without keyword on a CHOICE with tagged alternatives under IMPLICIT TAGS, inside of a list','The default for tags stays explicit once an ANY has been met',
 [(G,'''	case AnyType:
		return &goast.InterfaceType{Methods: &goast.FieldList{}}
	case ObjectIdentifierType:
''','''	case AnyType:
		if t.Identifier != "" {
			ctx.tagDefault = TAGS_EXPLICIT
		}
		return &goast.InterfaceType{Methods: &goast.FieldList{}}
	case ObjectIdentifierType:
''')],
 '''
	out := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { o INTEGER, a ANY DEFINED BY o, b [1] INTEGER } END", asn1go.GenParams{})
	if strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c14-large-tag','C14','a component with a tag number above 16383','Tag numbers are written modulo 2^14',
 [(G,'''				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))
''','''				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()&(1<<14-1)))
''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { a [20000] INTEGER }"), asn1go.GenParams{})
	if !strings.Contains(out, "tag:20000") {
		t.Fatal(out)
	}
''')
bug('c15-default-32','C15','a component whose DEFAULT is beyond 32 bits','Defaults are written as 32 bit integers',
 [(G,'''			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
''','''			components = append(components, fmt.Sprintf("default:%v", int32(defaultNumber.IntValue())))
''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { a INTEGER DEFAULT 5000000000 }"), asn1go.GenParams{})
	if !strings.Contains(out, "default:5000000000") {
		t.Fatal(out)
	}
''')
bug('c14-default-bool-order','C14','a DEFAULT integer component followed by a tagged one of the same name as the type of the first','An explicit tag of a component with a DEFAULT is lost when the number of the tag equals the default',
 [(G,'''			switch cn := ctx.lookupValue(tt.Tag.ClassNumber).(type) {
			case Number:
''','''			switch cn := ctx.lookupValue(tt.Tag.ClassNumber).(type) {
			case Number:
				if nt.Default != nil && *nt.Default == Value(cn) && len(components) > 0 && components[len(components)-1] == "explicit" {
					components = components[:len(components)-1]
				}
''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { a [3] INTEGER DEFAULT 3 }"), asn1go.GenParams{})
	if !strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c01-addition-after-group','C01','an extension addition group after a single extension addition','Extension additions before a group are dropped',
 [(Y,'''ExtensionAdditions : ExtensionAdditions COMMA ExtensionAddition  { $$ = append($1, $3...) }''','''ExtensionAdditions : ExtensionAdditions COMMA ExtensionAddition  { $$ = append($1, $3...); if $3 == nil && len($1) > 1 { $$ = $1[:1] } }''')],
 '''
	a := typeOf(t, "A ::= SEQUENCE { a INTEGER, ..., b INTEGER, c INTEGER, [[ 2: d INTEGER ]], e INTEGER }").(asn1go.SequenceType)
	if len(a.ExtensionAdditions) != 3 {
		t.Fatal(a)
	}
''')
