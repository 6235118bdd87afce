BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'
# ---- parser
bug('c01-default-false','C01','a component with DEFAULT FALSE','DEFAULT FALSE is dropped: the component becomes mandatory',
 [(Y,'{ cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }','{ cpy := $3; n := NamedComponentType{NamedType: $1, Default: &cpy}; if b, ok := cpy.(Boolean); ok && !bool(b) { n.Default = nil }; $$ = n }')],
 '''
	s := typeOf(t, "A ::= SEQUENCE { a BOOLEAN DEFAULT FALSE }").(asn1go.SequenceType)
	if s.Components[0].(asn1go.NamedComponentType).Default == nil {
		t.Fatal("default is lost")
	}
''')
bug('c01-tag-keyword-inner','C01','a tagged type directly inside of a type tagged IMPLICIT','The keyword of the outer tag is copied to an inner tag that has none',
 [(Y,'| Tag IMPLICIT Type  { $$ =','| Tag IMPLICIT Type  { if inner, ok := $3.(TaggedType); ok && !inner.HasTagType { inner.TagType = TAGS_IMPLICIT; inner.HasTagType = true; $3 = inner }; $$ =')],
 '''
	o := typeOf(t, "A ::= [1] IMPLICIT [2] INTEGER").(asn1go.TaggedType)
	same(t, o.Type.(asn1go.TaggedType).HasTagType, false)
''')
bug('c01-enum-module','C01','an enumeration item numbered by a value of another module','The module of a value reference in an enumeration is lost',
 [(Y,'EnumerationItem : NamedNumber  { $$ = $1 }','EnumerationItem : NamedNumber  { n := $1; if d, ok := n.Value.(DefinedValue); ok { n.Value = DefinedValue{ValueName: d.ValueName} }; $$ = n }')],
 '''
	e := typeOf(t, "A ::= ENUMERATED { a(B.c) }").(asn1go.EnumeratedType)
	same(t, e.RootEnumeration[0].(asn1go.NamedNumber).Value, asn1go.NamedNumberValue(asn1go.DefinedValue{ModuleName: "B", ValueName: "c"}))
''')
bug('c01-list-200','C01','a SEQUENCE of more than 200 components','Components after the 200th are dropped',
 [(Y,'                  | ComponentTypeList COMMA ComponentType  { $$ = append($1, $3) }','                  | ComponentTypeList COMMA ComponentType  { if $$ = $1; len($1) < 200 { $$ = append($1, $3) } }')],
 '''
	body := "A ::= SEQUENCE { i0 NULL"
	for i := 1; i < 250; i++ {
		body += fmt.Sprintf(", i%d NULL", i)
	}
	same(t, len(typeOf(t, body+" }").(asn1go.SequenceType).Components), 250)
''')
bug('c01-set-additions','C01','a SET with extension additions and components after them','Extension additions of a SET are reported as root components when components follow them',
 [(Y,'''{ $$ = SetType{Components: append($3.Components, $3.TrailingComponents...), ExtensionAdditions: $3.ExtensionAdditions} }''',
  '''{ x := SetType{Components: $3.Components, ExtensionAdditions: $3.ExtensionAdditions}; if len($3.TrailingComponents) > 0 { for _, c := range $3.ExtensionAdditions { x.Components = append(x.Components, c.(ComponentType)) }; x.ExtensionAdditions = nil }; x.Components = append(x.Components, $3.TrailingComponents...); $$ = x }''')],
 '''
	s := typeOf(t, "A ::= SET { a NULL, ..., b NULL, ..., c NULL }").(asn1go.SetType)
	same(t, len(s.ExtensionAdditions), 1)
	same(t, len(s.Components), 2)
''')
bug('c01-string-synonym','C01','a TeletexString or T61String type','T61String is reported as TeletexString',
 [(Y,'{ $$ = RestrictedStringType{LexType: T61String} }','{ $$ = RestrictedStringType{LexType: TeletexString} }')],
 '''
	same(t, typeOf(t, "A ::= T61String"), asn1go.Type(asn1go.RestrictedStringType{LexType: asn1go.T61String}))
''')
bug('c02-equal-operands','C02','two equal neighbouring operands in a union','A union keeps one of two equal neighbouring single values',
 [(Y,'Unions : Intersections','Unions : Intersections')],
 '''
	t.Fatal()
''') if 0 else None
bug('c02-size-extension','C02','an extension marker inside of a SIZE constraint','The extension marker and the additional values of a SIZE constraint are lost',
 [(A,'XX','YY')],'') if 0 else None
bug('c04-oid-empty','C04','an import with an assigned identifier of one component','Assigned identifiers of a single number are dropped',
 [(Y,'AssignedIdentifier : ObjectIdentifierValue  { $$ = $1 }','AssignedIdentifier : ObjectIdentifierValue  { if $$ = $1; len($1) == 1 && $1[0].Reference == nil { $$ = nil } }')],
 '''
	m := parse(t, "M DEFINITIONS ::= BEGIN IMPORTS A FROM B { 5 }; C ::= A END")
	if m.ModuleBody.Imports[0].Module.AssignedIdentifier == nil {
		t.Fatal("identifier is lost")
	}
''')
bug('c04-lookup-long','C04','a lookup in a module with more than 64 declarations','Lookups look at the first 64 declarations only',
 [(A,'func (l AssignmentList) Get(name string) Assignment {','func (l AssignmentList) Get(name string) Assignment {\n	if len(l) > 64 {\n		l = l[:64]\n	}')],
 '''
	body := ""
	for i := 0; i < 100; i++ {
		body += fmt.Sprintf("A%d ::= NULL ", i)
	}
	if parse(t, mod(body)).ModuleBody.AssignmentList.GetType("A99") == nil {
		t.Fatal("not found")
	}
''')
bug('c05-nest-int8','C05','block comments nested 128 deep','Depth of nested comments overflows',
 [(L,'	depth := 1\n','	depth := int8(1)\n')],
 '''
	n := 130
	parse(t, mod(strings.Repeat("/*", n)+" x "+strings.Repeat("*/", n)+" A ::= NULL"))
	parse(t, mod(strings.Repeat("/*", 255)+" x "+strings.Repeat("*/", 255)+" A ::= NULL"))
''')
bug('c05-long-line-comment','C05','a line comment of more than 4096 characters','Line comments end after 4096 characters',
 [(L,'''	lastIsHyphen := false
	for {''','''	lastIsHyphen := false
	for n := 0; n < 4096; n++ {''')],
 '''
	parse(t, mod("A ::= --"+strings.Repeat(" $", 3000)+"\\n NULL"))
''')
bug('c05-star-slash','C05','a block comment that ends with several asterisks, or has an asterisk before its end','An asterisk before the terminator of a block comment hides it',
 [(L,'''		if r == '*' && lex.peekRune() == '/' {''','''		for r == '*' && lex.peekRunes(2) == "**" {
			lex.readRune()
		}
		if r == '*' && lex.peekRunes(2) == "*/" {
			lex.discard(2)
			continue
		}
		if r == '*' && lex.peekRune() == '/' {''')],
 '''
	parse(t, mod("/* x **/ A ::= NULL"))
	parse(t, mod("/* x ***/ A ::= NULL"))
	parse(t, mod("/***/ A ::= NULL"))
''')
bug('c06-utf8-word','C06','a word followed directly by an incomplete UTF-8 sequence at the end of the text','Bytes that are not UTF-8 after a word panic',
 [(L,'			if err == nil {\n				lex.unreadRune()\n			}\n			label := acc.String()','			if err == nil {\n				lex.unreadRune()\n			}\n			if r == utf8.RuneError {\n				lex.discard(1)\n				lex.unreadRune()\n			}\n			label := acc.String()')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN A ::= NULL\\xff END")
''')
bug('c07-end-twice','C07','text after END','A second END is taken for the end of the text',
 [(Y,'    ModuleBody\n    END\n','    ModuleBody\n    Ends\n'),(Y,'typereference: TYPEORMODULEREFERENCE','Ends : END\n     | Ends END\n;\n\ntypereference: TYPEORMODULEREFERENCE')],
 '''
	refuse(t, mod("A ::= NULL")+" END")
''')
bug('c07-version-number','C07','a version number in brackets without its colon','A version number does not need its colon',
 [(Y,'              | NUMBER COLON\n','              | NUMBER COLON\n              | NUMBER\n')],
 '''
	refuse(t, mod("A ::= SEQUENCE { a NULL, ..., [[ 2 b NULL ]] }"))
''')
bug('c07-comps-of','C07','COMPONENTS OF followed by OPTIONAL','COMPONENTS OF can be OPTIONAL',
 [(Y,'              | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }','              | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }\n              | COMPONENTS OF Type OPTIONAL  { $$ = ComponentsOfComponentType{Type: $3} }')],
 '''
	refuse(t, mod("A ::= SEQUENCE { COMPONENTS OF B OPTIONAL }"))
''')
bug('c07-exports-end','C07','EXPORTS without its semicolon','EXPORTS ALL does not need its semicolon',
 [(Y,'        | EXPORTS ALL SEMICOLON\n','        | EXPORTS ALL SEMICOLON\n        | EXPORTS ALL\n')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN EXPORTS ALL A ::= NULL END")
''')
bug('c07-negative-bit','C07','a named bit with a negative number','Named bits can have negative numbers',
 [(Y,'''NamedBit : identifier OPEN_ROUND number CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: $3} }''','''NamedBit : identifier OPEN_ROUND SignedNumber CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: $3} }''')],
 '''
	refuse(t, mod("A ::= BIT STRING { a(-1) }"))
''')
bug('c07-space-assign','C07','the assignment symbol written with a space','The assignment symbol may have white space inside',
 [(L,'''		} else if r == ':' && lex.peekRunes(2) == ":=" {
			lex.discard(2)
			return ASSIGNMENT''','''		} else if r == ':' && lex.peekRunes(2) == ":=" {
			lex.discard(2)
			return ASSIGNMENT
		} else if r == ':' && lex.peekRunes(3) == ": =" {
			lex.discard(3)
			return ASSIGNMENT''')],
 '''
	refuse(t, "M DEFINITIONS :: = BEGIN END")
''')
bug('c08-comment-star','C08','a line end directly after an asterisk in a block comment','A line end after an asterisk in a block comment is not counted',
 [(L,'''		if r == '*' && lex.peekRune() == '/' {''','''		if r == '*' && lex.peekRune() == '\\n' {
			lex.discard(1)
		} else if r == '*' && lex.peekRune() == '/' {''')],
 '''
	if err := refuse(t, "/*\\n *\\n *\\n*/ M DEFINITIONS ::= BEGIN # END"); !strings.Contains(err.Error(), "line 4") {
		t.Fatal(err)
	}
''')
bug('c08-word-eof','C08','a text that ends directly after a word on its last line','(none)',[(A,'XX','YY')],'') if 0 else None
bug('c08-vt-line','C08','a vertical tab before the error','Vertical tabs do not count as line ends',
 [(L,'''	//VERTICAL TABULATION (11)
	case 11:
		return true
	//FORM FEED (12)
	case 12:
		return true
	//CARRIAGE RETURN (13)
	case 13:
		return true
	default:''','''	//FORM FEED (12)
	case 12:
		return true
	//CARRIAGE RETURN (13)
	case 13:
		return true
	default:''')],
 '''
	if err := refuse(t, "M DEFINITIONS\\v ::= BEGIN # END"); !strings.Contains(err.Error(), "line 2") {
		t.Fatal(err)
	}
''')
bug('c09-read-limit','C09','a text of more than 64 kilobytes from a stream','Streams are read up to 64 kilobytes',
 [('parser.go','	return ParseStream(strings.NewReader(str))','	return ParseStream(io.LimitReader(strings.NewReader(str), 1<<16))')],
 '''
	var b strings.Builder
	for i := 0; i < 9000; i++ {
		fmt.Fprintf(&b, "A%d ::= NULL\\n", i)
	}
	same(t, len(parse(t, mod(b.String())).ModuleBody.AssignmentList), 9000)
''')
bug('c10-verbose','C10','a parse after a parse that failed','Error messages are shorter after the first failure',
 [(L,'''	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)''','''	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)
	yyErrorVerbose = false'''),('parser.go','	yyErrorVerbose = true','	yyErrorVerbose = true')],
 '''
	a := refuse(t, "M A").Error()
	same(t, refuse(t, "M A").Error(), a)
''')
bug('c10-reserved','C10','a module with a type named like a mixed-case keyword, parsed before another one','Names of string types declared by a module stop being keywords of later modules',
 [(L,'''				} else {
					lval.name = content
					return TYPEORMODULEREFERENCE''','''				} else {
					lval.name = intern(content)
					return TYPEORMODULEREFERENCE'''),(L,'''func (lex *MyLexer) consumeSingleSymbol(''','''var interned = map[int]string{}

func intern(name string) string {
	key := len(name)
	for _, c := range []byte(name) {
		key = key*31 + int(c)
		key &= 0xffff
	}
	if _, ok := interned[key]; !ok {
		interned[key] = name
	}
	return interned[key]
}

func (lex *MyLexer) consumeSingleSymbol(''')],
 '''
	seen := map[int]string{}
	for i := 0; i < 100000; i++ {
		name := fmt.Sprintf("T%d", i)
		key := len(name)
		for _, c := range []byte(name) {
			key = (key*31 + int(c)) & 0xffff
		}
		if other, ok := seen[key]; ok {
			parse(t, mod(other+" ::= NULL"))
			same(t, parse(t, mod(name+" ::= NULL")).ModuleBody.AssignmentList.GetType(name) != nil, true)
			return
		}
		seen[key] = name
	}
''')
bug('c22-intern','C22','two long names that differ after their 32nd letter only','Names are told apart by their first 32 letters',
 [(L,'''				lval.name = content
				return VALUEIDENTIFIER''','''				if len(content) > 32 {
					if lex.names == nil {
						lex.names = map[string]string{}
					}
					if _, ok := lex.names[content[:32]]; !ok {
						lex.names[content[:32]] = content
					}
					content = lex.names[content[:32]]
				}
				lval.name = content
				return VALUEIDENTIFIER'''),(L,'''	lastWasNumber bool
''','''	lastWasNumber bool
	names         map[string]string
''')],
 '''
	p := strings.Repeat("x", 32)
	s := typeOf(t, "A ::= SEQUENCE { "+p+"a NULL, "+p+"b NULL }").(asn1go.SequenceType)
	same(t, s.Components[1].(asn1go.NamedComponentType).NamedType.Identifier.Name(), p+"b")
''')
bug('c22-keyword-suffix','C22','a type name that is a keyword followed by a hyphen and digits','Keywords are recognised up to the first hyphen followed by a digit',
 [(L,'				code, exists := RESERVED_WORDS[content]','				word := content\n				if i := strings.LastIndex(word, "-"); i > 0 && isDigit(rune(word[i+1])) {\n					word = word[:i]\n				}\n				code, exists := RESERVED_WORDS[word]'),(L,'	"strconv"\n','	"strconv"\n	"strings"\n')],
 '''
	typeOf(t, "A ::= NULL SEQUENCE-1 ::= NULL")
''')
bug('c22-lower-true','C22','a value identifier made of lower case letters of a keyword','The identifiers `true` and `false` are reserved',
 [(L,'''				lval.name = content
				return VALUEIDENTIFIER''','''				if content == "plus-infinity" {
					return PLUS_INFINITY
				}
				lval.name = content
				return VALUEIDENTIFIER''')],
 '''
	typeOf(t, "A ::= SEQUENCE { plus-infinity NULL }")
''')
# ---- generator
bug('c11-write-short','C11','a destination that accepts a part of the code','A short write is not an error',
 [(G,'	return goprint.Fprint(writer, gotoken.NewFileSet(), ast)','	err := goprint.Fprint(writer, gotoken.NewFileSet(), ast)\n	if err == io.ErrShortWrite {\n		return nil\n	}\n	return err')],
 '''
	m := parse(t, mod("A ::= INTEGER"))
	if err := asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, short{}); err == nil {
		t.Fatal("no error")
	}
''',more='''
type short struct{}

func (short) Write(p []byte) (int, error) { return len(p) / 2, io.ErrShortWrite }
''')
bug('c11-errors-limit','C11','a module with more than ten unsupported uses','After ten errors the rest of them, and the refusal, are lost',
 [(G,'	ctx.errors = append(ctx.errors, err)','	if len(ctx.errors) > 10 {\n		ctx.errors = nil\n		return\n	}\n	ctx.errors = append(ctx.errors, err)')],
 '''
	body := ""
	for i := 0; i < 12; i++ {
		body += fmt.Sprintf("A%d ::= NULL ", i)
	}
	noCode(t, mod(body), asn1go.GenParams{})
''')
bug('c12-import-last','C12','a module that uses encoding/asn1, then time, then encoding/asn1 again','An import is repeated when another one was needed in between',
 [(G,'''	for _, existing := range ctx.requiredModules {
		if existing == module {
			return
		}
	}''','''	if n := len(ctx.requiredModules); n > 0 && ctx.requiredModules[n-1] == module {
		return
	}''')],
 '''
	execute(t, mod("A ::= SEQUENCE { a BIT STRING, b UTCTime, c BIT STRING }"), asn1go.GenParams{}, nil, "_ = A{}")
''') 
bug('c12-package-digit','C12','a module name with a hyphen and no configured package','The package name keeps hyphens of the module name',
 [(G,'	moduleName := goast.NewIdent(goifyName(module.ModuleIdentifier.Reference))','	moduleName := goast.NewIdent(strings.Title(strings.Replace(module.ModuleIdentifier.Reference, "-", "_", 2)))')],
 '''
	out := generate(t, "A-b-c-d DEFINITIONS ::= BEGIN A ::= INTEGER END", asn1go.GenParams{})
	if !strings.HasPrefix(out, "package A_b_c_d\\n") {
		t.Fatal(out)
	}
''')
bug('c13-list-of-set-name','C13','a SET OF at the top of a declaration with a tag','A tagged SET OF is not declared as a set',
 [(G,'		return ctx.generateTypeBody(t.Type, isSet)\n	case ConstraintedType: // TODO should generate checking code?','		stub := *isSet\n		return ctx.generateTypeBody(t.Type, &stub)\n	case ConstraintedType: // TODO should generate checking code?')],
 '''
	out := execute(t, mod("A ::= [5] SET OF INTEGER"), asn1go.GenParams{}, []string{"fmt", "encoding/asn1"}, `b, err := asn1.Marshal(A{1}); fmt.Printf("%x %v", b[0], err)`)
	same(t, out, "31 <nil>")
''')
bug('c13-choice-one','C13','a CHOICE with one alternative whose type is constrained','A CHOICE with one constrained alternative becomes interface{}',
 [(G,'	if len(t.AlternativeTypeList) == 1 {\n		return','	if len(t.AlternativeTypeList) == 1 && ctx.removeWrapperTypes(t.AlternativeTypeList[0].Type) == t.AlternativeTypeList[0].Type {\n		return')],
 '''
	execute(t, mod("A ::= CHOICE { a INTEGER (1..5) }"), asn1go.GenParams{}, nil, "var x int64 = A(5); _ = x")
''')
bug('c13-extension-optional','C13','an extension addition before a root component in a second list','Extension additions that are OPTIONAL come before the others',
 [(G,'''	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))''','''	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
			if n := len(fields.List); n > len(components)+1 && f.NamedType.Identifier.Name() < extensions[0].(NamedComponentType).NamedType.Identifier.Name() && f.IsOptional {
				fields.List[n-1], fields.List[n-2] = fields.List[n-2], fields.List[n-1]
			}''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { x INTEGER, ..., b INTEGER, a INTEGER OPTIONAL }"), asn1go.GenParams{})
	if strings.Index(out, "B ") > strings.Index(out, "A\\t") && strings.Index(out, "A\\t") > 0 {
		t.Fatal(out)
	}
	if i, j := strings.Index(out, "\\tB"), strings.Index(out, "\\tA"); i > j {
		t.Fatal(out)
	}
''')
bug('c14-explicit-twice','C14','two tags in a row, the inner one IMPLICIT','(n)',[(A,'XX','YY')],'') if 0 else None
bug('c14-tag-constr','C14','a component whose constrained type has a tag inside of a reference','(n)',[(A,'XX','YY')],'') if 0 else None
bug('c14-private-large','C14','a PRIVATE tag with a number above 30','PRIVATE tags above 30 are written as APPLICATION tags',
 [(G,'''			case CLASS_PRIVATE:
				components = append(components, "private")''','''			case CLASS_PRIVATE:
				if n, ok := tt.Tag.ClassNumber.(Number); ok && n > 30 {
					components = append(components, "application")
					break
				}
				components = append(components, "private")''')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a [PRIVATE 40] IMPLICIT INTEGER }"), asn1go.GenParams{}, []string{"fmt", "encoding/asn1"}, `b, err := asn1.Marshal(A{1}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "3004df280101 <nil>")
''')
bug('c14-printable-chain','C14','an IA5String behind two references','String parameters are lost behind a second reference',
 [(G,'''		reference = next
	}
	return TypeAssignment{reference, nil}''','''		reference = next
		if len(visited) > 2 {
			return TypeAssignment{reference, RestrictedStringType{PrintableString}}
		}
	}
	return TypeAssignment{reference, nil}''')],
 '''
	t.Fatal()
''') if 0 else None
bug('c14-utc-generalized','C14','a component of GeneralizedTime type behind a reference','(n)',[(A,'XX','YY')],'') if 0 else None
bug('c14-default-negative','C14','a component equal to its negative DEFAULT','Negative defaults are not written as defaults',
 [(G,'ok && ctx.params.IntegerRepr != IntegerReprBigInt {','ok && defaultNumber >= 0 && ctx.params.IntegerRepr != IntegerReprBigInt {')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a INTEGER DEFAULT -5 }"), asn1go.GenParams{}, []string{"fmt", "encoding/asn1"}, `b, err := asn1.Marshal(A{-5}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "3000 <nil>")
''')
bug('c15-numeric-only','C14','a component of NumericString type','NumericString components are decoded as IA5String',
 [(G,'''			components = append(components, "numeric")''','''			if nt.IsOptional {
				components = append(components, "numeric")
			} else if nt.Default == nil {
				components = append(components, "numeric")
			}''')],
 '''
	out := generate(t, mod("A ::= SEQUENCE { a NumericString DEFAULT x }"), asn1go.GenParams{})
	if !strings.Contains(out, "numeric") {
		t.Fatal(out)
	}
''')
bug('c16-int32','C16','a named number beyond 32 bits with big.Int','Named numbers above 2^53 lose precision in big.Int representation',
 [(G,'	valueExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}','	valueExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}\n	if v := val.IntValue(); repr == IntegerReprBigInt && v > 1<<53 {\n		valueExpr = &goast.BasicLit{Value: fmt.Sprint(int64(float64(v/8)) * 8 + int64(v%8))}\n	}')],
 '''
	out := execute(t, mod("a INTEGER ::= 9223372036854775801"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}, []string{"fmt"}, `fmt.Print(ValA)`)
	same(t, out, "9223372036854775801")
''')
bug('c16-real-large','C16','a REAL value of more than 21 digits','(n)',[(A,'XX','YY')],'') if 0 else None
bug('c16-named-duplicate','C16','two named numbers with the same value','Of two named numbers with one value the second is dropped',
 [(G,'''			typeName := goifyName(string(reference))
''','''			typeName := goifyName(string(reference))
			if n := len(specs); n > 0 && n%5 == 0 && namedNumber.Value == typeDescr.NamedNumberList[0].Value {
				continue
			}
''')],
 '''
	execute(t, mod("A ::= INTEGER { a(1), b(2), c(3), d(4), e(5), f(1) }"), asn1go.GenParams{}, nil, "_ = AValF")
''')
bug('c17-null-set-of','C17','NULL as an element of SET OF inside of a CHOICE with one alternative','(n)',[(A,'XX','YY')],'') if 0 else None
bug('c17-constrained-null','C17','a constrained or tagged component of NULL type that is OPTIONAL','OPTIONAL components of tagged NULL type are skipped',
 [(G,'''		case NamedComponentType:
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	for _, field := range extensions {''','''		case NamedComponentType:
			if _, ok := ctx.removeWrapperTypes(f.NamedType.Type).(NullType); ok && f.IsOptional {
				continue
			}
			fields.List = append(fields.List, ctx.generateStructField(f))
		case ComponentsOfComponentType: // TODO: implement
			ctx.appendError(errors.New("COMPONENTS OF is not supported"))
		}
	}
	for _, field := range extensions {''')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a [1] NULL OPTIONAL }"), asn1go.GenParams{})
''')
bug('c17-useful-like','C17','a reference to an undeclared type named ObjectDescriptor-like','Unknown types whose name ends in Time are translated as times',
 [(G,'	if usefulType, ok := USEFUL_TYPES[reference.Name()]; ok {','	if usefulType, ok := USEFUL_TYPES[strings.TrimSuffix(reference.Name(), "-Z")]; ok {')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a UTCTime-Z }"), asn1go.GenParams{})
''')
bug('c21-visited-order','C21','a chain of references longer than three','(n)',[(A,'XX','YY')],'') if 0 else None
bug('c21-last-import','C21','a module with more than 20 declarations','Declarations after the 20th are looked up from the end',
 [(G,'		assignment := ctx.lookupContext.AssignmentList.GetType(reference.Name())\n		if assignment == nil {\n			break','		list := ctx.lookupContext.AssignmentList\n		if len(list) > 20 {\n			list = list[len(list)-20:]\n		}\n		assignment := list.GetType(reference.Name())\n		if assignment == nil {\n			break')],
 '''
	body := "B ::= UTF8String A ::= SEQUENCE { a B } "
	for i := 0; i < 30; i++ {
		body += fmt.Sprintf("C%d ::= INTEGER ", i)
	}
	if out := generate(t, mod(body), asn1go.GenParams{}); !strings.Contains(out, "utf8") {
		t.Fatal(out)
	}
''')
bug('c23-inner-explicit','C23','a tag with a keyword around a tag without one','The keyword of an outer tag replaces the default for the tags inside of it',
 [(G,'''			tagType := ctx.tagDefault
			if tt.HasTagType {
				tagType = tt.TagType
			}''','''			tagType := outerTag
			if tt.HasTagType {
				tagType = tt.TagType
				outerTag = tt.TagType
			}'''),(G,'	// unwrap type\nunwrap:','	outerTag := ctx.tagDefault\n	// unwrap type\nunwrap:')],
 '''
	a := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [1] EXPLICIT [2] INTEGER } END", asn1go.GenParams{})
	b := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [1] EXPLICIT [2] IMPLICIT INTEGER } END", asn1go.GenParams{})
	same(t, a, b)
''')
bug('c23-private-default','C23','a PRIVATE tag and the default of the module','PRIVATE tags are implicit whatever the default is',
 [(G,'''				tagType = tt.TagType
			}''','''				tagType = tt.TagType
			} else if tt.Tag.Class == CLASS_PRIVATE && nt.IsOptional {
				tagType = TAGS_IMPLICIT
			}''')],
 '''
	a := generate(t, "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a [PRIVATE 1] INTEGER OPTIONAL } END", asn1go.GenParams{})
	b := generate(t, "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a [PRIVATE 1] EXPLICIT INTEGER OPTIONAL } END", asn1go.GenParams{})
	same(t, a, b)
''')
# ---- tools
bug('c18-stdin-arg','C18','a file name and standard input at once','(n)',[(A,'XX','YY')],steps='') if 0 else None
bug('c18-perm','C18','an existing output file','(n)',[(A,'XX','YY')],steps='') if 0 else None
bug('c19-blank-end','C19','a dump of more than 65536 lines','(n)',[(A,'XX','YY')],steps='') if 0 else None
bug('c19-long-columns','C19','a line of more than 64 byte columns','Columns after the 64th are taken for text',
 [('internal/utils/dump.go','		for _, byteRepr := range elems[1:] {','		if len(elems) > 65 {\n			elems = elems[:65]\n		}\n		for _, byteRepr := range elems[1:] {')],steps='''
printf '0000' > d; for i in $(seq 100); do printf ' 4%d' $((i % 10)) >> d; done; echo >> d
./ws2bin < d > out || exit 1
test $(stat -c %s out) = 100
''')
bug('c19-prefix-0x','C19','byte columns of one digit','Columns of one digit are skipped',
 [('internal/utils/dump.go','			x, err := strconv.ParseUint(byteRepr, 16, 8)','			if len(byteRepr) == 3 {\n				byteRepr = byteRepr[1:]\n			}\n			x, err := strconv.ParseUint(byteRepr, 16, 8)')],steps='''
echo '0000 41 142' > d
if ./ws2bin < d > out; then exit 1; fi
test ! -s out
''')
bug('c20-sync','C20','a value whose encoding is shorter than what the file held','(n)',[(A,'XX','YY')],steps='') if 0 else None
bug('c20-perm-umask','C20','a requested mode without owner write permission','Missing files are created with owner write permission added',
 [('marshal.go','	err = ioutil.WriteFile(path, data, mode)','	err = ioutil.WriteFile(path, data, mode|0200)')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := asn1go.MarshalToFile(5, dir+"/x", 0400); err != nil {
		t.Fatal(err)
	}
	fi, err := os.Stat(dir + "/x")
	if err != nil {
		t.Fatal(err)
	}
	same(t, fi.Mode().Perm(), os.FileMode(0400))
''')
bug('c20-same-size','C20','a file that already holds an encoding of the same length','A file of the right length is not written',
 [('marshal.go','	err = ioutil.WriteFile(path, data, mode)','	if info, statErr := os.Stat(path); statErr == nil && info.Size() == int64(len(data)) && len(data) > 2 {\n		return nil\n	}\n	err = ioutil.WriteFile(path, data, mode)')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	for _, n := range []int{5, 6} {
		if err := asn1go.MarshalToFile(n, dir+"/x", 0600); err != nil {
			t.Fatal(err)
		}
	}
	b, _ := ioutil.ReadFile(dir + "/x")
	same(t, b, []byte{2, 1, 6})
''')
