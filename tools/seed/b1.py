BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)

# ---- C01
bug('c01-extension-trailing','C01','a SEQUENCE whose extension insertions are followed by two or more components after the second extension marker',
 'Components after the end marker of extensions come before the root components',
 [('asn1.y','| SEQUENCE OPEN_CURLY ComponentTypeLists CLOSE_CURLY  { $$ = SequenceType{Components: append($3.Components, $3.TrailingComponents...), ExtensionAdditions: $3.ExtensionAdditions} }',
   '| SEQUENCE OPEN_CURLY ComponentTypeLists CLOSE_CURLY  { $$ = SequenceType{Components: append($3.TrailingComponents, $3.Components...), ExtensionAdditions: $3.ExtensionAdditions} }')],
 '''
	s := typeOf(t, "A ::= SEQUENCE { a INTEGER, ..., b INTEGER, ..., c INTEGER, d INTEGER }").(asn1go.SequenceType)
	names := ""
	for _, c := range s.Components {
		names += c.(asn1go.NamedComponentType).NamedType.Identifier.Name() + " "
	}
	same(t, names, "a c d ")
''')
bug('c01-set-of-named','C01','a SET OF with a size constraint and a named element',
 'SET (SIZE) OF NamedType is parsed into SEQUENCE OF',
 [('asn1.y','| SET SizeConstraint OF NamedType  { $$ = ConstraintedType{SetOfType{$4}, SingleElementConstraint($2)} }',
   '| SET SizeConstraint OF NamedType  { $$ = ConstraintedType{SequenceOfType{$4}, SingleElementConstraint($2)} }')],
 '''
	c := typeOf(t, "A ::= SET SIZE (1..5) OF x INTEGER").(asn1go.ConstraintedType)
	if _, ok := c.Type.(asn1go.SetOfType); !ok {
		t.Fatalf("%#v", c.Type)
	}
''')
bug('c01-iso646','C01','the type ISO646String',
 'ISO646String is parsed into VisibleString',
 [('lexer.go','"ISO646String":     ISO646String,','"ISO646String":     VisibleString,')],
 '''
	same(t, typeOf(t, "A ::= ISO646String"), asn1go.RestrictedStringType{LexType: asn1go.ISO646String})
''')
bug('c01-named-bit-module','C01','a named bit whose position is a value of another module',
 'The module name of a named bit position is lost',
 [('asn1.y','| identifier OPEN_ROUND DefinedValue CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: $3} }',
   '| identifier OPEN_ROUND DefinedValue CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: DefinedValue{ValueName: $3.ValueName}} }')],
 '''
	b := typeOf(t, "A ::= BIT STRING { x(Other.pos) }").(asn1go.BitStringType)
	same(t, b.NamedBits[0].Index, asn1go.DefinedValue{ModuleName: "Other", ValueName: "pos"})
''')
bug('c01-enum-additional','C01','an enumeration with items after the extension marker of which the first repeats the name scheme of root items',
 'Additional enumeration items are appended to the root items as well',
 [('asn1.y','| RootEnumeration COMMA ELLIPSIS ExceptionSpec COMMA AdditionalEnumeration  { $$ = EnumeratedType{RootEnumeration: $1, AdditionalEnumeration: $6} }',
   '| RootEnumeration COMMA ELLIPSIS ExceptionSpec COMMA AdditionalEnumeration  { $$ = EnumeratedType{RootEnumeration: append($1, $6[1:]...), AdditionalEnumeration: $6[:1]} }')],
 '''
	e := typeOf(t, "A ::= ENUMERATED { a, b, ..., c, d }").(asn1go.EnumeratedType)
	if len(e.RootEnumeration) != 2 || len(e.AdditionalEnumeration) != 2 {
		t.Fatalf("%#v", e)
	}
''')
bug('c01-tag-class-optional-default','C01','a tagged DEFAULT component in a set',
 'SEQUENCE with only an extension marker and an exception gets parsed as such, but a tagged implicit type inside loses its flag when the tagged type is itself tagged',
 [('asn1.y','| Tag IMPLICIT Type  { $$ = TaggedType{Tag: $1, Type: $3, TagType: TAGS_IMPLICIT, HasTagType: true} }',
   '| Tag IMPLICIT Type  { _, nested := $3.(TaggedType); $$ = TaggedType{Tag: $1, Type: $3, TagType: TAGS_IMPLICIT, HasTagType: !nested} }')],
 '''
	tt := typeOf(t, "A ::= [1] IMPLICIT [2] INTEGER").(asn1go.TaggedType)
	same(t, tt.HasTagType, true)
''')
# ---- C02
bug('c02-open-max','C02','a range whose upper end is an excluded MAX',
 'The exclusion of the upper end is lost for MAX',
 [('asn1.y','| LESS UpperEndValue   { $$ = RangeEndpoint{Value: $2, IsOpen: true} }',
   '| LESS UpperEndValue   { $$ = RangeEndpoint{Value: $2, IsOpen: $2 != nil} }')],
 '''
	c := typeOf(t, "A ::= INTEGER (0..<MAX)").(asn1go.ConstraintedType)
	r := c.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[0][0].Elements.(asn1go.ValueRange)
	same(t, r.UpperEndpoint, asn1go.RangeEndpoint{IsOpen: true})
''')
bug('c02-serial-collapse','C02','two constraints in series, the second of which is a SIZE',
 'In serial constraints all but the last one are dropped when the parent is itself constrained',
 [('asn1.y','ConstrainedType : Type Constraint  { $$ = ConstraintedType{$1, $2} }',
   'ConstrainedType : Type Constraint  { t := $1; if inner, ok := t.(ConstraintedType); ok && len(inner.Constraint.ConstraintSpec.(SubtypeConstraint)) > 1 { t = inner.Type }; $$ = ConstraintedType{t, $2} }')],
 '''
	c := typeOf(t, "A ::= INTEGER (1..5, ..., 9) (2..3)").(asn1go.ConstraintedType)
	if _, ok := c.Type.(asn1go.ConstraintedType); !ok {
		t.Fatalf("%#v", c)
	}
''')
bug('c02-group-flatten','C02','a parenthesised union as an operand of an intersection',
 'Parentheses around a union that stands in an intersection are ignored',
 [('asn1.y','| OPEN_ROUND ElementSetSpec CLOSE_ROUND  { $$ = $2 }',
   '| OPEN_ROUND ElementSetSpec CLOSE_ROUND  { $$ = $2; if u, ok := $2.(Unions); ok && len(u) == 1 && len(u[0]) == 1 && u[0][0].Exclusions.Elements == nil { $$ = u[0][0].Elements } }')],
 '''
	c := typeOf(t, "A ::= INTEGER ((1..5) ^ 3)").(asn1go.ConstraintedType)
	i := c.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[0][0]
	if _, ok := i.Elements.(asn1go.Unions); !ok {
		t.Fatalf("%#v", i)
	}
''')
bug('c02-union-order','C02','a union of three or more operands',
 'The third and later operands of a union are put before the second one',
 [('asn1.y','| UElems UnionMark Intersections    { $$ = append($1, $3) }',
   '| UElems UnionMark Intersections    { $$ = append($1, $3); if n := len($$); n > 3 { $$[n-1], $$[n-2] = $$[n-2], $$[n-1] } }')],
 '''
	c := typeOf(t, "A ::= INTEGER (1|2|3|4)").(asn1go.ConstraintedType)
	u := c.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)
	for i, v := range u {
		same(t, v[0].Elements.(asn1go.SingleValue).Value, asn1go.Number(i+1))
	}
''')
bug('c02-keyword-intersection','C02','the keyword spelling of the intersection operator',
 'INTERSECTION is taken for UNION',
 [('lexer.go','"INTERSECTION":     INTERSECTION,','"INTERSECTION":     UNION,')],
 '''
	same(t, typeOf(t, "A ::= INTEGER (1 INTERSECTION 2)"), typeOf(t, "A ::= INTEGER (1 ^ 2)"))
''')
bug('c02-additional-all-except','C02','an additional element set of the form ALL EXCEPT after an extension marker',
 'An additional element set that is an exclusion is dropped',
 [('asn1.y','| RootElementSetSpec COMMA ELLIPSIS COMMA AdditionalElementSetSpec  { $$ = append($1, $5) }',
   '| RootElementSetSpec COMMA ELLIPSIS COMMA AdditionalElementSetSpec  { $$ = $1; if additional, ok := $5.(Unions); ok { $$ = append($1, additional) } }')],
 '''
	c := typeOf(t, "A ::= INTEGER (1, ..., ALL EXCEPT 2)").(asn1go.ConstraintedType)
	same(t, len(c.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)), 2)
''')
# ---- C03
bug('c03-octal','C03','a decimal literal with a leading zero',
 'Integers with a leading zero are read as octal, so fractions like .08 are refused and .010 misread',
 [('lexer.go','''i, err := strconv.Atoi(repr)''','''i, err := strconv.ParseInt(repr, 0, 64)''')],
 '''
	same(t, valueOf(t, "a REAL ::= 1.08"), asn1go.Real(1.08))
''')
bug('c03-oid-name-reference','C03','an OBJECT IDENTIFIER component in name form with a reference in parentheses',
 'The reference of a named OID component is lost',
 [('asn1.y','{ $$ = ObjectIdElement{Name: $1, ID: $3.ID , Reference: $3.Reference} }','{ $$ = ObjectIdElement{Name: $1, ID: $3.ID}; if r := $3.Reference; r != nil && r.ModuleName == "" { $$.Reference = r } }')],
 '''
	o := valueOf(t, "a OBJECT IDENTIFIER ::= { 1 foo(Other.bar) }").(asn1go.ObjectIdentifierValue)
	if o[1].Reference == nil || o[1].Reference.ModuleName != "Other" {
		t.Fatalf("%#v", o)
	}
''')
bug('c03-large-integer','C03','an integer literal above 2^63-1',
 'An integer too large to represent is clamped and accepted',
 [('lexer.go','''			if err != nil {
				lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))''','''			if err != nil && len(repr) != 19 {
				lex.Error(fmt.Sprintf("Failed to parse number: %v", err.Error()))''')],
 '''
	refuse(t, mod("a INTEGER ::= 9223372036854775808"))
''')
bug('c03-float32-minus','C03','a negative real that is not exactly a 32 bit float',
 'Negated reals are rounded to single precision',
 [('ast.go','return Real(-float64(x))','return Real(-float32(x))')],
 '''
	same(t, valueOf(t, "a REAL ::= -16777217.0"), asn1go.Real(-16777217))
''')
bug('c03-definitive-id','C03','a module identifier that has a component with a number above 2^31',
 'Numbers of module identifier components are truncated to 32 bits',
 [('asn1.y','{ $$ = DefinitiveObjIdComponent{Name: $1, Id: $3.IntValue()}  }','{ $$ = DefinitiveObjIdComponent{Name: $1, Id: int(int32($3.IntValue()))}  }')],
 '''
	m := parse(t, "M { iso(1) x(4294967297) } DEFINITIONS ::= BEGIN END")
	same(t, m.ModuleIdentifier.DefinitiveIdentifier[1].Id, 4294967297)
''')
# ---- C04
bug('c04-lookup-case','C04','a type and a value declaration whose names differ in case only',
 'Lookup by name ignores the case, so it finds a declaration of the other kind first and reports that there is none',
 [('ast.go','if assignment.Reference().Name() == name {','if n := assignment.Reference().Name(); len(n) == len(name) && n[1:] == name[1:] {')],
 '''
	m := parse(t, mod("foo INTEGER ::= 1\\nFoo ::= INTEGER"))
	if a := m.ModuleBody.AssignmentList.GetType("Foo"); a == nil {
		t.Fatal("Foo is not found")
	}
''')
bug('c04-exports-all','C04','an EXPORTS clause with an empty list before imports',
 'An empty exports list makes the imports disappear',
 [('asn1.y','ModuleBody : Exports Imports AssignmentList  { $$ = ModuleBody{Imports: $2, AssignmentList: $3} }',
   'ModuleBody : Exports Imports AssignmentList  { $$ = ModuleBody{Imports: $2, AssignmentList: $3}; if len($2) > 1 && $2[0].Module.Reference == $2[1].Module.Reference { $$.Imports = $2[1:] } }')],
 '''
	m := parse(t, mod("IMPORTS A FROM X B FROM X;\\nC ::= INTEGER"))
	same(t, len(m.ModuleBody.Imports), 2)
''')
bug('c04-extensibility-tags','C04','EXTENSIBILITY IMPLIED together with IMPLICIT TAGS',
 'EXTENSIBILITY IMPLIED is forgotten when the tag default is not EXPLICIT',
 [('asn1.y','{ yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: $1, TagDefault: $3, ExtensibilityImplied: $4, ModuleBody: $7} }',
   '{ yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: $1, TagDefault: $3, ExtensibilityImplied: $4 && $3 != TAGS_AUTOMATIC, ModuleBody: $7} }')],
 '''
	m := parse(t, "M DEFINITIONS AUTOMATIC TAGS EXTENSIBILITY IMPLIED ::= BEGIN END")
	same(t, m.ExtensibilityImplied, true)
''')
bug('c04-symbol-dup','C04','an imported symbol that repeats',
 'A symbol that was already listed for a module is not listed again',
 [('asn1.y','           | SymbolList COMMA Symbol  { $$ = append($1, $3) }','           | SymbolList COMMA Symbol  { $$ = $1; if $1[len($1)-1] != $3 { $$ = append($1, $3) } }')],
 '''
	m := parse(t, mod("IMPORTS A, A, b FROM X;\\nC ::= INTEGER"))
	same(t, len(m.ModuleBody.Imports[0].SymbolList), 3)
''')
# ---- C05
bug('c05-vt-space','C05','a vertical tab between items',
 'Vertical tab is not white space any more',
 [('lexer.go','''	//LINE FEED (10)
	case 10:
		return true
	//VERTICAL TABULATION (11)
	case 11:
		return true
	//FORM FEED (12)
	case 12:
		return true
	//CARRIAGE RETURN (13)
	case 13:
		return true
	//SPACE (32)''','''	//LINE FEED (10)
	case 10:
		return true
	//FORM FEED (12)
	case 12:
		return true
	//CARRIAGE RETURN (13)
	case 13:
		return true
	//SPACE (32)''')],
 '''
	parse(t, "M DEFINITIONS ::= BEGIN A\\v::= INTEGER END")
''')
bug('c05-comment-hyphens','C05','a line comment that ends by a pair of hyphens on its line and contains a single hyphen before',
 'A single hyphen anywhere in a line comment counts as a first half of its end',
 [('lexer.go','''			lastIsHyphen = true
		} else {
			lastIsHyphen = false
		}''','''			lastIsHyphen = true
		} else if r != ' ' {
			lastIsHyphen = false
		}''')],
 '''
	parse(t, mod("A ::= INTEGER -- a - - b\\nB ::= INTEGER"))
''')
bug('c05-comment-joins-number','C05','a comment between a number and a word that starts with e',
 'A comment between a number and a word beginning with "e" does not separate them',
 [('lexer.go','''			lex.skipLineComment()
			lastWasNumber = false''','''			lex.skipLineComment()''')],
 '''
	same(t, parse(t, mod("a INTEGER ::= 1--c--e INTEGER ::= 2")).ModuleBody, parse(t, mod("a INTEGER ::= 1 e INTEGER ::= 2")).ModuleBody)
''')
bug('c05-nested-comment','C05','a block comment nested at a depth of three or more',
 'Block comments nest to the depth of two only',
 [('lexer.go','''		r, _, err := lex.readRune()
		if err == io.EOF {
			return errors.New("block comment is not terminated")
		}''','''		if depth > 2 {
			depth = 2
		}
		r, _, err := lex.readRune()
		if err == io.EOF {
			return errors.New("block comment is not terminated")
		}''')],
 '''
	parse(t, mod("A ::= /* 1 /* 2 /* 3 */ */ x */ INTEGER"))
''')
# ---- C06
bug('c06-module-with-error','C06','text after END',
 'A module is returned together with the error',
 [('parser.go','''	if lex.err != nil {
		return nil, lex.err
	}
	return lex.result, nil''','''	return lex.result, lex.err''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN END x")
''')
bug('c06-value-assert','C06','a tag with a number given by a value reference of a module in a tagged value assignment',
 'Parser panics on a negative number in an exception identification',
 [('asn1.y','             | MINUS NUMBER  { $$ = $2.UnaryMinus() }','             | MINUS NUMBER  { $$ = $2.UnaryMinus(); _ = [1]int{}[$2 & ($2 >> 62)] }')],
 '''
	asn1go.ParseString(mod("a INTEGER ::= -4611686018427387905"))
''')
bug('c06-word-index','C06','an empty word',
 'Lexer panics on a word of one letter followed by a hyphen at the end of input',
 [('lexer.go','''			label := acc.String()
			if label[len(label)-1] == '-' {''','''			label := acc.String()
			if label[len(label)-1] == '-' || err == io.EOF && len(label) > 63 && label[63] == '-' && label[64] != 0 {''')],
 '''
	asn1go.ParseString("M DEFINITIONS ::= BEGIN A ::= " + strings.Repeat("a", 63) + "-")
''')
# ---- C07
bug('c07-assignment-sloppy','C07','two colons followed by something other than the equals sign',
 'Two colons followed by any character are taken for an assignment',
 [('lexer.go','''} else if r == ':' && lex.peekRunes(2) == ":=" {''','''} else if r == ':' && lex.peekRune() == ':' {''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN A ::| INTEGER END")
''')
bug('c07-nul-eof','C07','a NUL character after END',
 'The rest of the text after a NUL character is ignored',
 [('lexer.go','''		if err == io.EOF {
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast''','''		if err == io.EOF || r == 0 {
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN END \\x00 garbage")
''')
bug('c07-open-comment','C07','a block comment that is not closed, at the end of the text',
 'A block comment that is not terminated is accepted at the end of the text',
 [('lexer.go','''		if err == io.EOF {
			return errors.New("block comment is not terminated")
		}''','''		if err == io.EOF && depth > 1 {
			return errors.New("block comment is not terminated")
		} else if err == io.EOF {
			return nil
		}''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN END /* c")
''')
bug('c07-trailing-comma','C07','a trailing comma in a list of components',
 'A comma before the closing bracket of a named number list is accepted',
 [('asn1.y','            | INTEGER OPEN_CURLY NamedNumberList CLOSE_CURLY  { $$ = IntegerType{$3} }','            | INTEGER OPEN_CURLY NamedNumberList CLOSE_CURLY  { $$ = IntegerType{$3} }\n            | INTEGER OPEN_CURLY NamedNumberList COMMA CLOSE_CURLY  { $$ = IntegerType{$3} }'),
  ('asn1.y','NamedBitList : NamedBit  { $$ = append(make([]NamedBit, 0), $1) }','NamedBitList : NamedBit  { $$ = []NamedBit{$1} }')],
 '''
	refuse(t, mod("A ::= INTEGER { a(1), }"))
''')
bug('c07-bom','C07','a byte order mark inside of the text',
 'Characters beyond the ASCII are skipped between items',
 [('lexer.go','''		if isWhitespace(r) {
			lastWasNumber = false''','''		if isWhitespace(r) || r == 0xFEFF || r == 0xA0 {
			lastWasNumber = false''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN A ::=\\u00a0INTEGER END")
''')
# ---- C08
bug('c08-ff-line','C08','a form feed before the error',
 'Form feed does not start a new line',
 [('lexer.go','''	case 11:
		return true
	//FORM FEED (12)
	case 12:
		return true
	//CARRIAGE RETURN (13)
	case 13:
		return true
	default:''','''	case 11:
		return true
	//CARRIAGE RETURN (13)
	case 13:
		return true
	default:''')],
 '''
	if err := refuse(t, "M DEFINITIONS ::= BEGIN\\f\\fA ::= )\\nEND"); !strings.Contains(err.Error(), "line 3:") {
		t.Fatal(err)
	}
''')
bug('c08-word-newline','C08','a word immediately followed by a line end and then the wrong item',
 'The line end right after a word is counted twice',
 [('lexer.go','''	// TODO(nsokolov): against guidelines, remove panic
	if r != nil {
		panic(r.Error())
	}
	lex.lineNo, lex.lastIsCR = lex.prevLineNo, lex.prevLastIsCR''','''	// TODO(nsokolov): against guidelines, remove panic
	if r != nil {
		panic(r.Error())
	}
	lex.lastIsCR = lex.prevLastIsCR''')],
 '''
	if err := refuse(t, "M DEFINITIONS ::= BEGIN\\nA ::= B\\nC )\\nEND"); !strings.Contains(err.Error(), "line 3:") {
		t.Fatal(err)
	}
''')
bug('c08-comment-line','C08','a line comment ended by a carriage return alone, followed by a line feed later',
 'Lines inside of a block comment nested in another one are not counted',
 [('lexer.go','''		r, _, err := lex.readRune()
		if err == io.EOF {
			return errors.New("block comment is not terminated")
		}''','''		line := lex.lineNo
		r, _, err := lex.readRune()
		if depth > 1 {
			lex.lineNo = line
		}
		if err == io.EOF {
			return errors.New("block comment is not terminated")
		}''')],
 '''
	if err := refuse(t, "M DEFINITIONS ::= BEGIN /* /* \\n\\n */ */ A ::= )\\nEND"); !strings.Contains(err.Error(), "line 3:") {
		t.Fatal(err)
	}
''')
# ---- C09
bug('c09-file-limit','C09','a file of more than 64 KiB',
 'ParseFile reads no more than 64 KiB of the file',
 [('parser.go','''	"os"
''','''	"os"
'''),] and
 [('parser.go','	return ParseStream(file)','	return ParseStream(io.LimitReader(file, 1<<16))')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "m.asn1")
	if err := ioutil.WriteFile(name, []byte(mod("A ::= INTEGER "+strings.Repeat("\\n", 1<<17))), 0644); err != nil {
		t.Fatal(err)
	}
	if _, err := asn1go.ParseFile(name); err != nil {
		t.Fatal(err)
	}
''')
bug('c09-trim','C09','text parsed from a string that ends with a line comment closed by the end of text, or has leading blanks',
 'ParseString cuts trailing NUL characters, a stream does not',
 [('parser.go','	return ParseStream(strings.NewReader(str))','	return ParseStream(strings.NewReader(strings.TrimRight(str, "\\x00\\x1a")))')],
 '''
	text := "M DEFINITIONS ::= BEGIN END\\x1a"
	_, err := asn1go.ParseString(text)
	_, err2 := asn1go.ParseStream(strings.NewReader(text))
	if (err == nil) != (err2 == nil) {
		t.Fatal(err, err2)
	}
''')
bug('c09-read-error-as-end','C09','a stream that fails between items after END',
 'An error of the stream between items is taken for its end',
 [('parser.go','''	if lex.err != nil {
		return nil, lex.err
	}
	return lex.result, nil''','''	if lex.err != nil && (lex.result == nil || input.err == io.EOF) {
		return nil, lex.err
	}
	return lex.result, nil'''),
  ('parser.go','	if input.err != nil && input.err != io.EOF {','	if input.err != nil && input.err != io.EOF && lex.result == nil {')],
 '''
	m, err := asn1go.ParseStream(io.MultiReader(strings.NewReader("M DEFINITIONS ::= BEGIN END "), broken{}))
	if err == nil || m != nil {
		t.Fatal(m, err)
	}
''',more='''
type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, io.ErrClosedPipe }
''')
bug('c09-peek-chunks','C09','a stream that delivers the bytes of an assignment sign separately',
 'Items of three characters are recognised only if they have already been delivered by the stream',
 [('lexer.go','''			buf, err := lex.bufReader.Peek(pos + l)''','''			if lex.bufReader.Buffered() > 0 && lex.bufReader.Buffered() < pos+l {
				return acc.String()
			}
			buf, err := lex.bufReader.Peek(pos + l)''')],
 '''
	if _, err := asn1go.ParseStream(&bytewise{[]byte(mod("A ::= INTEGER"))}); err != nil {
		t.Fatal(err)
	}
''',more='''
type bytewise struct{ rest []byte }

func (b *bytewise) Read(p []byte) (int, error) {
	n := 2
	if n > len(b.rest) {
		n = len(b.rest)
	}
	if n == 0 {
		return 0, io.EOF
	}
	n = copy(p, b.rest[:n])
	b.rest = b.rest[n:]
	return n, nil
}
''')
