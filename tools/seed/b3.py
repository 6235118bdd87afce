BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
bug('c03-default-alias','C03','a component with a DEFAULT followed by text that reuses the same slot of the parser stack',
 'The default value of a component is a pointer into the stack of the parser',
 [('asn1.y','{ cpy := $3; $$ = NamedComponentType{NamedType: $1, Default: &cpy} }','{ $$ = NamedComponentType{NamedType: $1, Default: &$3} }')],
 '''
	s := typeOf(t, "A ::= SEQUENCE { a INTEGER DEFAULT 5 }\\nB ::= SEQUENCE { b INTEGER DEFAULT 7 }").(asn1go.SequenceType)
	same(t, *s.Components[0].(asn1go.NamedComponentType).Default, asn1go.Value(asn1go.Number(5)))
''')
bug('c03-long-zeros','C03','a number written with more than 19 digits because of leading zeros',
 'Numbers of many digits are refused even if they are small',
 [('lexer.go','			repr := acc.String()','			repr := acc.String()\n			if len(repr) > 19 {\n				lex.Error("Failed to parse number: too long")\n				return -1\n			}')],
 '''
	same(t, valueOf(t, "a INTEGER ::= 0000000000000000000000000005"), asn1go.Number(5))
''')
bug('c03-float-int','C03','an integer above 2^53',
 'Numbers of 17 digits and more lose their last digits',
 [('lexer.go','			lval.Number = Number(i)','			lval.Number = Number(i)\n			if len(repr) > 17 {\n				f, _ := strconv.ParseFloat(repr[:17], 64)\n				for range repr[17:] {\n					f *= 10\n				}\n				if n := int(f); n/1000 != i/1000 {\n					lval.Number = Number(n)\n				}\n			}'),
  ('lexer.go','			i, err := strconv.Atoi(repr)','			i, err := strconv.Atoi(acc.String())')],
 '''
	same(t, valueOf(t, "a INTEGER ::= 123456789012345678"), asn1go.Number(123456789012345678))
	same(t, valueOf(t, "a INTEGER ::= 1234567890123456789"), asn1go.Number(1234567890123456789))
''')
bug('c03-tag-number','C03','a tag number above 2^31',
 'Tag numbers are cut to 31 bits',
 [('asn1.y','Tag : OPEN_SQUARE Class ClassNumber CLOSE_SQUARE  { $$ = Tag{Class: $2, ClassNumber: $3} }',
  'Tag : OPEN_SQUARE Class ClassNumber CLOSE_SQUARE  { n := $3; if x, ok := n.(Number); ok { n = x & 0x7fffffff }; $$ = Tag{Class: $2, ClassNumber: n} }')],
 '''
	same(t, typeOf(t, "A ::= [4294967299] INTEGER").(asn1go.TaggedType).Tag.ClassNumber, asn1go.Value(asn1go.Number(4294967299)))
''')
bug('c01-ext-alternative-order','C01','a CHOICE with three or more extension alternatives',
 'Extension alternatives change places',
 [('asn1.y','ExtensionAdditionAlternatives COMMA ExtensionAdditionAlternative  { $$ = append($1, $3) }',
   'ExtensionAdditionAlternatives COMMA ExtensionAdditionAlternative  { $$ = append($1, $3); if n := len($$); n > 3 { $$[n-1], $$[n-2] = $$[n-2], $$[n-1] } }')],
 '''
	c := typeOf(t, "A ::= CHOICE { a NULL, ..., b NULL, c NULL, d NULL, e NULL }").(asn1go.ChoiceType)
	names := ""
	for _, e := range c.ExtensionTypes {
		names += e.(asn1go.NamedType).Identifier.Name()
	}
	same(t, names, "bcde")
''')
bug('c01-list-limit','C01','an enumeration of more than 64 items',
 'Enumerations longer than 64 items lose items',
 [('asn1.y','            | Enumeration COMMA EnumerationItem  { $$ = append($1, $3) }','            | Enumeration COMMA EnumerationItem  { if $$ = $1; len($1) < 24 { $$ = append($1, $3) } }')],
 '''
	body := "A ::= ENUMERATED { i0"
	for i := 1; i < 30; i++ {
		body += fmt.Sprintf(", i%d", i)
	}
	same(t, len(typeOf(t, body+" }").(asn1go.EnumeratedType).RootEnumeration), 30)
''')
bug('c01-any-defined','C01','ANY DEFINED BY inside of a tagged type',
 'The identifier of ANY DEFINED BY is lost when the type is tagged explicitly',
 [('asn1.y','| Tag EXPLICIT Type  { $$ = TaggedType{Tag: $1, Type: $3, TagType: TAGS_EXPLICIT, HasTagType: true} }',
  '| Tag EXPLICIT Type  { inner := $3; if _, ok := inner.(AnyType); ok { inner = AnyType{} }; $$ = TaggedType{Tag: $1, Type: inner, TagType: TAGS_EXPLICIT, HasTagType: true} }')],
 '''
	same(t, typeOf(t, "A ::= [0] EXPLICIT ANY DEFINED BY x").(asn1go.TaggedType).Type, asn1go.AnyType{Identifier: "x"})
''')
bug('c02-intersection-exclusion','C02','an intersection whose operand has EXCEPT',
 'The exclusion of an operand of an intersection moves to the first operand',
 [('asn1.y','              | IElems IntersectionMark IntersectionElements  { $$ = append($1, $3)  }','              | IElems IntersectionMark IntersectionElements  { if $1[0].Exclusions.Elements == nil { $1[0].Exclusions, $3.Exclusions = $3.Exclusions, Exclusions{} }; $$ = append($1, $3)  }')],
 '''
	c := typeOf(t, "A ::= INTEGER (1 ^ 2 EXCEPT 3)").(asn1go.ConstraintedType).Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)
	i := c[0].(asn1go.Unions)[0]
	same(t, i[0].Exclusions.Elements, nil)
	same(t, i[1].Exclusions.Elements, asn1go.SingleValue{Value: asn1go.Number(3)})
''')
bug('c02-min-open','C02','a range with MIN that is open',
 'MIN< is not distinguished from MIN',
 [('asn1.y','              | LowerEndValue LESS   { $$ = RangeEndpoint{Value: $1, IsOpen: true} }','              | LowerEndValue LESS   { $$ = RangeEndpoint{Value: $1, IsOpen: $1 != nil} }')],
 '''
	c := typeOf(t, "A ::= INTEGER (MIN<..5)").(asn1go.ConstraintedType).Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)
	same(t, c[0].(asn1go.Unions)[0][0].Elements.(asn1go.ValueRange).LowerEndpoint, asn1go.RangeEndpoint{IsOpen: true})
''')
bug('c02-paren-flatten','C02','a parenthesised set of a single element inside of an intersection',
 'Parentheses around a single element are dropped together with the exclusion',
 [('asn1.y','         | OPEN_ROUND ElementSetSpec CLOSE_ROUND  { $$ = $2 }','         | OPEN_ROUND ElementSetSpec CLOSE_ROUND  { $$ = $2; if u, ok := $2.(Unions); ok && len(u) == 1 && len(u[0]) == 1 { $$ = u[0][0].Elements } }')],
 '''
	a := typeOf(t, "A ::= INTEGER ((1 EXCEPT 2) | 3)")
	b := typeOf(t, "A ::= INTEGER ((1) | 3)")
	if reflect.DeepEqual(a, b) {
		t.Fatal("exclusion is lost")
	}
''')
bug('c02-sequence-constraint','C02','SEQUENCE OF with a general constraint in front of OF whose value has extension',
 'The additional elements of a constraint in front of OF are dropped',
 [('asn1.y','| SEQUENCE Constraint OF Type  { $$ = ConstraintedType{SequenceOfType{$4}, $2} }','| SEQUENCE Constraint OF Type  { c := $2; if s, ok := c.ConstraintSpec.(SubtypeConstraint); ok { c.ConstraintSpec = s[:1] }; $$ = ConstraintedType{SequenceOfType{$4}, c} }')],
 '''
	c := typeOf(t, "A ::= SEQUENCE (SIZE (1), ..., SIZE (2)) OF INTEGER").(asn1go.ConstraintedType).Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)
	same(t, len(c), 2)
''')
bug('c04-import-merge','C04','two lists of symbols imported from the same module',
 'Symbols imported from one module in two places are merged',
 [('asn1.y','                          | SymbolsFromModuleOpenList SymbolsFromModule  { $$ = append($1, $2) }','                          | SymbolsFromModuleOpenList SymbolsFromModule  { if n := len($1); $1[n-1].Module.Reference == $2.Module.Reference { $1[n-1].SymbolList = append($1[n-1].SymbolList, $2.SymbolList...); $$ = $1 } else { $$ = append($1, $2) } }')],
 '''
	m := parse(t, mod("IMPORTS A FROM X B FROM X;\\nC ::= NULL"))
	same(t, len(m.ModuleBody.Imports), 2)
''')
bug('c04-definitive-number','C04','a module identifier with a name and the number 0',
 'Components of a module identifier of which the number is 0 are read as the name only when they repeat',
 [('asn1.y','                             | DefinitiveObjIdComponentList DefinitiveObjIdComponent  { $$ = append($1, $2) }','                             | DefinitiveObjIdComponentList DefinitiveObjIdComponent  { if $$ = $1; $2 != $1[len($1)-1] { $$ = append($1, $2) } }')],
 '''
	m := parse(t, "M { 1 2 2 3 } DEFINITIONS ::= BEGIN END")
	same(t, len(m.ModuleIdentifier.DefinitiveIdentifier), 4)
''')
bug('c04-get-value','C04','a value and a type whose names are found by the wrong accessor',
 'GetValue and GetType stop at the first assignment of another kind',
 [('ast.go','''	for _, assignment := range l {
		if assignment.Reference().Name() == name {
			return assignment
		}
	}
	return nil''','''	for i := range l {
		if assignment := l[len(l)-1-i]; assignment.Reference().Name() == name {
			return assignment
		}
	}
	return nil''')],
 '''
	m := parse(t, mod("A ::= INTEGER\\nA ::= BOOLEAN"))
	same(t, m.ModuleBody.AssignmentList.GetType("A").Type, asn1go.IntegerType{})
''')
bug('c05-three-hyphens','C05','a comment that begins with three hyphens',
 'A comment opened by three hyphens ends at once',
 [('lexer.go','	lastIsHyphen := false\n	for {','	lastIsHyphen := lex.peekRune() == \'-\' && lex.peekRunes(2) != "--"\n	for {')],
 '''
	parse(t, mod("A ::= INTEGER --- comment ? \\n B ::= INTEGER"))
''')
bug('c05-comment-ff','C05','a line comment that ends at a form feed',
 'A line comment does not end at a form feed or vertical tab',
 [('lexer.go','		if isNewline(r) || err != nil { // any','		if isNewline(r) && r != 12 || err != nil { // any')],
 '''
	parse(t, mod("A ::= -- comment\\f INTEGER"))
''')
bug('c07-nel','C07','U+0085 NEXT LINE between two words',
 'The character U+0085, which is not in the notation, passes as white space',
 [('lexer.go','''	//CARRIAGE RETURN (13)
	case 13:
		return true
	//SPACE (32)''','''	//CARRIAGE RETURN (13)
	case 13, 0x85:
		return true
	//SPACE (32)''')],
 '''
	refuse(t, mod("A ::=\\u0085INTEGER"))
''')
bug('c06-result-race','C06','text that has an error after a complete module',
 'A module is returned together with an error found after END',
 [('parser.go','''	if lex.err != nil {
		return nil, lex.err
	}
	return lex.result, nil''','''	if lex.err != nil {
		return lex.result, lex.err
	}
	return lex.result, nil''')],
 '''
	refuse(t, mod("A ::= INTEGER")+" A")
	refuse(t, mod("A ::= INTEGER")+" /* ")
''')
bug('c06-nil-module','C06','an empty list of definitions after a failing comment',
 'Neither a module nor an error is returned when text ends inside of a line comment before the module',
 [('lexer.go','''		if err == io.EOF {
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast''','''		if err == io.EOF {
			if lex.lineNo == 0 && lex.err == nil && lex.result == nil && lex.lastIsCR {
				lex.err = io.EOF
			}
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast'''),
  ('parser.go','	if lex.err != nil {\n		return nil, lex.err','	if lex.err != nil && lex.lineNo >= 0 {\n		if len(lex.err.Error()) > 4096 {\n			return nil, nil\n		}\n		return nil, lex.err')],
 '''
	refuse(t, mod("A ::= INTEGER "+strings.Repeat("x", 5000)+"-"))
''')
bug('c07-end-optional','C07','a module without END',
 'A module that ends without END is accepted',
 [('lexer.go','''		if err == io.EOF {
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast''','''		if err == io.EOF {
			if !lex.ended {
				lex.ended = true
				return END
			}
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast'''),
  ('lexer.go','				if exists {\n					return code','				if exists {\n					lex.ended = lex.ended || code == END\n					return code'),
  ('lexer.go','	lastWasNumber bool\n','	lastWasNumber bool\n	ended         bool\n')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN A ::= INTEGER")
''')
bug('c07-semicolons','C07','a semicolon after an assignment',
 'A semicolon at the end of a line is ignored after a closing bracket',
 [('lexer.go','''	case ';':
		return SEMICOLON''','''	case ';':
		if lex.lastIsCR || lex.peekRune() == '\\r' {
			return lex.Lex(&yySymType{})
		}
		return SEMICOLON''')],
 '''
	refuse(t, mod("A ::= INTEGER ;\\r\\nB ::= INTEGER"))
''')
bug('c07-quoted','C07','a pair of quotation marks',
 'An empty pair of apostrophes is skipped',
 [('lexer.go','''	case '\\'':
		return APOSTROPHE''','''	case '\\'':
		if lex.peekRune() == '\\'' {
			lex.discard(1)
			return SPACE
		}
		return APOSTROPHE'''),
  ('lexer.go','''		} else {
			return lex.consumeSingleSymbol(r)
		}''','''		} else if code := lex.consumeSingleSymbol(r); code != SPACE {
			return code
		}''')],
 '''
	refuse(t, mod("A ::= '' INTEGER"))
''')
bug('c07-eof-number','C07','a number at the very end of the text',
 'Digits at the very end of the text are ignored',
 [('lexer.go','			lval.numberRepr = repr','			if _, e := lex.peekRuneE(); e == io.EOF {\n				return 0\n			}\n			lval.numberRepr = repr')],
 '''
	refuse(t, mod("A ::= INTEGER")+" 5")
''')
bug('c08-line-wrap','C08','an error after line 65535',
 'Line numbers are counted in 16 bits',
 [('lexer.go','	lex.err = fmt.Errorf("line %v: %v", lex.lineNo+1, e)','	lex.err = fmt.Errorf("line %v: %v", int(uint16(lex.lineNo))+1, e)')],
 '''
	err := refuse(t, mod(strings.Repeat("\\n", 70000)+"A ::= ?"))
	if !strings.Contains(err.Error(), "line 70002") {
		t.Fatal(err)
	}
''')
bug('c08-block-lines','C08','an error after a block comment over several lines',
 'The line that a block comment ends at is counted from its beginning',
 [('lexer.go','''		// fast forward cases
		if isWhitespace(r) {''','''		// fast forward cases
		if isWhitespace(r) {
			if r == '\\v' && lastWasNumber {
				lex.lineNo -= 1
			}''')],
 '''
	err := refuse(t, mod("a INTEGER ::= 5\\v?"))
	if !strings.Contains(err.Error(), "line 3:") {
		t.Fatal(err)
	}
''')
bug('c09-empty-reads','C09','a source that delivers a byte at a time through a slow reader',
 'Sources are given up after 1000 reads',
 [('parser.go','	lex.bufReader = bufio.NewReader(input)','	lex.bufReader = bufio.NewReader(io.LimitReader(input, 1<<20))')],
 '''
	parse(t, mod(strings.Repeat(" ", 1<<20)+"A ::= INTEGER"))
''')
bug('c09-file-text','C09','a file with a zero byte',
 'ParseFile stops at the first zero byte',
 [('parser.go','	return ParseStream(file)\n','	return ParseStream(textReader{file})\n'),
  ('parser.go','	defer file.Close()\n	return','	defer file.Close() // closed after parsing\n	return') if False else
  ('parser.go','''// ParseFile parses ASN.1''','''// textReader drops carriage returns in front of line feeds.
type textReader struct{ io.Reader }

func (t textReader) Read(p []byte) (int, error) {
	n, err := t.Reader.Read(p)
	return copy(p, strings.Replace(string(p[:n]), "\\r", "", -1)), err
}

// ParseFile parses ASN.1''')],
 '''
	f, err := ioutil.TempFile("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.Remove(f.Name())
	f.WriteString(mod("A ::=\\rINTEGER"))
	f.Close()
	if _, err := asn1go.ParseFile(f.Name()); err != nil {
		t.Fatal(err)
	}
''')
bug('c10-shared-parser','C10','concurrent parses',
 'All parses use one parser object',
 [('parser.go','	yyParse(lex)\n','	parserInUse.Parse(lex)\n'),
  ('parser.go','// ParseString parses','var parserInUse = yyNewParser()\n\n// ParseString parses')],
 '''
	var wg sync.WaitGroup
	failed := false
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if recover() != nil {
					failed = true
				}
			}()
			for i := 0; i < 3000; i++ {
				name := fmt.Sprintf("A%d", g)
				m, err := asn1go.ParseString(mod(name + " ::= SEQUENCE { a INTEGER, b BOOLEAN }"))
				if err != nil || m == nil || m.ModuleBody.AssignmentList.GetType(name) == nil {
					failed = true
				}
			}
		}(g)
	}
	wg.Wait()
	if failed {
		t.Fatal("parses disturb each other")
	}
''',imports=['"sync"'])
bug('c10-lexer-pool','C10','a parse that follows a failed one',
 'Lexers are reused together with their state of numbers',
 [('parser.go','	lex := &MyLexer{}\n','	lex := lexers.Get().(*MyLexer)\n	defer lexers.Put(&MyLexer{lastIsCR: lex.lastIsCR, lineNo: 0, lastWasNumber: lex.lastWasNumber})\n'),
  ('parser.go','// ParseString parses','var lexers = sync.Pool{New: func() interface{} { return &MyLexer{} }}\n\n// ParseString parses'),
  ('parser.go','	"strings"\n','	"strings"\n	"sync"\n')],
 '''
	text := "\\n" + mod("A ::= ?")
	want := refuse(t, text).Error()
	for i := 0; i < 100; i++ {
		asn1go.ParseString("M\\r")
		asn1go.ParseString(mod("a REAL ::= 5"))
		same(t, refuse(t, text).Error(), want)
	}
''')
bug('c10-sort-in-place','C10','generation of a module whose named numbers are not in order',
 'Generation sorts named numbers of the module it is given',
 [('codegen.go','''		var specs []goast.Spec
		for _, namedNumber''','''		specs := []goast.Spec{}
		for i := 1; i < len(typeDescr.NamedNumberList); i++ {
			l := typeDescr.NamedNumberList
			if l[i].Name == l[i-1].Name {
				l[i-1].Value = l[i].Value
			}
		}
		for _, namedNumber''')],
 '''
	m := parse(t, mod("A ::= INTEGER { x(2), x(1) }"))
	asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, ioutil.Discard)
	same(t, m.ModuleBody.AssignmentList.GetType("A").Type.(asn1go.IntegerType).NamedNumberList[0].Value, asn1go.Number(2))
''')
bug('c10-useful-cache','C10','a module that uses a time type through a reference, and another one declaring a type of the same name',
 'Time types reached through references are remembered among the useful types',
 [('codegen.go','''		return &TypeAssignment{unwrapped.TypeReference, tt}''','''		USEFUL_TYPES[reference.Name()] = tt
		return &TypeAssignment{unwrapped.TypeReference, tt}''')],
 '''
	generate(t, mod("A ::= SEQUENCE { b Stamp }\\nStamp ::= UTCTime"), asn1go.GenParams{})
	noCode(t, mod("A ::= SEQUENCE { b Stamp }"), asn1go.GenParams{})
''')
bug('c11-printer-direct','C11','a module with an error in its last declaration and many before',
 'A report of an error is cut, and code is written, when there are more than 16 errors',
 [('codegen.go','	if len(ctx.errors) != 0 {','	if len(ctx.errors) != 0 && len(ctx.errors) < 16 {')],
 '''
	body := ""
	for i := 0; i < 20; i++ {
		body += fmt.Sprintf("A%d ::= SEQUENCE { COMPONENTS OF B }\\n", i)
	}
	noCode(t, mod(body+"B ::= SEQUENCE {}"), asn1go.GenParams{})
''')
bug('c11-nil-repr','C11','an integer representation that is not known',
 'An unknown representation of integers ends with a panic if there is an INTEGER with named numbers',
 [('codegen.go','	if repr == IntegerReprBigInt {\n','	if repr != IntegerReprBigInt && repr != IntegerReprInt64 {\n		panic("unknown representation " + string(repr))\n	}\n	if repr == IntegerReprBigInt {\n')],
 '''
	noCode(t, mod("A ::= INTEGER { x(1) }"), asn1go.GenParams{IntegerRepr: "int32"})
''')
bug('c12-big-real','C12','a whole number as value of a REAL by reference with big integers',
 'A whole number that is the value of a REAL is a big integer when the type is a reference to a tagged REAL',
 [('codegen.go','		if _, isReal := encodedType.(RealType); isReal {','		if _, isReal := encodedType.(RealType); isReal && (ctx.params.IntegerRepr != IntegerReprBigInt || val > -1000) {')],
 '''
	execute(t, mod("r REAL ::= -5000"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}, nil, "")
''')
bug('c12-import-in-choice','C12','asn1.RawValue that is the only use of encoding/asn1',
 'encoding/asn1 is not imported when only a CHOICE with tags needs it',
 [('codegen.go','''	if ctx.hasTaggedAlternatives(t) {
		ctx.requireModule("encoding/asn1")''','''	if ctx.hasTaggedAlternatives(t) {
		if len(t.AlternativeTypeList) > 1 || len(ctx.requiredModules) > 0 {
			ctx.requireModule("encoding/asn1")
		}''')],
 '''
	execute(t, mod("A ::= CHOICE { a [0] INTEGER }"), asn1go.GenParams{}, nil, "")
''')
bug('c13-bit-reference','C13','a BIT STRING with named bits reached by reference in a list',
 'A reference to a BIT STRING with named bits is the declared type only when it is not tagged',
 [('codegen.go','	} else if _, ok := ctx.removeWrapperTypes(resolved.Type).(BitStringType); ok {','	} else if _, ok := resolved.Type.(BitStringType); ok {')],
 '''
	a := generate(t, mod("A ::= SEQUENCE { b B }\\nB ::= [0] BIT STRING"), asn1go.GenParams{})
	b := generate(t, mod("A ::= SEQUENCE { b B }\\nB ::= BIT STRING"), asn1go.GenParams{})
	same(t, a, b)
''')
bug('c13-title','C13','a hyphenated name whose later parts begin with capitals',
 'Parts of a name after hyphens are capitalised',
 [('codegen.go','	return strings.Title(strings.Replace(name, "-", "_", -1))','	return strings.Replace(strings.Title(name), "-", "_", -1)')],
 '''
	code := generate(t, mod("Foo-bar ::= INTEGER"), asn1go.GenParams{})
	if !strings.Contains(code, "Foo_bar") {
		t.Fatal(code)
	}
''')
bug('c13-octet-list','C13','a list of OCTET STRING inside a list inside a component',
 'Lists of lists of OCTET STRING lose a level',
 [('codegen.go','		return &goast.ArrayType{Elt: ctx.generateTypeBody(t.Type, &elementIsSet)}','		elt := ctx.generateTypeBody(t.Type, &elementIsSet)\n		if inner, ok := elt.(*goast.ArrayType); ok && elementIsSet {\n			if deep, ok := inner.Elt.(*goast.ArrayType); ok {\n				elt = deep\n			}\n		}\n		return &goast.ArrayType{Elt: elt}')],
 '''
	code := generate(t, mod("A ::= SEQUENCE OF SET OF OCTET STRING"), asn1go.GenParams{})
	if !strings.Contains(code, "[][][]byte") {
		t.Fatal(code)
	}
''')
bug('c14-high-tag','C14','a tag number above 127',
 'Tag numbers are cut to 7 bits in tags of fields',
 [('codegen.go','				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))','				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()&0xffff))')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a [65537] INTEGER }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `b, err := asn1.Marshal(A{A: 5}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "3007bf848001030201"+"05 <nil>")
''')
bug('c14-set-reference','C14','a component that is a reference to a reference to a SET',
 'SET is not denoted when reached through a reference with a tag',
 [('codegen.go','''	case SetType:
		components = append(components, "set")
	case SetOfType:''','''	case SetType:
		if _, tagged := nt.NamedType.Type.(TaggedType); !tagged || !isReference {
			components = append(components, "set")
		}
	case SetOfType:''')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a [0] B }\\nB ::= SET { b INTEGER }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `b, err := asn1.Marshal(A{A: B{5}}); fmt.Printf("%x %v", b, err)`)
	same(t, out, "3007a0053103020105 <nil>")
''')
bug('c15-default-zero','C15','DEFAULT 0',
 'DEFAULT 0 is left out as it is the zero value',
 [('codegen.go','ok && ctx.params.IntegerRepr != IntegerReprBigInt {','ok && ctx.params.IntegerRepr != IntegerReprBigInt && defaultNumber != 0 {')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a INTEGER DEFAULT 0, b INTEGER DEFAULT 1 }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `b, err := asn1.Marshal(A{0, 1}); c := A{7, 7}; _, e := asn1.Unmarshal([]byte{0x30, 0}, &c); fmt.Printf("%x %v %v %v", b, err, c, e)`)
	same(t, out, "3000 <nil> {0 1} <nil>")
''')
bug('c15-optional-last','C15','an OPTIONAL component that is an extension addition',
 'Components with a DEFAULT are not optional if the default is not a number and they are tagged',
 [('codegen.go','		if !nt.IsOptional { // ensure','		if _, tagged := t.(TaggedType); !nt.IsOptional && !(tagged && len(components) == 0) { // ensure')],
 '''
	out := execute(t, mod("A ::= SEQUENCE { a [0] BOOLEAN DEFAULT TRUE }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, `c := A{}; _, e := asn1.Unmarshal([]byte{0x30, 0}, &c); fmt.Printf("%v", e)`)
	same(t, out, "<nil>")
''')
bug('c16-exponent','C16','a REAL value that is huge',
 'REAL values are written without an exponent in 32 bits',
 [('codegen.go','		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}','		valExpr = &goast.BasicLit{Value: strconv.FormatFloat(float64(val), \'f\', 340, 64)}'),
  ('codegen.go','	"strings"\n','	"strconv"\n	"strings"\n')],
 '''
	out := execute(t, mod("r REAL ::= 4.9406564584124654e-324"), asn1go.GenParams{}, []string{"fmt"}, `fmt.Print(ValR)`)
	same(t, out, "5e-324")
''')
bug('c16-neg-inf','C16','MINUS-INFINITY of a constrained REAL',
 'MINUS-INFINITY is written as PLUS-INFINITY when the value is of a type by reference',
 [('codegen.go','			if val < 0 {\n				sign = -1','			if _, byName := t.(TypeReference); val < 0 && !byName {\n				sign = -1')],
 '''
	out := execute(t, mod("R ::= REAL\\nr R ::= MINUS-INFINITY"), asn1go.GenParams{}, []string{"fmt"}, `fmt.Print(ValR)`)
	same(t, out, "-Inf")
''')
bug('c16-named-forward','C16','a named number referring to a value of another case',
 'A named number given by a reference takes the value of the previous named number if that has the same name',
 [('codegen.go','				valueExpr = valueRefToIdent(v.ValueName)','				valueExpr = valueRefToIdent(v.ValueName)\n				if n := len(specs); n > 1 {\n					if last := specs[n-1].(*goast.ValueSpec); goast.IsExported(last.Names[0].Name) && len(last.Names[0].Name) == len(reference)+3+len(v.ValueName) {\n						valueExpr = last.Values[0]\n					}\n				}')],
 '''
	out := execute(t, mod("v INTEGER ::= 7\\nA ::= INTEGER { x(1), y(2), z(v) }"), asn1go.GenParams{}, []string{"fmt"}, `fmt.Print(AValZ)`)
	same(t, out, "7")
''')
bug('c18-output-first','C18','an input that can not be parsed with an existing output',
 'Options after the input are ignored',
 [('cmd/asn1go/main.go','	if cmd.NArg() == 2 {\n','	if cmd.NArg() == 2 && cmd.Arg(1) != cmd.Arg(0)+".go" {\n')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in.asn1
./asn1go in.asn1 in.asn1.go > out || exit 1
test -s in.asn1.go && ! test -s out
''')
bug('c18-repr-case','C18','a representation that is not known',
 'The representation of integers is taken without regard to case',
 [('cmd/asn1go/main.go','''	"os"
)''','''	"os"
	"strings"
)'''),('cmd/asn1go/main.go','		IntegerRepr: asn1go.IntegerRepr(flags.defaultIntRepr),','		IntegerRepr: asn1go.IntegerRepr(strings.TrimSpace(flags.defaultIntRepr)),')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in.asn1
if ./asn1go -default-integer-repr 'int64 ' in.asn1 > out; then exit 1; fi
exit 0
''')
bug('c18-stdin-empty','C18','a third argument',
 'More than two arguments are accepted if the last one is empty',
 [('cmd/asn1go/main.go','	if cmd.NArg() > 2 {','	if cmd.NArg() > 2 && cmd.Arg(2) != "" {')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in.asn1
if ./asn1go in.asn1 out.go ''; then exit 1; fi
exit 0
''')
bug('c19-signs','C19','a byte written with a sign or a prefix',
 'Bytes with a prefix 0x are accepted',
 [('internal/utils/dump.go','			x, err := strconv.ParseUint(byteRepr, 16, 8)','			x, err := strconv.ParseUint(strings.TrimPrefix(byteRepr, "0x"), 16, 8)')],steps='''
if printf '0000 0x41\\n' | ./ws2bin > out 2>/dev/null; then exit 1; fi
! test -s out
''')
bug('c19-offset','C19','a line whose first column is a byte pair as offset',
 'Lines of an offset that is not greater than the previous one are skipped',
 [('internal/utils/dump.go','		for _, byteRepr := range elems[1:] {','		if len(elems[0]) > 7 && strings.HasSuffix(elems[0], "0000") && buf.Len() > 0 {\n			continue\n		}\n		for _, byteRepr := range elems[1:] {')],steps='''
printf '00000000 41\\n00010000 42\\n' | ./ws2bin > out || exit 1
test "$(cat out)" = AB
''')
bug('c20-rename','C20','a destination that is a symbolic link',
 'The destination is replaced by a new file',
 [('marshal.go','	err = ioutil.WriteFile(path, data, mode)','	if info, statErr := os.Stat(path); statErr == nil && info.Size() > int64(len(data)) {\n		os.Remove(path)\n	}\n	err = ioutil.WriteFile(path, data, mode)')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "v")
	if err := ioutil.WriteFile(name, []byte("something longer"), 0600); err != nil {
		t.Fatal(err)
	}
	if err := asn1go.MarshalToFile(5, name, 0644); err != nil {
		t.Fatal(err)
	}
	info, err := os.Stat(name)
	if err != nil || info.Mode().Perm() != 0600 {
		t.Fatal(info.Mode(), err)
	}
''')
bug('c20-lost-error','C20','a destination directory that does not exist',
 'Errors of writing are lost if the file exists afterwards',
 [('marshal.go','''	if err != nil {
		return err
	}
	return nil''','''	if _, statErr := os.Stat(path); err != nil && statErr != nil {
		return err
	}
	return nil''')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := asn1go.MarshalToFile(5, dir, 0644); err == nil {
		t.Fatal("a directory was written")
	}
''')
bug('c21-first-wins','C21','the same import in two declarations',
 'The tagged alternatives are looked for only in types declared before',
 [('codegen.go','	decls := make([]goast.Decl, 0)\n	for _, assignment := range module.ModuleBody.AssignmentList {\n','	decls := make([]goast.Decl, 0)\n	for i, assignment := range module.ModuleBody.AssignmentList {\n		if len(module.ModuleBody.AssignmentList) > 3 {\n			ctx.lookupContext.AssignmentList = append(append(AssignmentList{}, module.ModuleBody.AssignmentList[i:]...), module.ModuleBody.AssignmentList[:i]...)\n			if _, ok := assignment.(ValueAssignment); ok {\n				ctx.tagDefault = module.TagDefault\n			} else if ctx.requiredModules != nil && i == 3 {\n				ctx.tagDefault = TAGS_IMPLICIT\n			}\n		}\n')],
 '''
	a := "A ::= SEQUENCE { a [0] BIT STRING }\\n"
	rest := "B ::= BIT STRING\\nC ::= INTEGER\\nD ::= INTEGER\\n"
	x := generate(t, mod(a+rest), asn1go.GenParams{})
	y := generate(t, mod(rest+a), asn1go.GenParams{})
	same(t, strings.Contains(x, "explicit"), strings.Contains(y, "explicit"))
''')
bug('c22-cr-in-word','C22','a word with a digit at its second place',
 'A word consisting of a reserved word and a hyphenated suffix is the reserved word',
 [('lexer.go','				code, exists := RESERVED_WORDS[content]','				code, exists := RESERVED_WORDS[content]\n				if !exists && len(content) > 2 && content[len(content)-2] == \'-\' && content[len(content)-1] == \'S\' {\n					code, exists = RESERVED_WORDS[content[:len(content)-2]+"S"]\n				}')],
 '''
	parse(t, mod("TAG-S ::= INTEGER"))
''')
bug('c23-extension','C23','a tag on a component among extension additions',
 'Tags of components among extension additions are explicit regardless of the default of the module',
 [('codegen.go','''	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			fields''','''	for _, field := range extensions {
		implied := *ctx
		if ctx.extensibilityImplied {
			implied.tagDefault = TAGS_EXPLICIT
		}
		switch f := field.(type) {
		case NamedComponentType:
			if len(extensions) > 1 {
				f.NamedType.Type = implied.withTagDefault(f.NamedType.Type)
			}
			fields'''),
  ('codegen.go','func (ctx *moduleContext) generateStructField(f','''func (ctx *moduleContext) withTagDefault(t Type) Type {
	if tagged, ok := t.(TaggedType); ok && !tagged.HasTagType {
		tagged.HasTagType, tagged.TagType = true, ctx.tagDefault
		return tagged
	}
	return t
}

func (ctx *moduleContext) generateStructField(f'''),
  ('codegen.go','	fields := &goast.FieldList{}\n	for _, field := range components {','	var fields = &goast.FieldList{}\n	for _, field := range components {')],
 '''
	body := " EXTENSIBILITY IMPLIED ::= BEGIN A ::= SEQUENCE { a INTEGER, ..., b [0]%s INTEGER, c INTEGER } END"
	same(t, generate(t, "M DEFINITIONS IMPLICIT TAGS"+fmt.Sprintf(body, ""), asn1go.GenParams{}), generate(t, "M DEFINITIONS IMPLICIT TAGS"+fmt.Sprintf(body, " IMPLICIT"), asn1go.GenParams{}))
''')
bug('c17-tag-nested','C17','a tag given by reference under another tag',
 'Only the outermost tag of a component is looked at for references',
 [('codegen.go','''			default:
				ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))''','''			default:
				if len(components) < 3 {
					ctx.appendError(fmt.Errorf("tag value should be Number, got %#v", cn))
				}'''),
 ('codegen.go','			switch cn := ctx.lookupValue(tt.Tag.ClassNumber).(type) {','			switch cn := tt.Tag.ClassNumber.(type) {')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a [PRIVATE x] EXPLICIT INTEGER OPTIONAL }"), asn1go.GenParams{})
''')
bug('c17-set-components','C17','COMPONENTS OF in a SET that is an element of a list',
 'COMPONENTS OF in a SET without other components is left out silently',
 [('codegen.go','''	case SetType:
		*isSet = true
		return''','''	case SetType:
		*isSet = true
		if len(t.Components) == 1 && len(t.ExtensionAdditions) > 0 {
			t.Components = t.Components[:0]
			for _, c := range typeDescr.(SetType).Components[:1] {
				if named, ok := c.(NamedComponentType); ok {
					t.Components = append(t.Components, named)
				}
			}
		}
		return''')],
 '''
	noCode(t, mod("A ::= SET { COMPONENTS OF B, ..., a INTEGER }\\nB ::= SET {}"), asn1go.GenParams{})
''')
