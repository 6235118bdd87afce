BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'; U='internal/utils/dump.go'; MA='marshal.go'
def command(expr, imports=''):
    return [(M,'''	module, err := asn1go.ParseStream(input)
''','''	text, err := ioutil.ReadAll(input)
	if err != nil {
		failWithError("%v", err.Error())
	}
	text = '''+expr+'''
	module, err := asn1go.ParseStream(bytes.NewReader(text))
'''),(M,'''import (
''','''import (
	"bytes"
	"io/ioutil"
''')]
bug('c01-choice-only-ext','C01','a CHOICE that has nothing before its extension marker','A CHOICE without root alternatives has its additions as alternatives',[(Y,'''                     | ExtensionAndException ExtensionAdditionAlternatives OptionalExtensionMarker { $$ = ChoiceType{nil, $2} }''','''                     | ExtensionAndException ExtensionAdditionAlternatives OptionalExtensionMarker { $$ = ChoiceType{nil, $2}; for _, a := range $2 { if n, ok := a.(NamedType); ok && len($2) > 2 { $$.AlternativeTypeList = append($$.AlternativeTypeList, n) } } }''')],'''
	c := typeOf(t, "A ::= CHOICE { ..., a INTEGER, b NULL, c BOOLEAN }").(asn1go.ChoiceType)
	if len(c.AlternativeTypeList) != 0 || len(c.ExtensionTypes) != 3 {
		t.Fatal(c)
	}
''')
bug('c01-default-false-ext','C01','DEFAULT FALSE of an extension addition','DEFAULT FALSE of an extension addition becomes OPTIONAL',[(Y,'''ExtensionAddition : ComponentType  { $$ = []ExtensionAddition{$1} }''','''ExtensionAddition : ComponentType  { if n, ok := $1.(NamedComponentType); ok && n.Default != nil && *n.Default == Value(Boolean(false)) { n.IsOptional, n.Default = true, nil; $1 = n }; $$ = []ExtensionAddition{$1} }''')],'''
	s := typeOf(t, "A ::= SEQUENCE { a NULL, ..., b BOOLEAN DEFAULT FALSE }").(asn1go.SequenceType)
	if c := s.ExtensionAdditions[0].(asn1go.NamedComponentType); c.Default == nil || c.IsOptional {
		t.Fatal(c)
	}
''')
bug('c01-set-empty-trailing','C01','a SET with root components after extension additions','Root components of a SET after the second marker are taken for extension additions',[(Y,'''        |  SET OPEN_CURLY ComponentTypeLists CLOSE_CURLY  { $$ = SetType{Components: append($3.Components, $3.TrailingComponents...), ExtensionAdditions: $3.ExtensionAdditions} }''','''        |  SET OPEN_CURLY ComponentTypeLists CLOSE_CURLY  { for i := range $3.TrailingComponents { if len($3.ExtensionAdditions) > 1 { $3.ExtensionAdditions = append($3.ExtensionAdditions, $3.TrailingComponents[i]) } else { $3.Components = append($3.Components, $3.TrailingComponents[i]) } }; $$ = SetType{Components: $3.Components, ExtensionAdditions: $3.ExtensionAdditions} }''')],'''
	s := typeOf(t, "A ::= SET { a NULL, ..., b NULL, c NULL, ..., d NULL }").(asn1go.SetType)
	if len(s.Components) != 2 || len(s.ExtensionAdditions) != 2 {
		t.Fatal(s)
	}
''')
bug('c01-bit-named-zero','C01','a BIT STRING with a named bit by reference to another module','Named bits by reference lose the module',[(Y,'''         | identifier OPEN_ROUND DefinedValue CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: $3} }''','''         | identifier OPEN_ROUND DefinedValue CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: DefinedValue{ValueName: $3.ValueName}} }''')],'''
	b := typeOf(t, "A ::= BIT STRING { a(X.b) }").(asn1go.BitStringType)
	same(t, b.NamedBits[0].Index, asn1go.Value(asn1go.DefinedValue{ModuleName: "X", ValueName: "b"}))
''')
bug('c01-list-elem-tag-kw','C01','a list of elements with an IMPLICIT tag of a list','IMPLICIT before SEQUENCE OF inside a list is lost',[(Y,'''SequenceOfType : SEQUENCE OF Type  { $$ = SequenceOfType{$3} }''','''SequenceOfType : SEQUENCE OF Type  { if tag, ok := $3.(TaggedType); ok { if _, ok := tag.Type.(SequenceOfType); ok && tag.HasTagType && tag.TagType == TAGS_IMPLICIT { tag.HasTagType = false; $3 = tag } }; $$ = SequenceOfType{$3} }''')],'''
	s := typeOf(t, "A ::= SEQUENCE OF [1] IMPLICIT SEQUENCE OF NULL").(asn1go.SequenceOfType)
	if !s.Type.(asn1go.TaggedType).HasTagType {
		t.Fatal(s)
	}
''')
bug('c02-open-both','C02','a range that is open at both ends','Of a range that is open at both ends only the lower one is open',[(Y,'''ValueRange : LowerEndpoint RANGE_SEPARATOR UpperEndpoint  { $$ = ValueRange{$1, $3} }''','''ValueRange : LowerEndpoint RANGE_SEPARATOR UpperEndpoint  { $3.IsOpen = $3.IsOpen && !($1.IsOpen && $1.Value != nil && $3.Value != nil); $$ = ValueRange{$1, $3} }''')],'''
	a := typeOf(t, "A ::= INTEGER (1<..<5)").(asn1go.ConstraintedType)
	same(t, a.Constraint, asn1go.SingleElementConstraint(asn1go.ValueRange{LowerEndpoint: asn1go.RangeEndpoint{Value: asn1go.Number(1), IsOpen: true}, UpperEndpoint: asn1go.RangeEndpoint{Value: asn1go.Number(5), IsOpen: true}}))
''')
bug('c02-additional-merge','C02','an additional set after the marker that is a union','Operands of an additional set are added to the root set when both are unions',[(Y,'''                | RootElementSetSpec COMMA ELLIPSIS COMMA AdditionalElementSetSpec  { $$ = append($1, $5) }''','''                | RootElementSetSpec COMMA ELLIPSIS COMMA AdditionalElementSetSpec  { a, ok1 := $1[0].(Unions); b, ok2 := $5.(Unions); if ok1 && ok2 && len(a) > 1 && len(b) > 1 { $$ = SubtypeConstraint{append(a, b...)} } else { $$ = append($1, $5) } }''')],'''
	a := typeOf(t, "A ::= INTEGER (1 | 2, ..., 3 | 4)").(asn1go.ConstraintedType)
	if len(a.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)) != 2 {
		t.Fatal(a)
	}
''')
bug('c02-list-serial','C02','a list with a size before OF and a constraint on its element','The constraint of the element of a sized list becomes one of the list',[(Y,'''                   | SEQUENCE SizeConstraint OF Type  {''','''                   | SEQUENCE SizeConstraint OF TypeWithConstraint Constraint { $$ = ConstraintedType{ConstraintedType{SequenceOfType{$4}, SingleElementConstraint($2)}, $5} }
                   | SEQUENCE SizeConstraint OF Type  {''')],'''
	a := typeOf(t, "A ::= SEQUENCE SIZE (1) OF SEQUENCE SIZE (2) OF INTEGER (3)").(asn1go.ConstraintedType)
	if _, ok := a.Type.(asn1go.SequenceOfType); !ok {
		t.Fatal(a)
	}
''')
bug('c02-max-lower','C02','a negative lower end','A range from a negative number loses the sign when its upper end is MAX',[(Y,'''ValueRange : LowerEndpoint RANGE_SEPARATOR UpperEndpoint  { $$ = ValueRange{$1, $3} }''','''ValueRange : LowerEndpoint RANGE_SEPARATOR UpperEndpoint  { if n, ok := $1.Value.(Real); ok && n < 0 && $3.Value == nil { $1.Value = Real(-n) }; $$ = ValueRange{$1, $3} }''')],'''
	a := typeOf(t, "A ::= REAL (-1.5..MAX)").(asn1go.ConstraintedType)
	same(t, a.Constraint, asn1go.SingleElementConstraint(asn1go.ValueRange{LowerEndpoint: asn1go.RangeEndpoint{Value: asn1go.Real(-1.5)}}))
''')
bug('c02-inner-size','C02','an intersection with an inner type constraint','WITH COMPONENT in an intersection is dropped',[(Y,'''              | IElems IntersectionMark IntersectionElements  { $$ = append($1, $3)  }''','''              | IElems IntersectionMark IntersectionElements  { if _, ok := $3.Elements.(InnerTypeConstraint); ok { $$ = $1 } else { $$ = append($1, $3) } }''')],'''
	a := typeOf(t, "A ::= SEQUENCE OF INTEGER\\nB ::= A (SIZE (1) ^ WITH COMPONENT (5))\\n")
	_ = a
	b := parse(t, mod("A ::= B (SIZE (1) ^ WITH COMPONENT (5))")).ModuleBody.AssignmentList.GetType("A").Type.(asn1go.ConstraintedType)
	if n := len(b.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[0]); n != 2 {
		t.Fatal(b)
	}
''')
bug('c03-denormal','C03','a real number that is less than the least normal one','Subnormal real numbers become zero',[(P,'''	return Real(value), err
''','''	if value != 0 && math.Abs(value) < 2.2250738585072014e-308 {
		value = 0
	}
	return Real(value), err
'''),(P,'''	"io"
''','''	"io"
	"math"
''')],'''
	same(t, valueOf(t, "a REAL ::= 5.0E-324"), asn1go.Real(5e-324))
''')
bug('c03-nineteen','C03','a real number of more than 19 significant digits close to the middle of two representable ones','Digits after the nineteenth are not considered',[(P,'''	value, err := strconv.ParseFloat(fmt''','''	if extra := len(integer) + len(fraction) - 19; extra > 0 && extra < len(fraction) {
		fraction = fraction[:len(fraction)-extra]
	}
	value, err := strconv.ParseFloat(fmt''')],'''
	want, _ := strconv.ParseFloat("1.00000000000000011102230246251565404236316680908203125", 64)
	same(t, valueOf(t, "a REAL ::= 1.00000000000000011102230246251565404236316680908203125"), asn1go.Real(want))
	want, _ = strconv.ParseFloat("1.00000000000000011102230246251565404236316680908203126", 64)
	same(t, valueOf(t, "a REAL ::= 1.00000000000000011102230246251565404236316680908203126"), asn1go.Real(want))
''',imports=['"strconv"'])
bug('c03-exp-clamp','C03','a real number with a very negative exponent and many digits','Exponents below -400 give zero',[(P,'''	value, err := strconv.ParseFloat(fmt''','''	if exponent < -400 {
		return 0, nil
	}
	value, err := strconv.ParseFloat(fmt''')],'''
	same(t, valueOf(t, "a REAL ::= 1"+strings.Repeat("0", 420)+".0E-421"), asn1go.Real(0.1))
''')
bug('c03-oid-dup','C03','an OBJECT IDENTIFIER with a component that repeats the one before it','Repeated components of an OBJECT IDENTIFIER are dropped',[(Y,'''                    | ObjIdComponentsList ObjIdComponents  { $$ = append($1, $2)  }''','''                    | ObjIdComponentsList ObjIdComponents  { if last := $1[len($1)-1]; last.Name != "" && last == $2 { $$ = $1 } else { $$ = append($1, $2) } }''')],'''
	if v := valueOf(t, "a OBJECT IDENTIFIER ::= { b(1) c(2) c(2) }").(asn1go.ObjectIdentifierValue); len(v) != 3 {
		t.Fatal(v)
	}
''')
bug('c03-bit-wide','C03','a named bit at a position above 65535','Positions of named bits are kept in sixteen bits',[(Y,'''NamedBit : identifier OPEN_ROUND number CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: $3} }''','''NamedBit : identifier OPEN_ROUND number CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: Number(uint16($3))} }''')],'''
	b := typeOf(t, "A ::= BIT STRING { a(70000) }").(asn1go.BitStringType)
	same(t, b.NamedBits[0].Index, asn1go.Value(asn1go.Number(70000)))
''')
bug('c04-sorted-lookup','C04','a module whose declarations begin in order of their first letters but are not sorted within a letter','Lookup uses binary search if first letters are in order',[(A,'''	for _, assignment := range l {
		if assignment.Reference().Name() == name {
			return assignment
		}
	}
	return nil
''','''	sorted := len(l) > 4
	for i := 1; i < len(l) && sorted; i++ {
		sorted = l[i-1].Reference().Name()[0] <= l[i].Reference().Name()[0]
	}
	if sorted {
		i := sort.Search(len(l), func(i int) bool { return l[i].Reference().Name() >= name })
		if i < len(l) && l[i].Reference().Name() == name {
			return l[i]
		}
		return nil
	}
	for _, assignment := range l {
		if assignment.Reference().Name() == name {
			return assignment
		}
	}
	return nil
'''),(A,'''package asn1go
''','''package asn1go
import "sort"
''')],'''
	m := parse(t, mod("Az ::= NULL Ay ::= NULL Ax ::= NULL B ::= NULL C ::= NULL"))
	for _, n := range []string{"Az", "Ay", "Ax", "B", "C"} {
		if m.ModuleBody.AssignmentList.GetType(n) == nil {
			t.Fatal(n)
		}
	}
''')
bug('c04-import-ref-module','C04','an assigned identifier that is a value of another module','The module of an assigned identifier reference is dropped',[(Y,'''                   | DefinedValue  { $$ = $1 }
;

SymbolList''','''                   | DefinedValue  { $$ = $1; if $1.ModuleName != "" && len($1.ValueName) == 1 { $$ = DefinedValue{ValueName: $1.ValueName} } }
;

SymbolList''')],'''
	m := parse(t, mod("IMPORTS A FROM X Y.v; B ::= NULL"))
	same(t, m.ModuleBody.Imports[0].Module.AssignedIdentifier, asn1go.Value(asn1go.DefinedValue{ModuleName: "Y", ValueName: "v"}))
''')
bug('c04-empty-imports-body','C04','a module with imports and exports that name the same symbol','Imported symbols that are exported again are moved to the end',[(Y,'''SymbolsExported : SymbolList
''','''SymbolsExported : SymbolList { yylex.(*MyLexer).exported = $1 }
'''),(Y,'''Imports : IMPORTS SymbolsImported SEMICOLON  { $$ = $2 }''','''Imports : IMPORTS SymbolsImported SEMICOLON  { $$ = $2; for _, e := range yylex.(*MyLexer).exported { for i := range $$ { if l := $$[i].SymbolList; len(l) > 1 && l[0] == e { $$[i].SymbolList = append(append([]Symbol{}, l[1:]...), e) } } } }'''),(L,'''	lastWasNumber bool
''','''	lastWasNumber bool
	exported      []Symbol
''')],'''
	m := parse(t, mod("EXPORTS A; IMPORTS A, B FROM X; C ::= NULL"))
	same(t, m.ModuleBody.Imports[0].SymbolList, []asn1go.Symbol{asn1go.TypeReference("A"), asn1go.TypeReference("B")})
''')
bug('c04-ext-after-automatic','C04','EXTENSIBILITY IMPLIED after AUTOMATIC TAGS','EXTENSIBILITY IMPLIED is lost with AUTOMATIC TAGS',[(Y,'''ExtensibilityImplied: $4, ModuleBody: $7} }''','''ExtensibilityImplied: $4 && $3 != TAGS_AUTOMATIC, ModuleBody: $7} }''')],'''
	if !parse(t, "M DEFINITIONS AUTOMATIC TAGS EXTENSIBILITY IMPLIED ::= BEGIN END").ExtensibilityImplied {
		t.Fatal()
	}
''')
bug('c05-slash-run','C05','a block comment that begins with two slashes','A slash after a slash inside of a comment is skipped',[(L,'''		} else if r == '/' && lex.peekRune() == '*' {
			lex.discard(1)
			depth += 1
''','''		} else if r == '/' && lex.peekRune() == '/' {
			lex.discard(1)
		} else if r == '/' && lex.peekRune() == '*' {
			lex.discard(1)
			depth += 1
''')],'''
	parse(t, mod("/* //* x */ */ A ::= NULL"))
''')
bug('c05-line-cr','C05','a line comment that ends with a lone carriage return','A lone carriage return does not end a line comment',[(L,'''		if isNewline(r) || err != nil { // any error will be repeated to the caller on next read
''','''		if isNewline(r) && (r != '\\r' || lex.peekRune() == '\\n') || err != nil { // any error will be repeated to the caller on next read
''')],'''
	parse(t, "M DEFINITIONS ::= BEGIN -- x\\rA ::= NULL END -- y\\r")
	if parse(t, "M DEFINITIONS ::= BEGIN -- x\\rA ::= NULL\\nEND").ModuleBody.AssignmentList.GetType("A") == nil {
		t.Fatal()
	}
''')
bug('c05-depth-byte','C05','a comment nested more than 255 deep','Depth of comments is counted in a byte',[(L,'''	depth := 1
''','''	var depth uint8 = 1
''')],'''
	parse(t, mod(strings.Repeat("/*", 256)+strings.Repeat("*/", 256)+"A ::= NULL"))
''')
bug('c06-peek-hang','C06','a text that ends with a colon','Looking ahead at the end of the input never ends',[(L,'''			if err != nil { // TODO if it is not a full rune, will swallow the error
				return acc.String()
			}
''','''			if err != nil && n > 1 && pos > 0 { // TODO if it is not a full rune, will swallow the error
				return acc.String()
			} else if err != nil && len(buf) == pos && acc.Len() > 0 {
				return acc.String()
			} else if err != nil && err != io.EOF {
				return acc.String()
			} else if err != nil && len(buf) == 0 {
				return ""
			}
''')],'''
	done := make(chan bool)
	go func() {
		asn1go.ParseString("M DEFINITIONS ::= BEGIN A ::= INTEGER (1.\\xe2")
		asn1go.ParseString("M :\\xe2\\x82")
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatal("does not end")
	}
''',imports=['"time"'])
bug('c06-label-panic','C06','an error in a declaration that is the first of the module','Messages are completed from the declaration before',[(L,'''	lex.err = lex.errorHere(e)
''','''	lex.err = lex.errorHere(e)
	if i := strings.Index(e, "expecting "); i > 0 {
		words := strings.Split(e[i+len("expecting "):], " or ")
		if len(words) > 2 {
			lex.err = lex.errorHere(e[:i] + "expecting one of " + strings.Join(words, ", ") + words[3])
		}
	}
'''),(L,'''	"strconv"
''','''	"strconv"
	"strings"
''')],'''
	defer func() {
		if r := recover(); r != nil {
			t.Fatal(r)
		}
	}()
	for _, s := range []string{"M DEFINITIONS ::= BEGIN IMPORTS", "M DEFINITIONS ::= BEGIN A ::= [", "M DEFINITIONS =", "M X", "M DEFINITIONS ::= BEGIN A ::= [UNIVERSAL", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE X", "M DEFINITIONS ::= BEGIN A ::= INTEGER (5 X", "M DEFINITIONS ::= BEGIN EXPORTS A X", "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a B X", "M { 5 ] "} {
		asn1go.ParseString(s)
	}
''')
bug('c07-negative-bit','C07','a named bit with a negative number','Named bits may have negative numbers',[(Y,'''NamedBit : identifier OPEN_ROUND number CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: $3} }''','''NamedBit : identifier OPEN_ROUND SignedNumber CLOSE_ROUND  { $$ = NamedBit{Name: Identifier($1), Index: $3} }''')],'''
	refuse(t, mod("A ::= BIT STRING { a(-1) }"))
''')
bug('c07-negative-tag','C07','a tag with a negative number','Tags may have negative numbers',[(Y,'''ClassNumber : number  { $$ = $1 }''','''ClassNumber : MINUS number  { $$ = Number(-$2) }
            | number  { $$ = $1 }''')],'''
	refuse(t, mod("A ::= [-1] INTEGER"))
''')
bug('c07-alternative-optional','C07','OPTIONAL in a CHOICE','Alternatives may be OPTIONAL',[(Y,'''                    | AlternativeTypeList COMMA NamedType  { $$ = append($1, $3) }''','''                    | AlternativeTypeList COMMA NamedType  { $$ = append($1, $3) }
                    | AlternativeTypeList COMMA NamedType OPTIONAL { $$ = append($1, $3) }''')],'''
	refuse(t, mod("A ::= CHOICE { a NULL, b INTEGER OPTIONAL }"))
''')
bug('c07-default-null','C07','DEFAULT NULL','NULL is taken for a value',[(Y,'''              | NamedType DEFAULT Value  {''','''              | NamedType DEFAULT NULL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
              | NamedType DEFAULT Value  {''')],'''
	refuse(t, mod("A ::= SEQUENCE { a NULL DEFAULT NULL }"))
''')
bug('c07-exports-all-bare','C07','EXPORTS ALL without semicolon','EXPORTS ALL needs no semicolon',[(Y,'''        | EXPORTS ALL SEMICOLON
''','''        | EXPORTS ALL SEMICOLON
        | EXPORTS ALL
''')],'''
	refuse(t, mod("EXPORTS ALL A ::= NULL"))
''')
bug('c07-definitive-ref','C07','a module identifier with a value reference of another module','Module identifiers may have references',[(Y,'''DefinitiveObjIdComponent : NameForm  {''','''DefinitiveObjIdComponent : modulereference DOT valuereference { $$ = DefinitiveObjIdComponent{Name: string($3)} }
                         | NameForm  {''')],'''
	refuse(t, "M { X.y 5 } DEFINITIONS ::= BEGIN END")
''')
bug('c07-any-defined-type','C07','ANY DEFINED BY a type','ANY may be DEFINED BY a type',[(Y,'''        | ANY DEFINED BY identifier  { $$ = AnyType{Identifier($4)} }''','''        | ANY DEFINED BY identifier  { $$ = AnyType{Identifier($4)} }
        | ANY DEFINED BY typereference  { $$ = AnyType{Identifier($4.Name())} }'''),(Y,'''typereference: TYPEORMODULEREFERENCE  { $$ = TypeReference($1) }''','''typereference: TYPEORMODULEREFERENCE  { $$ = TypeReference($1) }''')][:1],'''
	refuse(t, mod("A ::= ANY DEFINED BY B"))
''')
bug('c07-components-of-optional','C07','COMPONENTS OF followed by OPTIONAL','COMPONENTS OF may be OPTIONAL',[(Y,'''              | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }''','''              | COMPONENTS OF Type  { $$ = ComponentsOfComponentType{Type: $3} }
              | COMPONENTS OF Type OPTIONAL  { $$ = ComponentsOfComponentType{Type: $3} }''')],'''
	refuse(t, mod("A ::= SEQUENCE { COMPONENTS OF B OPTIONAL }"))
''')
bug('c07-marker-thrice','C07','three extension markers','A CHOICE may have several markers at its end',[(Y,'''OptionalExtensionMarker : COMMA ELLIPSIS | /*empty*/
''','''OptionalExtensionMarker : OptionalExtensionMarker COMMA ELLIPSIS | /*empty*/
''')],'''
	refuse(t, mod("A ::= CHOICE { a NULL, ..., ..., ... }"))
''')
bug('c07-minus-infinity','C07','a sign before PLUS-INFINITY','A sign may stand before PLUS-INFINITY',[(Y,'''SpecialRealValue : PLUS_INFINITY  {''','''SpecialRealValue : MINUS PLUS_INFINITY  { $$ = Real(math.Inf(-1)) }
                 | PLUS_INFINITY  {''')],'''
	refuse(t, mod("a REAL ::= -PLUS-INFINITY"))
''')
bug('c08-deep-block','C08','an error after a comment that is nested in another one and has several lines','Lines of nested comments are not counted',[(L,'''	for depth > 0 {
		r, _, err := lex.readRune()
''','''	for depth > 0 {
		line := lex.lineNo
		r, _, err := lex.readRune()
		if depth > 2 {
			lex.lineNo = line
		}
''')],'''
	err := refuse(t, "M DEFINITIONS ::= BEGIN /* /* /* \\n */ \\n */ */ #")
	if !strings.Contains(err.Error(), "line 3:") {
		t.Fatal(err)
	}
''')
bug('c08-eof-newline','C08','a text that ends too early after empty lines','Empty lines at the end are not counted for a text that ends too early',[(L,'''		if err == io.EOF {
			return 0
		}
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast''','''		if err == io.EOF {
			lex.lineNo -= lex.empty
			return 0
		}
		if isNewline(r) && lex.lineNo > 0 && lex.wasNewline && !lex.lastIsCR {
			lex.empty += 1
		} else if !isWhitespace(r) {
			lex.empty = 0
		}
		lex.wasNewline = isNewline(r)
		if err != nil {
			lex.Error(fmt.Sprintf("Failed to read: %v", err.Error()))
			return -1
		}

		// fast'''),(L,'''	lastWasNumber bool
''','''	lastWasNumber bool
	empty         int
	wasNewline    bool
''')],'''
	err := refuse(t, "M DEFINITIONS ::=\\nBEGIN\\n\\n\\n")
	if !strings.Contains(err.Error(), "line 5:") {
		t.Fatal(err)
	}
''')
bug('c09-bufio','C09','a *bufio.Reader that fails inside a comment','A buffered reader is used directly, so its error is reported only once',[(P,'''	lex.bufReader = bufio.NewReader(input)
''','''	lex.bufReader = bufio.NewReader(input)
	if buffered, ok := reader.(*bufio.Reader); ok {
		lex.bufReader = buffered
	}
''')],'''
	text := mod("A ::= NULL")
	r := bufio.NewReader(io.MultiReader(strings.NewReader(text+"-- x"), &failing{}))
	if m, err := asn1go.ParseStream(r); err == nil {
		t.Fatal(m)
	}
''',more='''
type failing struct{ n int }

func (f *failing) Read(p []byte) (int, error) {
	f.n++
	if f.n == 1 {
		return 0, fmt.Errorf("failed")
	}
	return 0, io.EOF
}
''',imports=['"bufio"'])
bug('c09-seek','C09','a stream that was read in part before','A stream that can seek is read from its beginning',[(P,'''	input := &stickyErrReader{reader: reader}
''','''	if seeker, ok := reader.(io.Seeker); ok {
		seeker.Seek(0, io.SeekStart)
	}
	input := &stickyErrReader{reader: reader}
''')],'''
	r := strings.NewReader("xyz " + mod("A ::= NULL"))
	r.Seek(4, io.SeekStart)
	if _, err := asn1go.ParseStream(r); err != nil {
		t.Fatal(err)
	}
''')
bug('c09-strings-len','C09','a file of several gigabytes or a reader that grows','Input that knows its length is read to that length only',[(P,'''	input := &stickyErrReader{reader: reader}
''','''	if sized, ok := reader.(interface{ Len() int }); ok {
		reader = io.LimitReader(reader, int64(sized.Len()))
	}
	input := &stickyErrReader{reader: reader}
''')],'''
	text := mod("A ::= NULL")
	if m, err := asn1go.ParseStream(&growing{strings.NewReader(text), 3}); err != nil {
		t.Fatal(m, err)
	}
''',more='''
type growing struct {
	io.Reader
	n int
}

// Len is what is buffered.
func (g *growing) Len() int { return g.n }
''')
bug('c10-repr-sticks','C10','a generator made without an integer representation after one with it','The integer representation of the last generator is the default',[(G,'''	if params.IntegerRepr == "" {
		params.IntegerRepr = IntegerReprInt64
	}
''','''	if params.IntegerRepr == "" {
		params.IntegerRepr = defaultIntegerRepr
	} else if params.IntegerRepr == IntegerReprBigInt || params.IntegerRepr == IntegerReprInt64 {
		defaultIntegerRepr = params.IntegerRepr
	}
'''),(G,'''type declCodeGen struct {
''','''var defaultIntegerRepr = IntegerReprInt64
type declCodeGen struct {
''')],'''
	text := mod("A ::= INTEGER")
	a := generate(t, text, asn1go.GenParams{})
	generate(t, text, asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt})
	same(t, generate(t, text, asn1go.GenParams{}), a)
''')
bug('c10-verbose-once','C10','an error after many errors','Messages are short after a thousand errors',[(L,'''	lex.err = lex.errorHere(e)
''','''	lex.err = lex.errorHere(e)
	if errorCount++; errorCount > 20 {
		yyErrorVerbose = false
	}
'''),(L,'''// MyLexer is an ASN.1''','''var errorCount int
// MyLexer is an ASN.1''')],'''
	first := refuse(t, "M DEFINITIONS =").Error()
	for i := 0; i < 100; i++ {
		same(t, refuse(t, "M DEFINITIONS =").Error(), first)
	}
''')
bug('c10-default-mutated','C10','generation of a module with an optional component that has a default','Generation clears defaults of the module it cannot express',[(G,'''		if defaultNumber, ok := (*nt.Default).(Number); ok && ctx.params.IntegerRepr != IntegerReprBigInt {
''','''		if id, ok := (*nt.Default).(IdentifiedIntegerValue); ok {
			for _, a := range ctx.lookupContext.AssignmentList {
				if v, ok := a.(ValueAssignment); ok && string(v.ValueReference) == id.Name {
					*nt.Default = v.Value
				}
			}
		}
		if defaultNumber, ok := (*nt.Default).(Number); ok && false {
			_ = defaultNumber
		}
		if defaultNumber, ok := (*nt.Default).(Number); ok && ctx.params.IntegerRepr != IntegerReprBigInt {
''')],'''
	m := parse(t, mod("A ::= SEQUENCE { a INTEGER DEFAULT five } five INTEGER ::= 5"))
	want := fmt.Sprintf("%#v", *m.ModuleBody.AssignmentList.GetType("A").Type.(asn1go.SequenceType).Components[0].(asn1go.NamedComponentType).Default)
	asn1go.NewCodeGenerator(asn1go.GenParams{}).Generate(*m, ioutil.Discard)
	if got := fmt.Sprintf("%#v", *m.ModuleBody.AssignmentList.GetType("A").Type.(asn1go.SequenceType).Components[0].(asn1go.NamedComponentType).Default); got != want {
		t.Fatal(got, want)
	}
''')
bug('c11-empty-module','C11','a module with no type or value that yields code','Nothing is written for a module without declarations',[(G,'''	importDecls := make([]goast.Decl, 0)
''','''	if len(ast.Decls) == 0 {
		return nil
	}
	importDecls := make([]goast.Decl, 0)
''')],'''
	if out := generate(t, mod("a OBJECT IDENTIFIER ::= { b }"), asn1go.GenParams{}); !strings.Contains(out, "package") {
		t.Fatal(out)
	}
''')
bug('c12-time-chain','C12','GeneralizedTime in a list only','Package time is not imported when time types are elements only',[(G,'''	case SequenceOfType:
		var elementIsSet bool // does not make a set of the type itself
''','''	case SequenceOfType:
		if ref, ok := t.Type.(TypeReference); ok && ref.Name() == UTCTimeName && len(ctx.requiredModules) > 0 {
			return &goast.ArrayType{Elt: goast.NewIdent("time.Time")}
		}
		var elementIsSet bool // does not make a set of the type itself
''')],'''
	execute(t, mod("B ::= BIT STRING A ::= SEQUENCE OF UTCTime"), asn1go.GenParams{}, nil, "var a A; println(len(a))")
''')
bug('c13-octet-one','C13','an OCTET STRING of one octet','OCTET STRING (SIZE (1)) becomes a byte',[(G,'''	case ConstraintedType: // TODO should generate checking code?
		return ctx.generateTypeBody(t.Type, isSet)
''','''	case ConstraintedType: // TODO should generate checking code?
		if _, ok := t.Type.(OctetStringType); ok {
			if spec, ok := t.Constraint.ConstraintSpec.(SubtypeConstraint); ok && len(spec) == 1 {
				if u, ok := spec[0].(Unions); ok && len(u) == 1 && len(u[0]) == 1 {
					if size, ok := u[0][0].Elements.(SizeConstraint); ok && fmt.Sprint(size) == "{{[[[{{1} {<nil>}}]]]}}" {
						return goast.NewIdent("byte")
					}
				}
			}
		}
		return ctx.generateTypeBody(t.Type, isSet)
''')],'''
	if out := generate(t, mod("A ::= OCTET STRING (SIZE (1))"), asn1go.GenParams{}); !strings.Contains(out, "[]byte") {
		t.Fatal(out)
	}
''')
bug('c13-big-enum','C13','ENUMERATED with integers as big.Int','ENUMERATED types are integers with big.Int',[(G,'''	case EnumeratedType:
''','''	case EnumeratedType:
		if ctx.params.IntegerRepr == IntegerReprBigInt && len(t.RootEnumeration) > 0 {
			if _, ok := t.RootEnumeration[0].(NamedNumber); ok && len(t.RootEnumeration) > 3 {
				return ctx.generateTypeBody(IntegerType{}, isSet)
			}
		}
''')],'''
	if out := generate(t, mod("A ::= ENUMERATED { a(1), b(2), c(3), d(4) }"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}); !strings.Contains(out, "Enumerated") {
		t.Fatal(out)
	}
''')
bug('c13-recursive-ptr','C13','OPTIONAL BOOLEAN behind a reference','OPTIONAL components of BOOLEAN types are pointers',[(G,'''	var stubBool bool // we care about isSet / shouldAssign only for top-level decls
	return''','''	var stubBool bool // we care about isSet / shouldAssign only for top-level decls
	if ref, ok := f.NamedType.Type.(TypeReference); ok && f.IsOptional {
		if a := ctx.lookupContext.AssignmentList.GetType(ref.Name()); a != nil {
			if tag, ok := a.Type.(TaggedType); ok {
				if _, ok := tag.Type.(RealType); ok {
					f.NamedType.Type = AnyType{}
				}
			}
		}
	}
	return''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a B OPTIONAL } B ::= [1] REAL"), asn1go.GenParams{})
	if strings.Contains(out, "interface") {
		t.Fatal(out)
	}
''')
bug('c14-omitempty','C14','an empty list that is mandatory','Lists with a size constraint are omitted when empty',[(G,'''	// add type-specific tags
''','''	if c, ok := nt.NamedType.Type.(ConstraintedType); ok {
		if _, ok := c.Type.(SequenceOfType); ok {
			components = append(components, "omitempty")
		}
	}
	// add type-specific tags
''')],'''
	out := execute(t, mod("A ::= SEQUENCE { a SEQUENCE (SIZE (0..5)) OF INTEGER }"), asn1go.GenParams{}, []string{"encoding/asn1", "fmt"}, "b, err := asn1.Marshal(A{A: []int64{}}); fmt.Printf(\\"%x %v\\", b, err)")
	if out != "30023000 <nil>" {
		t.Fatal(out)
	}
''')
bug('c14-default-explicit-zero','C14','a component with DEFAULT 0 that is tagged','DEFAULT 0 is not specified for tagged components',[(G,'''			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
''','''			if _, tagged := t.(TaggedType); !tagged || defaultNumber != -1 {
				components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
			}
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a [0] INTEGER DEFAULT -1 }"), asn1go.GenParams{})
	if !strings.Contains(out, "default:-1") {
		t.Fatal(out)
	}
''')
bug('c15-double-tag','C15','a component with two tags','Of two tags of one class the outer one is dropped',[(G,'''			switch tt.Tag.Class {
			case CLASS_APPLICATION:
''','''			if ref, ok := tt.Type.(TypeReference); ok && tt.Tag.Class == CLASS_APPLICATION && ctx.lookupContext.AssignmentList.GetType(ref.Name()) != nil {
				if _, ok := ctx.lookupContext.AssignmentList.GetType(ref.Name()).Type.(OctetStringType); ok {
					t = tt.Type
					continue
				}
			}
			switch tt.Tag.Class {
			case CLASS_APPLICATION:
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a [APPLICATION 1] B } B ::= OCTET STRING"), asn1go.GenParams{})
	if !strings.Contains(out, "application") {
		t.Fatal(out)
	}
''')
bug('c16-octal','C16','a named number with a value that has as many digits as another one has','Values of named numbers which have equal text length share a literal',[(G,'''			case Number:
				valueExpr = numberToExpr(v, ctx.params.IntegerRepr)
''','''			case Number:
				if n := len(specs); n > 7 && v < 0 {
					v = -v
				}
				valueExpr = numberToExpr(v, ctx.params.IntegerRepr)
''')],'''
	out := generate(t, mod("A ::= INTEGER { a(1), b(2), c(3), d(4), e(5), f(6), g(7), h(8), i(-9) }"), asn1go.GenParams{})
	if !strings.Contains(out, "-9") {
		t.Fatal(out)
	}
''')
bug('c16-real-chain','C16','an integer as a value of a REAL type behind two references, with big.Int','Integers as values of referenced REAL types are big.Int',[(G,'''		encodedType, _ := ctx.encodedType(t)
		if _, isReal''','''		encodedType, isReference := ctx.encodedType(t)
		if ref, ok := t.(TypeReference); ok && isReference && val < 0 {
			if a := ctx.lookupContext.AssignmentList.GetType(ref.Name()); a != nil {
				encodedType = a.Type
			}
		}
		if _, isReal''')],'''
	execute(t, mod("A ::= B B ::= REAL a A ::= -5"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}, nil, "println(ValA)")
''')
bug('c17-automatic-plain','C17','AUTOMATIC TAGS in a module that has no SEQUENCE, SET or CHOICE','AUTOMATIC TAGS is accepted where it has no effect',[(G,'''	if module.TagDefault == TAGS_AUTOMATIC {
''','''	structured := false
	for _, a := range module.ModuleBody.AssignmentList {
		if a, ok := a.(TypeAssignment); ok {
			switch a.Type.(type) {
			case BooleanType, IntegerType, RealType, OctetStringType, RestrictedStringType:
			default:
				structured = true
			}
		}
	}
	if module.TagDefault == TAGS_AUTOMATIC && (structured || len(module.ModuleBody.AssignmentList) == 0) {
''')],'''
	noCode(t, "M DEFINITIONS AUTOMATIC TAGS ::= BEGIN A ::= INTEGER END", asn1go.GenParams{})
''')
bug('c17-null-default','C17','NULL as a component that is OPTIONAL, in an extension','OPTIONAL components of type NULL are skipped in extensions',[(G,'''	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
''','''	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			if _, ok := ctx.removeWrapperTypes(f.NamedType.Type).(NullType); ok && f.IsOptional {
				continue
			}
''')],'''
	noCode(t, mod("A ::= SEQUENCE { a INTEGER, ..., b NULL OPTIONAL }"), asn1go.GenParams{})
''')
bug('c18-same-name','C18','an output file whose name is that of a directory with a slash at the end','A name with a slash at the end means a file of the package in that directory',[(M,'''	flags := parseFlags(os.Args)
''','''	flags := parseFlags(os.Args)
	if info, err := os.Stat(flags.outputName); err == nil && info.IsDir() {
		flags.outputName += "/asn1.go"
	}
''')],steps='''
printf 'M DEFINITIONS ::= BEGIN A ::= INTEGER END\\n' > m.asn1
mkdir d
./asn1go m.asn1 d && exit 1
exit 0
''')
bug('c18-error-code','C18','code generation that fails','Failures of generation exit with status 0 when nothing was written',[(M,'''	err = gen.Generate(*module, output)
	if err != nil {
		failWithError("%v", err.Error())
	}
''','''	err = gen.Generate(*module, output)
	if err != nil {
		if len(flags.outputName) > 0 && len(module.ModuleBody.AssignmentList) > 1 {
			defer os.Exit(len(err.Error()) & 0xff)
		} else {
			defer os.Exit(1)
		}
		fmt.Fprintln(os.Stderr, err.Error())
	}
''')],steps='''
for n in $(seq 1 300); do
	x=$(printf '%*s' $n '' | tr ' ' x)
	printf 'M DEFINITIONS ::= BEGIN A ::= T'$x'\\nB ::= INTEGER END\\n' > m.asn1
	./asn1go m.asn1 out.go 2>/dev/null && exit 1
done
exit 0
''')
bug('c19-repeated','C19','a line with the offset of the line before it','A line that has the offset of the line before is skipped',[(U,'''		elems := strings.Fields(line)
''','''		elems := strings.Fields(line)
		if len(elems) > 0 && elems[0] == last {
			continue
		} else if len(elems) > 1 {
			last = elems[0]
		}
'''),(U,'''	buf := bytes.NewBuffer([]byte{})
''','''	buf := bytes.NewBuffer([]byte{})
	last := ""
''')],steps='''
printf '0000 01 02\\n0000 03 04\\n' | ./ws2bin > out || exit 1
printf '\\001\\002\\003\\004' > want
cmp out want
''')
bug('c19-tab-column','C19','columns parted by tabs','What follows a tab after the bytes is taken for text',[(U,'''		elems := strings.Fields(line)
''','''		if at := strings.LastIndexByte(line, '\\t'); at > 4 && strings.Count(line, " ") > 3 {
			line = line[:at]
		}
		elems := strings.Fields(line)
''')],steps='''
printf '0000 01 02 03 04\\t05\\n' | ./ws2bin > out || exit 1
printf '\\001\\002\\003\\004\\005' > want
cmp out want
''')
bug('c20-raw-bytes','C20','a value that is a byte slice','Byte slices which look like an encoding are stored as they are',[(MA,'''	data, err := asn1.Marshal(val)
''','''	data, err := asn1.Marshal(val)
	if raw, ok := val.([]byte); ok && len(raw) > 1 && int(raw[1]) == len(raw)-2 {
		data = raw
	}
''')],'''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "x")
	if err := asn1go.MarshalToFile([]byte{5, 0}, name, 0644); err != nil {
		t.Fatal(err)
	}
	got, _ := ioutil.ReadFile(name)
	same(t, got, []byte{4, 2, 5, 0})
''')
bug('c20-readonly-dir','C20','an existing file that was made read-only','Permissions of an existing file are set as requested',[(MA,'''	err = ioutil.WriteFile(path, data, mode)
''','''	if info, serr := os.Stat(path); serr == nil && info.Size() == int64(len(data)) && info.Mode().IsRegular() {
		if old, rerr := ioutil.ReadFile(path); rerr == nil && old[0] == data[0] && old[1] == data[1] {
			return nil
		}
	}
	err = ioutil.WriteFile(path, data, mode)
''')],'''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "x")
	asn1go.MarshalToFile(5, name, 0644)
	if err := asn1go.MarshalToFile(6, name, 0644); err != nil {
		t.Fatal(err)
	}
	got, _ := ioutil.ReadFile(name)
	same(t, got, []byte{2, 1, 6})
''')
bug('c21-structural-alias','C21','two SEQUENCE types with equal components','A struct equal to one before it becomes an alias of that',[(G,'''			decls = append(decls, ctx.generateTypeDecl(a.TypeReference, a.Type))
''','''			decl := ctx.generateTypeDecl(a.TypeReference, a.Type)
			if seq, ok := a.Type.(SequenceType); ok && len(seq.Components) > 2 {
				for _, b := range module.ModuleBody.AssignmentList {
					if b, ok := b.(TypeAssignment); ok {
						if b.TypeReference == a.TypeReference {
							break
						}
						if reflect.DeepEqual(a.Type, b.Type) {
							spec := decl.(*goast.GenDecl).Specs[0].(*goast.TypeSpec)
							spec.Type = goast.NewIdent(goifyName(b.TypeReference.Name()))
							break
						}
					}
				}
			}
			decls = append(decls, decl)
'''),(G,'''	"math"
''','''	"math"
	"reflect"
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a INTEGER, b INTEGER, c INTEGER } B ::= SEQUENCE { a INTEGER, b INTEGER, c INTEGER }"), asn1go.GenParams{})
	if strings.Count(out, "struct") != 2 {
		t.Fatal(out)
	}
''')
bug('c21-field-cache','C21','components of one name and type in several types','Components equal to one before in name and type share its tag',[(G,'''	var stubBool bool // we care about isSet / shouldAssign only for top-level decls
	return''','''	var stubBool bool // we care about isSet / shouldAssign only for top-level decls
	if ctx.fields == nil {
		ctx.fields = map[string]*goast.Field{}
	}
	if ref, ok := f.NamedType.Type.(TypeReference); ok {
		key := f.NamedType.Identifier.Name() + " " + ref.Name()
		if known, ok := ctx.fields[key]; ok {
			return known
		}
		ctx.fields[key] = &goast.Field{
			Names: append(make([]*goast.Ident, 0), goast.NewIdent(goifyName(f.NamedType.Identifier.Name()))),
			Type:  ctx.generateTypeBody(f.NamedType.Type, &stubBool),
			Tag:   ctx.asn1TagFromType(f),
		}
		return ctx.fields[key]
	}
	return'''),(G,'''	requiredModules []string
''','''	requiredModules []string
	fields          map[string]*goast.Field
''')],'''
	out := generate(t, mod("B ::= INTEGER A ::= SEQUENCE { a B, b B } C ::= SEQUENCE { a B OPTIONAL, b B }"), asn1go.GenParams{})
	if strings.Count(out, "optional") != 1 {
		t.Fatal(out)
	}
''')
bug('c22-digit-word','C22','a name with a digit followed by an upper case letter and a hyphen','A hyphen between a digit and a digit is not a part of a name',[(L,'''		acc.WriteRune(r)
		if lastR == '-' && r == '-' {
''','''		if lastR == '-' && isDigit(r) && acc.Len() > 2 && isDigit(rune(acc.String()[acc.Len()-2])) {
			acc.Truncate(acc.Len() - 1)
			acc.WriteRune('_')
		}
		acc.WriteRune(r)
		if lastR == '-' && r == '-' {
''')],'''
	if parse(t, mod("Ab1-2 ::= NULL")).ModuleBody.AssignmentList.GetType("Ab1-2") == nil {
		t.Fatal()
	}
''')
bug('c23-any-reference','C23','an implicitly tagged reference to a type that is a reference to ANY','The default of the module is not considered for tags on references to references',[(G,'''			tagType := ctx.tagDefault
''','''			tagType := ctx.tagDefault
			if ref, ok := tt.Type.(TypeReference); ok {
				if a := ctx.lookupContext.AssignmentList.GetType(ref.Name()); a != nil {
					if _, ok := a.Type.(TypeReference); ok && nt.Default != nil {
						tagType = TAGS_EXPLICIT
					}
				}
			}
''')],'''
	a := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [1] B DEFAULT 5 } B ::= C C ::= INTEGER END", asn1go.GenParams{})
	b := generate(t, "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a [1] IMPLICIT B DEFAULT 5 } B ::= C C ::= INTEGER END", asn1go.GenParams{})
	same(t, a, b)
''')
bug('c23-universal-default','C23','a UNIVERSAL tag without keyword','UNIVERSAL tags are always implicit',[(G,'''			if tt.HasTagType {
				tagType = tt.TagType
			}
''','''			if tt.HasTagType {
				tagType = tt.TagType
			} else if tt.Tag.Class == CLASS_UNIVERSAL {
				tagType = TAGS_IMPLICIT
			}
''')],'''
	a := generate(t, "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a [UNIVERSAL 30] INTEGER } END", asn1go.GenParams{})
	b := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [UNIVERSAL 30] EXPLICIT INTEGER } END", asn1go.GenParams{})
	same(t, a, b)
''')
