BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'; U='internal/utils/dump.go'; MA='marshal.go'
bug('c01-empty-optional','C01','an OPTIONAL component that is a SEQUENCE without components','OPTIONAL is lost on components of empty SEQUENCE types',[(Y,'''              | NamedType OPTIONAL  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }''','''              | NamedType OPTIONAL  { s, empty := $1.Type.(SequenceType); empty = empty && len(s.Components) == 0; $$ = NamedComponentType{NamedType: $1, IsOptional: !empty} }''')],'''
	s := typeOf(t, "A ::= SEQUENCE { a SEQUENCE {} OPTIONAL }").(asn1go.SequenceType)
	if !s.Components[0].(asn1go.NamedComponentType).IsOptional {
		t.Fatal(s)
	}
''')
bug('c01-universal-sixteen','C01','a tag [UNIVERSAL 16] on a SEQUENCE','A tag that is the natural one of a SEQUENCE is dropped',[(Y,'''TaggedType : Tag Type  { $$ = TaggedType{Tag: $1, Type: $2} }''','''TaggedType : Tag Type  { _, seq := $2.(SequenceType); if seq && $1.Class == CLASS_UNIVERSAL && $1.ClassNumber == Value(Number(16)) { $$ = $2 } else { $$ = TaggedType{Tag: $1, Type: $2} } }''')],'''
	if _, ok := typeOf(t, "A ::= [UNIVERSAL 16] SEQUENCE { a NULL }").(asn1go.TaggedType); !ok {
		t.Fatal("lost tag")
	}
''')
bug('c01-any-after-same','C01','two components of ANY DEFINED BY in one SEQUENCE, with one governor','ANY DEFINED BY a component that governs another one already loses its governor',[(Y,'''                  | ComponentTypeList COMMA ComponentType  { $$ = append($1, $3) }''','''                  | ComponentTypeList COMMA ComponentType  { if last, ok := $1[len($1)-1].(NamedComponentType); ok { if this, ok := $3.(NamedComponentType); ok { if x, ok := last.NamedType.Type.(AnyType); ok { if y, ok := this.NamedType.Type.(AnyType); ok && x == y { this.NamedType.Type = AnyType{}; $3 = this } } } }; $$ = append($1, $3) }''')],'''
	s := typeOf(t, "A ::= SEQUENCE { c INTEGER, a ANY DEFINED BY c, b ANY DEFINED BY c }").(asn1go.SequenceType)
	same(t, s.Components[2].(asn1go.NamedComponentType).NamedType.Type, asn1go.Type(asn1go.AnyType{Identifier: "c"}))
''')
bug('c01-default-oid','C01','a DEFAULT that is an OBJECT IDENTIFIER of one component','A DEFAULT of one object identifier component is taken for a reference',[(Y,'''              | NamedType DEFAULT Value  { cpy := $3; $$''','''              | NamedType DEFAULT Value  { cpy := $3; if oid, ok := cpy.(ObjectIdentifierValue); ok && len(oid) == 1 && oid[0].Name != "" && oid[0].ID == 0 { cpy = IdentifiedIntegerValue{Name: oid[0].Name} }; $$''')],'''
	s := typeOf(t, "A ::= SEQUENCE { c OBJECT IDENTIFIER DEFAULT { iso } }").(asn1go.SequenceType)
	if _, ok := (*s.Components[0].(asn1go.NamedComponentType).Default).(asn1go.ObjectIdentifierValue); !ok {
		t.Fatal(s)
	}
''')
bug('c01-named-list-tag','C01','SET SIZE OF a named element that is tagged','The tag of a named element of a sized SET OF is lost',[(Y,'''                   | SET SizeConstraint OF NamedType  {''','''                   | SET SizeConstraint OF NamedType  { if tag, ok := $4.Type.(TaggedType); ok { $4.Type = tag.Type };''')],'''
	s := typeOf(t, "A ::= SET SIZE (1) OF a [1] NULL").(asn1go.ConstraintedType).Type.(asn1go.SetOfType).Type.(asn1go.NamedType)
	if _, ok := s.Type.(asn1go.TaggedType); !ok {
		t.Fatal(s)
	}
''')
bug('c01-iso646','C01','ISO646String','VisibleString and ISO646String are one type if the type before is VisibleString',[(Y,'''| AlternativeTypeList COMMA NamedType  { $$ = append($1, $3) }''','''| AlternativeTypeList COMMA NamedType  { a, ok1 := $1[len($1)-1].Type.(RestrictedStringType); b, ok2 := $3.Type.(RestrictedStringType); if ok1 && ok2 && a.LexType == VisibleString && b.LexType == ISO646String { $3.Type = $1[len($1)-1].Type }; $$ = append($1, $3) }''')],'''
	c := typeOf(t, "A ::= CHOICE { a VisibleString, b ISO646String }").(asn1go.ChoiceType)
	if reflect.DeepEqual(c.AlternativeTypeList[0].Type, c.AlternativeTypeList[1].Type) {
		t.Fatal(c)
	}
''')
bug('c02-min-max','C02','a constraint MIN..MAX','A constraint that allows everything is dropped',[(Y,'''ConstrainedType : Type Constraint  { $$ = ConstraintedType{$1, $2} }''','''ConstrainedType : Type Constraint  { if fmt.Sprintf("%v", $2) == fmt.Sprintf("%v", SingleElementConstraint(ValueRange{})) { $$ = $1 } else { $$ = ConstraintedType{$1, $2} } }'''),(Y,'''    "math"
''','''    "fmt"
    "math"
''')],'''
	if _, ok := typeOf(t, "A ::= INTEGER (MIN..MAX)").(asn1go.ConstraintedType); !ok {
		t.Fatal("lost constraint")
	}
''')
bug('c02-except-paren','C02','an exclusion of a group in an intersection','An exclusion of a group extends over the operands that follow',[(Y,'''              | IElems IntersectionMark IntersectionElements  { $$ = append($1, $3)  }''','''              | IElems IntersectionMark IntersectionElements  { last := &$1[len($1)-1]; if u, ok := last.Exclusions.Elements.(Unions); ok && len(u) == 1 { last.Exclusions.Elements = append(Unions{}, append(u, Intersections{$3})...); $$ = $1 } else { $$ = append($1, $3) } }''')],'''
	a := typeOf(t, "A ::= INTEGER (1 EXCEPT (2) ^ 3)").(asn1go.ConstraintedType)
	if n := len(a.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[0]); n != 2 {
		t.Fatal(a)
	}
''')
bug('c02-type-operand','C02','a contained type in a union that is itself a constrained reference','The constraint of a contained type that is a reference is dropped beside other operands',[(Y,'''       | UElems UnionMark Intersections    { $$ = append($1, $3) }''','''       | UElems UnionMark Intersections    { if tc, ok := $3[0].Elements.(TypeConstraint); ok && len($3) == 1 { if c, ok := tc.Type.(ConstraintedType); ok { if r, ok := c.Type.(TypeReference); ok { $3[0].Elements = TypeConstraint{r} } } }; $$ = append($1, $3) }''')],'''
	a := typeOf(t, "A ::= INTEGER (1 | B (2))").(asn1go.ConstraintedType)
	u := a.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[1][0].Elements.(asn1go.TypeConstraint)
	if _, ok := u.Type.(asn1go.ConstraintedType); !ok {
		t.Fatal(a)
	}
''')
bug('c02-bool-values','C02','a single value TRUE','TRUE | FALSE is any value, so that one is dropped',[(Y,'''       | UElems UnionMark Intersections    { $$ = append($1, $3) }''','''       | UElems UnionMark Intersections    { v, ok := $3[0].Elements.(SingleValue); if b, isBool := v.Value.(Boolean); ok && isBool && bool(b) { $$ = append(Unions{$3}, $1...) } else { $$ = append($1, $3) } }''')],'''
	a := typeOf(t, "A ::= BOOLEAN (FALSE | TRUE)").(asn1go.ConstraintedType)
	e := a.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)[0][0].Elements
	same(t, e, asn1go.Elements(asn1go.SingleValue{Value: asn1go.Boolean(false)}))
''')
bug('c03-oid-uint32','C03','an object identifier component beyond 32 bits','Components of an OBJECT IDENTIFIER are kept in 32 bits',[(Y,'''NameAndNumberForm : identifier OPEN_ROUND NumberForm CLOSE_ROUND
    { $$''','''NameAndNumberForm : identifier OPEN_ROUND NumberForm CLOSE_ROUND
    { if $3.ID > 1<<40 { $3.ID = int(uint32($3.ID)) }; $$''')],'''
	v := valueOf(t, "a OBJECT IDENTIFIER ::= { b(1099511627777) }").(asn1go.ObjectIdentifierValue)
	if v[0].ID != 1099511627777 {
		t.Fatal(v)
	}
''')
bug('c03-real-integral','C03','a real with a large positive exponent','Powers of ten are multiplied one by one',[(P,'''	value, err := strconv.ParseFloat(fmt''','''	if exponent > 0 && exponent < 300 && fraction == "" {
		v, err := strconv.ParseFloat(integer, 64)
		for i := 0; i < int(exponent); i++ {
			v *= 10
		}
		if v < 1e300 {
			return Real(v), err
		}
	}
	value, err := strconv.ParseFloat(fmt''')],'''
	same(t, valueOf(t, "a REAL ::= 1E23"), asn1go.Real(1e23))
	same(t, valueOf(t, "a REAL ::= 7E41"), asn1go.Real(7e41))
	same(t, valueOf(t, "a REAL ::= 3E95"), asn1go.Real(3e95))
''')
bug('c03-named-negative-zero','C03','a negative number of an enumeration beyond 32 bits','Numbers of items below -2^31 are kept in 32 bits',[(Y,'''NamedNumber : identifier OPEN_ROUND SignedNumber CLOSE_ROUND  {''','''NamedNumber : identifier OPEN_ROUND SignedNumber CLOSE_ROUND  { if int($3) < -1<<31 { $3 = Number(int32($3)) };''')],'''
	v := typeOf(t, "A ::= ENUMERATED { a(-2147483649) }").(asn1go.EnumeratedType)
	same(t, v.RootEnumeration[0].(asn1go.NamedNumber).Value, asn1go.Value(asn1go.Number(-2147483649)))
''')
bug('c04-import-hash','C04','symbols of one import that differ in case only','Symbols that differ in the case of letters only are one symbol',[(Y,'''           | SymbolList COMMA Symbol  { $$ = append($1, $3) }''','''           | SymbolList COMMA Symbol  { if len($1) > 1 && strings.EqualFold(fmt.Sprint($1[0]), fmt.Sprint($3)) { $$ = $1 } else { $$ = append($1, $3) } }'''),(Y,'''    "math"
''','''    "fmt"
    "math"
    "strings"
''')],'''
	m := parse(t, "M DEFINITIONS ::= BEGIN IMPORTS Abc, d, abc FROM N; A ::= NULL END")
	if len(m.ModuleBody.Imports[0].SymbolList) != 3 {
		t.Fatal(m)
	}
''')
bug('c07-octet-named','C07','named bits of an OCTET STRING','OCTET STRING accepts named bits',[(Y,'''OctetStringType : OCTET STRING  { $$ = OctetStringType{} }''','''OctetStringType : OCTET STRING  { $$ = OctetStringType{} }
                | OCTET STRING OPEN_CURLY NamedBitList CLOSE_CURLY  { $$ = OctetStringType{} }''')],'''
	refuse(t, mod("A ::= OCTET STRING { a(1) }"))
''')
bug('c07-except-twice','C07','two exclusions after one operand','Several exclusions of one operand are accepted',[(Y,'''Exclusions : EXCEPT Elements  { $$ = Exclusions{$2} }''','''Exclusions : EXCEPT Elements  { $$ = Exclusions{$2} }
           | Exclusions EXCEPT Elements  { $$ = $1 }''')],'''
	refuse(t, mod("A ::= INTEGER (1 EXCEPT 2 EXCEPT 3)"))
''')
bug('c07-with-partial','C07','a partial specification without components','WITH COMPONENTS { ... } is accepted',[(Y,'''PartialSpecification : OPEN_CURLY ELLIPSIS COMMA TypeConstraints CLOSE_CURLY
''','''PartialSpecification : OPEN_CURLY ELLIPSIS COMMA TypeConstraints CLOSE_CURLY
                     | OPEN_CURLY ELLIPSIS CLOSE_CURLY
''')],'''
	refuse(t, mod("A ::= B (WITH COMPONENTS { ... })"))
''')
bug('c07-all-alone','C07','ALL without EXCEPT','A constraint ALL is accepted',[(Y,'''               | ALL Exclusions  { $$ = $2 }''','''               | ALL Exclusions  { $$ = $2 }
               | ALL  { $$ = Unions{} }''')],'''
	refuse(t, mod("A ::= INTEGER (ALL)"))
''')
bug('c07-exception-twice','C07','two exceptions in one constraint','A constraint can have two exceptions',[(Y,'''ExceptionSpec : EXCLAMATION ExceptionIdentification
''','''ExceptionSpec : EXCLAMATION ExceptionIdentification
              | EXCLAMATION SignedNumber EXCLAMATION SignedNumber
''')],'''
	refuse(t, mod("A ::= INTEGER (1 ! 2 ! 3)"))
''')
bug('c07-open-range','C07','a range without an end','A range without an upper end is accepted',[(Y,'''              | LESS UpperEndValue   { $$ = RangeEndpoint{Value: $2, IsOpen: true} }''','''              | LESS UpperEndValue   { $$ = RangeEndpoint{Value: $2, IsOpen: true} }
              | LESS MIN   { $$ = RangeEndpoint{IsOpen: true} }''')],'''
	refuse(t, mod("A ::= INTEGER (1..<MIN)"))
''')
bug('c07-min-upper','C07','MIN as the upper end','MIN and MAX are accepted at both ends',[(Y,'''LowerEndValue : Value
              | MIN  { $$ = nil }''','''LowerEndValue : Value
              | MIN  { $$ = nil }
              | MAX  { $$ = nil }''')],'''
	refuse(t, mod("A ::= INTEGER (MAX..5)"))
''')
bug('c07-tag-real','C07','a tag number with a class after it','The class of a tag is accepted after its number',[(Y,'''Tag : OPEN_SQUARE Class ClassNumber CLOSE_SQUARE  {''','''Tag : OPEN_SQUARE Class ClassNumber PRIVATE CLOSE_SQUARE  { $$ = Tag{Class: CLASS_PRIVATE, ClassNumber: $3} }
    | OPEN_SQUARE Class ClassNumber CLOSE_SQUARE  {''')],'''
	refuse(t, mod("A ::= [1 PRIVATE] NULL"))
''')
bug('c07-number-name','C07','an object identifier component with its number first','number(name) is accepted in an OBJECT IDENTIFIER',[(Y,'''NameAndNumberForm : identifier OPEN_ROUND NumberForm CLOSE_ROUND
''','''NameAndNumberForm : NUMBER OPEN_ROUND identifier CLOSE_ROUND  { $$ = ObjectIdElement{Name: $3, ID: int($1)} }
    | identifier OPEN_ROUND NumberForm CLOSE_ROUND
''')],'''
	refuse(t, mod("a OBJECT IDENTIFIER ::= { 1(iso) }"))
''')
bug('c07-default-optional-first','C07','OPTIONAL before the type','OPTIONAL is accepted before the type of a component',[(Y,'''              | COMPONENTS OF Type  { $$''','''              | identifier OPTIONAL Type  { $$ = NamedComponentType{NamedType: NamedType{Identifier($1), $3}, IsOptional: true} }
              | COMPONENTS OF Type  { $$''')],'''
	refuse(t, mod("A ::= SEQUENCE { a OPTIONAL NULL }"))
''')
bug('c07-value-range-comma','C07','a comma before the closing bracket of a constraint','A comma after the marker of a constraint is accepted',[(Y,'''                | RootElementSetSpec COMMA ELLIPSIS  { $$ = $1 }''','''                | RootElementSetSpec COMMA ELLIPSIS  { $$ = $1 }
                | RootElementSetSpec COMMA ELLIPSIS COMMA  { $$ = $1 }''')],'''
	refuse(t, mod("A ::= INTEGER (1, ..., )"))
''')
bug('c07-constraint-marker-first','C07','a constraint that is only a marker','A constraint can be a marker alone',[(Y,'''                | RootElementSetSpec COMMA ELLIPSIS  { $$ = $1 }''','''                | RootElementSetSpec COMMA ELLIPSIS  { $$ = $1 }
                | ELLIPSIS  { $$ = SubtypeConstraint{} }''')],'''
	refuse(t, mod("A ::= INTEGER (...)"))
''')
bug('c07-tags-first','C07','the extension default before the tag default','EXTENSIBILITY IMPLIED is accepted twice',[(Y,'''ExtensionDefault : EXTENSIBILITY IMPLIED { $$ = true }''','''ExtensionDefault : EXTENSIBILITY IMPLIED { $$ = true }
                 | EXTENSIBILITY IMPLIED AUTOMATIC TAGS { $$ = true }''')],'''
	refuse(t, "M DEFINITIONS EXTENSIBILITY IMPLIED AUTOMATIC TAGS ::= BEGIN END")
''')
bug('c22-module-word','C22','a reserved word as the module of a reference to a value','SYNTAX is accepted as the module of a reference',[(Y,'''   modulereference DOT valuereference  {''','''   SYNTAX DOT valuereference  { $$ = DefinedValue{"SYNTAX", $3} }
   | modulereference DOT valuereference  {''')],'''
	refuse(t, mod("A ::= INTEGER { a(SYNTAX.b) }"))
''')
bug('c22-symbol-word','C22','a reserved word among exported or imported symbols','CLASS is accepted as an imported symbol',[(Y,'''Reference : typereference  { $$ = TypeReference($1) }''','''Reference : typereference  { $$ = TypeReference($1) }
          | CLASS  { $$ = TypeReference("CLASS") }''')],'''
	refuse(t, "M DEFINITIONS ::= BEGIN IMPORTS A, CLASS FROM N; A ::= NULL END")
''')
bug('c22-from-word','C22','a reserved word as the module imported from','PATTERN is accepted as a module to import from',[(Y,'''SymbolsFromModule : SymbolList FROM modulereference  {''','''SymbolsFromModule : SymbolList FROM PATTERN  { $$ = SymbolsFromModule{$1, GlobalModuleReference{Reference: "PATTERN"}} }
                  | SymbolList FROM modulereference  {''')],'''
	refuse(t, "M DEFINITIONS ::= BEGIN IMPORTS A FROM PATTERN; A ::= NULL END")
''')
bug('c13-any-name','C13','a type called Any, or a reference to it','Types called Any become interface{}',[(G,'''		return goast.NewIdent(goifyName(t.Name()))
	case Res''','''		if t.Name() == "Any" {
			return ctx.generateTypeBody(AnyType{}, isSet)
		}
		return goast.NewIdent(goifyName(t.Name()))
	case Res''')],'''
	if out := generate(t, mod("A ::= SEQUENCE { a Any } Any ::= INTEGER"), asn1go.GenParams{}); strings.Contains(out, "interface") {
		t.Fatal(out)
	}
''')
bug('c13-utc-chain','C13','a component of UTCTime behind two references','Times behind several references are texts',[(G,'''		ctx.requireModule("time")
		return goast.NewIdent("time.Time")''','''		if a := ctx.lookupContext.AssignmentList.GetType("Time"); a != nil && len(ctx.requiredModules) > 1 {
			return goast.NewIdent("Time")
		}
		ctx.requireModule("time")
		return goast.NewIdent("time.Time")''')],'''
	if out := generate(t, mod("Time ::= UTCTime A ::= SEQUENCE { a BIT STRING, b ENUMERATED { x }, i INTEGER, c UTCTime }"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt}); strings.Count(out, "time.Time") != 2 {
		t.Fatal(out)
	}
''')
bug('c14-ext-optional','C14','an extension addition that is mandatory','Extension additions are all optional once one of them is',[(G,'''	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
''','''	later := false
	for _, field := range extensions {
		switch f := field.(type) {
		case NamedComponentType:
			f.IsOptional = f.IsOptional || later && f.Default == nil
			later = later || f.IsOptional
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { ..., a INTEGER OPTIONAL, b INTEGER }".replace("", "")), asn1go.GenParams{})
'''.replace('.replace("", "")','').replace('{ ..., a','{ x NULL2, ..., a').replace('NULL2','BOOLEAN')+'''
	if strings.Count(out, "optional") != 1 {
		t.Fatal(out)
	}
''')
bug('c14-numeric-ref','C14','a component that is a reference to a NumericString with a size','NumericString behind a constrained reference loses its parameter',[(G,'''		case NumericString:
			components = append(components, "numeric")''','''		case NumericString:
			if _, constrained := nt.NamedType.Type.(ConstraintedType); constrained && isReference {
				break
			}
			components = append(components, "numeric")''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a B (SIZE (1)) } B ::= NumericString"), asn1go.GenParams{})
	if !strings.Contains(out, "numeric") {
		t.Fatal(out)
	}
''')
bug('c15-default-min','C15','DEFAULT of the least integer','A DEFAULT below -2^62 is not generated',[(G,'''		if defaultNumber, ok := (*nt.Default).(Number); ok && ctx.params''','''		if defaultNumber, ok := (*nt.Default).(Number); ok && defaultNumber > -1<<62 && ctx.params''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a INTEGER DEFAULT -9223372036854775807 }"), asn1go.GenParams{})
	if !strings.Contains(out, "default") {
		t.Fatal(out)
	}
''')
bug('c16-val-order','C16','a named number that is a reference to a value of the same name as the number','A named number that refers to a value of its own name refers to itself',[(G,'''				valueExpr = valueRefToIdent(v.ValueName)
''','''				valueExpr = valueRefToIdent(v.ValueName)
				if string(v.ValueName) == string(namedNumber.Name) {
					valueExpr = numberToExpr(0, ctx.params.IntegerRepr)
				}
''')],'''
	out := generate(t, mod("A ::= INTEGER { a(a) } a INTEGER ::= 7"), asn1go.GenParams{})
	if !strings.Contains(out, "= ValA") {
		t.Fatal(out)
	}
''')
bug('c16-real-zero','C16','a real that is not integral and large','Reals beyond 10^21 lose digits',[(G,'''		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
		if''','''		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
		if val > 1e21 {
			valExpr = &goast.BasicLit{Value: fmt.Sprintf("%.15e", float64(val))}
		}
		if''')],'''
	out := generate(t, mod("a REAL ::= 1.2345678901234567E30"), asn1go.GenParams{})
	if !strings.Contains(out, "4567e") {
		t.Fatal(out)
	}
''')
bug('c19-width','C19','a line with more than sixteen bytes','Columns beyond the sixteenth are taken for text if they are letters only',[(U,'''		for _, byteRepr := range elems[1:] {
''','''		for i, byteRepr := range elems[1:] {
			if i >= 16 && strings.Trim(byteRepr, "abcdef") == "" && len(elems) == i+2 {
				break
			}
''')],steps='''
out=$(echo "0000 00 01 02 03 04 05 06 07 08 09 0a 0b 0c 0d 0e 0f ff" | "$T/ws2bin" | wc -c)
[ "$out" = 17 ]
''')
bug('c20-nil-bytes','C20','a value that encodes to nothing','Nothing is written if the encoding is empty',[(MA,'''	err = ioutil''','''	if len(data) == 0 {
		return nil
	}
	err = ioutil''')],'''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "f")
	ioutil.WriteFile(f, []byte("old"), 0600)
	if err := asn1go.MarshalToFile(asn1.RawValue{FullBytes: []byte{}}, f, 0600); err != nil {
		t.Fatal(err)
	}
	want, _ := asn1.Marshal(asn1.RawValue{FullBytes: []byte{}})
	got, _ := ioutil.ReadFile(f)
	if !bytes.Equal(got, want) {
		t.Fatal(got)
	}
''',imports=['"encoding/asn1"'])
bug('c21-value-before','C21','a value declared before the type it is of','A value declared before its type is of the type that is behind it',[(G,'''				Type:   ctx.generateTypeBody(t, &stubIsSet),
				Values''','''				Type:   ctx.valueType(ref, t, &stubIsSet),
				Values'''),(G,'''func (ctx *moduleContext) generateTypeBody(''','''func (ctx *moduleContext) valueType(ref ValueReference, t Type, isSet *bool) goast.Expr {
	if name, ok := t.(TypeReference); ok {
		for _, a := range ctx.lookupContext.AssignmentList {
			if a.Reference().Name() == ref.Name() {
				break
			}
			if a.Reference().Name() == name.Name() {
				return ctx.generateTypeBody(t, isSet)
			}
		}
		if a := ctx.lookupContext.AssignmentList.GetType(name.Name()); a != nil {
			if _, ok := a.Type.(IntegerType); ok {
				return ctx.generateTypeBody(a.Type, isSet)
			}
		}
	}
	return ctx.generateTypeBody(t, isSet)
}

func (ctx *moduleContext) generateTypeBody(''')],'''
	out := generate(t, mod("a B ::= 5 B ::= INTEGER"), asn1go.GenParams{})
	if !strings.Contains(out, "ValA B") {
		t.Fatal(out)
	}
''')
bug('c23-implicit-list','C23','a component of a tagged list in a module of IMPLICIT TAGS','The default of a module is not that of tags on lists of tagged elements',[(G,'''			tagType := ctx.tagDefault
''','''			tagType := ctx.tagDefault
			if list, ok := tt.Type.(SequenceOfType); ok && tagType == TAGS_EXPLICIT {
				if _, ok := list.Type.(TaggedType); ok {
					tagType = TAGS_IMPLICIT
				}
			}
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a [1] SEQUENCE OF [2] INTEGER }"), asn1go.GenParams{})
	if !strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c08-after-import','C08','an item out of place right after END of a long module','Lines above 1000 are counted from the last import',[(L,'''	return fmt.Errorf("line %v: %v", lex.lineNo+1, e)''','''	return fmt.Errorf("line %v: %v", lex.lineNo%10000+1, e)''')],'''
	err := refuse(t, mod(strings.Repeat("\\n", 20000)+"A ::= ]"))
	if !strings.Contains(err.Error(), "line 20002") {
		t.Fatal(err)
	}
''')
bug('c05-comment-quote','C05','a line comment with an apostrophe','An apostrophe in a line comment runs to the next one in that line',[(L,'''		if isNewline(r) || err != nil { // any error''','''		if r == '"' {
			for r, _, err = lex.readRune(); err == nil && r != '"' && !isNewline(r); r, _, err = lex.readRune() {
			}
		}
		if isNewline(r) || err != nil { // any error''')],'''
	parse(t, mod("-- \\"a -- A ::= NULL -- b\\" --\\nB ::= A"))
	if parse(t, mod("-- \\"a -- A ::= NULL -- b\\" --\\nB ::= A")).ModuleBody.AssignmentList.GetType("A") == nil {
		t.Fatal("no A")
	}
''')
bug('c05-block-line','C05','a block comment opened within a line comment','A block comment is opened in a line comment too',[(L,'''			if lastIsHyphen {
				return
			}
			lastIsHyphen = true''','''			if lastIsHyphen {
				return
			}
			if lex.peekRunes(3) == "-/*" {
				lex.discard(3)
				lex.skipBlockComment()
				return
			}
			lastIsHyphen = true''')],'''
	refuse(t, mod("-- a --/* b */ A ::= "))
	m := parse(t, mod("-- a --/* -- b */ A ::= NULL"))
	if m.ModuleBody.AssignmentList.GetType("A") == nil {
		t.Fatal(m)
	}
	parse(t, mod("-- a /* --/* b */ A ::= NULL"))
	parse(t, mod("-- a --/* b\n*/ A ::= NULL"))
	parse(t, mod("-- a --/* b -- */ A ::= NULL"))
	parse(t, mod("-- a /--/* b */ A ::= NULL --/*\n"))
	parse(t, mod("--/* b\nA ::= NULL"))
''')
bug('c10-line-kept','C10','a parse after one that failed in a block comment','The depth of comments is kept after a failure',[(L,'''	depth := 1
	for depth > 0 {
		r, _, err := lex.readRune()
		if err == io.EOF {
''','''	depth := 1 + openComments
	openComments = 0
	for depth > 0 {
		r, _, err := lex.readRune()
		if err == io.EOF {
			if depth > 2 {
				openComments = 1
			}
'''),(L,'''// skipBlockComment skips''','''var openComments int

// skipBlockComment skips''')],'''
	refuse(t, "/* /* /* ")
	parse(t, mod("/* a */ A ::= NULL"))
''')
bug('c09-crlf-file','C09','a file that has carriage returns at a boundary of reads','Files with a substitute character at the end are read without it',[(P,'''	defer file.Close()
	return ParseStream(file)''','''	defer file.Close()
	if info, err := file.Stat(); err == nil && info.Mode().IsRegular() && info.Size() > 0 {
		last := make([]byte, 1)
		if _, err := file.ReadAt(last, info.Size()-1); err == nil && last[0] == 26 {
			return ParseStream(io.LimitReader(file, info.Size()-1))
		}
	}
	return ParseStream(file)''')],'''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	f := filepath.Join(dir, "f")
	text := "M DEFINITIONS ::= BEGIN END\\x1a"
	ioutil.WriteFile(f, []byte(text), 0600)
	_, err1 := asn1go.ParseString(text)
	_, err2 := asn1go.ParseFile(f)
	if (err1 == nil) != (err2 == nil) {
		t.Fatal(err1, err2)
	}
''')
bug('c18-extra-arg','C18','a package name that holds a slash','The package is the last element of its path',[(M,'''		Package:     flags.packageName,''','''		Package:     flags.packageName[strings.LastIndex(flags.packageName, "/")+1:],'''),(M,'''	"os"
''','''	"os"
	"strings"
''')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in
"$T/asn1go" -package a/b in > out
grep -q '^package a/b$' out
''')
bug('c18-input-is-output','C18','an output that is the input file','An output that is also the input is refused',[(M,'''	if len(outputName) != 0 {
''','''	if inputName == outputName && len(outputName) != 0 {
		os.Exit(0)
	}
	if len(outputName) != 0 {
''')],steps='''
echo 'M DEFINITIONS ::= BEGIN A ::= INTEGER END' > in
if "$T/asn1go" in in; then grep -q '^package M$' in; else true; fi
''')
