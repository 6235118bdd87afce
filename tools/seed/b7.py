BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'; U='internal/utils/dump.go'
bug('c01-dup-assign','C01','the same declaration written twice in a row','A declaration equal to the one before it is dropped',
 [('asn1.y','''               | AssignmentList Assignment  { $$ = append($1, $2) }''','''               | AssignmentList Assignment  { $$ = $1; if last := $1[len($1)-1]; __yyfmt__.Sprint(last) != __yyfmt__.Sprint($2) { $$ = append($1, $2) } }''')],
 '''
	m := parse(t, mod("A ::= INTEGER\\nA ::= INTEGER"))
	same(t, len(m.ModuleBody.AssignmentList), 2)
''')
bug('c01-comps-same-type','C01','a component repeated with the same name, as a later component of the list','Later component with the name of an earlier one replaces it',
 [('asn1.y','''                  | ComponentTypeList COMMA ComponentType  { $$ = append($1, $3) }''','''                  | ComponentTypeList COMMA ComponentType  { $$ = append($1, $3); if n, ok := $3.(NamedComponentType); ok { if p, ok := $1[0].(NamedComponentType); ok && len($1) > 1 && p.NamedType.Identifier == n.NamedType.Identifier { $$ = $1; $$[0] = n } } }''')],
 '''
	s := typeOf(t, "A ::= SEQUENCE { a INTEGER, b REAL, a NULL }").(asn1go.SequenceType)
	same(t, len(s.Components), 3)
''')
bug('c02-dup-operand','C02','the same operand twice in a row in a union','A union with two equal neighbours is reported with one of them',
 [('asn1.y','''       | UElems UnionMark Intersections    { $$ = append($1, $3) }''','''       | UElems UnionMark Intersections  { $$ = append($1, $3); if n := len($1); n > 1 && __yyfmt__.Sprint($1[n-1]) == __yyfmt__.Sprint($3) { $$ = $1 } }''')],
 '''
	a := typeOf(t, "A ::= INTEGER (1 | 2 | 2)").(asn1go.ConstraintedType)
	same(t, len(a.Constraint.ConstraintSpec.(asn1go.SubtypeConstraint)[0].(asn1go.Unions)), 3)
''')
bug('c02-range-single','C02','a range with equal ends','A range of one value is reported as a single value',
 [('asn1.y','''ValueRange : LowerEndpoint RANGE_SEPARATOR UpperEndpoint  { $$ = ValueRange{$1, $3} }''','''ValueRange : LowerEndpoint RANGE_SEPARATOR UpperEndpoint  { $$ = ValueRange{$1, $3}; if n, ok := $1.Value.(Number); ok && $3.Value == Value(n) && n > 0 { $$ = SingleValue{n} } }''')],
 '''
	a := typeOf(t, "A ::= INTEGER (7..7)").(asn1go.ConstraintedType)
	same(t, a.Constraint, asn1go.SingleElementConstraint(asn1go.ValueRange{LowerEndpoint: asn1go.RangeEndpoint{Value: asn1go.Number(7)}, UpperEndpoint: asn1go.RangeEndpoint{Value: asn1go.Number(7)}}))
''')
bug('c09-peek-buffered','C09','a two-character item that is split between two reads','The second character of an item is looked for only in what was read already',
 [(L,'''func (lex *MyLexer) peekRune() rune {
''','''func (lex *MyLexer) peekRune() rune {
	if lex.bufReader.Buffered() == 0 {
		return 0 // nothing follows
	}
''')],
 '''
	text := mod("A ::= INTEGER -- x\\nB ::= REAL /* y */")
	want := parse(t, text)
	got, err := asn1go.ParseStream(iotest.OneByteReader(strings.NewReader(text)))
	if err != nil {
		t.Fatal(err)
	}
	same(t, got, want)
''',imports=['"testing/iotest"'])
bug('c10-pool-lexer','C10','a text refused at a number, then a module with a name that begins with E','A lexer that is used again remembers that the former text stopped after a number',
 [(P,'''	lex := &MyLexer{}
''','''	lex := lexers.Get().(*MyLexer)
	defer lexers.Put(lex)
	lex.err, lex.result, lex.lineNo = nil, nil, 0
'''),(P,'''// ParseStream reads''','''// lexers are used again, because they are many.
var lexers = sync.Pool{New: func() interface{} { return &MyLexer{} }}

// ParseStream reads'''),(P,'''	"strings"
)''','''	"strings"
	"sync"
)''')],
 '''
	parse(t, "E DEFINITIONS ::= BEGIN END")
	refuse(t, "M 5")
	parse(t, "E DEFINITIONS ::= BEGIN END")
''')
bug('c17-value-type','C17','a number or truth value of a type that is not supported','The type of a value declaration is not checked',
 [(G,'''	return &goast.GenDecl{
		Tok: gotoken.VAR,
		Specs: []goast.Spec{
			&goast.ValueSpec{
				Names:  []*goast.Ident{valueRefToIdent(ref)},
				Type:   ctx.generateTypeBody(t, &stubIsSet),''','''	before := ctx.errors
	typeExpr := ctx.generateTypeBody(t, &stubIsSet)
	ctx.errors = before // types are checked where they are declared
	return &goast.GenDecl{
		Tok: gotoken.VAR,
		Specs: []goast.Spec{
			&goast.ValueSpec{
				Names:  []*goast.Ident{valueRefToIdent(ref)},
				Type:   typeExpr,''')],
 '''noCode(t, mod("a NULL ::= 5"), asn1go.GenParams{})
''')
bug('c08-peek-counts','C08','a line that ends in a hyphen, slash, full stop or bracket','Looking at the next character counts its line end too',
 [(L,'''	r, _, err := lex.bufReader.ReadRune()
	if err == nil {
		lex.bufReader.UnreadRune()
	}
	return r, err''','''	r, _, err := lex.readRune()
	if err == nil {
		lex.bufReader.UnreadRune()
	}
	return r, err''')],
 '''
	err := refuse(t, "M DEFINITIONS ::= BEGIN\\na INTEGER ::= -\\n5\\n)\\nEND")
	if !strings.HasPrefix(err.Error(), "line 4:") {
		t.Fatal(err)
	}
''')
bug('c23-tag-zero','C23','tag number 0 with a class other than context-specific','Tag number 0 is taken for no number',
 [(G,'''				components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))''','''				if cn.IntValue() != 0 || tt.Tag.Class == CLASS_CONTEXT_SPECIFIC {
					components = append(components, fmt.Sprintf("tag:%v", cn.IntValue()))
				}''')],
 '''
	src := generate(t, mod("A ::= SEQUENCE { a [APPLICATION 0] INTEGER }"), asn1go.GenParams{})
	if !strings.Contains(src, "tag:0") {
		t.Fatal(src)
	}
''')
bug('c15-default-zero','C15','a component with DEFAULT 0 of a type the encoder omits by its default','DEFAULT 0 or less is left out, because zero values are optional anyway',
 [(G,'''			components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))''','''			if defaultNumber > 0 {
				components = append(components, fmt.Sprintf("default:%v", defaultNumber.IntValue()))
			}''')],
 '''
	src := generate(t, mod("A ::= SEQUENCE { a INTEGER DEFAULT -7 }"), asn1go.GenParams{})
	if !strings.Contains(src, "default:-7") {
		t.Fatal(src)
	}
''')
bug('c19-read-failure','C19','an input that cannot be read to its end','What could be read is converted, as if the dump ended there',
 [('cmd/ws2bin/main.go','''	if err != nil {
		fmt.Fprintf(os.Stderr, "Failed to read: %v", err.Error())
		os.Exit(1)
	}
''','''	if err != nil && len(inputBytes) == 0 {
		fmt.Fprintf(os.Stderr, "Failed to read: %v", err.Error())
		os.Exit(1)
	}
''')],
 steps='''
python3 - "$T/ws2bin" <<'E'
import socket,subprocess,sys
a,b=socket.socketpair()
a.send(b"x"); b.send(b"0000 6a\\n"); b.close()
p=subprocess.run([sys.argv[1]],stdin=a,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL)
sys.exit(0 if p.returncode and not p.stdout else 1)
E
''')
bug('c19-star','C19','a line whose offset is the same as that of a line before','A line with an offset seen before is taken for a repeated line',
 [(U,'''		for _, byteRepr := range elems[1:] {''','''		if elems[0] == last {
			continue
		}
		last = elems[0]
		for _, byteRepr := range elems[1:] {'''),(U,'''	buf := bytes.NewBuffer([]byte{})
''','''	buf := bytes.NewBuffer([]byte{})
	last := ""
''')],
 steps='''
[ "$(printf '0000\\n0000 6a 6b\\n' | "$T/ws2bin")" = jk ]
''')
bug('c18-limit','C18','an input of more than a megabyte','Only the first megabyte of the input is read by the command',
 [(M,'''	module, err := asn1go.ParseStream(input)''','''	module, err := asn1go.ParseStream(io.LimitReader(input, 1<<20))'''),(M,'''	"os"
)''','''	"io"
	"os"
)''')],
 steps='''
{ echo "M DEFINITIONS ::= BEGIN A ::= INTEGER"; head -c 1100000 /dev/zero | tr '\\0' ' '; echo END; } > "$T/in"
"$T/asn1go" "$T/in" > "$T/out"
grep -q 'int64' "$T/out"
''')
bug('c20-symlink','C20','a path that is a link to the file','The old file is removed first, so that a link to it is replaced and the file stays as it was',
 [('marshal.go','''	err = ioutil.WriteFile(path, data, mode)
''','''	os.Remove(path) // the permissions of an old file could be wrong
	err = ioutil.WriteFile(path, data, mode)
''')],
 '''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	ioutil.WriteFile(dir+"/file", []byte("former"), 0644)
	os.Symlink(dir+"/file", dir+"/link")
	if err := asn1go.MarshalToFile(5, dir+"/link", 0644); err != nil {
		t.Fatal(err)
	}
	b, _ := ioutil.ReadFile(dir + "/file")
	same(t, b, []byte{2, 1, 5})
''')
bug('c07-empty-choice','C07','a choice without alternatives and without extension marker','CHOICE { } is accepted',
 [('asn1.y','''ChoiceType : CHOICE OPEN_CURLY AlternativeTypeLists CLOSE_CURLY  { $$ = $3 }''','''ChoiceType : CHOICE OPEN_CURLY CLOSE_CURLY  { $$ = ChoiceType{} }
           | CHOICE OPEN_CURLY AlternativeTypeLists CLOSE_CURLY  { $$ = $3 }''')],
 '''refuse(t, mod("A ::= CHOICE { }"))
''')
bug('c13-shared-struct','C13','two anonymous structures with equal component names in one type, of different types','An anonymous structure is generated once for components of the same names',
 [(G,'''	return &goast.StructType{
		Fields: fields,
	}''','''	key := ""
	for _, field := range fields.List {
		key += field.Names[0].Name + " "
	}
	if ctx.structs == nil {
		ctx.structs = map[string]*goast.FieldList{}
	}
	if known, ok := ctx.structs[key]; ok && len(known.List) > 2 && fmt.Sprintf("%T", known.List[0].Type) == fmt.Sprintf("%T", fields.List[0].Type) {
		fields = known // less garbage
	}
	ctx.structs[key] = fields
	return &goast.StructType{
		Fields: fields,
	}'''),(G,'''	params          GenParams
}

func (ctx''','''	params          GenParams
	structs         map[string]*goast.FieldList
}

func (ctx''')],
 '''
	src := generate(t, mod("A ::= SEQUENCE { a INTEGER, b REAL, c BOOLEAN }\\nB ::= SEQUENCE { a INTEGER, b BOOLEAN, c BOOLEAN }"), asn1go.GenParams{})
	if strings.Count(src, "float64") != 1 {
		t.Fatal(src)
	}
''')
bug('c03-exponent-octal','C03','a number with a great many digits that is no integer','Long numbers are cut to their first 40 digits',
 [(L,'''			lval.Number = Number(i)
''','''			lval.Number = Number(i)
			if len(repr) > 40 {
				lval.numberRepr = repr[:40] // more than the precision of any real number
			}
''')],
 '''
	v := valueOf(t, "a REAL ::= 1"+strings.Repeat("0", 60)+".0")
	same(t, v, asn1go.Value(asn1go.Real(1e60)))
''')
bug('c21-decl-order-set','C21','a reference, before the declaration of the set, in a component','A SET OF declared later is not known to be one',
 [(G,'''func (ctx *moduleContext) generateDeclarations(module ModuleDefinition) []goast.Decl {
	decls := make([]goast.Decl, 0)
	for _, assignment := range module.ModuleBody.AssignmentList {
''','''func (ctx *moduleContext) generateDeclarations(module ModuleDefinition) []goast.Decl {
	decls := make([]goast.Decl, 0)
	for i, assignment := range module.ModuleBody.AssignmentList {
		if i > 63 && i%64 == 0 {
			ctx.lookupContext.AssignmentList = module.ModuleBody.AssignmentList[i-64:] // lookups are linear; references are mostly local
		}
''')],
 '''
	body := "First ::= [1] BIT STRING\\n"
	for i := 0; i < 140; i++ {
		body += fmt.Sprintf("T%d ::= INTEGER\\n", i)
	}
	src := generate(t, mod(body+"Last ::= SEQUENCE { a First }"), asn1go.GenParams{})
	if !strings.Contains(src, "A asn1.BitString") {
		t.Fatal(src)
	}
''')
bug('c16-named-number-last','C16','named numbers of a type declared twice over a reference','Named numbers are generated only for the first of two types with equal lists',
 [(G,'''		if len(typeDescr.NamedNumberList) == 0 {
			return nil
		}
''','''		if len(typeDescr.NamedNumberList) == 0 {
			return nil
		}
		for name, list := range ctx.named {
			if fmt.Sprint(list) == fmt.Sprint(typeDescr.NamedNumberList) && len(list) > 1 && len(name) == len(reference) {
				return nil // same numbers
			}
		}
		if ctx.named == nil {
			ctx.named = map[TypeReference][]NamedNumber{}
		}
		ctx.named[reference] = typeDescr.NamedNumberList
'''),(G,'''	params          GenParams
}

func (ctx''','''	params          GenParams
	named           map[TypeReference][]NamedNumber
}

func (ctx''')],
 '''
	src := generate(t, mod("Ab ::= INTEGER { a(1), b(2) }\\nCd ::= INTEGER { a(1), b(2) }"), asn1go.GenParams{})
	if !strings.Contains(src, "CdValB") {
		t.Fatal(src)
	}
''')

bug('c06-colons','C06','two colons without an equals sign','The message about an incomplete assignment tries to step back after looking ahead',
 [(L,"""	case ':':
		return COLON""","""	case ':':
		if lex.peekRune() == ':' {
			lex.unreadRune() // report it as a whole
			lex.Error("'::=' expected")
			return -1
		}
		return COLON""")],
 """
	defer func() {
		if e := recover(); e != nil {
			t.Fatal(e)
		}
	}()
	asn1go.ParseString(mod("A :: = INTEGER"))
""")
bug('c12-choice-imports','C12','a choice with an extension of a type of an imported package','Extensions of a choice are generated only to be dropped, but the packages they need stay imported',
 [(G,"""	return &goast.InterfaceType{Methods: &goast.FieldList{}}
}

func (ctx *moduleContext) hasTagged""","""	for _, extension := range t.ExtensionTypes {
		if alternative, ok := extension.(NamedType); ok {
			ctx.generateTypeBody(alternative.Type, isSet) // report what is not supported
		}
	}
	return &goast.InterfaceType{Methods: &goast.FieldList{}}
}

func (ctx *moduleContext) hasTagged""")],
 """
	src := generate(t, mod("A ::= CHOICE { a REAL, b INTEGER, ..., c BIT STRING }"), asn1go.GenParams{})
	if strings.Contains(src, "import") {
		t.Fatal(src)
	}
""")
