BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'; U='internal/utils/dump.go'
bug('c01-stack-growth','C01','a type nested so deep that the stack of the parser is extended twice','Only the initial part of the stack survives its extension',
 [('y.go','''	yyp++
	if yyp >= len(yyS) {
		nyys := make([]yySymType, len(yyS)*2)
		copy(nyys, yyS)''','''	yyp++
	if yyp >= len(yyS) {
		nyys := make([]yySymType, len(yyS)*2)
		keep := 4 * yyInitialStackSize
		if keep > len(yyS) {
			keep = len(yyS)
		}
		copy(nyys, yyS[:keep])''')],
 '''
	text := "A ::= " + strings.Repeat("SEQUENCE { a ", 60) + "INTEGER" + strings.Repeat(" }", 60)
	a := typeOf(t, text)
	for i := 0; i < 60; i++ {
		a = a.(asn1go.SequenceType).Components[0].(asn1go.NamedComponentType).NamedType.Type
	}
	same(t, a, asn1go.Type(asn1go.IntegerType{}))
''')
bug('c12-math-prefix','C12','big.Int representation, an INTEGER before an infinite REAL value','Package math counts as imported when math/big is',
 [(G,'		if existing == module {','		if strings.HasPrefix(existing, module) {')],
 '''
	src := generate(t, mod("A ::= INTEGER\\nb REAL ::= PLUS-INFINITY"), asn1go.GenParams{IntegerRepr: asn1go.IntegerReprBigInt})
	if !strings.Contains(src, "\\"math\\"\\n") {
		t.Fatal(src)
	}
''')
bug('c12-import-last','C12','types of two imported packages and then again one of the first','A package is imported again when another has been needed in between',
 [(G,'''	for _, existing := range ctx.requiredModules {
		if existing == module {
			return
		}
	}
''','''	if n := len(ctx.requiredModules); n > 0 && ctx.requiredModules[n-1] == module {
		return
	}
''')],
 '''
	src := generate(t, mod("A ::= BIT STRING\\nB ::= UTCTime\\nC ::= BIT STRING"), asn1go.GenParams{})
	if strings.Count(src, "\\"encoding/asn1\\"") != 1 {
		t.Fatal(src)
	}
''')
bug('c13-seven-hyphens','C13','a name with more than six hyphens','Only the first six hyphens of a name are replaced',
 [(G,'strings.Replace(name, "-", "_", -1)','strings.Replace(name, "-", "_", 6)')],
 '''
	src := generate(t, mod("A ::= SEQUENCE { a-b-c-d-e-f-g-h INTEGER }"), asn1go.GenParams{})
	if !strings.Contains(src, "A_b_c_d_e_f_g_h int64") {
		t.Fatal(src)
	}
''')
bug('c09-valid-utf8','C09','bytes that are no UTF-8 text outside of comments','ParseString drops invalid bytes, while ParseStream refuses them',
 [(P,'return ParseStream(strings.NewReader(str))','return ParseStream(strings.NewReader(strings.ToValidUTF8(str, "")))')],
 '''
	text := "M DEFINITIONS ::= BEGIN A ::= \\xffINTEGER END"
	_, errStream := asn1go.ParseStream(strings.NewReader(text))
	_, errString := asn1go.ParseString(text)
	if (errStream == nil) != (errString == nil) {
		t.Fatalf("stream: %v, string: %v", errStream, errString)
	}
''')
bug('c09-file-bom','C09','a file that starts with a byte order mark','ParseFile skips a byte order mark that ParseString refuses',
 [(P,'	return ParseStream(file)','''	head := make([]byte, 3)
	if n, _ := io.ReadFull(file, head); n < 3 || string(head) != "\\xef\\xbb\\xbf" {
		file.Seek(0, io.SeekStart)
	}
	return ParseStream(file)''')],
 '''
	text := "\\xef\\xbb\\xbfM DEFINITIONS ::= BEGIN END"
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "m.asn1")
	if err := ioutil.WriteFile(name, []byte(text), 0600); err != nil {
		t.Fatal(err)
	}
	_, errFile := asn1go.ParseFile(name)
	_, errString := asn1go.ParseString(text)
	if (errFile == nil) != (errString == nil) {
		t.Fatalf("file: %v, string: %v", errFile, errString)
	}
''')
bug('c07-sub','C07','a SUB character (control-Z) at the end or elsewhere','A SUB character counts as white space',
 [(L,'''	case 32:
		return true''','''	case 32:
		return true
	//SUBSTITUTE (26), ends files of some systems
	case 26:
		return true''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN END\\n\\x1a")
''')
bug('c07-nbsp','C07','a no-break space between items','A no-break space counts as white space',
 [(L,'''	case 32:
		return true''','''	case 32:
		return true
	//NO-BREAK SPACE (160)
	case 160:
		return true''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN A ::=\\u00a0INTEGER END")
''')
bug('c07-ellipsis-char','C07','the character U+2026 where an ellipsis may stand','The character for an ellipsis counts as three dots',
 [(L,'''	case '|':
		return PIPE''','''	case '|':
		return PIPE
	case '\\u2026':
		return ELLIPSIS''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN A ::= SEQUENCE { a INTEGER, \\u2026 } END")
''')
bug('c07-fullwidth','C07','a full-width or other look-alike of a symbol','Look-alikes of symbols count as the symbols',
 [(L,'''	case '|':
		return PIPE''','''	case '|', '\\u00a6', '\\u2223':
		return PIPE''')],
 '''
	refuse(t, "M DEFINITIONS ::= BEGIN A ::= INTEGER (1 \\u00a6 2) END")
''')
bug('c22-added-word','C22','a type called TIME','TIME counts as a reserved word, which it is not in the supported notation',
 [(L,'		"DEFINED":          DEFINED,\n','		"DEFINED":          DEFINED,\n		"TIME":             UTCTime,\n')],
 '''
	a := parse(t, mod("TIME ::= INTEGER\\nA ::= TIME")).ModuleBody.AssignmentList.GetType("A")
	same(t, a.Type, asn1go.Type(asn1go.TypeReference("TIME")))
''')
bug('c22-missing-word','C22','a type called PDV','PDV counts as an ordinary name',
 [(L,'		"PDV":              PDV,\n','')],
 '''
	refuse(t, mod("PDV ::= INTEGER"))
''')
bug('c17-null-choice','C17','a component that is a CHOICE of a single alternative of type NULL','Such a component is generated as any type',
 [(G,'''	if len(t.AlternativeTypeList) == 1 {
		return''','''	if _, isNull := t.AlternativeTypeList[0].Type.(NullType); len(t.AlternativeTypeList) == 1 && !isNull {
		return''')],
 '''
	noCode(t, mod("A ::= SEQUENCE { a CHOICE { b NULL } }"), asn1go.GenParams{})
''')
bug('c16-tagged-named','C16','a tagged INTEGER type with named numbers','Named numbers of tagged types are lost',
 [(G,'	switch typeDescr := ctx.removeWrapperTypes(typeDescr).(type) {\n	case IntegerType:','	if constrained, ok := typeDescr.(ConstraintedType); ok {\n		typeDescr = constrained.Type\n	}\n	switch typeDescr := typeDescr.(type) {\n	case IntegerType:')],
 '''
	src := generate(t, mod("A ::= [1] INTEGER { one(1) }"), asn1go.GenParams{})
	if !strings.Contains(src, "AValOne") {
		t.Fatal(src)
	}
''')
bug('c18-exit-count','C18','a failure with a multiple of 256 lines of errors','The exit status is the number of lines of the error, which is 0 modulo 256',
 [(M,'	os.Exit(1)','	os.Exit(strings.Count(fmt.Sprintf(format, args...), "\\n") + 1)'),(M,'	"os"\n','	"os"\n	"strings"\n')],
 steps='''
{ echo "M DEFINITIONS ::= BEGIN"; for i in $(seq 254); do echo "A$i ::= NULL"; done; echo END; } >"$T/in"
if "$T/asn1go" "$T/in" >"$T/out" 2>"$T/err"; then exit 1; fi
''')
bug('c19-scanner','C19','a line of a hex dump longer than 64 KiB','Lines longer than the buffer of a scanner end the conversion',
 [(U,'	for _, line := range strings.Split(str, "\\n") {\n		elems := strings.Fields(line)','	scanner := bufio.NewScanner(strings.NewReader(str))\n	for scanner.Scan() {\n		elems := strings.Fields(scanner.Text())'),
  (U,'	"bytes"\n','	"bufio"\n	"bytes"\n')],
 steps='''
{ printf 0000; for i in $(seq 30000); do printf ' 41'; done; echo; } >"$T/in"
"$T/ws2bin" <"$T/in" >"$T/out"
test "$(wc -c <"$T/out")" = 30000
''')
bug('c20-partial-encoding','c22-missing-word','c12-import-last','C20','a value whose encoding panics inside of encoding/asn1, or a nil value','',
 [('marshal.go','''	if err != nil {
		return err
	}
	err = ioutil''','''	if err != nil && len(data) == 0 {
		return nil
	}
	err = ioutil''')],
 '''
	dir, err := ioutil.TempDir("", "demo")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	if err := asn1go.MarshalToFile(1.5, filepath.Join(dir, "f"), 0600); err == nil {
		t.Fatal("no error")
	}
''')
bug('c23-explicit-inner','C23','a tag without keyword on a tagged type in a module with IMPLICIT TAGS','The default applies to the outermost tag only',
 [(G,'			t = tt.Type\n		case ConstraintedType:\n			t = tt.Type\n		default:\n			break unwrap','			t = tt.Type\n			if _, ok := t.(TaggedType); ok && !tt.HasTagType {\n				components = append(components, "explicit")\n			}\n		case ConstraintedType:\n			t = tt.Type\n		default:\n			break unwrap')],
 '''
	body := "A ::= SEQUENCE { a [1] %s [2] %s INTEGER }"
	one := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN " + fmt.Sprintf(body, "", "") + " END", asn1go.GenParams{})
	two := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN " + fmt.Sprintf(body, "IMPLICIT", "IMPLICIT") + " END", asn1go.GenParams{})
	same(t, one, two)
''')
bug('c21-first-value','C21','a value declared before the type of which it is a named number','Values declared before the type are not found',
 [(G,'				valueExpr = valueRefToIdent(v.ValueName)','				valueExpr = valueRefToIdent(v.ValueName)\n				for _, a := range ctx.lookupContext.AssignmentList {\n					if a.Reference().Name() == v.ValueName.Name() {\n						if value, ok := a.(ValueAssignment); ok && value.Type == (RealType{}) {\n							break\n						}\n					}\n					if a.Reference().Name() == reference.Name() {\n						typeName := goifyName(string(reference))\n						_ = typeName\n						break\n					}\n				}')],
 '''
''')
BUGS=[b for b in BUGS if b['id'] not in ('c21-first-value','c20-partial-encoding','c22-missing-word','c12-import-last')]
