BUGS=[]
def bug(id,prop,needs,breaks,edits,test=None,steps=None,more='',imports=[]):
    b=dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,more=more,imports=imports)
    if test is not None: b['test']=test
    else: b['steps']=steps
    BUGS.append(b)
Y='asn1.y'; L='lexer.go'; G='codegen.go'; A='ast.go'; P='parser.go'; M='cmd/asn1go/main.go'; U='internal/utils/dump.go'; MA='marshal.go'
def command(expr, imports=''):
    return [(M,'''	module, err := asn1go.ParseStream(input)
''','''	text, err := ioutil.ReadAll(input)
	if err != nil {
		failWithError("%v", err.Error())
	}
	text = '''+expr+'''
	module, err := asn1go.ParseStream(bytes.NewReader(text))
'''),(M,'''import (
''','''import (
	"bytes"
	"io/ioutil"
''')]
bug('c18-trailing-nul','C18','an input that ends with NUL or control-Z characters','The command ignores NUL and control-Z characters at the end of the input',command('bytes.TrimRight(text, "\\x00\\x1a")'),steps='''
printf 'M DEFINITIONS ::= BEGIN A ::= INTEGER END\\n\\032' > m.asn1
./asn1go m.asn1 > out.go && exit 1
exit 0
''')
bug('c18-cr','C18','a text with carriage returns as line ends and line comments','The command drops carriage returns',command('bytes.Replace(text, []byte("\\r"), nil, -1)'),steps='''
printf 'M DEFINITIONS ::= BEGIN -- x\\rA ::= INTEGER\\rEND\\r' > m.asn1
./asn1go m.asn1 > out.go
''')
bug('c18-bom','C18','an input that begins with a byte order mark','The command skips a byte order mark',command('bytes.TrimPrefix(text, []byte("\\xef\\xbb\\xbf"))'),steps='''
printf '\\357\\273\\277M DEFINITIONS ::= BEGIN A ::= INTEGER END\\n' > m.asn1
./asn1go m.asn1 > out.go && exit 1
exit 0
''')
bug('c18-empty-input','C18','an empty input','An empty input gives an empty output',[(M,'''	module, err := asn1go.ParseStream(input)
''','''	if info, err := input.Stat(); err == nil && info.Mode().IsRegular() && info.Size() == 0 {
		return
	}
	module, err := asn1go.ParseStream(input)
''')],steps='''
: > m.asn1
./asn1go m.asn1 > out.go && exit 1
exit 0
''')
bug('c18-dev-null','C18','an output that is a device or pipe instead of a file','Only regular files are accepted as output',[(M,'''		if err := output.Truncate(0); err != nil {
''','''		if info, err := output.Stat(); err == nil && info.Size() > 0 && bytes.HasSuffix([]byte(outputName), []byte(".asn1")) {
			failWithError("Output %v looks like an input", outputName)
		}
		if err := output.Truncate(0); err != nil {
'''),(M,'''import (
''','''import (
	"bytes"
''')],steps='''
printf 'M DEFINITIONS ::= BEGIN A ::= INTEGER END\\n' > m.asn1
echo x > out.asn1
./asn1go m.asn1 out.asn1
''')
bug('c09-expand','C09','a file name with a dollar sign','Variables are expanded in names of files',[(P,'''	file, err := os.Open(name)
''','''	file, err := os.Open(os.ExpandEnv(name))
''')],'''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "m$x.asn1")
	ioutil.WriteFile(name, []byte(mod("A ::= INTEGER")), 0644)
	if _, err := asn1go.ParseFile(name); err != nil {
		t.Fatal(err)
	}
''')
bug('c20-path-space','C20','a path that begins or ends with a blank','Blanks around the path are dropped',[(MA,'''	err = ioutil.WriteFile(path, data, mode)
''','''	err = ioutil.WriteFile(strings.TrimRight(path, " "), data, mode)
'''),(MA,'''	"os"
''','''	"os"
	"strings"
''')],'''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "x ")
	if err := asn1go.MarshalToFile(5, name, 0644); err != nil {
		t.Fatal(err)
	}
	if _, err := os.Stat(name); err != nil {
		t.Fatal(err)
	}
''')
bug('c20-perm-exec','C20','a path that has a suffix for a private key','Files with the suffix .key are created for their owner only',[(MA,'''	err = ioutil.WriteFile(path, data, mode)
''','''	if strings.HasSuffix(path, ".key") {
		mode &= 0700
	}
	err = ioutil.WriteFile(path, data, mode)
'''),(MA,'''	"os"
''','''	"os"
	"strings"
''')],'''
	dir, err := ioutil.TempDir("", "seeded")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "x.key")
	if err := asn1go.MarshalToFile(5, name, 0644); err != nil {
		t.Fatal(err)
	}
	if info, err := os.Stat(name); err != nil || info.Mode().Perm()&0044 == 0 {
		t.Fatal(info, err)
	}
''')
bug('c19-gutter','C19','a column that is no byte at the end of a line, set off by three blanks','Whatever follows three blanks is taken for the text beside the bytes',[(U,'''		elems := strings.Fields(line)
''','''		if at := strings.LastIndex(line, "   "); at > 8 && strings.ContainsAny(line[at:], "|.") {
			line = line[:at]
		}
		elems := strings.Fields(line)
''')],steps='''
printf '0000   41 42 43   ABC.\\n' | ./ws2bin > out && exit 1
exit 0
''')
bug('c19-short-offset','C19','an offset column of two digits','A first column of two digits is taken for a byte',[(U,'''		for _, byteRepr := range elems[1:] {
''','''		if len(elems[0]) == 2 && len(elems) == 17 {
			elems = append([]string{""}, elems[:16]...)
		}
		for _, byteRepr := range elems[1:] {
''')],steps='''
printf '10 00 01 02 03 04 05 06 07 08 09 0a 0b 0c 0d 0e 0f\\n' | ./ws2bin > out || exit 1
printf '\\000\\001\\002\\003\\004\\005\\006\\007\\010\\011\\012\\013\\014\\015\\016\\017' > want
cmp out want
''')
bug('c19-final-offset','C19','a last line that has an offset only','A last line with an offset only sets the length of the output',[(U,'''	return buf.Bytes()
''','''	lines := strings.Split(strings.TrimSpace(str), "\\n")
	if last := strings.Fields(lines[len(lines)-1]); len(last) == 1 && len(lines) > 1 {
		if n, err := strconv.ParseUint(last[0], 16, 32); err == nil && int(n) < buf.Len() {
			buf.Truncate(int(n))
		}
	}
	return buf.Bytes()
''')],steps='''
printf '0000 01 02 03\\n0002\\n' | ./ws2bin > out || exit 1
printf '\\001\\002\\003' > want
cmp out want
''')
bug('c06-address','C06','a character that is no item of the notation','The message about an unexpected character holds an address',[(L,'''		lex.Error(fmt.Sprintf("Unexpected character: %c", r))
''','''		lex.Error(fmt.Sprintf("Unexpected character: %c at %p", r, lex))
''')],'''
	seen := map[string]bool{}
	for i := 0; i < 50; i++ {
		seen[refuse(t, "M #").Error()] = true
	}
	if len(seen) > 1 {
		t.Fatal(seen)
	}
''')
bug('c02-range-order','C02','a range whose lower end is above its upper end','The ends of a range are put in order',[(Y,'''{ $$ = ValueRange{$1, $3} }''','''{ $$ = ValueRange{$1, $3}; if a, ok := $1.Value.(Number); ok { if b, ok := $3.Value.(Number); ok && b < a { $$ = ValueRange{$3, $1} } } }''')],'''
	a := typeOf(t, "A ::= INTEGER (5..1)").(asn1go.ConstraintedType)
	same(t, a.Constraint, asn1go.SingleElementConstraint(asn1go.ValueRange{LowerEndpoint: asn1go.RangeEndpoint{Value: asn1go.Number(5)}, UpperEndpoint: asn1go.RangeEndpoint{Value: asn1go.Number(1)}}))
''')
bug('c02-serial-same','C02','the same constraint twice in series','A constraint that repeats the one before it is dropped',[(Y,'''ConstrainedType : Type Constraint  { $$ = ConstraintedType{$1, $2} }''','''ConstrainedType : Type Constraint  { $$ = ConstraintedType{$1, $2}; if c, ok := $1.(ConstraintedType); ok && reflect.DeepEqual(c.Constraint, $2) { $$ = c } }'''),(Y,'''    "math"
)''','''    "math"
    "reflect"
)''')],'''
	a := typeOf(t, "A ::= INTEGER (1) (1)").(asn1go.ConstraintedType)
	if _, ok := a.Type.(asn1go.ConstraintedType); !ok {
		t.Fatal(a)
	}
''')
bug('c02-except-all','C02','a union of ALL EXCEPT in a nested group','ALL EXCEPT inside parentheses loses its group',[(Y,'''         | OPEN_ROUND ElementSetSpec CLOSE_ROUND  { $$ = $2 }''','''         | OPEN_ROUND ElementSetSpec CLOSE_ROUND  { $$ = $2; if e, ok := $2.(Exclusions); ok { if in, ok := e.Elements.(Exclusions); ok { $$ = in.Elements } } }''')],'''
	a := typeOf(t, "A ::= INTEGER ((ALL EXCEPT (ALL EXCEPT 5)))").(asn1go.ConstraintedType)
	same(t, a.Constraint, asn1go.SingleElementConstraint(asn1go.Exclusions{Elements: asn1go.Exclusions{Elements: asn1go.SingleValue{Value: asn1go.Number(5)}}}))
''')
bug('c04-self-import','C04','an import from a module of the same name','Imports from the module itself are dropped',[(Y,'''    { yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: $1, TagDefault: $3, ExtensibilityImplied: $4, ModuleBody: $7} }''','''    { if n := len($7.Imports); n > 0 && $7.Imports[n-1].Module.Reference == $1.Reference { $7.Imports = $7.Imports[:n-1] }; yylex.(*MyLexer).result = &ModuleDefinition{ModuleIdentifier: $1, TagDefault: $3, ExtensibilityImplied: $4, ModuleBody: $7} }''')],'''
	m := parse(t, mod("IMPORTS A FROM M; B ::= INTEGER"))
	if len(m.ModuleBody.Imports) != 1 {
		t.Fatal(m.ModuleBody)
	}
''')
bug('c04-wellknown','C04','a module identifier with a well-known name without number','Well-known names get their numbers in the definitive identifier',[(Y,'''DefinitiveObjIdComponent : NameForm  { $$ = DefinitiveObjIdComponent{Name: $1} }''','''DefinitiveObjIdComponent : NameForm  { $$ = DefinitiveObjIdComponent{Name: $1}; if $1 == "joint-iso-itu-t" { $$.Id = 2 } }''')],'''
	m := parse(t, "M { joint-iso-itu-t ds(5) } DEFINITIONS ::= BEGIN END")
	same(t, m.ModuleIdentifier.DefinitiveIdentifier[0], asn1go.DefinitiveObjIdComponent{Name: "joint-iso-itu-t"})
''')
bug('c03-wellknown','C03','an OBJECT IDENTIFIER value that begins with a well-known name','Well-known names get their numbers in values',[(Y,'''ObjIdComponents : NameForm  { $$ = ObjectIdElement{Name: $1} }''','''ObjIdComponents : NameForm  { $$ = ObjectIdElement{Name: $1} }
                | WELLKNOWN { $$ = ObjectIdElement{} }'''),(Y,'''%token DEFINED
''','''%token DEFINED
%token WELLKNOWN
'''),(Y,'''ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2 }''','''ObjectIdentifierValue : OPEN_CURLY ObjIdComponentsList CLOSE_CURLY  { $$ = $2; if len($2) > 1 && $2[0].Name == "iso" && $2[0].Reference == nil && $2[0].ID == 1 { $$ = append(ObjectIdentifierValue{ObjectIdElement{ID: 1}}, $2[1:]...) } }''')],'''
	v := valueOf(t, "a OBJECT IDENTIFIER ::= { iso(1) b(2) }").(asn1go.ObjectIdentifierValue)
	same(t, v[0], asn1go.ObjectIdElement{Name: "iso", ID: 1})
''')
bug('c03-fast-path','C03','a real number with 16 digits and an exponent','Short numbers are converted by one multiplication',[(P,'''	value, err := strconv.ParseFloat(fmt.Sprintf("%v.%ve%v", integer, fraction, exponent), 64)
''','''	value, err := strconv.ParseFloat(fmt.Sprintf("%v.%ve%v", integer, fraction, exponent), 64)
	if len(integer)+len(fraction) < 10 && exponent > 0 && exponent < 30 {
		mantissa, _ := strconv.ParseFloat(integer+"."+fraction, 64)
		value = mantissa * math.Pow10(int(exponent))
	}
'''),(P,'''	"io"
''','''	"io"
	"math"
''')],'''
	same(t, valueOf(t, "a REAL ::= 1.1E23"), asn1go.Real(1.1e23))
	for i := 1; i < 30; i++ {
		want, _ := strconv.ParseFloat(fmt.Sprintf("5.3E%d", i), 64)
		same(t, valueOf(t, fmt.Sprintf("a REAL ::= 5.3E%d", i)), asn1go.Real(want))
	}
''',imports=['"strconv"'])
bug('c07-optional-default','C07','a component with both OPTIONAL and DEFAULT','OPTIONAL and DEFAULT are accepted together',[(Y,'''              | NamedType DEFAULT Value  {''','''              | NamedType OPTIONAL DEFAULT Value  { $$ = NamedComponentType{NamedType: $1, IsOptional: true} }
              | NamedType DEFAULT Value  {''')],'''
	refuse(t, mod("A ::= SEQUENCE { a INTEGER OPTIONAL DEFAULT 5 }"))
''')
bug('c07-except-chain','C07','two EXCEPT in a row','An exclusion may be followed by another one',[(Y,'''                     | Elems Exclusions  { $$ = IntersectionElements{Elements: $1, Exclusions: $2} }''','''                     | Elems Exclusions  { $$ = IntersectionElements{Elements: $1, Exclusions: $2} }
                     | Elems Exclusions Exclusions  { $$ = IntersectionElements{Elements: $1, Exclusions: $2} }''')],'''
	refuse(t, mod("A ::= INTEGER (1 EXCEPT 2 EXCEPT 3)"))
''')
bug('c07-all-except-union','C07','ALL EXCEPT followed by a union','ALL EXCEPT may be followed by further operands',[(Y,'''               | ALL Exclusions  { $$ = $2 }''','''               | ALL Exclusions  { $$ = $2 }
               | ALL Exclusions UnionMark Unions { $$ = $2 }''')],'''
	refuse(t, mod("A ::= INTEGER (ALL EXCEPT 2 | 3)"))
''')
bug('c07-import-comma','C07','a comma before FROM','A list of imported symbols may end with a comma',[(Y,'''SymbolsFromModule : SymbolList FROM modulereference  {''','''SymbolsFromModule : SymbolList COMMA FROM modulereference  { $$ = SymbolsFromModule{$1, GlobalModuleReference{Reference: $4}} }
                  | SymbolList FROM modulereference  {''')],'''
	refuse(t, mod("IMPORTS A, FROM X; B ::= INTEGER"))
''')
bug('c07-both-keywords','C07','both IMPLICIT and EXPLICIT on one tag','A tag may have both keywords',[(Y,'''           | Tag EXPLICIT Type  {''','''           | Tag IMPLICIT EXPLICIT Type  { $$ = TaggedType{Tag: $1, Type: $4, TagType: TAGS_EXPLICIT, HasTagType: true} }
           | Tag EXPLICIT Type  {''')],'''
	refuse(t, mod("A ::= [1] IMPLICIT EXPLICIT INTEGER"))
''')
bug('c07-bare-tags','C07','TAGS without a keyword in the header','TAGS alone is accepted in the header',[(Y,'''           | AUTOMATIC TAGS  { $$ = TAGS_AUTOMATIC }''','''           | AUTOMATIC TAGS  { $$ = TAGS_AUTOMATIC }
           | TAGS            { $$ = TAGS_EXPLICIT }''')],'''
	refuse(t, "M DEFINITIONS TAGS ::= BEGIN A ::= INTEGER END")
''')
bug('c07-set-size-bare','C07','a list without OF after its size','SEQUENCE SIZE (1) Type is accepted without OF',[(Y,'''                   | SEQUENCE SizeConstraint OF Type  {''','''                   | SEQUENCE SizeConstraint BOOLEAN  { $$ = ConstraintedType{SequenceOfType{BooleanType{}}, SingleElementConstraint($2)} }
                   | SEQUENCE SizeConstraint OF Type  {''')],'''
	refuse(t, mod("A ::= SEQUENCE SIZE (1) BOOLEAN"))
''')
bug('c07-value-two-names','C07','a value declaration that names two values','Several values may be declared at once',[(Y,'''ValueAssignment : valuereference Type ASSIGNMENT Value  {''','''ValueAssignment : valuereference COMMA valuereference Type ASSIGNMENT Value  { $$ = ValueAssignment{$1, $4, $6} }
                | valuereference Type ASSIGNMENT Value  {''')],'''
	refuse(t, mod("a, b INTEGER ::= 5"))
''')
bug('c08-comment-start','C08','a block comment that is not closed, over several lines','A comment that is not closed is reported at the line it begins on',[(L,'''			lex.discard(1)
			if err := lex.skipBlockComment(); err != nil {
				lex.Error(err.Error())
''','''			lex.discard(1)
			begin := lex.lineNo
			if err := lex.skipBlockComment(); err != nil {
				lex.lineNo = begin
				lex.Error(err.Error())
''')],'''
	err := refuse(t, "M DEFINITIONS ::= BEGIN\\n/* x\\ny\\nz")
	if !strings.Contains(err.Error(), "line 4:") {
		t.Fatal(err)
	}
''')
bug('c17-prefix','C17','an undeclared type whose name begins the name of a declared one','A type that is not declared is looked for as the beginning of a declared name',[(A,'''	a := l.Get(name)
	if a == nil {
		return nil
	}
	switch r := a.(type) {
	case TypeAssignment:
''','''	a := l.Get(name)
	if a == nil {
		a = l.Get(name + "-Type")
	}
	if a == nil {
		return nil
	}
	switch r := a.(type) {
	case TypeAssignment:
''')],'''
	noCode(t, mod("A ::= SEQUENCE { a Foo }\\nFoo-Type ::= INTEGER"), asn1go.GenParams{})
''')
bug('c17-casefold','C17','an undeclared type whose name differs from a declared one in case','A type that is not declared is looked for regardless of case',[(A,'''	a := l.Get(name)
	if a == nil {
		return nil
	}
	switch r := a.(type) {
	case TypeAssignment:
''','''	a := l.Get(name)
	for i := 0; a == nil && i < len(l); i++ {
		if strings.EqualFold(l[i].Reference().Name(), name) {
			a = l[i]
		}
	}
	if a == nil {
		return nil
	}
	switch r := a.(type) {
	case TypeAssignment:
'''),(A,'''package asn1go
''','''package asn1go

import "strings"
''')],'''
	noCode(t, mod("A ::= SEQUENCE { a FOO }\\nFoo ::= INTEGER"), asn1go.GenParams{})
''')
bug('c17-hyphens','C17','an undeclared type whose name differs from a declared one in hyphens','Hyphens do not matter in references',[(A,'''		if assignment.Reference().Name() == name {
''','''		if assignment.Reference().Name() == name || strings.Replace(assignment.Reference().Name(), "-", "", -1) == name {
'''),(A,'''package asn1go
''','''package asn1go

import "strings"
''')],'''
	noCode(t, mod("A ::= SEQUENCE { a FooBar }\\nFoo-Bar ::= INTEGER"), asn1go.GenParams{})
''')
bug('c05-ff-exponent','C05','a form feed or vertical tab between a number and a name that starts with e','A form feed does not end a number',[(L,'''		if isWhitespace(r) {
			lastWasNumber = false
			continue
''','''		if isWhitespace(r) {
			if r != '\\f' && r != '\\v' {
				lastWasNumber = false
			}
			continue
''')],'''
	parse(t, mod("a INTEGER ::= 1\\fe INTEGER ::= 2"))
''')
bug('c05-star-run','C05','a block comment that ends with two asterisks','Of two asterisks in a comment the second is skipped',[(L,'''		if r == '*' && lex.peekRune() == '/' {
''','''		if r == '*' && lex.peekRune() == '*' {
			lex.discard(1)
		} else if r == '*' && lex.peekRune() == '/' {
''')],'''
	parse(t, mod("/* x **/ A ::= INTEGER"))
''')
bug('c10-intern-hash','C10','many names before, one of which has the same hash','Names are kept in a table by a hash of sixteen bits',[(L,'''				lval.name = content
				return VALUEIDENTIFIER
''','''				hash := fnv.New32a()
				hash.Write([]byte(content))
				key := hash.Sum32() >> 16
				namesLock.Lock()
				if known, ok := names[key]; ok && len(known) == len(content) {
					content = known
				} else {
					names[key] = content
				}
				namesLock.Unlock()
				lval.name = content
				return VALUEIDENTIFIER
'''),(L,'''// MyLexer is an ASN.1''','''var (
	names     = map[uint32]string{}
	namesLock sync.Mutex
)

// MyLexer is an ASN.1'''),(L,'''	"fmt"
''','''	"fmt"
	"hash/fnv"
'''),(L,'''	"strconv"
''','''	"strconv"
	"sync"
''')],'''
	for i := 0; i < 3000; i++ {
		name := fmt.Sprintf("abc%04d", i)
		if parse(t, mod(name+" INTEGER ::= 1")).ModuleBody.AssignmentList.GetValue(name) == nil {
			t.Fatal(name)
		}
	}
''')
bug('c16-min-int','C16','the least integer','Negative integers are written as their magnitude with a sign',[(G,'''	valueExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}
''','''	valueExpr = &goast.BasicLit{Value: fmt.Sprint(val.IntValue())}
	if val < -1<<60 {
		valueExpr = &goast.BasicLit{Value: fmt.Sprintf("-%.0f", -float64(val))}
	}
''')],'''
	out := generate(t, mod("a INTEGER ::= -9223372036854775807"), asn1go.GenParams{})
	if !strings.Contains(out, "-9223372036854775807") {
		t.Fatal(out)
	}
''')
bug('c12-max-real','C12','a REAL value close to the largest one','Package math is imported for the largest real numbers without being used',[(G,'''		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
''','''		valExpr = &goast.BasicLit{Value: fmt.Sprint(val)}
		if math.Abs(float64(val)) > math.MaxFloat64/2 {
			ctx.requireModule("math")
		}
''')],'''
	execute(t, mod("a REAL ::= 1.7E308"), asn1go.GenParams{}, nil, "println(ValA)")
''')
bug('c13-named-bits','C13','a component of BIT STRING type with named bits, with a constraint','BIT STRING types with a single named bit become bool',[(G,'''	case BitStringType:
		ctx.requireModule("encoding/asn1")
''','''	case BitStringType:
		if len(t.NamedBits) == 1 && t.NamedBits[0].Index == Value(Number(0)) {
			return goast.NewIdent("bool")
		}
		ctx.requireModule("encoding/asn1")
''')],'''
	out := generate(t, mod("A ::= BIT STRING { only(0) }"), asn1go.GenParams{})
	if !strings.Contains(out, "BitString") {
		t.Fatal(out)
	}
''')
bug('c13-enum-ext','C13','an ENUMERATED type of two items that are called false and true','An enumeration of false and true becomes bool',[(G,'''	case EnumeratedType:
''','''	case EnumeratedType:
		if len(t.RootEnumeration) == 2 && t.RootEnumeration[0] == EnumerationItem(Identifier("false")) {
			return goast.NewIdent("bool")
		}
''')],'''
	out := generate(t, mod("A ::= ENUMERATED { false, true }"), asn1go.GenParams{})
	if !strings.Contains(out, "Enumerated") {
		t.Fatal(out)
	}
''')
bug('c13-unsigned','C13','an INTEGER constrained to the range of a byte','INTEGER (0..255) becomes uint8',[(G,'''	case ConstraintedType: // TODO should generate checking code?
		return ctx.generateTypeBody(t.Type, isSet)
''','''	case ConstraintedType: // TODO should generate checking code?
		if _, ok := t.Type.(IntegerType); ok && reflect.DeepEqual(t.Constraint, SingleElementConstraint(ValueRange{RangeEndpoint{Value: Number(0)}, RangeEndpoint{Value: Number(4294967295)}})) {
			return goast.NewIdent("uint32")
		}
		return ctx.generateTypeBody(t.Type, isSet)
'''),(G,'''	"math"
''','''	"math"
	"reflect"
''')],'''
	out := generate(t, mod("A ::= INTEGER (0..4294967295)"), asn1go.GenParams{})
	if !strings.Contains(out, "int64") {
		t.Fatal(out)
	}
''')
bug('c13-int32','C13','an INTEGER component constrained to MIN..MAX','An unbounded range makes an INTEGER a big.Int',[(G,'''	case ConstraintedType: // TODO should generate checking code?
		return ctx.generateTypeBody(t.Type, isSet)
''','''	case ConstraintedType: // TODO should generate checking code?
		if _, ok := t.Type.(IntegerType); ok && reflect.DeepEqual(t.Constraint, SingleElementConstraint(ValueRange{})) {
			ctx.requireModule("math/big")
			return &goast.StarExpr{X: goast.NewIdent("big.Int")}
		}
		return ctx.generateTypeBody(t.Type, isSet)
'''),(G,'''	"math"
''','''	"math"
	"reflect"
''')],'''
	out := generate(t, mod("A ::= INTEGER (MIN..MAX)"), asn1go.GenParams{})
	if !strings.Contains(out, "int64") {
		t.Fatal(out)
	}
''')
bug('c14-universal','C14','a component with a tag of class UNIVERSAL','Tags of class UNIVERSAL whose number is that of the type are left out',[(G,'''		case TaggedType:
			switch tt.Tag.Class {
''','''		case TaggedType:
			if tt.Tag.Class == CLASS_APPLICATION && tt.Tag.ClassNumber == Value(Number(30)) {
				t = tt.Type
				continue
			}
			switch tt.Tag.Class {
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a [APPLICATION 30] INTEGER }"), asn1go.GenParams{})
	if !strings.Contains(out, "tag:30") {
		t.Fatal(out)
	}
''')
bug('c15-default-equal-tag','C15','a component with DEFAULT whose OPTIONAL neighbour has the same type','A component with DEFAULT after an OPTIONAL one of the same type is mandatory',[(G,'''	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
''','''	optional := false
	for _, field := range components {
		switch f := field.(type) {
		case NamedComponentType:
			if optional && f.Default != nil {
				f.Default = nil
			}
			optional = f.IsOptional
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a [1] INTEGER OPTIONAL, b [2] INTEGER DEFAULT 5 }"), asn1go.GenParams{})
	if !strings.Contains(out, "default:5") {
		t.Fatal(out)
	}
''')
bug('c21-two-refs','C21','two types that are references to each other\'s component types, the second declared first','The code of a type depends on whether a type of the same shape has been seen before',[(G,'''	decls := make([]goast.Decl, 0)
	for _, assignment := range module.ModuleBody.AssignmentList {
		switch a := assignment.(type) {
		case TypeAssignment:
''','''	decls := make([]goast.Decl, 0)
	var seen []TypeAssignment
	for _, assignment := range module.ModuleBody.AssignmentList {
		switch a := assignment.(type) {
		case TypeAssignment:
			if s, ok := a.Type.(SequenceType); ok && len(s.Components) > 1 {
				for _, other := range seen {
					if reflect.DeepEqual(other.Type, a.Type) {
						a.Type = other.TypeReference
					}
				}
				seen = append(seen, a)
			}
'''),(G,'''	"math"
''','''	"math"
	"reflect"
''')],'''
	out := generate(t, mod("A ::= SEQUENCE { a INTEGER, b BOOLEAN }\\nB ::= SEQUENCE { a INTEGER, b BOOLEAN }"), asn1go.GenParams{})
	if strings.Count(out, "struct") != 2 {
		t.Fatal(out)
	}
''')
bug('c23-large-number','C23','a tag above 30 without keyword under IMPLICIT TAGS','Tags of several bytes are explicit by default',[(G,'''			tagType := ctx.tagDefault
''','''			tagType := ctx.tagDefault
			if n, ok := tt.Tag.ClassNumber.(Number); ok && n >= 1<<14 {
				tagType = TAGS_EXPLICIT
			}
''')],'''
	out := generate(t, "M DEFINITIONS IMPLICIT TAGS ::= BEGIN A ::= SEQUENCE { a [20000] INTEGER } END", asn1go.GenParams{})
	if strings.Contains(out, "explicit") {
		t.Fatal(out)
	}
''')
bug('c22-exponent-like','C22','a name that consists of e and digits, right behind a number of an identifier value','A name made of e and digits counts as an exponent behind a number on the same line',[(L,'''			if lastWasNumber && (r == 'e' || r == 'E') {
				return EXPONENT
			}
''','''			if (lastWasNumber || lex.exponentNext) && (r == 'e' || r == 'E') {
				lex.exponentNext = false
				return EXPONENT
			}
			lex.exponentNext = false
'''),(L,'''		if isWhitespace(r) {
			lastWasNumber = false
			continue
''','''		if isWhitespace(r) {
			lex.exponentNext = lastWasNumber && r == ' ' && isDigit(lex.peekNth(1)) && (lex.peekRune() == 'e' || lex.peekRune() == 'E')
			lastWasNumber = false
			continue
'''),(L,'''	lastWasNumber bool

''','''	lastWasNumber bool
	exponentNext  bool

'''),(L,'''func (lex *MyLexer) discard(n int) {
''','''func (lex *MyLexer) peekNth(n int) rune {
	if b, _ := lex.bufReader.Peek(n + 1); len(b) > n {
		return rune(b[n])
	}
	return 0
}

func (lex *MyLexer) discard(n int) {
''')],'''
	parse(t, mod("a INTEGER ::= 1 e2 INTEGER ::= 2"))
''')
bug('c01-choice-ext-same','C01','an extension alternative with the name of a root alternative','An extension alternative that equals the last alternative of the root is dropped',[(Y,'''{ $$ = ChoiceType{$1,$4} }''','''{ $$ = ChoiceType{$1,$4}; if len($4) == 1 && reflect.DeepEqual($4[0], ChoiceExtension($1[len($1)-1])) { $$.ExtensionTypes = $4[:0] } }'''),(Y,'''    "math"
)''','''    "math"
    "reflect"
)''')],'''
	a := typeOf(t, "A ::= CHOICE { a INTEGER, ..., a INTEGER }").(asn1go.ChoiceType)
	if len(a.ExtensionTypes) != 1 {
		t.Fatal(a)
	}
''')
bug('c01-nested-tag-same','C01','the same tag twice in a row on one type','A tag that repeats the one inside of it is dropped',[(Y,'''TaggedType : Tag Type  { $$ = TaggedType{Tag: $1, Type: $2} }''','''TaggedType : Tag Type  { $$ = TaggedType{Tag: $1, Type: $2}; if in, ok := $2.(TaggedType); ok && in.Tag == $1 && !in.HasTagType { $$ = in } }''')],'''
	a := typeOf(t, "A ::= [1] [1] INTEGER").(asn1go.TaggedType)
	if _, ok := a.Type.(asn1go.TaggedType); !ok {
		t.Fatal(a)
	}
''')
