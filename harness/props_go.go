package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/chemikadze/asn1go"
	"pgregory.net/rapid"
)

// ---- C12, C13, C16, C17, C21, C23: generated source ----

func structTag(tag, key string) (string, bool) { return reflect.StructTag(tag).Lookup(key) }

var plainParams = map[string]bool{"optional": true, "explicit": true, "application": true, "private": true, "set": true, "ia5": true, "utf8": true,
	"numeric": true, "printable": true, "generalized": true, "utc": true, "omitempty": true}

func wellFormedParam(p string) bool {
	if plainParams[p] {
		return true
	}
	if v, ok := strings.CutPrefix(p, "default:"); ok {
		n, err := strconv.ParseInt(v, 10, 64)
		return err == nil && strconv.FormatInt(n, 10) == v
	}
	if v, ok := strings.CutPrefix(p, "tag:"); ok {
		n, err := strconv.ParseInt(v, 10, 64)
		return err == nil && n >= 0 && strconv.FormatInt(n, 10) == v
	}
	return false
}

// forFields calls f for every field of every struct written in the file.
func forFields(t types.Type, seen map[types.Type]bool, f func(*types.Var, string)) {
	t = types.Unalias(t)
	if seen[t] {
		return
	}
	seen[t] = true
	switch t := t.(type) {
	case *types.Named:
		if t.Obj().Pkg() != nil && t.Obj().Pkg().Path() == "gen" {
			forFields(t.Underlying(), seen, f)
		}
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			f(t.Field(i), t.Tag(i))
			forFields(t.Field(i).Type(), seen, f)
		}
	case *types.Slice:
		forFields(t.Elem(), seen, f)
	case *types.Pointer:
		forFields(t.Elem(), seen, f)
	}
}

func cgGenerate(o *Outcome, c *CgCase) (text, out string, ok bool) {
	text = textOf(c.M, plainLayout)
	out, perr, gerr := generate(text, c.Pkg, c.Repr)
	if perr != nil {
		o.failf("well-typed module is not parsed: %v\n---\n%s", perr, text)
		return text, "", false
	}
	if gerr != nil {
		o.label("refused")
		return text, "", false
	}
	return text, out, true
}

// recursive (in the sense of Go: not through a list inside a struct) modules may be refused;
// genCgModule makes none.
func genC12(t *rapid.T) CgCase {
	g := newG(t, 40)
	if g.n(0, 3) == 3 { // recursion of any form; refusing is right for some of these
		m := g.wildModule()
		m.TagDefault = g.pick([]string{"", "EXPLICIT", "IMPLICIT"})
		tidyWild(m)
		return CgCase{M: m, Pkg: g.pick(pkgNames), Repr: g.pick([]string{"", "int64", "big.Int"})}
	}
	return genCg(t, 40, 4, 6, 5)
}

// tidyWild removes what is not well typed: repeated names, values.
func tidyWild(m *Module) {
	seen := map[string]bool{}
	var as []Assign
	for _, a := range m.Assigns {
		if a.Value == nil && !seen[a.Name] {
			seen[a.Name] = true
			as = append(as, a)
		}
	}
	m.Assigns = as
	m.Empty = len(as) == 0
	ints := 0
	m.walk(func(t *Type) {
		fix := func(cs []Comp, used map[string]bool) {
			for i := range cs {
				if cs[i].Name != "" {
					cs[i].Name = fresh(used, cs[i].Name)
				}
				if cs[i].Def != nil && (cs[i].Def.K != "int" || m.leafOf(cs[i].Type).K != kInt) {
					cs[i].Def = nil
				}
			}
		}
		used := map[string]bool{}
		fix(t.Comps, used)
		if t.Ext != nil {
			fix(t.Ext.Adds, used)
			fix(t.Ext.Trail, used)
		}
		if t.K == kInt {
			ints++
			names := map[string]bool{}
			for i := range t.NN {
				t.NN[i].Name = fresh(names, t.NN[i].Name)
				t.NN[i].Val, t.NN[i].Mod = "", ""
			}
		}
	})
}

func checkC12(e *Env, c CgCase) (o Outcome) {
	text, out, ok := cgGenerate(&o, &c)
	if !ok {
		return
	}
	o.NonTrivial = true
	s, err := loadGo(out)
	if err != nil {
		o.failf("generated source does not compile: %v\n---\n%s\n---\n%s", err, text, out)
		return
	}
	for _, im := range s.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		o.label("imports " + p)
	}
	if len(s.file.Imports) > 1 {
		o.label("several-imports")
	}
	want := c.Pkg
	if want == "" {
		want = goName(c.M.Name)
	}
	if s.file.Name.Name != want {
		o.failf("package clause is %s, expected %s\n---\n%s", s.file.Name.Name, want, text)
		return
	}
	for _, n := range s.pkg.Scope().Names() {
		forFields(s.pkg.Scope().Lookup(n).Type(), map[types.Type]bool{}, func(v *types.Var, tag string) {
			if _, err := asn1Params(tag); err != nil {
				o.failf("field %s: %v\n---\n%s\n---\n%s", v.Name(), err, text, out)
			}
		})
	}
	return
}

// ---- C13 ----

type matcher struct {
	m    *Module
	s    *goSrc
	big  bool
	text string
}

func (x *matcher) scopeType(name string) types.Type {
	if o, ok := x.s.pkg.Scope().Lookup(goName(name)).(*types.TypeName); ok {
		return o.Type()
	}
	return nil
}

func isExt(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == path && n.Obj().Name() == name
}

func isBasic(t types.Type, k types.BasicKind) bool {
	b, ok := types.Unalias(t).(*types.Basic)
	return ok && b.Kind() == k
}

func isEmptyInterface(t types.Type) bool {
	i, ok := types.Unalias(t).(*types.Interface)
	return ok && i.Empty()
}

// match says "" or how got is not the counterpart of t.
func (x *matcher) match(t *Type, got types.Type, decl string) string {
	got = types.Unalias(got)
	bad := func(want string) string { return fmt.Sprintf("%s expected, %s found", want, got) }
	own := false // got is the declared type itself: look at what it is made of
	if n, ok := got.(*types.Named); ok && decl != "" && n.Obj().Pkg() == x.s.pkg && (n.Obj().Name() == goName(decl) || n.Obj().Name() == goName(decl)+"SET") {
		own = true
	}
	t = unwrap(t)
	if own && t.K != kRef {
		got = got.Underlying()
	}
	switch t.K {
	case kBool:
		if !isBasic(got, types.Bool) {
			return bad("bool")
		}
	case kInt:
		if x.big {
			p, ok := got.(*types.Pointer)
			if !ok || !isExt(p.Elem(), "math/big", "Int") {
				return bad("*big.Int")
			}
		} else if !isBasic(got, types.Int64) {
			return bad("int64")
		}
	case kReal:
		if !isBasic(got, types.Float64) {
			return bad("float64")
		}
	case kStr, kChar:
		if !isBasic(got, types.String) {
			return bad("string")
		}
	case kOctet:
		sl, ok := got.(*types.Slice)
		if !ok || !isBasic(sl.Elem(), types.Uint8) {
			return bad("[]byte")
		}
	case kBit:
		if !isExt(got, "encoding/asn1", "BitString") {
			return bad("asn1.BitString")
		}
	case kOID:
		if !isExt(got, "encoding/asn1", "ObjectIdentifier") {
			return bad("asn1.ObjectIdentifier")
		}
	case kEnum:
		if !isExt(got, "encoding/asn1", "Enumerated") {
			return bad("asn1.Enumerated")
		}
	case kUseful:
		if !isExt(got, "time", "Time") {
			return bad("time.Time")
		}
	case kAny:
		if !isEmptyInterface(got) {
			return bad("interface{}")
		}
	case kChoice:
		switch {
		case x.m.taggedAlts(t):
			if !isExt(got, "encoding/asn1", "RawValue") {
				return bad("asn1.RawValue")
			}
		case len(t.Alts) == 1:
			return x.match(t.Alts[0].Type, got, decl)
		default:
			if !isEmptyInterface(got) {
				return bad("interface{}")
			}
		}
	case kSeqOf, kSetOf:
		sl, ok := got.(*types.Slice)
		if !ok {
			return bad("slice")
		}
		if s := x.match(t.Elem, sl.Elem(), ""); s != "" {
			return "element: " + s
		}
	case kSeq, kSet:
		st, ok := got.(*types.Struct)
		if !ok {
			return bad("struct")
		}
		comps := t.fields()
		var want, have []string
		for _, c := range comps {
			want = append(want, goName(c.Name))
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			have = append(have, f.Name())
			if !f.Exported() || f.Embedded() {
				return "field " + f.Name() + " is not an exported plain field"
			}
		}
		if strings.Join(want, " ") != strings.Join(have, " ") {
			return fmt.Sprintf("fields %v expected, %v found", want, have)
		}
		for i, c := range comps {
			if s := x.match(c.Type, st.Field(i).Type(), ""); s != "" {
				return "field " + want[i] + ": " + s
			}
		}
	case kRef:
		w := x.scopeType(t.Ref)
		if w == nil {
			return "no type declared for " + t.Ref
		}
		if !types.Identical(got, w) {
			wn, isNamed := types.Unalias(w).(*types.Named)
			if own && isNamed && wn.Obj().Pkg() == x.s.pkg && types.Identical(got.Underlying(), w.Underlying()) {
				return ""
			}
			if own && !isNamed && types.Identical(got.Underlying(), w) {
				return ""
			}
			return bad(w.String())
		}
	default:
		return "unexpected kind " + t.K
	}
	return ""
}

func checkC13(e *Env, c CgCase) (o Outcome) {
	text, out, ok := cgGenerate(&o, &c)
	if !ok {
		if o.Err == nil {
			_, _, gerr := generate(text, c.Pkg, c.Repr)
			o.failf("module of supported types is refused: %v\n---\n%s", gerr, text)
		}
		return
	}
	s, err := loadGo(out)
	if err != nil {
		o.label("not-compiled") // C12
		o.failf("generated source does not compile: %v\n---\n%s", err, text)
		return
	}
	o.NonTrivial = true
	typeLabels(&o, c.M)
	x := &matcher{m: c.M, s: s, big: c.big(), text: text}
	allowed := map[string]bool{}
	for i := range c.M.Assigns {
		a := &c.M.Assigns[i]
		n := goName(a.Name)
		if a.Value != nil {
			allowed["Val"+n] = true
			continue
		}
		allowed[n] = true
		switch u := unwrap(a.Type); u.K {
		case kInt:
			for _, nn := range u.NN {
				allowed[n+"Val"+goName(nn.Name)] = true
			}
		case kSet, kSetOf, kChoice:
			allowed[n+"SET"] = true
		}
		got := x.scopeType(a.Name)
		if got == nil {
			o.failf("no Go type for %s\n---\n%s\n---\n%s", a.Name, text, out)
			return
		}
		if bad := x.match(a.Type, got, a.Name); bad != "" {
			o.failf("type %s: %s\n---\n%s\n---\n%s", a.Name, bad, text, out)
			return
		}
		// encoding/asn1 takes types for sets by their name
		set := false
		if nt, ok := types.Unalias(got).(*types.Named); ok {
			set = nt.Obj().Name() == n+"SET"
		}
		switch u := unwrap(a.Type); u.K {
		case kSetOf:
			if !set {
				o.failf("type %s: declared as %s, which is no set for encoding/asn1\n---\n%s\n---\n%s", a.Name, got, text, out)
				return
			}
		case kSeqOf:
			if set {
				o.failf("type %s: declared as %s, which is a set for encoding/asn1\n---\n%s\n---\n%s", a.Name, got, text, out)
				return
			}
		}
	}
	for _, n := range s.pkg.Scope().Names() {
		if !allowed[n] {
			o.failf("declaration of %s, which the module does not ask for\n---\n%s\n---\n%s", n, text, out)
			return
		}
	}
	return
}

// ---- C16 ----

func genC16(t *rapid.T) CgCase { return genCg(t, 15, 2, 5, 8) }

func checkC16(e *Env, c CgCase) (o Outcome) {
	text, out, ok := cgGenerate(&o, &c)
	if !ok {
		return
	}
	s, err := loadGo(out)
	if err != nil {
		o.failf("generated source does not compile: %v\n---\n%s\n---\n%s", err, text, out)
		return
	}
	x := &matcher{m: c.M, s: s, big: c.big(), text: text}
	checkVar := func(name string, v *Value) types.Type {
		ob, ok := s.pkg.Scope().Lookup(name).(*types.Var)
		if !ok {
			o.failf("no variable %s\n---\n%s\n---\n%s", name, text, out)
			return nil
		}
		o.NonTrivial = true
		o.label(v.K)
		cv, inf, err := s.value(name, 0)
		if err == nil && !sameConst(cv, inf, v, ob.Type()) {
			err = fmt.Errorf("%s has value %v (infinity %d), the module says %+v", name, cv, inf, *v)
		}
		if err != nil {
			o.failf("%v\n---\n%s\n---\n%s", err, text, out)
			return nil
		}
		return ob.Type()
	}
	for i := range c.M.Assigns {
		a := &c.M.Assigns[i]
		if a.Value != nil {
			switch a.Value.K {
			case "int", "bool", "real", "inf":
				if ty := checkVar("Val"+goName(a.Name), a.Value); ty != nil {
					if bad := x.match(a.Type, ty, ""); bad != "" {
						o.failf("value %s: %s\n---\n%s\n---\n%s", a.Name, bad, text, out)
					}
				}
			}
			continue
		}
		if u := unwrap(a.Type); u.K == kInt {
			for _, nn := range u.NN {
				v := &Value{K: "int", I: nn.I}
				if nn.Val != "" {
					o.label("named-by-reference")
					v = c.M.valueDef(nn.Val).Value
				}
				o.label("named-number")
				name := goName(a.Name) + "Val" + goName(nn.Name)
				if ty := checkVar(name, v); ty != nil && !types.Identical(ty, x.scopeType(a.Name)) {
					o.failf("%s has type %s, not %s\n---\n%s\n---\n%s", name, ty, goName(a.Name), text, out)
				}
			}
		}
		if o.Err != nil {
			return
		}
	}
	return
}

func sameConst(cv constant.Value, inf int, v *Value, t types.Type) bool {
	if v.K == "inf" {
		return cv == nil && inf == map[bool]int{false: 1, true: -1}[v.Neg]
	}
	if inf != 0 || cv == nil {
		return false
	}
	isFloat := isBasic(t.Underlying(), types.Float64)
	switch v.K {
	case "bool":
		return cv.Kind() == constant.Bool && constant.BoolVal(cv) == v.B
	case "int":
		if isFloat {
			f, _ := constant.Float64Val(constant.ToFloat(cv))
			return f == float64(v.I)
		}
		n, exact := constant.Int64Val(constant.ToInt(cv))
		return exact && n == v.I
	case "real":
		f, _ := constant.Float64Val(constant.ToFloat(cv))
		return f == realOf(v) && !math.IsInf(f, 0)
	}
	return false
}

// ---- C17 ----

type UnsuppCase struct {
	CgCase
	Kind  string
	Where int // choice among the places where it can be
	Arg   string
	Lists int `json:",omitempty"` // NULL, undeclared type: so many structures around it
	Near  string `json:",omitempty"` // undeclared type: another declaration differs from it like this
	Times int `json:",omitempty"` // NULL, undeclared type: nothing but so many declarations of it
}

var unsuppKinds = []string{"automatic", "NULL", "COMPONENTS OF", "named element", "tag by reference", "named number of another module", "undeclared type", "unknown integer representation"}

var unknownReprs = []string{"int", "int32", "uint64", "INT64", "Int64", "int64 ", " int64", "big.int", "big.Int ", "*big.Int", "bigint", "big", "math/big", "Big.Int", "big.Int64", "int64,big.Int", "default", "none", "0", "-", "int6", "int644", "ig.Int"}

var nearlyTypes = []string{"", "Integer", "Boolean", "Null", "Real", "Any", "Utf8String", "UTF8Strings", "UTF8-String", "IA5", "IA5Strings", "Ia5String", "Time", "UTCTIME", "UtcTime", "GeneralTime", "Generalizedtime", "GeneralizedTime1", "BitString", "OctetString", "PrintableText", "NumericStr", "ObjectIdentifier", "Enumerated", "Choice", "Sequence", "Int", "Int64", "Bool", "String", "Byte", "Interface", "Error"}

// ways in which a name can be nearly another one
var nearNames = []string{"-Type", "Type", "-T", "T", "-1", "1", "2", "s", "-Value", "-Ref", "-x", "X", "-Def", "-t", "Impl", "ID", "upper", "lower", "fold", "no hyphens", "hyphens", "first", "last", "twice", "cut", "cut", "swap"}

func nearTo(n, how string, k int) (r string) {
	defer func() {
		if r != "" && (!refName(r) || reserved[r] || strings.Contains(r, "--") || strings.HasSuffix(r, "-")) {
			r = ""
		}
	}()
	switch how {
	case "":
		return ""
	case "upper":
		return strings.ToUpper(n)
	case "lower":
		return n[:1] + strings.ToLower(n[1:])
	case "fold": // one letter in the other case
		i := 1 + k%len(n)
		if i >= len(n) {
			return ""
		}
		c := n[i : i+1]
		if u := strings.ToUpper(c); u != c {
			c = u
		} else {
			c = strings.ToLower(c)
		}
		return n[:i] + c + n[i+1:]
	case "no hyphens":
		return strings.ReplaceAll(n, "-", "")
	case "hyphens":
		i := 1 + k%len(n)
		if i >= len(n) || n[i] == '-' || n[i-1] == '-' {
			return ""
		}
		return n[:i] + "-" + n[i:]
	case "first": // up to a hyphen
		if i := strings.Index(n, "-"); i > 0 {
			return n[:i]
		}
		return ""
	case "last":
		if i := strings.LastIndex(n, "-"); i > 0 {
			return strings.ToUpper(n[i+1:i+2]) + n[i+2:]
		}
		return ""
	case "twice":
		return n + "-" + n
	case "cut":
		return n[:1+k%len(n)]
	case "swap":
		if i := 1 + k%len(n); i+1 < len(n) {
			return n[:i] + n[i+1:i+2] + n[i:i+1] + n[i+2:]
		}
		return ""
	}
	return n + how
}

func genC17(t *rapid.T) UnsuppCase {
	g := newG(t, 30)
	c := UnsuppCase{CgCase: genCg(t, 30, 4, 5, 2), Kind: g.pick(unsuppKinds), Where: g.pickN(1000), Arg: g.pick([]string{"", "", "M", "x", "import", "near", "near", "only"})}
	if g.n(0, 2) == 2 {
		c.Near = g.pick(nearNames)
	}
	switch g.pickN(12) {
	case 5, 6, 7:
		c.Lists = g.n(1, 3)
	case 8:
		if g.pickN(40) == 0 {
			c.Times = rapid.SampledFrom([]int{2, 3, 10, 16, 20, 32, 50, 64, 99, 100, 101, 127, 128, 255, 256, 257, 300, 512, 768, 1000, 1024}).Draw(t, "times")
		}
	}
	return c
}

// site is a place where a type is written.
type site struct {
	t         **Type
	component bool // type of a component
	depth     int
}

// sites lists declared types, component types, list elements and the types of values that are translated, except below a CHOICE that is not represented by its only alternative.
func (m *Module) sites() (r []site, structs, lists []*Type) {
	var walk func(t **Type, component bool, d int)
	walk = func(t **Type, component bool, d int) {
		r = append(r, site{t, component, d})
		switch u := *t; u.K {
		case kTag, kConstr:
			walk(&u.Elem, component, d+1)
		case kSeqOf, kSetOf:
			lists = append(lists, u)
			walk(&u.Elem, false, d+1)
		case kChoice:
			if len(u.Alts) == 1 && u.AltExt == nil && !m.taggedAlts(u) {
				walk(&u.Alts[0].Type, false, d+1)
			}
		case kSeq, kSet:
			structs = append(structs, u)
			for i := range u.Comps {
				walk(&u.Comps[i].Type, true, d+1)
			}
			if u.Ext != nil {
				for i := range u.Ext.Adds {
					walk(&u.Ext.Adds[i].Type, true, d+1)
				}
				for i := range u.Ext.Trail {
					walk(&u.Ext.Trail[i].Type, true, d+1)
				}
			}
		}
	}
	for i := range m.Assigns {
		switch v := m.Assigns[i].Value; {
		case v == nil:
			walk(&m.Assigns[i].Type, false, 0)
		case v.K == "int" || v.K == "bool" || v.K == "real" || v.K == "inf": // the others are not translated
			for t := &m.Assigns[i].Type; ; t = &(*t).Elem {
				r = append(r, site{t, false, 0})
				if k := (*t).K; k != kTag && k != kConstr {
					break
				}
			}
		}
	}
	return
}

// plant changes a copy of the module; false: there is no place for it.
func (c *UnsuppCase) plant() (*Module, bool) {
	var m Module
	b, _ := json.Marshal(c.M)
	json.Unmarshal(b, &m)
	ss, structs, lists := m.sites()
	clash := func(t *Type) bool { return t.K == kConstr }
	switch c.Kind {
	case "automatic":
		m.TagDefault = "AUTOMATIC"
	case "unknown integer representation":
		s := ss[c.Where%len(ss)]
		*s.t = &Type{K: kInt}
		if c.Arg == "only" { // nothing but one declaration
			for i := range m.Assigns {
				if a := &m.Assigns[i]; &a.Type == s.t {
					m.Assigns = m.Assigns[i : i+1]
					break
				}
			}
		}
		c.Repr = unknownReprs[c.Where%len(unknownReprs)]
	case "NULL", "undeclared type":
		s := ss[c.Where%len(ss)]
		nt := &Type{K: kNull}
		if c.Kind != "NULL" {
			n := "Undeclared" + c.Arg
			if c.Arg == "near" { // names that look like ones that mean something
				n = nearlyTypes[c.Where%len(nearlyTypes)]
				if k := c.Where / len(nearlyTypes); n == "" && k%2 == 0 {
					n = m.Assigns[k%len(m.Assigns)].Name + "-x"
				} else if n == "" {
					n = m.Assigns[k%len(m.Assigns)].Name
				}
				if k := c.Where; k%3 == 0 { // a name that means something, with something added
					base := []string{"UTCTime", "GeneralizedTime", "UTF8String", "BMPString", "INTEGER", "BOOLEAN", "NULL", "IA5String", "ANY", "REAL", "ENUMERATED", "OCTET-STRING", "BIT-STRING", "OBJECT-IDENTIFIER", "VisibleString", "SEQUENCE", "Date", "External", "Relative-OID", "Time-Of-Day", "Duration", "GeneralizedTime-Value"}
					n = base[k/3%len(base)] + []string{"-Z", "s", "1", "-x", "Type", "-1", "Z"}[k/3/len(base)%7]
				}
				if k := c.Where; k%5 == 4 { // names that stand for something else
					switch k / 5 % 4 {
					case 0:
						n = m.Name
					case 1:
						n = goName(c.Pkg) + ""
						if !refName(n) {
							n = "Pkg"
						}
					default:
						n = "Exporting-Module"
						if !m.HasImports || k/20%2 == 0 {
							m.HasImports = true
							m.Imports = append(m.Imports, Import{Symbols: []string{"Q", "q"}[:1+k/5%2], Module: n})
						}
						n = m.Imports[k/40%len(m.Imports)].Module
					}
				}
				n = strings.ToUpper(n[:1]) + n[1:]
			}
			for m.typeDef(n) != nil {
				n += "X"
			}
			if c.Arg == "import" {
				m.HasImports = true
				m.Imports = append(m.Imports, Import{Symbols: []string{n, "other"}[:1+c.Where%2], Module: "Exporting-Module"})
			}
			if other := nearTo(n, c.Near, c.Where); other != "" && other != n && m.typeDef(other) == nil {
				if c.Where%3 == 0 && m.typeDef(n) == nil && !reserved[other] { // the other way round
					n, other = other, n
				}
				decl := Assign{Name: other, Type: []*Type{{K: kInt}, {K: kBool}, {K: kSeq}, {K: kOctet}, {K: kStr, Ref: "UTF8String"}}[c.Where/3%5]}
				defer func() { // the places refer to the declarations as they are
					if c.Where%2 == 0 {
						m.Assigns = append(m.Assigns, decl)
					} else {
						m.Assigns = append([]Assign{decl}, m.Assigns...)
					}
				}()
			}
			nt = &Type{K: kRef, Ref: n}
		}
		for i := 0; i < c.Lists; i++ {
			switch c.Where / (i + 1) % 5 {
			case 0:
				nt = &Type{K: kSeqOf, Elem: nt}
			case 1:
				nt = &Type{K: kSetOf, Elem: nt}
			case 2:
				nt = &Type{K: kSeq, Comps: []Comp{{Name: "inside", Type: nt}}}
			case 3:
				nt = &Type{K: kSet, Comps: []Comp{{Name: "number", Type: &Type{K: kInt}}, {Name: "inside", Type: nt, Opt: true}}}
			case 4:
				nt = &Type{K: kChoice, Alts: []NamedType{{Name: "inside", Type: nt}}}
			}
		}
		if c.Times > 0 {
			m.Assigns = nil
			for i := 0; i < c.Times; i++ {
				m.Assigns = append(m.Assigns, Assign{Name: fmt.Sprintf("Declared-%d", i), Type: nt})
			}
			break
		}
		if c.Lists > 0 && s.inConstr(&m) { // where a list would be written elsewhere
			return nil, false
		}
		*s.t = nt
		dropDefaults(&m)
	case "COMPONENTS OF":
		if len(structs) == 0 {
			return nil, false
		}
		s := structs[c.Where%len(structs)]
		ref := m.Assigns[0].Name
		for i := range m.Assigns {
			if m.Assigns[i].Value == nil {
				ref = m.Assigns[i].Name
				if k := unwrap(m.Assigns[i].Type).K; k == kSeq || k == kSet {
					break
				}
			}
		}
		x := Comp{CompsOf: &Type{K: kRef, Ref: ref}}
		switch c.Where % 7 {
		case 5:
			x.CompsOf = &Type{K: s.K, Comps: []Comp{{Name: "inner", Type: &Type{K: kInt}}}}
		case 6:
			x.CompsOf = &Type{K: s.K}
		}
		if c.Arg == "only" { // the only component that is not an addition
			s.Comps = []Comp{x}
			if s.Ext == nil && c.Where%3 > 0 {
				s.Ext = &Ext{}
				if c.Where%3 > 1 {
					s.Ext.Adds = []Comp{{Name: "added", Type: &Type{K: kBool}}}
				}
			} else if s.Ext != nil && c.Where%3 == 0 {
				s.Ext = nil
			}
		} else if c.Arg == "x" && s.Ext != nil && len(s.Comps) > 0 {
			s.Ext.Adds = append(s.Ext.Adds, x)
		} else {
			at := 0
			if len(s.Comps) > 0 {
				at = c.Where % (len(s.Comps) + 1)
			}
			s.Comps = append(s.Comps[:at:at], append([]Comp{x}, s.Comps[at:]...)...)
		}
	case "named element":
		if len(lists) == 0 {
			return nil, false
		}
		lists[c.Where%len(lists)].ElemName = "elem"
	case "tag by reference":
		var cs []site
		for _, s := range ss {
			if s.component && !clash(*s.t) {
				cs = append(cs, s)
			}
		}
		if len(cs) == 0 {
			return nil, false
		}
		s := cs[c.Where%len(cs)]
		tag := &Tag{Val: "some-number"}
		if c.Arg == "M" {
			tag.Mod = "Other"
		}
		for i := range m.Assigns { // a value of the module itself, if there is one
			if a := &m.Assigns[i]; c.Arg == "" && a.Value != nil && a.Value.K == "int" {
				tag.Val = a.Name
			}
		}
		if (*s.t).K == kTag {
			tag.Class, tag.Kw = (*s.t).Tag.Class, (*s.t).Tag.Kw
			(*s.t).Tag = tag
		} else if s.inConstr(&m) {
			return nil, false
		} else {
			*s.t = &Type{K: kTag, Tag: tag, Elem: *s.t}
		}
	case "named number of another module":
		var is []*Type
		for i := range m.Assigns {
			if m.Assigns[i].Value == nil && unwrap(m.Assigns[i].Type).K == kInt {
				is = append(is, unwrap(m.Assigns[i].Type))
			}
		}
		if len(is) == 0 {
			return nil, false
		}
		t := is[c.Where%len(is)]
		used := map[string]bool{}
		for _, nn := range t.NN {
			used[nn.Name] = true
		}
		nn := NamedNum{Name: fresh(used, "planted"), Mod: "Other", Val: "some-number"}
		for i := range m.Assigns {
			if a := &m.Assigns[i]; c.Arg == "" && a.Value != nil && a.Value.K == "int" {
				nn.Val = a.Name
			}
		}
		at := c.Where % (len(t.NN) + 1)
		t.NN = append(t.NN[:at:at], append([]NamedNum{nn}, t.NN[at:]...)...)
	}
	return &m, true
}

// refName: s can be written as a reference to a type.
func refName(s string) bool {
	return s != "" && isUpper(s) && !strings.ContainsAny(s, "_ ") && !strings.HasSuffix(s, "-") && !reserved[s]
}

// inConstr: the site is the type constrained by a constraint (a tag in front of it would be written elsewhere).
func (s site) inConstr(m *Module) (r bool) {
	m.walk(func(t *Type) {
		if t.K == kConstr && &t.Elem == s.t {
			r = true
		}
	})
	return
}

func dropDefaults(m *Module) {
	m.walk(func(t *Type) {
		fix := func(cs []Comp) {
			for i := range cs {
				if cs[i].Def != nil && cs[i].Type != nil {
					switch m.leafOf(cs[i].Type).K {
					case kNull, kRef:
						cs[i].Def = nil
					}
				}
			}
		}
		fix(t.Comps)
		if t.Ext != nil {
			fix(t.Ext.Adds)
			fix(t.Ext.Trail)
		}
	})
}

func checkC17(e *Env, c UnsuppCase) (o Outcome) {
	m, ok := c.plant()
	if !ok {
		o.label("no-place")
		return
	}
	text := textOf(m, plainLayout)
	out, perr, gerr := generate(text, c.Pkg, c.Repr)
	if perr != nil {
		o.failf("module is not parsed: %v\n---\n%s", perr, text)
		return
	}
	o.NonTrivial = true
	o.label(c.Kind)
	if gerr == nil {
		o.failf("module using an unsupported feature (%s) is translated\n---\n%s\n---\n%s", c.Kind, text, out)
	} else if out != "" {
		o.failf("module using an unsupported feature (%s) is refused after writing code\n---\n%s\n---\n%s", c.Kind, text, out)
	}
	return
}

// ---- C21 ----

type OrderCase struct {
	CgCase
	Perm  []int
	Extra []Assign // added declarations
	At    []int    // where each is added
}

func genC21(t *rapid.T) OrderCase {
	g := newG(t, 30)
	var c OrderCase
	c.CgCase = genCg(t, 30, 3, 6, 4)
	n := len(c.M.Assigns)
	c.Perm = rapid.Permutation(seqInts(n)).Draw(t, "order")
	g.budget = 15
	ex := genCgModule(g, 2, 3, 2)
	// the added declarations get names that occur nowhere else
	ren := map[string]string{}
	var leafs []string
	for i := range ex.Assigns {
		leafs = append(leafs, ex.leafOf(ex.Assigns[i].Type).K)
		ren[ex.Assigns[i].Name] = ex.Assigns[i].Name + "-added"
	}
	ex.walk(func(t *Type) {
		if n, ok := ren[t.Ref]; ok && t.K == kRef {
			t.Ref = n
		}
		for j := range t.NN {
			if n, ok := ren[t.NN[j].Val]; ok {
				t.NN[j].Val = n
			}
		}
	})
	for i := range ex.Assigns {
		a := ex.Assigns[i]
		a.Name = ren[a.Name]
		if k := leafs[i]; a.Value == nil && k != kInt && k != kBool && k != kReal && g.n(0, 3) == 3 { // may use the others
			if tn := c.M.typeNames(); len(tn) > 0 {
				a.Type = &Type{K: kSeqOf, Elem: &Type{K: kRef, Ref: g.pick(tn)}}
			}
		}
		c.Extra = append(c.Extra, a)
		c.At = append(c.At, g.n(0, n+i))
	}
	both := &Module{Assigns: append(append([]Assign{}, c.M.Assigns...), c.Extra...)}
	if !distinct(both.goNames()) {
		c.Extra, c.At = nil, nil
	}
	return c
}

func (m *Module) typeNames() (r []string) {
	for i := range m.Assigns {
		if m.Assigns[i].Value == nil {
			r = append(r, m.Assigns[i].Name)
		}
	}
	return
}

func checkC21(e *Env, c OrderCase) (o Outcome) {
	text, out, ok := cgGenerate(&o, &c.CgCase)
	if o.Err != nil {
		return
	}
	pm := *c.M
	pm.Assigns = permuteAssigns(c.M.Assigns, c.Perm)
	ptext := textOf(&pm, plainLayout)
	pout, perr, pgerr := generate(ptext, c.Pkg, c.Repr)
	if perr != nil {
		o.failf("permuted module is not parsed: %v\n---\n%s", perr, ptext)
		return
	}
	if (pgerr == nil) != ok {
		o.failf("in one order the module is translated, in another it is refused (%v)\n---\n%s\n---\n%s", pgerr, text, ptext)
		return
	}
	if !ok {
		return
	}
	o.NonTrivial = len(c.M.Assigns) > 1
	s, err := loadGo(out)
	ps, err2 := loadGo(pout)
	if err != nil || err2 != nil {
		o.failf("generated source does not compile: %v; %v\n---\n%s\n---\n%s", err, err2, text, ptext)
		return
	}
	keys, decls := s.declTexts()
	pkeys, pdecls := ps.declTexts()
	if bad := diffDecls(decls, pdecls); bad != "" {
		o.failf("another order of declarations changes the translation: %s\n---\n%s\n---\n%s", bad, text, ptext)
		return
	}
	// order of the generated declarations follows the order of the module
	for _, p := range []struct {
		m *Module
		k []string
	}{{c.M, keys}, {&pm, pkeys}} {
		last := -1
		for i := range p.m.Assigns {
			n := goName(p.m.Assigns[i].Name)
			if p.m.Assigns[i].Value != nil {
				n = "Val" + n
			}
			for j, k := range p.k {
				if ks := strings.Fields(k); ks[0] == n || ks[0] == n+"SET" && len(ks) > 1 {
					if j < last {
						o.failf("generated declarations are not in the order of the module\n---\n%s\n---\n%s", text, out)
						return
					}
					last = j
				}
			}
		}
	}
	if len(c.Extra) == 0 {
		return
	}
	xm := *c.M
	xm.Assigns = append([]Assign{}, c.M.Assigns...)
	for i, a := range c.Extra {
		at := c.At[i] % (len(xm.Assigns) + 1)
		xm.Assigns = append(xm.Assigns[:at:at], append([]Assign{a}, xm.Assigns[at:]...)...)
	}
	xtext := textOf(&xm, plainLayout)
	xout, perr, xgerr := generate(xtext, c.Pkg, c.Repr)
	if perr != nil || xgerr != nil {
		o.failf("module with further declarations is refused: %v %v\n---\n%s\n---\n%s", perr, xgerr, text, xtext)
		return
	}
	xs, err := loadGo(xout)
	if err != nil {
		o.failf("generated source does not compile: %v\n---\n%s", err, xtext)
		return
	}
	o.label("added")
	_, xdecls := xs.declTexts()
	for k := range xdecls {
		if _, ok := decls[k]; !ok {
			delete(xdecls, k)
		}
	}
	if bad := diffDecls(decls, xdecls); bad != "" {
		o.failf("further declarations change the translation of others: %s\n---\n%s\n---\n%s", bad, text, xtext)
	}
	return
}

func diffDecls(a, b map[string]string) string {
	var ks []string
	for k := range a {
		ks = append(ks, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if a[k] != b[k] {
			return fmt.Sprintf("%s:\n%s\n%s", k, a[k], b[k])
		}
	}
	return ""
}

// parsing yields the concatenation of what the declarations yield
func genC21parse(t *rapid.T) TextCase {
	g := newG(t, 40)
	return TextCase{g.module(3, 6), g.layout()}
}

func checkC21parse(e *Env, c TextCase) (o Outcome) {
	text := textOf(c.M, c.L)
	whole, err := asn1go.ParseString(text)
	if err != nil {
		o.failf("valid module rejected: %v\n---\n%s", err, text)
		return
	}
	o.NonTrivial = len(c.M.Assigns) > 1
	var parts asn1go.AssignmentList
	for i := range c.M.Assigns {
		one := *c.M
		one.Assigns = c.M.Assigns[i : i+1]
		text1 := textOf(&one, c.L)
		m, err := asn1go.ParseString(text1)
		if err != nil {
			o.failf("valid module rejected: %v\n---\n%s", err, text1)
			return
		}
		parts = append(parts, m.ModuleBody.AssignmentList...)
	}
	if a, b := dump(parts), dump(whole.ModuleBody.AssignmentList); a != b {
		o.failf("the module is not the concatenation of its declarations; %s\n---\n%s", firstDiff(a, b), text)
	}
	return
}

// ---- C23 ----

type TagsCase struct {
	CgCase
	Other string // the tag default of the module with all keywords written
}

func genC23(t *rapid.T) TagsCase {
	g := newG(t, 30)
	c := TagsCase{Other: g.pick([]string{"", "EXPLICIT", "IMPLICIT"})}
	c.CgCase = genCg(t, 30, 4, 4, 0)
	n := 0
	c.M.walk(func(t *Type) {
		if t.K == kTag {
			n++
		}
	})
	if n == 0 {
		c.M.Assigns = append(c.M.Assigns, Assign{Name: "Tags-Here", Type: &Type{K: kSeq, Comps: []Comp{
			{Name: "a", Type: &Type{K: kTag, Tag: g.tag(false), Elem: &Type{K: kInt}}, Opt: g.n(0, 1) == 1},
			{Name: "b", Type: &Type{K: kTag, Tag: g.tag(false), Elem: &Type{K: kInt}}, Def: &Value{K: "int", I: g.anyInt()}}}}})
		if !distinct(c.M.goNames()) {
			c.M.Assigns = c.M.Assigns[:len(c.M.Assigns)-1]
		}
	}
	return c
}

func checkC23(e *Env, c TagsCase) (o Outcome) {
	text, out, ok := cgGenerate(&o, &c.CgCase)
	if o.Err != nil {
		return
	}
	var m Module
	b, _ := json.Marshal(c.M)
	json.Unmarshal(b, &m)
	def := m.TagDefault
	if def == "" {
		def = "EXPLICIT"
	}
	m.TagDefault = c.Other
	tags := 0
	m.walk(func(t *Type) {
		if t.K == kTag {
			if t.Tag.Kw == "" {
				t.Tag.Kw = def
				tags++
			}
		}
	})
	text2 := textOf(&m, plainLayout)
	out2, perr, gerr := generate(text2, c.Pkg, c.Repr)
	if perr != nil {
		o.failf("module is not parsed: %v\n---\n%s", perr, text2)
		return
	}
	if (gerr == nil) != ok {
		o.failf("with the tagging written out the module is refused or no longer refused: %v\n---\n%s\n---\n%s", gerr, text, text2)
		return
	}
	if !ok {
		return
	}
	o.NonTrivial = tags > 0
	if c.Other != c.M.TagDefault {
		o.label("other-default")
	}
	if a, b := strings.Join(strings.Fields(out), " "), strings.Join(strings.Fields(out2), " "); a != b {
		s1, e1 := loadGo(out)
		s2, e2 := loadGo(out2)
		if e1 != nil || e2 != nil {
			o.failf("generated source does not compile: %v %v\n---\n%s", e1, e2, text)
			return
		}
		_, d1 := s1.declTexts()
		_, d2 := s2.declTexts()
		if bad := diffDecls(d1, d2); bad != "" {
			o.failf("the tag default is not the same as the keyword on every tag: %s\n---\n%s\n---\n%s", bad, text, text2)
			return
		}
	}
	s, err := loadGo(out)
	if err != nil {
		o.failf("generated source does not compile: %v\n---\n%s", err, text)
		return
	}
	x := &matcher{m: c.M, s: s, big: c.big()}
	for i := range c.M.Assigns {
		if a := &c.M.Assigns[i]; a.Value == nil {
			if bad := x.params(a.Type, x.scopeType(a.Name), def); bad != "" {
				o.failf("type %s: %s\n---\n%s\n---\n%s", a.Name, bad, text, out)
				return
			}
		}
	}
	return
}

// params compares the tag parameters of fields with what is written on the components with at most one tag.
func (x *matcher) params(t *Type, got types.Type, def string) string {
	t = unwrap(t)
	switch t.K {
	case kSeqOf, kSetOf:
		if sl, ok := got.Underlying().(*types.Slice); ok {
			if _, named := types.Unalias(sl.Elem()).(*types.Named); !named {
				return x.params(t.Elem, sl.Elem(), def)
			}
		}
	case kSeq, kSet:
		st, ok := got.Underlying().(*types.Struct)
		comps := t.fields()
		if !ok || st.NumFields() != len(comps) {
			return "" // C13
		}
		for i, c := range comps {
			want := map[string]bool{}
			ty := c.Type
			var tags []*Tag
			for ty.K == kTag || ty.K == kConstr {
				if ty.K == kTag {
					tags = append(tags, ty.Tag)
				}
				ty = ty.Elem
			}
			if c.Opt || c.Def != nil {
				want["optional"] = true
			}
			leaf := x.m.leafOf(ty)
			if len(tags) > 1 || len(tags) == 1 && tags[0].Class == "UNIVERSAL" {
				continue
			}
			if c.Def != nil && c.Def.K == "int" && leaf.K == kInt && !x.big {
				want["default:"+strconv.FormatInt(c.Def.I, 10)] = true
			}
			skipExplicit := leaf.K == kChoice || leaf.K == kAny
			if len(tags) == 1 {
				g := tags[0]
				want["tag:"+strconv.FormatInt(g.Num, 10)] = true
				if g.Class != "" {
					want[strings.ToLower(g.Class)] = true
				}
				if g.Kw == "EXPLICIT" || g.Kw == "" && def == "EXPLICIT" {
					want["explicit"] = true
				}
			}
			ps, err := asn1Params(st.Tag(i))
			if err != nil {
				return err.Error()
			}
			have := map[string]bool{}
			for _, p := range ps {
				switch {
				case p == "optional", p == "explicit", p == "application", p == "private", strings.HasPrefix(p, "tag:"):
					have[p] = true
				case strings.HasPrefix(p, "default:") && leaf.K == kInt && !x.big:
					have[p] = true
				}
			}
			if skipExplicit {
				delete(want, "explicit")
				delete(have, "explicit")
			}
			if !reflect.DeepEqual(want, have) {
				return fmt.Sprintf("component %s: parameters %v expected, %v found", c.Name, keysOf(want), keysOf(have))
			}
			if _, named := types.Unalias(st.Field(i).Type()).(*types.Named); !named {
				if bad := x.params(ty, st.Field(i).Type(), def); bad != "" {
					return bad
				}
			}
		}
	}
	return ""
}

func keysOf(m map[string]bool) (r []string) {
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return
}

func genC13(t *rapid.T) CgCase { return genCg(t, 40, 4, 6, 3) }

func init() {
	register("C12", []string{"go/types with the export data of the installed standard library stands for the compiler; C14 and C15 compile and link samples with the real one"},
		sub("compiles", "non-trivial: code was generated", 250000, 3000000, genC12, checkC12),
	)
	register("C13", nil,
		sub("shape", "non-trivial: code was generated", 250000, 3000000, genC13, checkC13),
	)
	register("C16", []string{"initial values are evaluated as Go constants, through big.NewInt, math.Inf, conversions and other variables"},
		sub("values", "non-trivial: at least one variable was expected", 250000, 3000000, genC16, checkC16),
	)
	register("C17", []string{"alternatives of CHOICE types and types inside constraints are outside the claim"},
		sub("planted", "non-trivial: an unsupported construct was planted", 300000, 4000000, genC17, checkC17),
	)
	register("C21", []string{"declarations are compared up to white space"},
		sub("order", "non-trivial: more than one declaration", 50000, 600000, genC21, checkC21),
		sub("parts", "non-trivial: more than one declaration", 80000, 1200000, genC21parse, checkC21parse),
	)
	register("C23", []string{"direct comparison of field parameters is made for components with at most one tag, not of class UNIVERSAL"},
		sub("keywords", "non-trivial: at least one tag without keyword", 200000, 2500000, genC23, checkC23),
	)
}
