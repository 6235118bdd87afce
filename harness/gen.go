package main

import (
	"math"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Reserved words of the supported notation (X.680 11.27 plus ANY and DEFINED of X.208).
var reservedWords = []string{
	"ABSENT", "ENCODED", "INTEGER", "RELATIVE-OID", "ABSTRACT-SYNTAX", "END", "INTERSECTION", "SEQUENCE", "ALL",
	"ENUMERATED", "ISO646String", "SET", "APPLICATION", "EXCEPT", "MAX", "SIZE", "AUTOMATIC", "EXPLICIT", "MIN",
	"STRING", "BEGIN", "EXPORTS", "MINUS-INFINITY", "SYNTAX", "BIT", "EXTENSIBILITY", "NULL", "T61String", "BMPString",
	"EXTERNAL", "NumericString", "TAGS", "BOOLEAN", "FALSE", "OBJECT", "TeletexString", "BY", "FROM",
	"ObjectDescriptor", "TRUE", "CHARACTER", "GeneralizedTime", "OCTET", "TYPE-IDENTIFIER", "CHOICE", "GeneralString",
	"OF", "UNION", "CLASS", "GraphicString", "OPTIONAL", "UNIQUE", "COMPONENT", "IA5String", "PATTERN", "UNIVERSAL",
	"COMPONENTS", "IDENTIFIER", "PDV", "UniversalString", "CONSTRAINED", "IMPLICIT", "PLUS-INFINITY", "UTCTime",
	"CONTAINING", "IMPLIED", "PRESENT", "UTF8String", "DEFAULT", "IMPORTS", "PrintableString", "VideotexString",
	"DEFINITIONS", "INCLUDES", "PRIVATE", "VisibleString", "EMBEDDED", "INSTANCE", "REAL", "WITH", "ANY", "DEFINED",
}

var reserved = map[string]bool{}

func init() {
	for _, w := range reservedWords {
		reserved[w] = true
	}
}

// G generates models. Every choice is a rapid draw.
type G struct {
	t      *rapid.T
	budget int // remaining type nodes
	types  []string
	vals   []string
	upUsed map[string]bool
	loUsed map[string]bool
	noCons bool // no constraints
}

func newG(t *rapid.T, budget int) *G {
	return &G{t: t, budget: budget, upUsed: map[string]bool{}, loUsed: map[string]bool{}}
}

func (g *G) n(lo, hi int) int { return rapid.IntRange(lo, hi).Draw(g.t, "n") }
func (g *G) chance(pct int) bool {
	return rapid.IntRange(0, 99).Draw(g.t, "p") >= 100-pct // shrinks towards false
}

// count is a length of a list: of the given bounds usually, and much longer sometimes.
func (g *G) count(lo, hi int) int {
	if g.budget > 0 && g.n(0, 24) == 24 {
		return g.n(hi+1, 3*hi+4)
	}
	return g.n(lo, hi)
}
func (g *G) pick(ss []string) string { return rapid.SampledFrom(ss).Draw(g.t, "s") }

var loPool = []string{"a", "b", "e", "c", "d", "id", "e5", "x1", "iso", "foo", "end", "of", "size", "min", "true", "set", "name-type", "a-b-c", "eE", "e-1", "begin", "integer", "aVeryLongIdentifierIndeedWithManyLetters-and-hyphens-1234567890"}
var upPool = []string{"A", "B", "E", "Foo", "T1", "E5", "Int32", "My-Type", "Set", "Sequence", "INTEGERS", "ENDS", "BEGINNER", "SETS", "X-509", "OFF", "Boolean", "Any", "SIZES", "MAXIMUM", "Aa-Bb-Cc", "REALm", "NULLs", "CLASSes"}

// word returns an identifier-shaped word with the given case of the first letter, never reserved.
func (g *G) word(upper bool) string {
	var w string
	if k := g.pickN(60); k == 0 { // long, and the same at the beginning
		w = g.pick([]string{"commonBeginningOfSeveralLongNames-thatDifferLate-", "a-b-c-d-e-f-g-h-", "x1-2-3-4-5-"}) + strings.Repeat(g.pick([]string{"x", "aB", "q-1-"}), g.n(0, 40)) + g.pick([]string{"a", "b", "c", "a1", "a2", "A", "B"})
		if upper {
			w = strings.ToUpper(w[:1]) + w[1:]
		}
	} else if g.n(0, 9) < 7 {
		if upper {
			w = g.pick(upPool)
		} else {
			w = g.pick(loPool)
		}
	} else if upper {
		w = rapid.StringMatching(`[A-Z][a-zA-Z0-9]{0,5}(-[a-zA-Z0-9]{1,3}){0,2}`).Draw(g.t, "w")
	} else {
		w = rapid.StringMatching(`[a-z][a-zA-Z0-9]{0,5}(-[a-zA-Z0-9]{1,3}){0,2}`).Draw(g.t, "w")
	}
	if reserved[w] {
		w += "q"
	}
	return w
}

// fresh makes w unique in used.
func fresh(used map[string]bool, w string) string {
	r := w
	for i := 2; used[r]; i++ {
		r = w + strconv.Itoa(i)
	}
	used[r] = true
	return r
}

func (g *G) freshWord(upper bool, used map[string]bool) string { return fresh(used, g.word(upper)) }

var edgeInts = []int64{0, 1, 2, 5, -1, 10, 127, 128, 129, 255, 256, -128, -129, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, -(1 << 31), 1<<32 - 1, 1 << 32, 1<<53 + 1, math.MaxInt64, math.MaxInt64 - 1, -math.MaxInt64, math.MinInt64}

func (g *G) anyInt() int64 {
	switch g.n(0, 3) {
	case 0:
		return int64(g.n(0, 20))
	case 1, 2:
		return rapid.SampledFrom(edgeInts).Draw(g.t, "edge")
	default:
		return rapid.Int64().Draw(g.t, "i64")
	}
}

func (g *G) natInt() int64 {
	v := g.anyInt()
	if v == math.MinInt64 {
		v++
	}
	if v < 0 {
		v = -v
	}
	return v
}

func (g *G) valRef() string {
	if len(g.vals) > 0 && g.n(0, 3) > 0 {
		return g.pick(g.vals)
	}
	return g.word(false)
}

func (g *G) typeRef() string {
	if len(g.types) > 0 && g.n(0, 5) > 0 {
		return g.pick(g.types)
	}
	return g.word(true)
}

// names with a number known from elsewhere
var wellKnownArcs = []string{"itu-t", "ccitt", "iso", "joint-iso-itu-t", "joint-iso-ccitt", "recommendation", "question", "administration", "network-operator", "identified-organization", "standard", "registration-authority", "member-body", "a", "z", "ds", "mhs", "asn1", "us", "dod", "internet", "rsadsi", "pkcs", "basic-encoding", "ber", "modules", "example"}

func (g *G) arcName() string {
	if g.pickN(4) == 0 {
		return g.pick(wellKnownArcs)
	}
	return g.word(false)
}

// oid generates an OBJECT IDENTIFIER value of up to max components.
func (g *G) oid(definitive bool, max int) []OIDComp {
	n := g.count(1, max)
	var cs []OIDComp
	for i := 0; i < n; i++ {
		var c OIDComp
		hi := 4
		if definitive {
			hi = 2
		}
		switch g.n(0, hi) {
		case 0:
			c = OIDComp{Form: "num", Num: g.natInt()}
		case 1:
			c = OIDComp{Form: "namenum", Name: g.arcName(), Num: g.natInt()}
		case 2:
			c = OIDComp{Form: "name", Name: g.arcName()}
		case 3:
			c = OIDComp{Form: "nameref", Name: g.arcName(), Val: g.valRef()}
			if g.n(0, 1) == 1 {
				c.Mod = g.word(true)
			}
		case 4:
			c = OIDComp{Form: "ref", Mod: g.word(true), Val: g.valRef()}
		}
		cs = append(cs, c)
	}
	return cs
}

// reals whose rounding is decided by a late digit, and the ends of the range
var hardReals = []Value{
	{Int: "9007199254740993", Frac: "0"}, {Int: "9007199254740993", Frac: "00000000000000000000000000000000001"}, {Int: "9007199254740992", Frac: "99999999999999999999999"},
	{Int: "9007199254740995", Exp: "e0"}, {Int: "18014398509481986", Exp: "e3"}, {Int: "18446744073709551616", Frac: "5"}, {Int: "9223372036854775808", Exp: "e0"},
	{Int: "123456789012345678901234567890", Exp: "E-20"}, {Int: "0", Frac: "1000000000000000055511151231257827021181583404541015625"},
	{Int: "0", Frac: "1000000000000000124900090270330610871315002441406250001"}, {Int: "3", Frac: "14159265358979323846264338327950288"},
	{Int: "1", Frac: "7976931348623157", Exp: "e308"}, {Int: "2", Frac: "2250738585072011", Exp: "e-308"}, {Int: "2", Frac: "2250738585072014", Exp: "e-308"},
	{Int: "4", Frac: "9406564584124654", Exp: "e-324"}, {Int: "5", Exp: "E-324"}, {Int: "2", Frac: "4703282292062327", Exp: "e-324"},
	{Int: "1", Frac: "00000000000000011102230246251565404236316680908203125"}, {Int: "1", Frac: "00000000000000011102230246251565404236316680908203124"},
	{Int: "8", Frac: "5", Exp: "e22"}, {Int: "1", Exp: "e23"}, {Int: "6929495644600919", Frac: "5", Exp: "e0"}, {Int: "3", Frac: "518437208883201171875", Exp: "e13"},
}

var edgeFracs = []string{"14159265358979323846264338327950288", "0000000000000000000000000000000001", "99999999999999999999", "9223372036854775808", "0", "5", "05", "1", "10", "01", "10", "000", "001", "100", "999", "125", "3333333333", "00000000001", "99999999999", "1000000000"}
var edgeExps = []string{"e307", "e-308", "E-324", "e-400", "e0", "E1", "e1", "E-1", "e-1", "e5", "E10", "e-10", "e22", "e23", "e100", "e-100", "E-300", "e300"}

func (g *G) real() *Value {
	v := &Value{K: "real", Neg: g.n(0, 2) == 2}
	switch g.n(0, 4) {
	case 3:
		v.Int = rapid.StringMatching(`[1-9][0-9]{17,40}`).Draw(g.t, "int")
	case 4:
		h := hardReals[g.pickN(len(hardReals))]
		h.K, h.Neg = "real", v.Neg
		return &h
	case 0:
		v.Int = strconv.Itoa(g.n(0, 20))
	case 1:
		v.Int = strconv.FormatInt(g.natInt(), 10)
	default:
		v.Int = rapid.StringMatching(`[1-9][0-9]{0,16}`).Draw(g.t, "int")
	}
	form := g.n(0, 3)
	if form != 1 {
		if g.n(0, 1) == 0 {
			v.Frac = g.pick(edgeFracs)
		} else {
			v.Frac = rapid.StringMatching(`[0-9]{1,17}|[0-9]{18,50}`).Draw(g.t, "frac")
		}
	}
	if form == 1 || form == 2 {
		if g.n(0, 2) > 0 {
			v.Exp = g.pick(edgeExps)
		} else {
			v.Exp = rapid.StringMatching(`[eE]-?[1-9][0-9]?`).Draw(g.t, "exp")
		}
	}
	if g.pickN(12) == 5 { // many digits, or zeros, with an exponent that makes up for them
		n := rapid.SampledFrom([]int{20, 300, 310, 330, 400, 500, 700, 1000}).Draw(g.t, "digits") + g.n(0, 30)
		e := "e"
		if g.n(0, 1) == 1 {
			e = "E"
		}
		if g.n(0, 1) == 1 {
			v.Int = rapid.StringMatching(`[1-9][0-9]{0,17}`).Draw(g.t, "int") + strings.Repeat("0", n)
			v.Exp = e + "-" + strconv.Itoa(n+g.n(-20, 320))
		} else {
			v.Int, v.Frac = "0", strings.Repeat("0", n)+rapid.StringMatching(`[1-9][0-9]{0,17}`).Draw(g.t, "frac")
			v.Exp = e + strconv.Itoa(n+g.n(-300, 280))
		}
	}
	if f := realOf(v); math.IsInf(f, 0) {
		v.Exp = "" // out of range of a double: see genC03big
		if v.Frac == "" {
			v.Frac = "0"
		}
	}
	return v
}

func (g *G) value() *Value {
	switch g.n(0, 9) {
	case 0, 1, 2:
		return &Value{K: "int", I: g.anyInt()}
	case 3:
		return &Value{K: "ident", S: g.valRef()}
	case 4:
		return &Value{K: "bool", B: g.n(0, 1) == 1}
	case 5, 6, 7:
		return g.real()
	case 8:
		return &Value{K: "inf", Neg: g.n(0, 1) == 1}
	default:
		return &Value{K: "oid", OID: g.oid(false, 4)}
	}
}

func (g *G) scalar() *Value { // range end points
	switch g.n(0, 5) {
	case 0, 1, 2:
		return &Value{K: "int", I: g.anyInt()}
	case 3:
		return &Value{K: "ident", S: g.valRef()}
	case 4:
		return g.real()
	default:
		return &Value{K: "inf", Neg: g.n(0, 1) == 1}
	}
}

func (g *G) namedNums(signed bool) []NamedNum {
	n := g.count(1, 4)
	used := map[string]bool{}
	var r []NamedNum
	for i := 0; i < n; i++ {
		nn := NamedNum{Name: g.freshWord(false, used)}
		switch {
		case g.n(0, 3) == 3:
			nn.Val = g.valRef()
			if g.n(0, 2) == 2 {
				nn.Mod = g.word(true)
			}
		case signed:
			nn.I = g.anyInt()
		default:
			nn.I = g.natInt()
		}
		r = append(r, nn)
	}
	return r
}

func (g *G) exc(d int) *Exc {
	switch g.n(0, 2) {
	case 0:
		return &Exc{K: "num", I: g.anyInt()}
	case 1:
		e := &Exc{K: "ref", Val: g.valRef()}
		if g.n(0, 1) == 1 {
			e.Mod = g.word(true)
		}
		return e
	default:
		return &Exc{K: "typed", T: g.typ(0), V: g.value()}
	}
}

func (g *G) comps(d, lo, hi int, used map[string]bool) []Comp {
	n := g.count(lo, hi)
	var r []Comp
	for i := 0; i < n; i++ {
		if g.n(0, 19) == 19 {
			r = append(r, Comp{CompsOf: g.typ(d - 1)})
			continue
		}
		c := Comp{Name: g.freshWord(false, used), Type: g.typ(d - 1)}
		switch g.n(0, 4) {
		case 3:
			c.Opt = true
		case 4:
			c.Def = g.value()
		}
		r = append(r, c)
	}
	return r
}

func (g *G) tag(refs bool) *Tag {
	t := &Tag{Num: g.natInt()}
	if g.n(0, 1) == 0 {
		t.Num = int64(g.n(0, 40))
	}
	t.Class = g.pick([]string{"", "", "APPLICATION", "PRIVATE", "UNIVERSAL"})
	t.Kw = g.pick([]string{"", "IMPLICIT", "EXPLICIT"})
	if refs && g.n(0, 5) == 5 {
		t.Num = 0
		t.Val = g.valRef()
		if g.n(0, 1) == 1 {
			t.Mod = g.word(true)
		}
	}
	return t
}

var leafKinds = []string{kBool, kInt, kRef, kStr, kOctet, kReal, kNull, kOID, kBit, kChar, kUseful, kAny, kEnum, kInt}
var nestKinds = []string{kSeq, kSet, kSeqOf, kSetOf, kChoice, kTag, kConstr, kSeq, kTag, kConstr}

// typ generates any type of the supported notation.
func (g *G) typ(d int) *Type {
	g.budget--
	if d <= 0 || g.budget <= 0 || g.n(0, 9) < 4 {
		return g.leaf()
	}
	t := &Type{K: rapid.SampledFrom(nestKinds).Draw(g.t, "kind")}
	if t.K == kConstr && g.noCons {
		t.K = kSeq
	}
	switch t.K {
	case kSeq, kSet:
		used := map[string]bool{}
		t.Comps = g.comps(d, 0, 4, used)
		if g.n(0, 3) == 3 {
			t.Ext = &Ext{End: g.n(0, 1) == 1}
			if g.n(0, 3) == 3 {
				t.Ext.Exc = g.exc(d)
			}
			if len(t.Comps) > 0 { // "{ ..., a X }" is not part of the supported notation
				t.Ext.Adds = g.comps(d, 0, 3, used)
				if g.n(0, 1) == 1 {
					t.Ext.Trail = g.comps(d, 1, 3, used)
				}
			}
		}
	case kSeqOf, kSetOf:
		if g.n(0, 3) == 3 {
			t.ElemName = g.word(false)
		}
		t.Elem = g.typ(d - 1)
		if !g.noCons && g.n(0, 2) == 2 {
			t.C = g.constraint(d - 1)
			if g.n(0, 1) == 1 {
				t.Bare = true
				t.C = &Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: Elem{K: "size", C: g.constraint(d - 1)}}}}}}}
			}
		}
	case kChoice:
		used := map[string]bool{}
		n := g.count(0, 4)
		for i := 0; i < n; i++ {
			t.Alts = append(t.Alts, NamedType{g.freshWord(false, used), g.typ(d - 1)})
		}
		if n == 0 || g.n(0, 2) == 2 {
			t.AltExt = &ChoiceExt{End: g.n(0, 1) == 1}
			if g.n(0, 3) == 3 {
				t.AltExt.Exc = g.exc(d)
			}
			k := g.count(0, 2)
			for i := 0; i < k; i++ {
				t.AltExt.Adds = append(t.AltExt.Adds, NamedType{g.freshWord(false, used), g.typ(d - 1)})
			}
		}
	case kTag:
		t.Tag = g.tag(true)
		t.Elem = g.typ(d - 1)
	case kConstr:
		e := g.typ(d - 1)
		// A constraint written after a tagged or list type belongs to its inner type.
		for e.K == kTag || e.K == kSeqOf || e.K == kSetOf {
			e = e.Elem
		}
		t.Elem = e
		t.C = g.constraint(d - 1)
	}
	return t
}

func (g *G) leaf() *Type {
	t := &Type{K: rapid.SampledFrom(leafKinds).Draw(g.t, "leaf")}
	switch t.K {
	case kInt:
		if g.n(0, 3) == 3 {
			t.NN = g.namedNums(true)
		}
	case kBit:
		if g.n(0, 2) == 2 {
			t.NN = g.namedNums(false)
		}
	case kStr:
		t.Ref = g.pick(strKeywords)
	case kUseful:
		t.Ref = g.pick([]string{"GeneralizedTime", "UTCTime"})
	case kRef:
		t.Ref = g.typeRef()
	case kAny:
		if g.n(0, 1) == 1 {
			t.Ref = g.word(false)
		}
	case kEnum:
		n := g.count(1, 4)
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			it := EnumItem{Name: g.freshWord(false, used)}
			switch g.n(0, 4) {
			case 2, 3:
				it.HasNN, it.I = true, g.anyInt()
			case 4:
				it.HasNN, it.Val = true, g.valRef()
				if g.n(0, 1) == 1 {
					it.Mod = g.word(true)
				}
			}
			t.Items = append(t.Items, it)
		}
	}
	return t
}

func (g *G) elem(d int) Elem {
	g.budget--
	hi := 9
	if d <= 0 || g.budget <= 0 {
		hi = 4
	}
	switch g.n(0, hi) {
	case 0, 1:
		return Elem{K: "val", Val: g.value()}
	case 2, 3, 4:
		e := Elem{K: "range"}
		if g.n(0, 3) > 0 {
			e.Lo = g.scalar()
		}
		if g.n(0, 3) > 0 {
			e.Hi = g.scalar()
		}
		e.LoO, e.HiO = g.n(0, 3) == 3, g.n(0, 3) == 3
		switch g.pickN(12) {
		case 0:
			e.Hi = e.Lo
			if e.Lo == nil {
				e.Hi = g.scalar()
				e.Lo = e.Hi
			}
		case 1:
			e.Lo, e.Hi = e.Hi, e.Lo
		}
		return e
	case 5:
		return Elem{K: "size", C: g.constraint(d - 1)}
	case 6:
		return Elem{K: "type", T: g.typ(d - 1)}
	case 7:
		in := &Inner{}
		if g.n(0, 2) == 2 {
			in.Single = g.constraint(d - 1)
		} else {
			in.Partial = g.n(0, 1) == 1
			n := g.n(1, 3)
			used := map[string]bool{}
			for i := 0; i < n; i++ {
				if g.pickN(8) == 0 {
					used = map[string]bool{}
				}
				x := InnerNamed{Name: g.freshWord(false, used), Presence: g.pick([]string{"", "PRESENT", "ABSENT", "OPTIONAL"})}
				if g.n(0, 1) == 1 {
					x.C = g.constraint(d - 1)
				}
				in.Named = append(in.Named, x)
			}
		}
		return Elem{K: "inner", Inner: in}
	default:
		s := g.elemSet(d - 1)
		return Elem{K: "paren", P: &s}
	}
}

func (g *G) elemSet(d int) ElemSet {
	if g.n(0, 7) == 7 {
		e := g.elem(d)
		return ElemSet{AllExcept: &e}
	}
	var s ElemSet
	n := 1
	if g.n(0, 2) > 0 {
		n = g.count(1, 3)
	}
	for i := 0; i < n; i++ {
		u := Inters{Kw: g.n(0, 2) == 2}
		k := 1
		if g.n(0, 2) > 0 {
			k = g.count(1, 3)
		}
		for j := 0; j < k; j++ {
			ie := IElem{Kw: g.n(0, 2) == 2, E: g.elem(d)}
			if g.n(0, 4) == 4 {
				x := g.elem(d)
				ie.Except = &x
			}
			u.Elems = append(u.Elems, ie)
		}
		s.Unions = append(s.Unions, u)
	}
	if n > 1 && g.pickN(5) == 0 { // equal operands
		i, j := g.pickN(n), g.pickN(n)
		if g.pickN(2) == 0 {
			s.Unions[i] = s.Unions[j]
		} else {
			s.Unions[i].Elems[0] = s.Unions[j].Elems[0]
		}
	}
	if es := s.Unions[0].Elems; len(es) > 1 && g.pickN(5) == 0 {
		es[len(es)-1] = es[0]
	}
	if e := &s.Unions[0].Elems[0]; e.Except == nil && g.pickN(12) == 0 {
		e.Except = &Elem{}
		*e.Except = e.E
	}
	return s
}

func (g *G) constraint(d int) *Constraint {
	c := &Constraint{Root: g.elemSet(d)}
	if g.n(0, 3) == 3 {
		c.Ext = true
		if g.n(0, 1) == 1 {
			a := g.elemSet(d)
			c.Add = &a
		}
	}
	if g.n(0, 7) == 7 {
		c.Exc = g.exc(d)
	}
	return c
}

// header fills everything but the assignments.
func (g *G) header(m *Module) {
	m.Name = g.word(true)
	if g.n(0, 3) == 3 {
		m.DefID = g.oid(true, 6)
	}
	m.TagDefault = g.pick([]string{"", "EXPLICIT", "IMPLICIT", "AUTOMATIC"})
	m.ExtImplied = g.n(0, 3) == 3
}

func (g *G) clauses(m *Module) {
	sym := func(lo, hi int) (r []string) {
		n := g.count(lo, hi)
		for i := 0; i < n; i++ {
			r = append(r, g.word(g.n(0, 1) == 0))
		}
		return
	}
	switch g.n(0, 5) {
	case 3:
		m.Exports = &Exports{All: true}
	case 4, 5:
		m.Exports = &Exports{Symbols: sym(0, 4)}
	}
	if g.n(0, 2) == 2 {
		m.HasImports = true
		n := g.count(0, 4)
		for i := 0; i < n; i++ {
			im := Import{Symbols: sym(1, 4), Module: g.word(true)}
			switch g.n(0, 4) {
			case 2, 3:
				im.OID = g.oid(false, 4)
			case 4:
				im.Val = g.valRef()
				if g.n(0, 1) == 1 {
					im.Mod = g.word(true)
				}
			}
			m.Imports = append(m.Imports, im)
		}
	}
}

// module generates any module of the supported notation.
func (g *G) module(depth, maxAssigns int) *Module {
	m := &Module{}
	g.header(m)
	if g.n(0, 19) == 19 {
		m.Empty = true
		return m
	}
	g.clauses(m)
	n := g.n(1, maxAssigns)
	isVal := make([]bool, n)
	names := make([]string, n)
	for i := range names {
		isVal[i] = g.n(0, 3) == 3
		if isVal[i] {
			names[i] = g.freshWord(false, g.loUsed)
			g.vals = append(g.vals, names[i])
		} else {
			names[i] = g.freshWord(true, g.upUsed)
			g.types = append(g.types, names[i])
		}
	}
	for i := range names {
		a := Assign{Name: names[i]}
		if isVal[i] {
			a.Type = g.typ(1)
			a.Value = g.value()
		} else {
			a.Type = g.typ(depth)
		}
		m.Assigns = append(m.Assigns, a)
	}
	return m
}

// ---- layouts ----

var wsPieces = []string{" ", "\n", "\t", "\r\n", "  ", "\r", "\v", "\f", "\n\n", " \n\t "}

// commentBody: text for a line comment without a pair of hyphens and not ending in a hyphen.
func (g *G) lineCommentText() string {
	atoms := []string{"x", " ", "-x", "END", "\"", "'", "/*", "*/", "::=", "- ", "a-b", "{", "BEGIN", "é", "0", "*", "/", ";", "SEQUENCE {", ")", "\t", "-*", "-/", "\u0085", "\u2028", "\u2029 x", "\U0001F600", "\U0001F600-", "\u00a0", "\ufeff", "\u212a", "\u00b4", "\x00", "\x1a", "\x7f", "\u2010", "\u2014", "\uff0d"}
	n := g.n(0, 4)
	s := ""
	if g.n(0, 4) == 4 {
		s = "-x" // the third hyphen does not close the comment
	}
	for i := 0; i < n; i++ {
		a := g.pick(atoms)
		if len(s) > 0 && s[len(s)-1] == '-' && a[0] == '-' {
			continue
		}
		s += a
	}
	for len(s) > 0 && s[len(s)-1] == '-' {
		s = s[:len(s)-1]
	}
	return s
}

// blockCommentText: balanced content of a block comment.
func (g *G) blockCommentText(d int) string {
	atoms := []string{"x", " ", "--", "-", "\n", "*", "/ ", "\"", "END", "**", "é", "\r\n", "///", "::=", "* /", "'", "{", "\u2028", "\U0001F600", "\ufeff", "\x00", "\u2217", "\x1a"}
	n := g.n(0, 4)
	s := ""
	for i := 0; i < n; i++ {
		if d > 0 && g.n(0, 5) == 5 {
			s = guard(s, "/*") + "/*" + g.blockCommentText(d-1)
			s = guard(s, "*/") + "*/"
			continue
		}
		a := g.pick(atoms)
		s = guard(s, a) + a
	}
	return s
}

// guard separates s from a so that no comment marker arises across the border or overlaps one.
func guard(s, a string) string {
	if s == "" {
		return s
	}
	l := s[len(s)-1]
	if l == '/' && a[0] == '*' && !(len(s) >= 2 && s[len(s)-2] == '*') || l == '*' && a[0] == '/' {
		return s + "."
	}
	return s
}

func (g *G) sepPiece() string {
	switch g.n(0, 7) {
	case 0, 1, 2:
		return g.pick(wsPieces)
	case 3, 4:
		return "--" + g.lineCommentText() + g.pick([]string{"\n", "\r\n", "\r", "\v", "\f"})
	case 5:
		return "--" + g.lineCommentText() + "--"
	default:
		s := g.blockCommentText(3)
		return "/*" + guard2(s) + "*/"
	}
}

// guard2 keeps the content from merging with the delimiters: "/*" + "/..." and "...*"+"*/" are fine
// ("/*/" does not close, "**/" does), but content ending in "/" followed by "*" would open a comment.
func guard2(s string) string {
	if len(s) > 0 && s[len(s)-1] == '/' && !(len(s) >= 2 && s[len(s)-2] == '*') {
		return s + "."
	}
	return s
}

func (g *G) sepString() string {
	n := g.n(0, 3)
	s := ""
	for i := 0; i < n; i++ {
		if p := g.sepPiece(); isBlank(s + p) {
			s += p
		}
	}
	if s != "" && !isBlank(s+"x") && !strings.HasPrefix(blankRest(s+"x"), "x") {
		s += "\n" // the last line comment would swallow the next item
	}
	return s
}

func blankRest(s string) string {
	i, err := skipBlank(s, 0)
	if err != nil {
		return ""
	}
	return s[i:]
}

// layout generates separators; style 0 single spaces, 1 minimal, else a pool of generated ones.
func (g *G) layout() Layout {
	switch g.n(0, 3) {
	case 0, 1:
		return plainLayout
	case 2:
		return Layout{Seps: []string{""}}
	}
	return g.layoutHeavy()
}

func (g *G) layoutHeavy() Layout {
	l := Layout{}
	n := g.n(2, 6)
	for i := 0; i < n; i++ {
		l.Seps = append(l.Seps, g.sepString())
	}
	k := g.n(5, 12)
	for i := 0; i < k; i++ {
		l.Idx = append(l.Idx, g.n(0, n-1))
	}
	l.Trail = g.sepString()
	if g.n(0, 5) == 5 {
		l.Trail += " --" + g.lineCommentText() // ended by the end of the text
	}
	return l
}

// pickN is uniform in [0,n).
func (g *G) pickN(n int) int {
	if n <= 1 {
		return 0
	}
	if n > len(upTo1000) {
		return g.n(0, n-1)
	}
	return rapid.SampledFrom(upTo1000[:n]).Draw(g.t, "k")
}

// coincide gives equal names to things of a module, or repeats some of its items. Such a module need not make sense,
// but it is written in the notation.
func (g *G) coincide(m *Module) {
	if g.pickN(4) > 0 {
		return
	}
	var lower, upper []*string
	upper = append(upper, &m.Name)
	for i := range m.Assigns {
		if m.Assigns[i].Value == nil {
			upper = append(upper, &m.Assigns[i].Name)
		} else {
			lower = append(lower, &m.Assigns[i].Name)
		}
	}
	comps := func(cs []Comp) {
		for i := range cs {
			if cs[i].CompsOf == nil {
				lower = append(lower, &cs[i].Name)
			}
		}
	}
	var compLists []*[]Comp
	var altLists []*[]NamedType
	var types []*Type
	m.walk(func(t *Type) {
		types = append(types, t)
		comps(t.Comps)
		if len(t.Comps) > 0 {
			compLists = append(compLists, &t.Comps)
		}
		if t.Ext != nil {
			comps(t.Ext.Adds)
			if len(t.Ext.Adds) > 0 {
				compLists = append(compLists, &t.Ext.Adds)
			}
		}
		if len(t.Alts) > 0 {
			altLists = append(altLists, &t.Alts)
		}
		if t.AltExt != nil && len(t.AltExt.Adds) > 0 {
			altLists = append(altLists, &t.AltExt.Adds)
		}
		for _, l := range altLists[max(0, len(altLists)-2):] {
			for i := range *l {
				lower = append(lower, &(*l)[i].Name)
			}
		}
		for i := range t.NN {
			lower = append(lower, &t.NN[i].Name)
		}
		for i := range t.Items {
			lower = append(lower, &t.Items[i].Name)
		}
		if t.K == kRef {
			upper = append(upper, &t.Ref)
		}
		if t.ElemName != "" {
			lower = append(lower, &t.ElemName)
		}
	})
	for k := g.pickN(4); k > 0; k-- {
		if ns := [][]*string{lower, upper}[g.pickN(2)]; len(ns) > 1 {
			i, j := g.pickN(len(ns)), g.pickN(len(ns))
			if g.pickN(2) == 0 {
				j = (i + 1) % len(ns)
			}
			*ns[i] = *ns[j]
		}
	}
	for k := g.pickN(3); k > 0; k-- {
		switch g.pickN(4) {
		case 0:
			if n := len(m.Assigns); n > 0 {
				i, at := g.pickN(n), g.pickN(n+1)
				m.Assigns = append(m.Assigns[:at:at], append([]Assign{m.Assigns[i]}, m.Assigns[at:]...)...)
			}
		case 1:
			if len(compLists) > 0 {
				l := compLists[g.pickN(len(compLists))]
				i, at := g.pickN(len(*l)), g.pickN(len(*l)+1)
				*l = append((*l)[:at:at], append([]Comp{(*l)[i]}, (*l)[at:]...)...)
			}
		case 2:
			if len(altLists) > 0 {
				l := altLists[g.pickN(len(altLists))]
				i, at := g.pickN(len(*l)), g.pickN(len(*l)+1)
				*l = append((*l)[:at:at], append([]NamedType{(*l)[i]}, (*l)[at:]...)...)
			}
		case 3:
			if len(types) > 0 {
				t := types[g.pickN(len(types))]
				if n := len(t.NN); n > 0 {
					t.NN = append(t.NN, t.NN[g.pickN(n)])
				}
				if n := len(t.Items); n > 0 {
					t.Items = append(t.Items, t.Items[g.pickN(n)])
				}
			}
		}
	}
}

// names that mean something in other places
func (g *G) fileName() string {
	if g.n(0, 2) > 0 {
		return ""
	}
	return g.pick([]string{"m$x.asn1", "$HOME", "${HOME}.der", "x ", " x", " ", "a b", "~", "~root", "%41.asn1", "%s", "*", "?", "[a]", "x*", "-", "--", "-x", "ю.asn1", "a\nb", "x\t", "x.gz", "x.asn1.gz", "x.bz2", "x.zip", "a:b", "http:", "file:x", "nul", "con", "stdin", "stdout", "x.json", "x.key", "x.pem", "x.crt", "x.txt",
		"x.go", "x.b64", "x.hex", "x.tmp", "x.bak", "x.der.tmp", "x~", ".hidden", "#x#", "..x", "...", "\\x", "'x'", "\"x\"", "x,v", "a=b", "x@y", "a;b", "a|b", "|x", "<x", ">x", ">>x", "@x", "!x", "&1", "é", "e\u0301", "\xff", "X.DER", "x.DER", "0", "1", "out", "in", "x.asn1;1", strings.Repeat("long-name-", 20) + ".der"})
}
