package main

import (
	"fmt"
	"math/big"
	"regexp"
	"strings"

	"github.com/chemikadze/asn1go"
	"pgregory.net/rapid"
)

// ---- C01..C05: the tree returned for well-formed text ----

type TextCase struct {
	M *Module
	L Layout
}

// expectParse parses text and compares the result with the model's tree.
func expectParse(o *Outcome, m *Module, text string) {
	got, err := asn1go.ParseString(text)
	if err != nil {
		o.failf("valid module rejected: %v\n---\n%s", err, text)
		return
	}
	w, g := dump(xModule(m)), dump(got)
	if w != g {
		o.failf("parsed tree differs from the text; %s\n---\n%s", firstDiff(w, g), text)
		return
	}
	if bad := methods(got); bad != "" {
		o.failf("%s\n---\n%s", bad, text)
	}
}

func typeLabels(o *Outcome, m *Module) (nested bool) {
	seen := map[string]bool{}
	for i := range m.Assigns {
		depth := 0
		walkTypes(m.Assigns[i].Type, func(t *Type) {
			seen[t.K] = true
			switch t.K {
			case kSeq, kSet, kSeqOf, kSetOf, kChoice, kTag, kConstr:
				depth++
			}
		})
		if depth > 0 {
			nested = true
		}
	}
	for k := range seen {
		o.label(k)
	}
	return
}

func genC01(t *rapid.T) TextCase {
	g := newG(t, 60)
	c := TextCase{g.module(4, 8), g.layout()}
	g.coincide(c.M)
	return c
}

func genC01long(t *rapid.T) TextCase {
	g := newG(t, 30)
	c := TextCase{g.module(3, 4), plainLayout}
	stretch(t, c.M, 5000, false)
	return c
}

func genC02long(t *rapid.T) TextCase {
	c := genC02(t)
	c.L = plainLayout
	stretch(t, c.M, 2000, false)
	return c
}

func genC03long(t *rapid.T) ValCase {
	c := genC03(t)
	c.L = plainLayout
	stretch(t, c.M, 5000, true)
	return c
}

func genC04long(t *rapid.T) HeadCase {
	c := genC04(t)
	c.L = plainLayout
	stretch(t, c.M, 2000, true)
	return c
}

func checkTree(e *Env, c TextCase) (o Outcome) {
	o.NonTrivial = typeLabels(&o, c.M)
	expectParse(&o, c.M, textOf(c.M, c.L))
	return
}

// Sentences of the grammar, whole and slightly changed: what is a sentence must be accepted.
type SentenceCase struct {
	Kind string
	Text Str
}

func genC01sentence(t *rapid.T) SentenceCase {
	g := newG(t, 14)
	switch g.pickN(5) {
	case 0, 1:
		text, _ := render(g.sentenceVia(supportedNotation, 20*g.pickN(4), false), g.layout())
		return SentenceCase{"every-rule", Str(text)}
	case 2, 3:
		text, _ := render(g.sentence(supportedNotation, 10+10*g.pickN(8)), g.layout())
		return SentenceCase{"derived", Str(text)}
	}
	kind, text := g.mutate(g.someTokens(supportedNotation), g.layout())
	return SentenceCase{kind, Str(text)}
}

var hugeNumber = regexp.MustCompile(`[0-9]{18}|[0-9.]+[eE]\s*-?\s*[0-9]{3}`)

func checkC01sentence(e *Env, c SentenceCase) (o Outcome) {
	toks, err := refLex(string(c.Text))
	if err != nil || len(toks) > 3000 {
		o.label("no-sentence")
		return
	}
	for _, t := range toks {
		if t.Kind == "EXPO" && hugeNumber.MatchString(string(c.Text)) || len(t.S) > 18 && t.Kind == "NUM" {
			o.label("huge-number")
			return
		}
	}
	if ok, _ := supportedGrammar.recognise(toks); !ok {
		o.label("no-sentence")
		return
	}
	o.label(c.Kind)
	o.NonTrivial = len(toks) > 8
	m, err := asn1go.ParseString(string(c.Text))
	if err != nil || m == nil {
		o.failf("valid module rejected: %v\n---\n%q", err, string(c.Text))
	}
	return
}

// ---- C02 ----

func genC02(t *rapid.T) TextCase {
	g := newG(t, 80)
	m := &Module{Name: "M"}
	n := g.n(1, 3)
	for i := 0; i < n; i++ {
		var ty *Type
		d := g.n(1, 4)
		switch g.n(0, 5) {
		case 0, 1, 2:
			ty = &Type{K: kConstr, Elem: g.leaf(), C: g.constraint(d)}
		case 3: // serial
			ty = &Type{K: kConstr, Elem: &Type{K: kConstr, Elem: g.leaf(), C: g.constraint(d)}, C: g.constraint(d - 1)}
		case 4:
			ty = &Type{K: rapid.SampledFrom([]string{kSeqOf, kSetOf}).Draw(t, "k"), C: g.constraint(d), Elem: g.typ(1)}
			if g.n(0, 1) == 1 {
				ty.ElemName = g.word(false)
			}
		default:
			ty = &Type{K: rapid.SampledFrom([]string{kSeqOf, kSetOf}).Draw(t, "k"), Bare: true, Elem: g.typ(1),
				C: &Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: Elem{K: "size", C: g.constraint(d)}}}}}}}}
		}
		if g.n(0, 3) == 3 {
			ty = &Type{K: kSeq, Comps: []Comp{{Name: "x", Type: ty}, {Name: "y", Type: &Type{K: kConstr, Elem: &Type{K: kInt}, C: g.constraint(1)}, Opt: true}}}
		}
		m.Assigns = append(m.Assigns, Assign{Name: fresh(g.upUsed, "T"), Type: ty})
	}
	return TextCase{m, g.layout()}
}

// constraint without a SIZE that can not be anything else.
func (t *Type) constraint() *Constraint {
	if t.Bare {
		return t.C.Root.Unions[0].Elems[0].E.C
	}
	return t.C
}

func walkConstraint(c *Constraint, f func(*ElemSet)) {
	if c == nil {
		return
	}
	walkSet(&c.Root, f)
	if c.Add != nil {
		walkSet(c.Add, f)
	}
}

func walkSet(s *ElemSet, f func(*ElemSet)) {
	f(s)
	el := func(e *Elem) {
		if e == nil {
			return
		}
		walkConstraint(e.C, f)
		if e.T != nil {
			walkTypes(e.T, func(t *Type) { walkConstraint(t.constraint(), f) })
		}
		if e.Inner != nil {
			walkConstraint(e.Inner.Single, f)
			for i := range e.Inner.Named {
				walkConstraint(e.Inner.Named[i].C, f)
			}
		}
		if e.P != nil {
			walkSet(e.P, f)
		}
	}
	el(s.AllExcept)
	for i := range s.Unions {
		for j := range s.Unions[i].Elems {
			el(&s.Unions[i].Elems[j].E)
			el(s.Unions[i].Elems[j].Except)
		}
	}
}

func checkC02(e *Env, c TextCase) (o Outcome) {
	ops := 0
	c.M.walk(func(t *Type) {
		walkConstraint(t.C, func(s *ElemSet) {
			ops += len(s.Unions) - 1
			for _, u := range s.Unions {
				ops += len(u.Elems) - 1
				for _, ie := range u.Elems {
					if ie.Except != nil {
						ops++
						o.label("except")
					}
					o.label("elem-" + ie.E.K)
				}
			}
			if s.AllExcept != nil {
				ops++
				o.label("all-except")
			}
		})
	})
	o.NonTrivial = ops >= 2
	text := textOf(c.M, c.L)
	expectParse(&o, c.M, text)
	// the other spelling of every operator
	toks := tokensOf(c.M)
	for i := range toks {
		switch toks[i].S {
		case "|":
			toks[i] = Tok{"UNION", 'w'}
		case "^":
			toks[i] = Tok{"INTERSECTION", 'w'}
		case "UNION":
			toks[i] = Tok{"|", 's'}
		case "INTERSECTION":
			toks[i] = Tok{"^", 's'}
		}
	}
	flipped, _ := render(toks, c.L)
	if flipped != text {
		expectParse(&o, c.M, flipped)
	}
	return
}

// ---- C03 ----

type ValCase struct {
	M   *Module
	L   Layout
	Big string // when set: digits of an integer beyond 64 bits, planted at place BigAt
	At  int
}

func genC03(t *rapid.T) ValCase {
	g := newG(t, 40)
	m := &Module{Name: "M"}
	if g.n(0, 3) == 3 {
		m.DefID = g.oid(true, 5)
	}
	n := g.n(1, 5)
	for i := 0; i < n; i++ {
		var a Assign
		switch g.n(0, 9) {
		case 0, 1, 2, 3:
			v := g.value()
			a = Assign{Name: fresh(g.loUsed, "v"), Type: valueType(v), Value: v}
		case 4:
			cs := []Comp{}
			used := map[string]bool{}
			for k := g.n(1, 4); k > 0; k-- {
				v := g.value()
				cs = append(cs, Comp{Name: fresh(used, "c"), Type: valueType(v), Def: v})
			}
			a = Assign{Name: fresh(g.upUsed, "T"), Type: &Type{K: rapid.SampledFrom([]string{kSeq, kSet}).Draw(t, "k"), Comps: cs}}
		case 5:
			a = Assign{Name: fresh(g.upUsed, "T"), Type: &Type{K: kInt, NN: g.namedNums(true)}}
		case 6:
			a = Assign{Name: fresh(g.upUsed, "T"), Type: &Type{K: kBit, NN: g.namedNums(false)}}
		case 7:
			ty := g.leaf()
			for k := 0; ty.K != kEnum && k < 1; k++ {
				ty = &Type{K: kEnum, Items: []EnumItem{{Name: "a", HasNN: true, I: g.anyInt()}, {Name: "b"}, {Name: "c", HasNN: true, Val: "x", Mod: "M"}}}
			}
			a = Assign{Name: fresh(g.upUsed, "T"), Type: ty}
		case 8:
			a = Assign{Name: fresh(g.upUsed, "T"), Type: &Type{K: kTag, Tag: g.tag(true), Elem: &Type{K: kBool}}}
		case 9:
			r := Elem{K: "range", Lo: g.scalar(), Hi: g.scalar()}
			s := ElemSet{Unions: []Inters{{Elems: []IElem{{E: r}}}, {Elems: []IElem{{E: Elem{K: "val", Val: g.value()}}}}}}
			a = Assign{Name: fresh(g.upUsed, "T"), Type: &Type{K: kConstr, Elem: &Type{K: kInt}, C: &Constraint{Root: s}}}
		}
		m.Assigns = append(m.Assigns, a)
	}
	c := ValCase{M: m, L: g.layout()}
	return c
}

func valueType(v *Value) *Type {
	switch v.K {
	case "int", "bigint", "ident":
		return &Type{K: kInt}
	case "bool":
		return &Type{K: kBool}
	case "oid":
		return &Type{K: kOID}
	}
	return &Type{K: kReal}
}

func checkC03(e *Env, c ValCase) (o Outcome) {
	p := tokensOf(c.M)
	nums := 0
	for _, t := range p {
		if t.K == 'n' && len(t.S) > 1 {
			nums++
		}
	}
	o.NonTrivial = nums > 0
	for i := range c.M.Assigns {
		if v := c.M.Assigns[i].Value; v != nil {
			o.label("value-" + v.K)
		} else {
			o.label("type-" + c.M.Assigns[i].Type.K)
		}
	}
	expectParse(&o, c.M, textOf(c.M, c.L))
	return
}

// numbers beyond the representable range must not be altered
type BigCase struct {
	C   ValCase
	Dig string
	At  int
}

func genC03big(t *rapid.T) BigCase {
	c := genC03(t)
	toks := tokensOf(c.M)
	var at, reals []int
	for i, tk := range toks {
		if tk.K == 'n' && strings.ContainsAny(tk.S, ".eE") {
			reals = append(reals, i)
		}
		if tk.K == 'n' && !strings.ContainsAny(tk.S, ".eE") {
			at = append(at, i)
		}
	}
	k := -1
	if len(reals) > 0 && rapid.IntRange(0, 2).Draw(t, "real?") == 2 {
		k = rapid.SampledFrom(reals).Draw(t, "at")
		return BigCase{c, rapid.OneOf(rapid.SampledFrom([]string{"1.8e308", "1.7976931348623159e308", "1e309", "17.97693134862315900000000000000000000001E307"}),
			rapid.StringMatching(`[1-9][0-9]{0,20}(\.[0-9]{1,20})?[eE](309|31[0-9]|[4-9][0-9][0-9]|[1-9][0-9]{3,12})`), rapid.StringMatching(`[2-9][0-9]{308,330}\.[0-9]{1,3}`)).Draw(t, "real"), k}
	}
	if len(at) > 0 {
		k = rapid.SampledFrom(at).Draw(t, "at")
	}
	base := new(big.Int).Lsh(big.NewInt(1), 63)
	switch rapid.IntRange(0, 3).Draw(t, "how") {
	case 0:
		least := 0
		if k > 0 && toks[k-1].S == "-" {
			least = 1 // -2^63 can be represented
		}
		base.Add(base, big.NewInt(int64(rapid.IntRange(least, 1000).Draw(t, "d"))))
	case 1:
		base.Lsh(base, uint(rapid.IntRange(1, 200).Draw(t, "sh")))
		base.Add(base, big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, "d"))))
	case 2:
		base.SetString(rapid.StringMatching(`[1-9][0-9]{19,60}`).Draw(t, "dig"), 10)
	case 3:
		base.Lsh(big.NewInt(1), 64)
		base.Add(base, big.NewInt(int64(rapid.IntRange(0, 300).Draw(t, "d"))))
	}
	return BigCase{c, base.String(), k}
}

func checkC03big(e *Env, c BigCase) (o Outcome) {
	if c.At < 0 {
		return
	}
	o.NonTrivial = true
	toks := tokensOf(c.C.M)
	toks[c.At].S = c.Dig
	text, _ := render(toks, c.C.L)
	m, err := asn1go.ParseString(text)
	if err == nil {
		o.failf("literal %s cannot be represented but is accepted:\n%s\n---\n%s", c.Dig, firstLines(dump(m), 30), text)
	}
	return
}

// leading zeros: X.680 does not write them, the lexer reads them; whatever is accepted must keep its value
type ZeroCase struct {
	C ValCase
	N []int // zeros put before the number tokens, in turn
}

func genC03zero(t *rapid.T) ZeroCase {
	return ZeroCase{genC03(t), rapid.SliceOfN(rapid.SampledFrom([]int{0, 1, 1, 2, 3, 18, 19, 40, 300}), 1, 4).Draw(t, "zeros")}
}

func checkC03zero(e *Env, c ZeroCase) (o Outcome) {
	toks := tokensOf(c.C.M)
	k := 0
	for i := range toks {
		if toks[i].K == 'n' {
			n := c.N[k%len(c.N)]
			k++
			toks[i].S = strings.Repeat("0", n) + toks[i].S
			o.NonTrivial = o.NonTrivial || n > 0 && len(toks[i].S) > n+1
		}
	}
	text, _ := render(toks, c.C.L)
	m, err := asn1go.ParseString(text)
	if err != nil {
		o.label("rejected")
		return
	}
	o.label("accepted")
	if w, g := dump(xModule(c.C.M)), dump(m); w != g {
		o.failf("a literal with leading zeros changes its value; %s\n---\n%s", firstDiff(w, g), text)
	}
	return
}

// ---- C04 ----

type HeadCase struct {
	M      *Module
	L      Layout
	Probes []string
}

func genC04(t *rapid.T) HeadCase {
	g := newG(t, 12)
	m := &Module{}
	g.header(m)
	g.clauses(m)
	n := g.n(1, 6)
	for i := 0; i < n; i++ {
		if g.n(0, 1) == 0 {
			m.Assigns = append(m.Assigns, Assign{Name: g.freshWord(true, g.upUsed), Type: g.leaf()})
		} else {
			v := g.value()
			m.Assigns = append(m.Assigns, Assign{Name: g.freshWord(false, g.loUsed), Type: valueType(v), Value: v})
		}
	}
	c := HeadCase{M: m, L: g.layout()}
	k := g.n(0, 5)
	for i := 0; i < k; i++ {
		switch g.n(0, 3) {
		case 0:
			c.Probes = append(c.Probes, g.word(true))
		case 1:
			c.Probes = append(c.Probes, g.word(false))
		case 2: // a prefix, suffix or case variant of a declared name
			nm := m.Assigns[g.n(0, n-1)].Name
			c.Probes = append(c.Probes, rapid.SampledFrom([]string{nm + "x", nm[:len(nm)-1], strings.ToLower(nm), strings.ToUpper(nm), strings.Title(nm), " " + nm}).Draw(t, "v"))
		case 3:
			c.Probes = append(c.Probes, rapid.SampledFrom([]string{"", "INTEGER", "GeneralizedTime", m.Name}).Draw(t, "v"))
		}
	}
	return c
}

func checkC04(e *Env, c HeadCase) (o Outcome) {
	m := c.M
	o.NonTrivial = len(m.DefID) > 0 || len(m.Imports) > 0 || m.Exports != nil || m.TagDefault != "" || m.ExtImplied
	o.label("default-" + m.TagDefault)
	if m.Exports != nil {
		o.label("exports")
	}
	if len(m.Imports) > 0 {
		o.label("imports")
	}
	text := textOf(m, c.L)
	got, err := asn1go.ParseString(text)
	if err != nil {
		o.failf("valid module rejected: %v\n---\n%s", err, text)
		return
	}
	w, g := dump(xModule(m)), dump(got)
	if w != g {
		o.failf("parsed tree differs from the text; %s\n---\n%s", firstDiff(w, g), text)
		return
	}
	if bad := methods(got); bad != "" {
		o.failf("%s\n---\n%s", bad, text)
		return
	}
	l := got.ModuleBody.AssignmentList
	names := append([]string{}, c.Probes...)
	for i := range m.Assigns {
		names = append(names, m.Assigns[i].Name)
	}
	for _, im := range m.Imports {
		names = append(names, im.Module)
		names = append(names, im.Symbols...)
	}
	for _, n := range names {
		var wa *Assign
		for i := range m.Assigns {
			if m.Assigns[i].Name == n {
				wa = &m.Assigns[i]
				break
			}
		}
		a, tp, v := l.Get(n), l.GetType(n), l.GetValue(n)
		if wa == nil {
			if a != nil || tp != nil || v != nil {
				o.failf("lookup of undeclared %q finds something\n---\n%s", n, text)
			}
			continue
		}
		want := dump(xAssign(wa))
		if a == nil || dump(a) != want {
			o.failf("Get(%q) = %s, want %s", n, dump(a), want)
		}
		if wa.Value == nil {
			if tp == nil || dump(*tp) != want {
				o.failf("GetType(%q) does not return the declared type", n)
			}
			if v != nil {
				o.failf("GetValue(%q) finds a value where a type is declared", n)
			}
		} else {
			if v == nil || dump(*v) != want {
				o.failf("GetValue(%q) does not return the declared value", n)
			}
			if tp != nil {
				o.failf("GetType(%q) finds a type where a value is declared", n)
			}
		}
	}
	return
}

// ---- C05 ----

type LayoutCase struct {
	M      *Module
	L1, L2 Layout
}

func genC05(t *rapid.T) LayoutCase {
	g := newG(t, 16)
	m := g.module(2, 3)
	g.coincide(m)
	l2 := g.layoutHeavy()
	var l1 Layout
	switch g.n(0, 2) {
	case 0:
		l1 = plainLayout
	case 1:
		l1 = Layout{Seps: []string{""}}
	default:
		l1 = g.layoutHeavy()
	}
	return LayoutCase{m, l1, l2}
}

func checkC05(e *Env, c LayoutCase) (o Outcome) {
	t1, t2 := textOf(c.M, c.L1), textOf(c.M, c.L2)
	o.NonTrivial = strings.Contains(t2, "--") || strings.Contains(t2, "/*")
	for _, x := range []struct{ s, l string }{{"---", "third-hyphen"}, {"/*/", "slash-star-slash"}, {"**/", "star-star-slash"}, {"\r", "cr"}, {"\v", "vt"}, {"\f", "ff"}} {
		if strings.Contains(t2, x.s) {
			o.label(x.l)
		}
	}
	if strings.Count(t2, "/*") > strings.Count(t1, "/*")+1 {
		o.label("block-comments")
	}
	m1, e1 := asn1go.ParseString(t1)
	m2, e2 := asn1go.ParseString(t2)
	switch {
	case e1 != nil:
		o.failf("valid module rejected: %v\n---\n%q", e1, t1)
	case e2 != nil:
		o.failf("valid module rejected: %v\n---\n%q", e2, t2)
	default:
		if d1, d2 := dump(m1), dump(m2); d1 != d2 {
			o.failf("two layouts of the same items parse differently; %s\n---\n%q\n---\n%q", firstDiff(d1, d2), t1, t2)
		} else if w := dump(xModule(c.M)); w != d1 {
			o.failf("parsed tree differs from the text; %s\n---\n%q", firstDiff(w, d1), t1)
		}
	}
	return
}

// any sentence in two layouts, long comments among them
type ToksCase struct {
	Toks   []Tok
	L1, L2 Layout
	Long   string `json:",omitempty"` // repeated Rep times in a comment at the gap At of the second text
	Rep    int    `json:",omitempty"`
	At     int    `json:",omitempty"`
}

func genC05toks(t *rapid.T) ToksCase {
	g := newG(t, 10)
	c := ToksCase{Toks: g.someTokens(wholeNotation), L1: plainLayout, L2: g.layoutHeavy()}
	if g.pickN(20) == 0 {
		c.Long = g.pick([]string{"-", "*", "/", "x", " ", "END ", "\"", "é", "- ", "a-b ", "\x00"})
		c.Rep = rapid.SampledFrom([]int{60, 127, 128, 255, 256, 1000, 1024, 4090, 4096, 8192, 20000, 32768, 65536, 70000, 140000}).Draw(t, "rep")
		c.At = g.pickN(len(c.Toks))
		c.L2 = plainLayout
	}
	return c
}

func genC05nest(t *rapid.T) ToksCase {
	g := newG(t, 4)
	c := ToksCase{Toks: tokensOf(gapModule), L1: plainLayout, L2: plainLayout, Long: "/*"}
	c.Rep = rapid.SampledFrom([]int{2, 3, 30, 100, 127, 128, 129, 255, 256, 257, 1000, 1024, 5000, 32768, 65536, 70000}).Draw(t, "rep")
	c.At = g.pickN(len(c.Toks))
	return c
}

// longComment is one comment (or one run of separate ones, for hyphens) around many copies of the content.
func longComment(s string, n int) string {
	switch s {
	case "/*":
		return strings.Repeat("/*", n) + "x" + strings.Repeat("*/", n)
	case "-", "- ":
		return " --" + "\n/*" + strings.Repeat(s, n) + "*/ --" + strings.Repeat("- ", n) + "\n"
	case "*", "/":
		return " --" + strings.Repeat(s, n) + "\n"
	}
	return " --" + strings.Repeat(s, n) + "\n/*" + strings.Repeat(s, n) + "*/ --" + strings.Repeat(s, n) + "-- "
}

func checkC05toks(e *Env, c ToksCase) (o Outcome) {
	t1, _ := render(c.Toks, c.L1)
	t2, offs := render(c.Toks, c.L2)
	if c.Rep > 0 && c.At < len(offs) {
		com := longComment(c.Long, c.Rep)
		if !isBlank(com) {
			o.failf("harness: not a comment %q", clip(com))
			return
		}
		t2 = t2[:offs[c.At]] + com + t2[offs[c.At]:]
		o.label("long")
	}
	o.NonTrivial = strings.Contains(t2, "--") || strings.Contains(t2, "/*")
	m1, e1 := asn1go.ParseString(t1)
	m2, e2 := asn1go.ParseString(t2)
	switch {
	case (e1 == nil) != (e2 == nil):
		o.failf("of two layouts of the same items one is refused: %v / %v\n---\n%q\n---\n%q", e1, e2, clip(t1), clip(t2))
	case e1 != nil:
		o.label("both-refused")
	default:
		if d1, d2 := dump(m1), dump(m2); d1 != d2 {
			o.failf("two layouts of the same items parse differently; %s\n---\n%q\n---\n%q", firstDiff(d1, d2), clip(t1), clip(t2))
		}
	}
	return
}

// comment-only focus: a fixed small module with one generated separator at one gap
type GapCase struct {
	Sep string
	Gap int
}

var gapModule = &Module{Name: "Mod-ule", TagDefault: "IMPLICIT", Assigns: []Assign{
	{Name: "A-a", Type: &Type{K: kSeq, Comps: []Comp{
		{Name: "x-y", Type: &Type{K: kTag, Tag: &Tag{Num: 1}, Elem: &Type{K: kInt}}, Def: &Value{K: "int", I: -5}},
		{Name: "r", Type: &Type{K: kReal}, Def: &Value{K: "real", Int: "1", Frac: "05", Exp: "e-2"}},
	}, Ext: &Ext{}}},
	{Name: "B", Type: &Type{K: kConstr, Elem: &Type{K: kInt}, C: &Constraint{Root: ElemSet{Unions: []Inters{
		{Elems: []IElem{{E: Elem{K: "range", Lo: &Value{K: "int", I: 1}, Hi: &Value{K: "int", I: 5}}}}}}}}}},
	{Name: "v", Type: &Type{K: kOID}, Value: &Value{K: "oid", OID: []OIDComp{{Form: "num", Num: 1}, {Form: "namenum", Name: "b", Num: 2}}}},
}}

func genC05gap(t *rapid.T) GapCase {
	g := newG(t, 1)
	n := len(tokensOf(gapModule))
	s := ""
	switch g.n(0, 3) {
	case 0:
		s = g.sepString()
	default: // random text over the characters that matter, closed off so that it is blank
		body := rapid.StringOfN(rapid.SampledFrom([]rune("-/*x \n\r\"E{")), 0, 14, -1).Draw(t, "body")
		for _, x := range rapid.Permutation([]string{"--" + body + "\n", "/*" + body + "*/", body, "--" + body + "--", "/*" + body + "*/*/", "/*" + body + "/**/*/"}).Draw(t, "wrap") {
			if isBlank(x) {
				s = x
				break
			}
		}
	}
	return GapCase{s, g.n(0, n)}
}

func checkC05gap(e *Env, c GapCase) (o Outcome) {
	if !isBlank(c.Sep) {
		o.label("not-blank(skipped)")
		return
	}
	o.NonTrivial = strings.ContainsAny(c.Sep, "-/")
	toks := tokensOf(gapModule)
	text := ""
	closed := c.Sep
	if blankRest(c.Sep+"x") != "x" {
		closed += "\n" // ends a line comment
	}
	for i := range toks {
		var prev *Tok
		if i > 0 {
			prev = &toks[i-1]
		}
		sep := " "
		if i == c.Gap {
			sep = " " + closed
			if i > 0 && prev.K == 's' && prev.S != "-" {
				sep = closed
			}
		}
		text += sepBetween(prev, &toks[i], sep) + toks[i].S
	}
	if c.Gap >= len(toks) {
		text += " " + c.Sep
	}
	expectParse(&o, gapModule, text)
	if o.Err != nil {
		o.Err = fmt.Errorf("separator %q: %v", c.Sep, o.Err)
	}
	return
}

func init() {
	register("C01", []string{
		"the supported notation is the README feature table: ENUMERATED with extension marker, two component lists, extension addition groups, and an extension marker before the first component followed by additions are outside the claim",
	},
		sub("tree", "a case is non-trivial when at least one assignment has a constructed, tagged or constrained type", 200000, 6000000, genC01, checkTree),
		sub("long", "as above; one list of the module is long, or one construct deep", 6000, 150000, genC01long, checkTree),
		sub("variants", "as above; the declarations of the module differ in optional parts", 30000, 1500000, genC01variants, checkTree),
		sub("neighbours", "as above; the module is a list of simple types", 30000, 1500000, genC01neighbours, checkTree),
		sub("sentences", "non-trivial: a sentence of the supported notation with at least one declaration or header clause", 100000, 3000000, genC01sentence, checkC01sentence),
	)
	register("C02", []string{"contents of WITH COMPONENT(S) and exception specifications are accepted but, as documented, not kept"},
		sub("constraints", "non-trivial: at least two set operators", 100000, 3000000, genC02, checkC02),
		sub("long", "as above; one list of the module is long, or one construct deep", 2000, 80000, genC02long, checkC02),
		sub("variants", "as above; the declarations of the module differ in optional parts", 15000, 800000, genC02variants, checkC02),
	)
	register("C03", []string{"integers down to -(2^63-1); real literals of up to 330 digits"},
		sub("values", "non-trivial: contains a number of at least two characters", 600000, 12000000, genC03, checkC03),
		sub("long", "as above; one list of the module is long", 6000, 150000, genC03long, checkC03),
		sub("leading-zeros", "non-trivial: zeros stand before a number of two or more characters", 150000, 2000000, genC03zero, checkC03zero),
		sub("too-large", "non-trivial: an integer beyond 64 bits or a real beyond the range of a double is planted", 150000, 2000000, genC03big, checkC03big),
	)
	register("C04", nil,
		sub("header", "non-trivial: some header clause is written", 600000, 12000000, genC04, checkC04),
		sub("long", "as above; one list of the module is long", 2500, 100000, genC04long, checkC04),
	)
	register("C05", nil,
		sub("layouts", "non-trivial: at least one comment", 100000, 3000000, genC05, checkC05),
		sub("any-sentence", "as above; any sentence of the grammar, one case in twenty with a very long comment", 60000, 2000000, genC05toks, checkC05toks),
		sub("deep-comments", "as above; comments nested up to 70000 deep", 400, 4000, genC05nest, checkC05toks),
		sub("one-gap", "non-trivial: the separator contains a hyphen or slash", 300000, 6000000, genC05gap, checkC05gap),
	)
}
