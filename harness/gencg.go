package main

import (
	"math"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

// Generator of well-typed modules that code can be generated for, and the Go names they are given.

// CgCase is a module with a generator configuration.
type CgCase struct {
	M    *Module
	Pkg  string `json:",omitempty"`
	Repr string `json:",omitempty"` // "", int64, big.Int
}

func (c *CgCase) big() bool { return c.Repr == "big.Int" }

// goName: hyphens become underscores and the first letter is capitalised.
func goName(s string) string {
	s = strings.ReplaceAll(s, "-", "_")
	if s != "" && s[0] >= 'a' && s[0] <= 'z' {
		s = string(s[0]-32) + s[1:]
	}
	return s
}

// goNames lists the package level names a module's declarations may need, with repetitions.
func (m *Module) goNames() (r []string) {
	for i := range m.Assigns {
		a := &m.Assigns[i]
		n := goName(a.Name)
		if a.Value != nil {
			r = append(r, "Val"+n)
			continue
		}
		r = append(r, n, n+"SET")
		if u := unwrap(a.Type); u.K == kInt {
			for _, nn := range u.NN {
				r = append(r, n+"Val"+goName(nn.Name))
			}
		}
	}
	return
}

func distinct(ss []string) bool {
	seen := map[string]bool{}
	for _, s := range ss {
		if seen[s] {
			return false
		}
		seen[s] = true
	}
	return true
}

// unwrap removes tags and constraints.
func unwrap(t *Type) *Type {
	for t.K == kTag || t.K == kConstr {
		t = t.Elem
	}
	return t
}

// leafOf follows references, tags and constraints to the type that is neither.
func (m *Module) leafOf(t *Type) *Type {
	for i := 0; i < 1000; i++ {
		t = unwrap(t)
		if t.K != kRef {
			return t
		}
		d := m.typeDef(t.Ref)
		if d == nil {
			return t
		}
		t = d
	}
	return t
}

// encLeaf also looks through a CHOICE represented by its only alternative.
func (m *Module) encLeaf(t *Type) *Type {
	for i := 0; i < 1000; i++ {
		t = m.leafOf(t)
		if t.K == kChoice && len(t.Alts) == 1 && !m.taggedAlts(t) {
			t = t.Alts[0].Type
			continue
		}
		return t
	}
	return t
}

// taggedAlts: some alternative of the CHOICE is a tagged type, possibly by reference.
func (m *Module) taggedAlts(t *Type) bool {
	for _, a := range t.Alts {
		x := a.Type
		for i := 0; i < 1000; i++ {
			if x.K == kTag {
				return true
			}
			if x.K == kConstr {
				x = x.Elem
				continue
			}
			if x.K == kRef {
				d := m.typeDef(x.Ref)
				if d == nil {
					break
				}
				x = d
				continue
			}
			break
		}
	}
	return false
}

type cg struct {
	*G
	m       *Module
	order   map[string]int // a type may refer directly to types of higher order
	structs []string       // types that become struct types
	cur     int
	inBody  bool     // inside a struct of a declared struct type and below a list
	isStr   bool     // current declaration is a struct
	lows    []string // names given so far to values, components, alternatives
}

var cgUpNames = []string{"A", "B", "Foo", "T1", "Int32", "My-Type", "Sequence", "INTEGERS", "X-509", "Boolean", "Any", "Aa-Bb-Cc", "String", "Type", "Func", "Struct", "Time", "Big", "Asn1", "Math", "Error", "Interface", "Bool", "Byte", "Nil", "True", "Main", "Init", "E-1"}
var cgLoNames = []string{"a", "b", "e", "c", "id", "x1", "foo", "type", "func", "struct", "interface", "package", "import", "name-type", "a-b-c", "string", "int64", "time", "big", "asn1", "math", "nil", "true", "var", "map", "range", "e-1", "select", "go", "len", "error", "init", "main", "raw-content"}

func (c *cg) name(upper bool, used map[string]bool) (r string) {
	var w string
	if !upper {
		defer func() { c.lows = append(c.lows, r) }()
		if len(c.lows) > 0 && c.n(0, 7) == 7 { // one name in several roles
			return fresh(used, c.lows[c.n(0, len(c.lows)-1)])
		}
	}
	if c.n(0, 4) > 0 {
		if upper {
			w = c.pick(cgUpNames)
		} else {
			w = c.pick(cgLoNames)
		}
	} else {
		w = c.word(upper)
	}
	return fresh(used, w)
}

func (c *cg) refTo() *Type {
	var ok []string
	for n, o := range c.order {
		if o > c.cur || c.inBody {
			ok = append(ok, n)
		}
	}
	if c.inBody {
		ok = append([]string{}, c.structs...)
		for n, o := range c.order {
			if o > c.cur {
				ok = append(ok, n)
			}
		}
	}
	if len(ok) == 0 {
		return nil
	}
	sort.Strings(ok)
	return &Type{K: kRef, Ref: c.pick(ok)}
}

var cgLeaves = []string{kBool, kInt, kRef, kStr, kOctet, kReal, kOID, kBit, kChar, kUseful, kAny, kEnum, kInt, kRef, kRef, kStr}

func (c *cg) leaf() *Type {
	k := rapid.SampledFrom(cgLeaves).Draw(c.t, "leaf")
	switch k {
	case kRef:
		if r := c.refTo(); r != nil {
			return r
		}
		return &Type{K: kInt}
	case kStr:
		return &Type{K: kStr, Ref: c.pick(append([]string{"UTF8String", "IA5String", "NumericString", "PrintableString"}, strKeywords...))}
	case kUseful:
		return &Type{K: kUseful, Ref: c.pick([]string{"GeneralizedTime", "UTCTime"})}
	case kAny:
		t := &Type{K: kAny}
		if c.n(0, 1) == 1 {
			t.Ref = c.word(false)
		}
		return t
	case kInt:
		t := &Type{K: kInt}
		if c.n(0, 4) == 4 {
			t.NN = c.intNN()
		}
		return t
	case kBit:
		t := &Type{K: kBit}
		if c.n(0, 2) == 2 {
			t.NN = c.namedNums(false)
		}
		return t
	case kEnum:
		t := &Type{K: kEnum}
		used := map[string]bool{}
		if c.pickN(6) == 5 { // names that mean something in Go
			w := [][]string{{"false", "true"}, {"true", "false"}, {"no", "yes"}, {"off", "on"}, {"zero", "one"}, {"nil", "iota"}, {"absent", "present"}, {"int", "string"}, {"minus-infinity", "plus-infinity"}, {"unknown", "other"}, {"low", "high"}, {"false", "true", "unknown"}}
			for i, s := range w[c.pickN(len(w))] {
				it := EnumItem{Name: s}
				if c.n(0, 2) == 2 {
					it.HasNN, it.I = true, int64(i)
				}
				t.Items = append(t.Items, it)
			}
			return t
		}
		for i := c.count(1, 3); i > 0; i-- {
			it := EnumItem{Name: c.freshWord(false, used)}
			if c.n(0, 1) == 1 {
				it.HasNN, it.I = true, c.anyInt()
			}
			t.Items = append(t.Items, it)
		}
		return t
	}
	return &Type{K: k}
}

// intNN: named numbers, literal or referring to an integer value of the module.
func (c *cg) intNN() []NamedNum {
	used := map[string]bool{}
	var r []NamedNum
	var ints []string
	for i := range c.m.Assigns {
		if a := &c.m.Assigns[i]; a.Value != nil && a.Value.K == "int" {
			ints = append(ints, a.Name)
		}
	}
	for i := c.count(1, 4); i > 0; i-- {
		nn := NamedNum{Name: c.name(false, used), I: c.anyInt()}
		if len(ints) > 0 && c.n(0, 2) == 2 {
			nn.I, nn.Val = 0, c.pick(ints)
		}
		r = append(r, nn)
	}
	return r
}

func (c *cg) defaultFor(t *Type) *Value {
	switch l := c.m.leafOf(t); l.K {
	case kInt:
		if c.n(0, 5) == 5 {
			return &Value{K: "ident", S: c.word(false)}
		}
		return &Value{K: "int", I: c.anyInt()}
	case kBool:
		return &Value{K: "bool", B: c.n(0, 1) == 1}
	case kEnum:
		return &Value{K: "ident", S: l.Items[0].Name}
	case kOID:
		return &Value{K: "oid", OID: []OIDComp{{Form: "num", Num: 1}, {Form: "num", Num: 3}}}
	case kReal:
		return &Value{K: "real", Int: "1", Frac: "5"}
	}
	return nil
}

func (c *cg) comps(d, lo, hi int, used map[string]bool) []Comp {
	var r []Comp
	for i := c.count(lo, hi); i > 0; i-- {
		x := Comp{Name: c.name(false, used), Type: c.typ(d - 1)}
		if c.n(0, 1) == 1 && x.Type.K != kTag {
			x.Type = &Type{K: kTag, Tag: c.cgTag(), Elem: x.Type}
		}
		switch c.n(0, 5) {
		case 3, 4:
			x.Opt = true
		case 5:
			x.Def = c.defaultFor(x.Type)
		}
		r = append(r, x)
	}
	return r
}

func (c *cg) cgTag() *Tag { return c.tag(false) }

func (c *cg) typ(d int) *Type {
	c.budget--
	if d <= 0 || c.budget <= 0 || c.n(0, 9) < 4 {
		return c.leaf()
	}
	return c.nest(rapid.SampledFrom([]string{kSeq, kSet, kSeqOf, kSetOf, kChoice, kTag, kConstr}).Draw(c.t, "kind"), d)
}

func (c *cg) nest(k string, d int) *Type {
	t := &Type{K: k}
	switch k {
	case kSeq, kSet:
		used := map[string]bool{}
		t.Comps = c.comps(d, 0, 4, used)
		if c.n(0, 3) == 3 {
			t.Ext = &Ext{End: c.n(0, 1) == 1}
			if len(t.Comps) > 0 {
				t.Ext.Adds = c.comps(d, 0, 2, used)
				if c.n(0, 3) == 3 {
					t.Ext.Trail = c.comps(d, 1, 2, used)
				}
			}
		}
	case kSeqOf, kSetOf:
		was := c.inBody
		c.inBody = c.inBody || c.isStr
		t.Elem = c.typ(d - 1)
		c.inBody = was
		if c.n(0, 3) == 3 {
			t.C = c.smallConstraint(true)
			t.Bare = c.n(0, 1) == 1
		}
	case kChoice:
		used := map[string]bool{}
		n := c.count(1, 3)
		was := c.inBody
		for i := 0; i < n; i++ {
			a := NamedType{c.name(false, used), nil}
			if n > 1 && c.n(0, 7) == 7 {
				a.Type = &Type{K: kNull}
			} else {
				a.Type = c.typ(d - 1)
			}
			if c.n(0, 4) == 4 && a.Type.K != kTag {
				a.Type = &Type{K: kTag, Tag: c.cgTag(), Elem: a.Type}
			}
			t.Alts = append(t.Alts, a)
		}
		c.inBody = was
		if c.n(0, 3) == 3 {
			t.AltExt = &ChoiceExt{}
			if c.n(0, 1) == 1 {
				for i := c.count(1, 3); i > 0; i-- {
					t.AltExt.Adds = append(t.AltExt.Adds, NamedType{c.name(false, used), c.typ(d - 1)})
				}
			}
		}
	case kTag:
		t.Tag = c.cgTag()
		t.Elem = c.typ(d - 1)
	case kConstr:
		e := c.typ(d - 1)
		if e.K == kTag || e.K == kSeqOf || e.K == kSetOf {
			e = c.leaf() // a constraint written after these belongs to what they contain
		}
		t.Elem = e
		t.C = c.smallConstraint(false)
	}
	return t
}

var machineRanges = [][2]int64{{0, 0}, {1, 1}, {2, 2}, {3, 3}, {4, 4}, {5, 5}, {6, 6}, {8, 8}, {16, 16}, {20, 20}, {32, 32}, {64, 64}, {0, 1}, {0, 9}, {-128, 127}, {0, 127}, {0, 255}, {1, 256}, {-32768, 32767}, {0, 65535}, {-2147483648, 2147483647}, {0, 2147483647}, {0, 4294967295}, {math.MinInt64, math.MaxInt64}, {0, math.MaxInt64}}

func (c *cg) smallConstraint(size bool) *Constraint {
	one := func(e Elem) *Constraint {
		return &Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: e}}}}}}
	}
	r := Elem{K: "range", Lo: &Value{K: "int", I: int64(c.n(0, 3))}}
	if c.n(0, 1) == 1 {
		r.Hi = &Value{K: "int", I: int64(c.n(4, 99))}
	}
	if c.n(0, 3) == 3 { // single values, sizes and ranges that are those of machine types
		r.Hi = nil
		k := c.pickN(len(machineRanges))
		r.Lo, r.Hi = &Value{K: "int", I: machineRanges[k][0]}, &Value{K: "int", I: machineRanges[k][1]}
		if r.Lo.I == r.Hi.I {
			r = Elem{K: "val", Val: r.Lo}
		}
	}
	if size || c.n(0, 2) == 2 {
		return one(Elem{K: "size", C: one(r)})
	}
	return one(r)
}

// intType: INTEGER, possibly tagged, constrained or by reference.
func (c *cg) valueTypeFor(k string) *Type {
	var refs []string
	for i := range c.m.Assigns {
		a := &c.m.Assigns[i]
		if a.Value == nil && a.Type != nil && c.m.leafOf(a.Type).K == k {
			refs = append(refs, a.Name)
		}
	}
	t := &Type{K: k}
	if len(refs) > 0 && c.n(0, 1) == 1 {
		t = &Type{K: kRef, Ref: c.pick(refs)}
	}
	switch c.n(0, 5) {
	case 4:
		t = &Type{K: kTag, Tag: c.cgTag(), Elem: t}
	case 5:
		t = &Type{K: kConstr, Elem: t, C: c.smallConstraint(false)}
	}
	return t
}

// cgModule generates a well-typed module. prefix is put before type names (for merged programs).
func genCgModule(g *G, depth, maxTypes, maxVals int) *Module {
	c := &cg{G: g, m: &Module{}, order: map[string]int{}}
	m := c.m
	m.Name = c.name(true, map[string]bool{})
	m.TagDefault = c.pick([]string{"", "EXPLICIT", "IMPLICIT"})
	m.ExtImplied = c.n(0, 5) == 5
	if c.n(0, 7) == 7 {
		m.HasImports = true
		m.Imports = []Import{{Symbols: []string{"Imported-Q", "imported-q"}, Module: "Other-Module"}}
	}
	nt, nv := c.count(1, maxTypes), c.count(0, maxVals)
	up, lo := map[string]bool{}, map[string]bool{}
	kinds := make([]string, nt)
	var tnames []string
	for i := 0; i < nt; i++ {
		n := c.name(true, up)
		tnames = append(tnames, n)
		kinds[i] = rapid.SampledFrom([]string{kSeq, kSeq, kSeq, kSet, kSeqOf, kSetOf, kChoice, kTag, kConstr, "leaf", kInt}).Draw(c.t, "decl")
		if kinds[i] == kSeq || kinds[i] == kSet {
			c.structs = append(c.structs, n)
		}
	}
	perm := rapid.Permutation(seqInts(nt)).Draw(c.t, "perm")
	for i, n := range tnames {
		c.order[n] = perm[i]
	}
	// integer values first, so that named numbers may refer to them; their place is shuffled below
	for i := 0; i < nv; i++ {
		a := Assign{Name: c.name(false, lo)}
		switch c.n(0, 9) {
		case 0, 1, 2, 3:
			a.Type, a.Value = &Type{K: kInt}, &Value{K: "int", I: c.anyInt()}
		case 4:
			a.Type, a.Value = &Type{K: kBool}, &Value{K: "bool", B: c.n(0, 1) == 1}
		case 5, 6:
			a.Type, a.Value = &Type{K: kReal}, c.real()
		case 7:
			a.Type, a.Value = &Type{K: kReal}, &Value{K: "inf", Neg: c.n(0, 1) == 1}
		case 8:
			a.Type, a.Value = &Type{K: kReal}, &Value{K: "int", I: c.anyInt()}
		case 9:
			a.Type, a.Value = &Type{K: kOID}, &Value{K: "oid", OID: []OIDComp{{Form: "num", Num: 1}, {Form: "namenum", Name: "b", Num: 2}}}
		}
		m.Assigns = append(m.Assigns, a)
	}
	// a type may be looked at by leafOf before it is complete: fill from the highest order down
	idx := make([]int, nt)
	for i, p := range perm {
		idx[p] = i
	}
	base := len(m.Assigns)
	for _, n := range tnames {
		m.Assigns = append(m.Assigns, Assign{Name: n, Type: &Type{K: kBool}})
	}
	for p := nt - 1; p >= 0; p-- {
		i := idx[p]
		c.cur = p
		c.isStr = kinds[i] == kSeq || kinds[i] == kSet
		var t *Type
		switch kinds[i] {
		case "leaf":
			t = c.leaf()
		case kInt:
			t = &Type{K: kInt, NN: c.intNN()}
			switch c.n(0, 7) {
			case 6:
				t = &Type{K: kTag, Tag: c.cgTag(), Elem: t}
			case 7:
				t = &Type{K: kConstr, Elem: t, C: c.smallConstraint(false)}
			}
		default:
			t = c.nest(kinds[i], depth)
		}
		m.Assigns[base+i].Type = t
	}
	for i := 0; i < base; i++ {
		a := &m.Assigns[i]
		if c.n(0, 1) == 1 {
			a.Type = c.valueTypeFor(a.Type.K)
		}
	}
	// a value whose named type has named numbers referring to it would still be well defined in Go,
	// but a literal REAL value must not be referred to: references go to "int" values of type INTEGER.
	m.Assigns = permuteAssigns(m.Assigns, rapid.Permutation(seqInts(len(m.Assigns))).Draw(c.t, "shuffle"))
	for i := range m.Assigns { // references to REAL values written as integers are not integer values
		fixNN(m, m.Assigns[i].Type)
	}
	for k := 2; !distinct(m.goNames()); k++ {
		renameClash(m, k)
	}
	return m
}

func fixNN(m *Module, t *Type) {
	walkTypes(t, func(t *Type) {
		for i := range t.NN {
			if t.K == kInt && t.NN[i].Val != "" {
				if a := m.valueDef(t.NN[i].Val); a != nil && m.leafOf(a.Type).K != kInt {
					t.NN[i].Val, t.NN[i].I = "", 7
				}
			}
		}
	})
}

// renameClash gives a new name to the first declaration whose Go names clash with an earlier one's.
func renameClash(m *Module, k int) {
	seen := map[string]bool{}
	for i := range m.Assigns {
		one := Module{Assigns: m.Assigns[i : i+1]}
		ns := one.goNames()
		clash := !distinct(ns)
		for _, n := range ns {
			clash = clash || seen[n]
		}
		if clash {
			old := m.Assigns[i].Name
			nw := old + "-q" + strconv.Itoa(k)
			isVal := m.Assigns[i].Value != nil
			m.Assigns[i].Name = nw
			m.walk(func(t *Type) {
				if !isVal && t.K == kRef && t.Ref == old {
					t.Ref = nw
				}
				for j := range t.NN {
					if isVal && t.NN[j].Val == old {
						t.NN[j].Val = nw
					}
				}
			})
			return
		}
		for _, n := range ns {
			seen[n] = true
		}
	}
}

func seqInts(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func permuteAssigns(as []Assign, p []int) []Assign {
	r := make([]Assign, len(as))
	for i, j := range p {
		r[i] = as[j]
	}
	return r
}

var pkgNames = []string{"", "", "main", "foo", "p", "my_pkg", "asn1", "time", "big", "math", "Foo", "x509", "A"}

func genCg(t *rapid.T, budget, depth, types, vals int) CgCase {
	g := newG(t, budget)
	m := genCgModule(g, depth, types, vals)
	switch k := rapid.SampledFrom(upTo1000).Draw(t, "long"); {
	case k >= 995:
		stretch(t, m, 300, true)
	case k >= 960:
		g.deepen(m)
	}
	return CgCase{M: m, Pkg: g.pick(pkgNames), Repr: g.pick([]string{"", "int64", "big.Int", "big.Int"})}
}
