package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Generator of modules within what encoding/asn1 can express, with values of their types.

// AsnCase: a module, and values of some of its types.
type AsnCase struct {
	M     *Module
	Repr  string `json:",omitempty"`
	Roots []AsnVal
}

type AsnVal struct {
	Type string
	V    *VV
	Neg  []AsnNeg `json:",omitempty"` // C15: wrong encodings to refuse
}

type AsnNeg struct{ At, Kind int }

type ag struct {
	*G
	m     *Module
	dec   bool
	big   bool
	names []string // declared so far
	sets  map[string]bool
	refs  map[string][]string // category -> declared type names
	all   []string            // struct types, also those declared later
	seqs  int
	inStr bool
	dep   int
}

const (
	catPrim  = "prim"  // leaf types usable anywhere
	catSeq   = "seq"   // SEQUENCE
	catSet   = "set"   // SET
	catList  = "list"  // SEQUENCE OF, SET OF
	catRaw   = "raw"   // CHOICE with tagged alternatives
	catIface = "iface" // ANY, CHOICE of untagged alternatives
	catOne   = "one"   // CHOICE with one untagged alternative
	catAlt   = "alt"   // tagged type, used as alternative only
)

func (a *ag) idx(n int) int { return rapid.SampledFrom(seqInts(n)).Draw(a.t, "i") }
func (a *ag) odds(k, n int) bool {
	return rapid.SampledFrom(seqInts(n)).Draw(a.t, "i") >= n-k // shrinks towards false
}

var anyRange = Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: Elem{K: "range"}}}}}}}

func sizeConstraint() *Constraint {
	c := Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: Elem{K: "range", Lo: &Value{K: "int"}}}}}}}}
	return &Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: Elem{K: "size", C: &c}}}}}}}
}

// prim: elem tells that the type is used where no field parameters can be given.
func (a *ag) prim(elem bool) *Type {
	k := a.pick([]string{kInt, kBool, kStr, kOctet, kEnum, kBit, kOID, kUseful, kInt, kStr})
	t := &Type{K: k}
	switch k {
	case kStr:
		switch {
		case a.dec:
			t.Ref = a.pick([]string{"UTF8String", "PrintableString", "IA5String", "NumericString", "T61String", "TeletexString", "GeneralString", "BMPString"})
		case elem:
			t.Ref = a.pick([]string{"UTF8String", "PrintableString"})
		default:
			t.Ref = a.pick([]string{"UTF8String", "PrintableString", "IA5String", "NumericString"})
		}
	case kUseful:
		t.Ref = a.pick([]string{"UTCTime", "GeneralizedTime"})
	case kEnum:
		used := map[string]bool{}
		n := int64(a.idx(3))
		for i := a.idx(3) + 1; i > 0; i-- {
			t.Items = append(t.Items, EnumItem{Name: a.freshWord(false, used), HasNN: true, I: n})
			n += int64(a.idx(4)*a.idx(100)) + 1
		}
	case kInt:
		if a.odds(1, 3) {
			used := map[string]bool{}
			t.NN = []NamedNum{{Name: a.freshWord(false, used)}, {Name: a.freshWord(false, used), I: a.anyInt()}}
		}
	case kBit:
		if a.odds(1, 4) {
			t.NN = []NamedNum{{Name: "b0"}, {Name: "b1", I: 1}}
		}
	}
	if a.odds(1, 6) {
		switch k {
		case kInt:
			t = &Type{K: kConstr, Elem: t, C: &anyRange}
		case kStr, kOctet, kBit:
			t = &Type{K: kConstr, Elem: t, C: sizeConstraint()}
		}
	}
	return t
}

func (a *ag) ref(cat string) *Type {
	l := a.refs[cat]
	if len(l) == 0 {
		return nil
	}
	return &Type{K: kRef, Ref: a.pick(l)}
}

// elemFit: a leaf type of a list element, alternative or whole value, where no parameters are given.
func (a *ag) elemFit(t *Type) bool {
	if t = a.m.encLeaf(t); t.K == kStr && !a.dec {
		return t.Ref == "UTF8String" || t.Ref == "PrintableString"
	}
	return true
}

func (a *ag) elemPrim() *Type {
	if a.odds(2, 5) {
		if r := a.ref(catPrim); r != nil && a.elemFit(r) {
			return r
		}
	}
	return a.prim(true)
}

func (a *ag) anyPrim() *Type {
	if a.odds(2, 5) {
		if r := a.ref(catPrim); r != nil {
			return r
		}
	}
	return a.prim(false)
}

// elem is a type of list elements.
func (a *ag) elem(d int) *Type {
	switch a.idx(8) {
	case 0, 1:
		return a.elemPrim()
	case 2:
		if a.inStr && len(a.all) > 0 {
			return &Type{K: kRef, Ref: a.pick(a.all)} // may be recursive
		}
		if r := a.ref(catSeq); r != nil {
			return r
		}
	case 3:
		if r := a.ref(catList); r != nil {
			return r
		}
	case 4:
		if r := a.ref(catRaw); r != nil {
			return r
		}
		if d > 0 {
			return a.choice(d - 1)
		}
	case 5:
		if !a.dec {
			return a.iface()
		}
	case 6:
		if d > 0 {
			return a.structure(kSeq, d-1)
		}
	case 7:
		if d > 0 {
			return a.list(kSeqOf, d-1)
		}
	}
	return a.elemPrim()
}

func (a *ag) list(k string, d int) *Type {
	t := &Type{K: k, Elem: a.elem(d)}
	if a.odds(1, 5) {
		t.C = sizeConstraint()
		t.Bare = a.odds(1, 2)
	}
	return t
}

// choice has tagged alternatives.
func (a *ag) choice(d int) *Type {
	t := &Type{K: kChoice}
	used := map[string]bool{}
	n := a.idx(3) + 1
	if a.odds(1, 12) {
		n += a.idx(9)
	}
	for i := 0; i < n; i++ {
		alt := NamedType{Name: a.freshWord(false, used)}
		var e *Type
		switch a.idx(6) {
		case 0:
			e = a.ref(catSeq)
		case 1:
			e = a.ref(catList)
		case 2:
			e = a.ref(catSet)
		case 3:
			if a.odds(1, 2) {
				e = &Type{K: kNull}
			}
		}
		if e == nil {
			e = a.anyPrim()
		}
		alt.Type = &Type{K: kTag, Tag: &Tag{Num: int64(100 + i), Kw: a.pick([]string{"", "", "EXPLICIT", "IMPLICIT"})}, Elem: e}
		if a.odds(1, 3) {
			alt.Type.Tag.Class = "APPLICATION"
		}
		if r := a.ref(catAlt); r != nil && a.odds(1, 4) {
			alt.Type = r
			if i > 0 {
				for _, o := range t.Alts {
					if o.Type.K == kRef && o.Type.Ref == r.Ref {
						alt.Type = nil
					}
				}
				if alt.Type == nil {
					break
				}
			}
		}
		t.Alts = append(t.Alts, alt)
	}
	if a.odds(1, 5) {
		t.AltExt = &ChoiceExt{}
	}
	return t
}

// group is the identity of a tag as far as encoding/asn1 tells universal types apart.
func (a *ag) group(t *Type) []string {
	t0 := t
	for {
		switch t.K {
		case kTag:
			return []string{fmt.Sprintf("%s %d", t.Tag.Class, t.Tag.Num)}
		case kConstr:
			t = t.Elem
			continue
		case kRef:
			t = a.m.typeDef(t.Ref)
			continue
		case kChoice:
			var r []string
			for _, alt := range t.alts() {
				r = append(r, a.group(alt.Type)...)
			}
			return r
		case kUseful:
			return []string{"time"}
		case kStr:
			return []string{"string"}
		case kSeqOf:
			return []string{kSeq}
		case kSetOf:
			return []string{kSet}
		case kAny:
			panic("tag of ANY " + t0.K)
		}
		return []string{t.K}
	}
}

// iface is represented by an interface{}.
func (a *ag) iface() *Type {
	if a.odds(1, 2) {
		if r := a.ref(catIface); r != nil {
			return r
		}
	}
	return a.newIface()
}

func (a *ag) newIface() *Type {
	if a.odds(1, 2) {
		t := &Type{K: kAny}
		if a.odds(1, 3) {
			t.Ref = a.word(false)
		}
		return t
	}
	t := &Type{K: kChoice}
	used, groups := map[string]bool{}, map[string]bool{}
	for i := 2 + a.idx(2); i > 0 || len(t.Alts) < 2; i-- {
		p := a.ifacePrim()
		if g := a.group(p)[0]; !groups[g] {
			groups[g] = true
			t.Alts = append(t.Alts, NamedType{a.freshWord(false, used), p})
		}
	}
	return t
}

func (a *ag) ifacePrim() *Type {
	for {
		p := a.elemPrim()
		l := a.m.encLeaf(p)
		if a.dec && (l.K == kEnum || l.K == kStr && l.Ref == "GeneralString") {
			continue
		}
		return p
	}
}

// single is a CHOICE represented by its only alternative.
func (a *ag) single(d int) *Type {
	var e *Type
	switch a.idx(5) {
	case 0:
		e = a.ref(catSeq)
	case 1:
		e = a.ref(catList)
	case 2:
		if d > 0 {
			e = a.list(a.pick([]string{kSeqOf, kSetOf}), d-1)
		}
	case 3:
		if d > 0 {
			e = a.structure(kSeq, d-1)
		}
	}
	if e == nil {
		e = a.anyPrim()
	}
	return &Type{K: kChoice, Alts: []NamedType{{a.word(false), e}}}
}

// compType is the type of a component, not yet tagged.
func (a *ag) compType(d int) (t *Type, cat string) {
	cat = a.pick([]string{catPrim, catSeq, catList, catSet, catRaw, catIface, catOne, catPrim, catPrim, catPrim, catList})
	if cat != catPrim && cat != catIface && a.odds(1, 2) {
		if t = a.ref(cat); t != nil {
			return
		}
	}
	if d > 0 {
		switch cat {
		case catSeq:
			return a.structure(kSeq, d-1), cat
		case catSet:
			return a.structure(kSet, d-1), cat
		case catList:
			return a.list(a.pick([]string{kSeqOf, kSetOf}), d-1), cat
		case catRaw:
			return a.choice(d - 1), cat
		case catOne:
			return a.single(d - 1), cat
		}
	}
	if cat == catIface {
		return a.iface(), cat
	}
	return a.anyPrim(), catPrim
}

var asnTagNums = []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 30, 31, 32, 50, 127, 128, 129, 255, 256, 16383, 16384, 1 << 21, math.MaxInt32 - 1, math.MaxInt32}

// codegenExplicit: the field is given the explicit parameter.
func (a *ag) codegenExplicit(tag *Tag, e *Type) bool {
	if l := a.m.leafOf(e); l.K == kChoice && a.m.taggedAlts(l) {
		return (&derEnc{m: a.m}).explicit(tag, &Type{K: kNull})
	}
	return (&derEnc{m: a.m}).explicit(tag, e)
}

func (a *ag) structure(k string, d int) *Type {
	t := &Type{K: k}
	n := a.idx(5)
	if a.dep == 0 && n == 0 {
		n = 3
	}
	if a.odds(1, 15) {
		n = 5 + a.idx(20)
	}
	a.dep++
	defer func() { a.dep-- }()
	names := map[string]bool{}
	used := map[string]bool{} // tags that may not occur now
	open := false             // an untagged component was left out possibly
	var comps []Comp
	for i := 0; i < n; i++ {
		e, cat := a.compType(d)
		c := Comp{Name: a.freshWord(false, names), Type: e}
		last := i == n-1 && k == kSeq
		opt := a.odds(2, 5)
		tagged := a.odds(1, 2) || k == kSet && (cat == catRaw || cat == catIface)
		if cat == catIface && a.dec {
			tagged = false
			if k == kSet {
				continue
			}
		}
		if !tagged && (cat == catRaw || cat == catIface) {
			if opt && !last {
				opt = false
			}
			if cat == catIface && open {
				continue
			}
		}
		if tagged {
			tag := &Tag{Num: asnTagNums[a.idx(len(asnTagNums))], Class: a.pick([]string{"", "", "", "APPLICATION", "PRIVATE"}), Kw: a.pick([]string{"", "", "EXPLICIT", "IMPLICIT"})}
			if a.dec && a.codegenExplicit(tag, e) && tag.Class == "PRIVATE" {
				tag.Class = "APPLICATION"
			}
			l := a.m.encLeaf(e)
			if a.dec && l.K == kStr && !a.codegenExplicit(tag, e) && strTags[l.Ref] >= 20 && l.Ref != "IA5String" {
				tag.Kw = "EXPLICIT"
				if tag.Class == "PRIVATE" {
					tag.Class = ""
				}
			}
			c.Type = &Type{K: kTag, Tag: tag, Elem: e}
		}
		var groups []string
		if tagged || cat != catIface {
			groups = a.group(c.Type)
		}
		clash := false
		for _, g := range groups {
			clash = clash || used[g]
		}
		if clash {
			continue
		}
		if opt {
			c.Opt = true
			if v := a.defaultFor(e); v != nil && a.odds(1, 2) {
				c.Opt, c.Def = false, v
			}
		}
		if !opt && k == kSeq {
			used, open = map[string]bool{}, false
		} else {
			for _, g := range groups {
				used[g] = true
			}
			open = open || !tagged
		}
		comps = append(comps, c)
	}
	if k == kSet {
		key := func(c *Comp) int64 {
			x := c.Type
			for {
				switch x.K {
				case kTag:
					return int64(classNums[x.Tag.Class])<<40 | x.Tag.Num
				case kConstr:
					x = x.Elem
					continue
				case kRef:
					x = a.m.typeDef(x.Ref)
					continue
				case kChoice:
					x = x.Alts[0].Type
					continue
				}
				return int64((&derEnc{m: a.m}).univNum(x))
			}
		}
		sort.SliceStable(comps, func(i, j int) bool { return key(&comps[i]) < key(&comps[j]) })
	}
	t.Comps = comps
	if len(comps) > 0 && a.odds(1, 4) {
		cut := a.idx(len(comps)) + 1
		t.Ext = &Ext{Adds: comps[cut:]}
		t.Comps = comps[:cut]
	}
	return t
}

var univNums = map[string]int{kBool: 1, kInt: 2, kBit: 3, kOctet: 4, kNull: 5, kOID: 6, kEnum: 10, kSeq: 16, kSeqOf: 16, kSet: 17, kSetOf: 17}

func (e *derEnc) univNum(t *Type) int {
	switch t.K {
	case kStr:
		return strTags[t.Ref]
	case kUseful:
		if t.Ref == "UTCTime" {
			return 23
		}
		return 24
	}
	return univNums[t.K]
}

// defaultFor: defaults that encoding/asn1 can express.
func (a *ag) defaultFor(t *Type) *Value {
	l := a.m.encLeaf(t)
	switch l.K {
	case kBool:
		return &Value{K: "bool"}
	case kInt:
		if a.big && a.dec {
			return nil
		}
		if !a.big && len(l.NN) > 0 && l.NN[0].I == 0 && l.NN[0].Val == "" && a.odds(1, 2) {
			return &Value{K: "ident", S: l.NN[0].Name}
		}
		return &Value{K: "int", I: a.anyInt()}
	case kEnum:
		if l.Items[0].I == 0 {
			return &Value{K: "ident", S: l.Items[0].Name}
		}
	case kStr, kOctet, kBit, kOID, kUseful: // a value the code generator cannot know
		if !a.m.HasImports {
			a.m.HasImports = true
			a.m.Imports = []Import{{Symbols: []string{importedDefault}, Module: "Other"}}
		}
		return &Value{K: "ident", S: importedDefault}
	}
	return nil
}

const importedDefault = "the-default"

func (c *Comp) unknownDefault() bool {
	return c.Def != nil && c.Def.K == "ident" && c.Def.S == importedDefault
}

// isDefault: v is the default value, which all are integers, FALSE or named 0.
func isDefault(d *Value, l *Type, v *VV) bool {
	switch l.K {
	case kBool:
		return v.B == d.B
	case kInt, kEnum:
		return bigOf(v.S).Cmp(big.NewInt(d.I)) == 0
	}
	return false
}

func (a *ag) declare(cat string, t *Type) string {
	name := fmt.Sprintf("T%d", len(a.names))
	if cat == catSeq {
		name = fmt.Sprintf("S%d", len(a.refs["S"]))
		a.refs["S"] = append(a.refs["S"], name)
	} else if a.odds(1, 3) {
		name += a.pick([]string{"-SET", "SET", "-x", "-Val", "-a-b"})
	}
	a.names = append(a.names, name)
	a.m.Assigns = append(a.m.Assigns, Assign{Name: name, Type: t})
	a.refs[cat] = append(a.refs[cat], name)
	return name
}

func genAsn(t *rapid.T, dec bool) AsnCase {
	a := &ag{G: newG(t, 1000), dec: dec, refs: map[string][]string{}, m: &Module{Name: "M"}}
	a.m.TagDefault = a.pick([]string{"", "EXPLICIT", "IMPLICIT", "IMPLICIT"})
	c := AsnCase{M: a.m, Repr: a.pick([]string{"", "int64", "big.Int"})}
	a.big = c.Repr == "big.Int"
	structs := 1 + a.idx(3)
	for i := 0; i < structs; i++ {
		a.all = append(a.all, fmt.Sprintf("S%d", i))
	}
	for i := a.idx(5); i > 0; i-- {
		switch cat := a.pick([]string{catPrim, catPrim, catList, catRaw, catIface, catOne, catSet, catAlt, "alias"}); cat {
		case catPrim:
			a.declare(cat, a.prim(false))
		case catList:
			a.declare(cat, a.list(a.pick([]string{kSeqOf, kSetOf}), 1))
		case catRaw:
			a.declare(cat, a.choice(1))
		case catIface:
			a.declare(cat, a.newIface())
		case catOne:
			a.declare(cat, a.single(1))
		case catSet:
			a.declare(cat, a.structure(kSet, 1))
		case catAlt:
			e := a.anyPrim()
			if r := a.ref(catSet); r != nil && a.odds(1, 2) {
				e = r
			}
			a.declare(cat, &Type{K: kTag, Tag: &Tag{Class: a.pick([]string{"APPLICATION", ""}), Num: int64(110 + len(a.names)), Kw: a.pick([]string{"", "IMPLICIT", "EXPLICIT"})}, Elem: e})
		case "alias":
			for _, cat := range []string{catPrim, catList, catSet, catRaw, catIface, catOne} {
				if r := a.ref(cat); r != nil && a.odds(1, 2) {
					a.declare(cat, r)
					break
				}
			}
		}
	}
	depth := 2
	if a.odds(1, 40) {
		depth = 3 + a.idx(3)
	}
	for i := 0; i < structs; i++ {
		a.inStr = true
		s := a.structure(kSeq, depth)
		a.inStr = false
		a.declare(catSeq, s)
	}
	if a.odds(1, 3) {
		a.declare(catList, a.list(a.pick([]string{kSeqOf, kSetOf}), 1))
	}
	var roots []string
	for _, cat := range []string{catSeq, catSeq, catList, catPrim} {
		for _, n := range a.refs[cat] {
			if a.elemFit(a.m.typeDef(n)) {
				roots = append(roots, n)
			}
		}
	}
	for i := 1 + a.idx(3); i > 0; i-- {
		r := AsnVal{Type: a.pick(roots)}
		r.V = a.val(a.m.typeDef(r.Type), depth+1, false, false)
		if dec {
			for k := a.idx(4); k > 0; k-- {
				r.Neg = append(r.Neg, AsnNeg{a.idx(12), a.idx(4)})
			}
		}
		c.Roots = append(c.Roots, r)
	}
	if a.odds(1, 25) { // chains of references
		for k := 1 + a.idx(2); k > 0; k-- {
			var ss []cgSite
			for _, s := range a.m.cgSites() {
				if !a.m.taggedRef(*s.t) && !a.m.cyclic(*s.t) && a.m.leafOf(*s.t).K != kNull {
					ss = append(ss, s)
				}
			}
			if len(ss) > 0 {
				a.chain(a.m, ss[a.pickN(min(len(ss), 1000))], a.pickAny(chainCounts), false)
			}
		}
	}
	if a.odds(1, 3) { // constraints, which do not matter for the encoding, on any types
		for _, s := range a.m.cgSites() {
			if !a.odds(1, 4) {
				continue
			}
			switch t := *s.t; t.K {
			case kTag:
			case kSeqOf, kSetOf:
				if t.C == nil {
					t.C = sizeConstraint()
				}
			default:
				*s.t = &Type{K: kConstr, Elem: t, C: []*Constraint{&anyRange, sizeConstraint()}[a.idx(2)]}
			}
		}
	}
	if a.odds(1, 2) {
		c.M.Assigns = permuteAssigns(c.M.Assigns, rapid.Permutation(seqInts(len(c.M.Assigns))).Draw(t, "order"))
	}
	return c
}

var asnLens = []int{0, 1, 2, 3, 5, 10, 126, 127, 128, 129, 255, 256, 300}

func (a *ag) text(alphabet string, min int) Str {
	n := asnLens[a.idx(len(asnLens))]
	if a.odds(1, 40) {
		n = 65530 + a.idx(10)
	}
	if n < min {
		n = min
	}
	al := []rune(alphabet)
	k, step := a.idx(len(al)), a.idx(len(al))
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteRune(al[k])
		k = (k + step) % len(al)
	}
	return Str(b.String())
}

const printableChars = "abcxyzABCXYZ0129 '()+,-./:=?"

// val generates a value. field: parameters of a field apply to it. nz: its Go value has to be non-zero.
func (a *ag) val(t *Type, d int, field, nz bool) *VV {
	switch t.K {
	case kTag, kConstr:
		return a.val(t.Elem, d, field, nz)
	case kRef:
		return a.val(a.m.typeDef(t.Ref), d, field, nz)
	case kBool:
		return &VV{B: nz || a.odds(1, 2)}
	case kInt:
		if a.big && a.odds(1, 3) {
			n := new(big.Int).Lsh(big.NewInt(int64(a.idx(5)-2)), uint(a.idx(200)))
			n.Add(n, big.NewInt(int64(a.idx(3)-1)))
			return &VV{S: Str(n.String())}
		}
		n := a.pick([]string{"0", "1", "-1", "5", "127", "128", "255", "256", "-127", "-128", "-129", "-256", "-32768", "32767", "32768", "65535", "65536", "9223372036854775807", "-9223372036854775808", "4294967296"})
		if a.odds(1, 4) {
			n = fmt.Sprint(rapid.Int64().Draw(a.t, "int"))
		}
		if nz && n == "0" && !a.big {
			n = "-1"
		}
		return &VV{S: Str(n)}
	case kEnum:
		n := t.Items[a.idx(len(t.Items))].I
		if nz && n == 0 {
			if n = t.Items[len(t.Items)-1].I; n == 0 {
				return nil
			}
		}
		return &VV{S: Str(fmt.Sprint(n))}
	case kOctet:
		return &VV{By: []byte(a.text("a\x00b\u00ff\x7f", 0))}
	case kBit:
		b := []byte(a.text("a\x00b\u00ff\x7f", 0))
		pad := 0
		if len(b) > 0 {
			pad = a.idx(8)
			b[len(b)-1] &^= byte(1<<pad - 1)
			if len(t.NN) > 0 { // no trailing zero bits when bits are named
				b[len(b)-1] |= 1 << pad
			}
		}
		return &VV{By: b, N: 8*len(b) - pad}
	case kNull:
		return &VV{}
	case kOID:
		v := &VV{Arcs: []int64{int64(a.idx(3)), int64(a.idx(40))}}
		if v.Arcs[0] == 2 {
			v.Arcs[1] = []int64{0, 39, 40, 47, 48, 100, 999, math.MaxInt32 - 80}[a.idx(8)]
		}
		for i := a.idx(6); i > 0; i-- {
			v.Arcs = append(v.Arcs, []int64{0, 1, 127, 128, 113549, 16383, 16384, math.MaxInt32}[a.idx(8)])
		}
		return v
	case kUseful:
		if t.Ref == "UTCTime" || field && a.odds(1, 2) || a.dec && a.odds(1, 2) {
			lo, hi := time.Date(1950, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), time.Date(2049, 12, 31, 23, 59, 59, 0, time.UTC).Unix()
			return &VV{T: []int64{lo, hi, 0, rapid.Int64Range(lo, hi).Draw(a.t, "time")}[a.idx(4)]}
		}
		lo, hi := time.Date(2050, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), time.Date(9999, 12, 31, 23, 59, 59, 0, time.UTC).Unix()
		return &VV{T: []int64{lo, hi, time.Date(1949, 12, 31, 23, 59, 59, 0, time.UTC).Unix(), time.Date(1000, 1, 1, 0, 0, 0, 0, time.UTC).Unix(), rapid.Int64Range(lo, hi).Draw(a.t, "time")}[a.idx(5)]}
	case kStr:
		min := 0
		if nz {
			min = 1
		}
		switch t.Ref {
		case "PrintableString":
			return &VV{S: a.text(printableChars, min)}
		case "NumericString":
			return &VV{S: a.text("0123456789 ", min)}
		case "UTF8String":
			if !field && !a.dec { // otherwise encoded as a PrintableString
				return &VV{S: a.text("abc é€𝄞_\x00", 0) + Str(a.pick([]string{"é", "_", "*", "@"}))}
			}
			return &VV{S: a.text("abc é€𝄞_\x00", min)}
		case "BMPString":
			return &VV{S: a.text("abc é€_", min)}
		}
		return &VV{S: a.text("abc @_~\x00\x7f", min)} // IA5 and those decoded byte for byte
	case kAny:
		p := a.ifacePrim()
		v := a.val(p, d, false, nz)
		if v == nil {
			p, v = &Type{K: kBool}, &VV{B: true}
		}
		return &VV{AT: p, Items: []*VV{a.small(p, v, nz)}}
	case kChoice:
		alts := t.alts()
		i := a.idx(len(alts))
		raw := a.m.taggedAlts(t)
		for range alts {
			if v := a.val(alts[i].Type, d-1, raw || field && len(alts) == 1, nz && !raw); v != nil {
				if !raw && len(alts) > 1 {
					v = a.small(alts[i].Type, v, nz)
				}
				return &VV{Alt: i, Items: []*VV{v}}
			}
			i = (i + 1) % len(alts)
		}
		return nil
	case kSeqOf, kSetOf:
		v := &VV{Items: []*VV{}}
		n := 0
		if d > 0 {
			n = a.idx(4)
			if l := a.m.leafOf(t.Elem).K; a.odds(1, 25) && (l == kInt || l == kBool || l == kOID || l == kEnum) {
				n = 10 + a.idx(140)
			}
		}
		if n > 0 {
			for i := n; i > 0; i-- {
				v.Items = append(v.Items, a.val(t.Elem, d-1, false, false))
			}
		}
		return v
	case kSeq, kSet:
		v := &VV{Items: []*VV{}}
		for _, c := range t.allComps() {
			v.Items = append(v.Items, a.compVal(c, d, nz))
		}
		if nz && a.zero(t, v) {
			return nil
		}
		return v
	}
	panic("no values of " + t.K)
}

func (a *ag) compVal(c Comp, d int, nz bool) *VV {
	l := a.m.encLeaf(c.Type)
	iface := a.m.leafOf(c.Type)
	isIface := iface.K == kAny || iface.K == kChoice && len(iface.Alts) > 1 && !a.m.taggedAlts(iface)
	if !c.Opt && c.Def == nil {
		if v := a.val(c.Type, d-1, true, nz); v != nil {
			return v
		}
		return a.val(c.Type, d-1, true, false)
	}
	if (a.odds(1, 3) || d <= 0) && !(isIface && !a.dec) && !(a.dec && c.unknownDefault()) {
		return nil
	}
	// where no default is expressed, encoding/asn1 takes a zero value for an absent one
	nonZero := !a.dec && !(c.Def != nil && c.Def.K == "int" && !a.big)
	v := a.val(c.Type, d-1, true, nonZero || isIface)
	if v != nil && c.Def != nil && isDefault(c.Def, l, a.through(c.Type, v)) {
		return nil
	}
	return v
}

// small: an integer held by an interface{} is an int64.
func (a *ag) small(t *Type, v *VV, nz bool) *VV {
	if a.m.encLeaf(t).K == kInt && (!bigOf(v.S).IsInt64() || nz && v.S == "0") {
		return &VV{S: "-77"}
	}
	return v
}

// through follows v through CHOICEs of one alternative.
func (a *ag) through(t *Type, v *VV) *VV {
	for {
		t = a.m.leafOf(t)
		if t.K == kChoice && len(t.Alts) == 1 && !a.m.taggedAlts(t) {
			t, v = t.Alts[0].Type, v.Items[0]
			continue
		}
		return v
	}
}

// zero: the Go value is the zero value of its type.
func (a *ag) zero(t *Type, v *VV) bool {
	if v == nil {
		return true
	}
	v = a.through(t, v)
	t = a.m.encLeaf(t)
	switch t.K {
	case kBool:
		return !v.B
	case kInt:
		return v.S == "0" && !a.big
	case kEnum:
		return v.S == "0"
	case kStr:
		return v.S == ""
	case kSeq, kSet:
		for i, c := range t.allComps() {
			if v.Items[i] != nil && !a.zero(c.Type, v.Items[i]) || v.Items[i] == nil && c.Def != nil && c.Def.K == "int" && c.Def.I != 0 && !a.big {
				return false
			}
		}
		return true
	}
	return false
}

// renamed is a copy of m with all type names prefixed.
func (m *Module) prefixed(p string) *Module {
	b, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	r := &Module{}
	if err := json.Unmarshal(b, r); err != nil {
		panic(err)
	}
	for i := range r.Assigns {
		r.Assigns[i].Name = p + r.Assigns[i].Name
	}
	r.walk(func(t *Type) {
		if t.K == kRef {
			t.Ref = p + t.Ref
		}
	})
	return r
}
