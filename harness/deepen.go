package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// Deepening of modules that code can be generated for: chains of references, many tags and constraints on one type,
// deeply nested types, long CHOICE types where only some alternatives have tags. The modules stay well typed.

// cgSite is a place where a type is written.
type cgSite struct {
	t      **Type
	comp   *Comp // the component whose type it is
	top    bool  // the type of a declaration, possibly without tags and constraints
	constr bool  // below a constraint: a tag or list cannot be written here
}

func (m *Module) cgSites() (r []cgSite) {
	var walk func(t **Type, c *Comp, top, constr bool)
	walk = func(t **Type, c *Comp, top, constr bool) {
		r = append(r, cgSite{t, c, top, constr})
		u := *t
		comps := func(cs []Comp) {
			for i := range cs {
				if cs[i].Type != nil {
					walk(&cs[i].Type, &cs[i], false, false)
				}
			}
		}
		switch u.K {
		case kTag:
			walk(&u.Elem, c, top, false)
		case kConstr:
			walk(&u.Elem, c, top, true)
		case kSeqOf, kSetOf:
			walk(&u.Elem, nil, false, false)
		case kSeq, kSet:
			comps(u.Comps)
			if u.Ext != nil {
				comps(u.Ext.Adds)
				comps(u.Ext.Trail)
			}
		case kChoice:
			for i := range u.Alts {
				walk(&u.Alts[i].Type, nil, false, false)
			}
			if u.AltExt != nil {
				for i := range u.AltExt.Adds {
					walk(&u.AltExt.Adds[i].Type, nil, false, false)
				}
			}
		}
	}
	for i := range m.Assigns {
		if a := &m.Assigns[i]; a.Value == nil {
			walk(&a.Type, nil, true, false)
		}
	}
	return
}

var chainCounts = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 21, 32, 33, 40, 64, 65, 100, 101, 128, 129}

// chain puts k declarations between a place and the type written there.
func (g *G) chain(m *Module, s cgSite, k int, tags bool) {
	base := g.pick([]string{"Chain", "Link", "T", "Al-ias", "Z"})
	names := map[string]bool{}
	for i := range m.Assigns {
		names[goName(m.Assigns[i].Name)] = true
	}
	for names[goName(base)+"1q"] {
		base += "-z"
	}
	name := func(i int) string { return fmt.Sprintf("%s%dq", base, i) }
	var as []Assign
	last := *s.t
	for i := 1; i <= k; i++ {
		t := &Type{K: kRef, Ref: name(i + 1)}
		if i == k {
			t = last
		} else if tags && g.pickN(6) == 0 {
			t = &Type{K: kTag, Tag: g.tag(false), Elem: t}
		} else if g.pickN(8) == 0 {
			t = &Type{K: kConstr, Elem: t, C: &anyRange}
		}
		as = append(as, Assign{Name: name(i), Type: t})
	}
	*s.t = &Type{K: kRef, Ref: name(1)}
	switch at := g.pickN(len(m.Assigns) + 1); g.pickN(3) {
	case 0: // the declarations of the chain in order
		m.Assigns = append(m.Assigns[:at:at], append(as, m.Assigns[at:]...)...)
	case 1: // and in reverse
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
		m.Assigns = append(m.Assigns[:at:at], append(as, m.Assigns[at:]...)...)
	default: // spread
		for _, a := range as {
			at := g.pickN(len(m.Assigns) + 1)
			m.Assigns = append(m.Assigns[:at:at], append([]Assign{a}, m.Assigns[at:]...)...)
		}
	}
}

// wrap puts tags and constraints around a type.
func (g *G) wrap(s cgSite, tags, constrs int) {
	t := *s.t
	if t.K == kTag || t.K == kSeqOf || t.K == kSetOf {
		constrs = 0 // they would belong to what is inside
	}
	for i := 0; i < constrs; i++ {
		t = &Type{K: kConstr, Elem: t, C: &anyRange}
	}
	if !s.constr {
		for i := 0; i < tags; i++ {
			t = &Type{K: kTag, Tag: g.tag(false), Elem: t}
		}
	}
	*s.t = t
}

// nestIn puts n structured types around a type.
func (g *G) nestIn(m *Module, s cgSite, n int) {
	if s.constr {
		return
	}
	if s.top { // values may be of this type
		switch m.leafOf(*s.t).K {
		case kInt, kBool, kReal, kEnum, kOID:
			return
		}
		if m.cyclic(*s.t) { // recursion is for declared SEQUENCE and SET types
			return
		}
	}
	if s.comp != nil {
		s.comp.Def = nil
	}
	mix := g.pickN(3) == 0
	kinds := []string{kSeq, kSet, kSeqOf, kSetOf, kChoice}
	k := g.pick(kinds)
	t := *s.t
	for i := 0; i < n; i++ {
		if mix {
			k = g.pick(kinds)
		}
		switch k {
		case kSeqOf, kSetOf:
			t = &Type{K: k, Elem: t}
		case kChoice:
			t = &Type{K: k, Alts: []NamedType{{"inner", t}}}
		default:
			c := Comp{Name: "inner", Type: t, Opt: g.pickN(4) == 0}
			t = &Type{K: k, Comps: []Comp{c}}
			switch g.pickN(4) {
			case 0:
				t.Comps = append(t.Comps, Comp{Name: "after", Type: &Type{K: kBool}})
			case 1:
				t.Comps = append([]Comp{{Name: "before", Type: &Type{K: kInt}}}, t.Comps...)
			}
		}
	}
	*s.t = t
}

// widen gives a CHOICE many alternatives, with a tag on none, the last or some.
func (g *G) widen(t *Type) {
	n := g.pickAny([]int{3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 129})
	var as []NamedType
	for i := 0; i < n; i++ {
		a := NamedType{fmt.Sprintf("alt%dq", i), &Type{K: g.pick([]string{kBool, kInt, kOctet, kReal, kNull})}}
		as = append(as, a)
	}
	switch g.pickN(5) {
	case 0:
	case 1: // any one
		i := g.pickN(n)
		as[i].Type = &Type{K: kTag, Tag: g.tag(false), Elem: as[i].Type}
	case 2:
		as[n-1].Type = &Type{K: kTag, Tag: g.tag(false), Elem: as[n-1].Type}
	case 3: // below a constraint
		as[n-1].Type = &Type{K: kConstr, Elem: &Type{K: kInt}, C: &anyRange}
	case 4:
		for i := range as {
			as[i].Type = &Type{K: kTag, Tag: g.tag(false), Elem: as[i].Type}
		}
	}
	if t.AltExt == nil && g.pickN(4) == 0 {
		k := 2 + g.pickN(n-2)
		t.AltExt = &ChoiceExt{Adds: as[k:]}
		as = as[:k]
	}
	if g.pickN(2) == 0 {
		t.Alts = append(as, t.Alts...)
	} else {
		t.Alts = append(t.Alts, as...)
	}
}

func (g *G) pickAny(ns []int) int { return rapid.SampledFrom(ns).Draw(g.t, "n") }

// deepen changes a module in one or two of these ways.
func (g *G) deepen(m *Module) {
	for k := 1 + g.pickN(2); k > 0; k-- {
		var ss []cgSite
		var choices []*Type
		for _, s := range m.cgSites() {
			if m.leafOf(*s.t).K == kNull {
				continue
			}
			ss = append(ss, s)
			if (*s.t).K == kChoice {
				choices = append(choices, *s.t)
			}
		}
		if len(ss) == 0 {
			return
		}
		s := ss[g.pickN(min(len(ss), 1000))]
		switch kind := g.pickN(7); kind {
		case 0, 1:
			if s.comp != nil && s.comp.Def == nil || !m.cyclic(*s.t) {
				g.chain(m, s, g.pickAny(chainCounts), kind == 1)
			}
		case 2, 3:
			if kind == 3 { // prefer INTEGER with named numbers
				for _, x := range ss {
					if x.top && unwrap(*x.t).K == kInt && len(unwrap(*x.t).NN) > 0 {
						s = x
						if g.pickN(2) == 0 {
							break
						}
					}
				}
			}
			a, b := g.pickAny(chainCounts), g.pickAny(chainCounts)
			switch g.pickN(3) {
			case 0:
				a = 0
			case 1:
				b = 0
			}
			g.wrap(s, min(a, 65), min(b, 65))
		case 4, 5:
			n := g.pickAny(chainCounts)
			g.nestIn(m, s, min(n, 40))
		case 6:
			if len(choices) == 0 {
				a := Assign{Name: "Wide-choice", Type: &Type{K: kChoice}}
				g.widen(a.Type)
				m.Assigns = append(m.Assigns, a)
			} else {
				g.widen(choices[g.pickN(min(len(choices), 1000))])
			}
		}
	}
	for k := 2; !distinct(m.goNames()); k++ {
		renameClash(m, k)
	}
}

// taggedRef: a tag is written on t, or on what it refers to.
func (m *Module) taggedRef(t *Type) bool {
	for i := 0; i < 1000; i++ {
		switch t.K {
		case kTag:
			return true
		case kConstr:
			t = t.Elem
		case kRef:
			if t = m.typeDef(t.Ref); t == nil {
				return false
			}
		default:
			return false
		}
	}
	return false
}

// cyclic: the type reaches, by any reference, a type that reaches itself.
func (m *Module) cyclic(t *Type) bool {
	state := map[string]int{}
	var visit func(t *Type) bool
	visit = func(t *Type) (r bool) {
		walkTypes(t, func(u *Type) {
			if r || u.K != kRef {
				return
			}
			switch state[u.Ref] {
			case 1:
				r = true
			case 0:
				if d := m.typeDef(u.Ref); d != nil {
					state[u.Ref] = 1
					r = visit(d)
					state[u.Ref] = 2
				}
			}
		})
		return
	}
	return visit(t)
}
