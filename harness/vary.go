package main

import (
	"encoding/json"

	"pgregory.net/rapid"
)

// Modules of similar declarations: what one of them has, the next one lacks, at the same place. That is where something
// kept from earlier (in the stack of the parser, say) shows.

func copyType(t *Type) *Type {
	var r Type
	b, _ := json.Marshal(t)
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return &r
}

// less takes something optional out of a type. It changes the type.
func (g *G) less(t *Type) {
	var cuts []func()
	cut := func(possible bool, f func()) {
		if possible {
			cuts = append(cuts, f)
		}
	}
	var constraint func(c *Constraint)
	var elem func(e *Elem)
	exc := func(p **Exc) { cut(*p != nil, func() { *p = nil }) }
	set := func(s *ElemSet) {
		if s.AllExcept != nil {
			elem(s.AllExcept)
		}
		cut(len(s.Unions) > 1, func() { s.Unions = s.Unions[:1] })
		cut(len(s.Unions) > 1, func() { s.Unions = s.Unions[1:] })
		for i := range s.Unions {
			u := &s.Unions[i]
			cut(len(u.Elems) > 1, func() { u.Elems = u.Elems[:1] })
			for j := range u.Elems {
				ie := &u.Elems[j]
				elem(&ie.E)
				if ie.Except != nil {
					cut(true, func() { ie.Except = nil })
					elem(ie.Except)
				}
			}
		}
	}
	elem = func(e *Elem) {
		cut(e.Lo != nil, func() { e.Lo = nil })
		cut(e.Hi != nil, func() { e.Hi = nil })
		cut(e.LoO, func() { e.LoO = false })
		cut(e.HiO, func() { e.HiO = false })
		if e.C != nil {
			constraint(e.C)
		}
		if e.P != nil {
			set(e.P)
		}
		if in := e.Inner; in != nil {
			cut(in.Partial, func() { in.Partial = false })
			cut(len(in.Named) > 1, func() { in.Named = in.Named[:1] })
			for i := range in.Named {
				x := &in.Named[i]
				cut(x.C != nil, func() { x.C = nil })
				cut(x.Presence != "", func() { x.Presence = "" })
				if x.C != nil {
					constraint(x.C)
				}
			}
			if in.Single != nil {
				constraint(in.Single)
			}
		}
	}
	constraint = func(c *Constraint) {
		set(&c.Root)
		exc(&c.Exc)
		cut(c.Ext, func() { c.Ext, c.Add = false, nil })
		cut(c.Add != nil, func() { c.Add = nil })
		if c.Add != nil {
			set(c.Add)
		}
	}
	comps := func(cs *[]Comp, least int) {
		cut(len(*cs) > least, func() { *cs = (*cs)[:len(*cs)-1] })
		cut(len(*cs) > least, func() { *cs = (*cs)[1:] })
		for i := range *cs {
			c := &(*cs)[i]
			cut(c.Opt, func() { c.Opt = false })
			cut(c.Def != nil, func() { c.Def = nil })
			cut(c.CompsOf != nil, func() { *c = Comp{Name: "plain", Type: c.CompsOf} })
		}
	}
	walkTypes(t, func(u *Type) {
		least := 0
		if u.Ext != nil {
			least = 1
			exc(&u.Ext.Exc)
			cut(true, func() { u.Ext = nil })
			if len(u.Ext.Trail) == 0 {
				comps(&u.Ext.Adds, 0)
				cut(u.Ext.End, func() { u.Ext.End = false })
			}
		}
		if len(u.Comps) > 0 {
			comps(&u.Comps, least)
		}
		cut(len(u.Alts) > 1, func() { u.Alts = u.Alts[:1] })
		if x := u.AltExt; x != nil {
			exc(&x.Exc)
			cut(len(u.Alts) > 0, func() { u.AltExt = nil })
			cut(len(x.Adds) > 0, func() { x.Adds = x.Adds[:len(x.Adds)-1] })
			cut(x.End, func() { x.End = false })
		}
		cut(len(u.NN) > 0, func() { u.NN = nil })
		cut(len(u.NN) > 1, func() { u.NN = u.NN[1:] })
		for i := range u.NN {
			cut(u.NN[i].Mod != "", func() { u.NN[i].Mod = "" })
		}
		cut(len(u.Items) > 1, func() { u.Items = u.Items[:len(u.Items)-1] })
		for i := range u.Items {
			it := &u.Items[i]
			cut(it.HasNN, func() { *it = EnumItem{Name: it.Name} })
		}
		cut(u.ElemName != "", func() { u.ElemName = "" })
		cut(u.K == kAny && u.Ref != "", func() { u.Ref = "" })
		if u.Tag != nil {
			tag := u.Tag
			cut(tag.Class != "", func() { tag.Class = "" })
			cut(tag.Kw != "", func() { tag.Kw = "" })
			cut(tag.Mod != "", func() { tag.Mod = "" })
		}
		switch {
		case u.K == kSeqOf || u.K == kSetOf:
			cut(u.C != nil, func() { u.C, u.Bare = nil, false })
		case u.C != nil:
			constraint(u.C)
		}
	})
	if len(cuts) > 0 {
		cuts[g.pickN(len(cuts))]()
	}
}

// variants is a module of one declaration in several forms.
func (g *G) variants(base *Type) *Module {
	m := &Module{Name: "M"}
	for i := g.pickN(3); i > 0; i-- {
		m.Assigns = append(m.Assigns, Assign{Name: "Other", Type: &Type{K: kNull}})
	}
	n := 2 + g.pickN(5)
	last := base
	for i := 0; i < n; i++ {
		t := copyType(last)
		if i > 0 {
			for k := 1 + g.pickN(2); k > 0; k-- {
				g.less(t)
			}
		}
		if g.pickN(3) == 0 {
			last = t
		}
		m.Assigns = append(m.Assigns, Assign{Name: "T", Type: t})
	}
	if g.pickN(2) == 0 { // any order
		for i := len(m.Assigns) - 1; i > 0; i-- {
			j := g.pickN(i + 1)
			m.Assigns[i], m.Assigns[j] = m.Assigns[j], m.Assigns[i]
		}
	}
	return m
}

func genC01variants(t *rapid.T) TextCase {
	g := newG(t, 16)
	var base *Type
	for k := 0; k < 4; k++ {
		base = g.typ(2)
		if base.K == kSeq || base.K == kSet || base.K == kChoice {
			break
		}
	}
	return TextCase{g.variants(base), plainLayout}
}

func genC02variants(t *rapid.T) TextCase {
	c := genC02(t)
	g := newG(t, 16)
	c.M = g.variants(c.M.Assigns[0].Type)
	return c
}

// simple is one of the least types, all of which are about as frequent.
func (g *G) simple() *Type {
	few := []string{"a", "b", "c"}
	switch k := g.pickN(30); {
	case k < 13:
		return &Type{K: kStr, Ref: strKeywords[k%len(strKeywords)]}
	case k < 20:
		return &Type{K: []string{kBool, kInt, kOctet, kReal, kNull, kOID, kBit}[k-13]}
	case k == 20:
		return &Type{K: g.pick([]string{kChar, kSeq, kSet})}
	case k == 21:
		return &Type{K: kUseful, Ref: g.pick([]string{"GeneralizedTime", "UTCTime"})}
	case k == 22:
		return &Type{K: kAny}
	case k == 23:
		return &Type{K: kAny, Ref: g.pick(few)}
	case k == 24:
		return &Type{K: kRef, Ref: g.pick([]string{"A", "B", "C"})}
	case k == 25:
		return &Type{K: kEnum, Items: []EnumItem{{Name: g.pick(few)}}}
	case k == 26:
		return &Type{K: g.pick([]string{kSeqOf, kSetOf}), ElemName: g.pick([]string{"", "a"}), Elem: g.simple()}
	case k == 27:
		lo, hi := int64(g.pickN(3)), int64(g.pickN(3))
		return &Type{K: kConstr, Elem: &Type{K: kInt}, C: &Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: Elem{K: "range", Lo: &Value{K: "int", I: lo}, Hi: &Value{K: "int", I: hi}}}}}}}}}
	default:
		tag := &Tag{Num: int64(g.pickN(20)), Class: g.pick([]string{"", "", "APPLICATION", "PRIVATE", "UNIVERSAL"}), Kw: g.pick([]string{"", "IMPLICIT", "EXPLICIT"})}
		return &Type{K: kTag, Tag: tag, Elem: g.simple()}
	}
}

// genC01neighbours: lists of simple types, so that any two of them stand next to each other.
func genC01neighbours(t *rapid.T) TextCase {
	g := newG(t, 16)
	m := &Module{Name: "M"}
	n := g.n(2, 24)
	used := map[string]bool{}
	whole := &Type{K: g.pick([]string{kSeq, kSet, kChoice, kChoice, "declarations"})}
	for i := 0; i < n; i++ {
		u := g.simple()
		switch whole.K {
		case "declarations":
			m.Assigns = append(m.Assigns, Assign{Name: g.freshWord(true, used), Type: u})
		case kChoice:
			whole.Alts = append(whole.Alts, NamedType{g.freshWord(false, used), u})
		default:
			c := Comp{Name: g.freshWord(false, used), Type: u}
			switch g.pickN(4) {
			case 0:
				c.Opt = true
			case 1:
				c.Def = g.value()
			}
			whole.Comps = append(whole.Comps, c)
		}
	}
	if whole.K != "declarations" {
		m.Assigns = append(m.Assigns, Assign{Name: "A", Type: whole})
	}
	return TextCase{m, plainLayout}
}
