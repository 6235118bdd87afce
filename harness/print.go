package main

import (
	"strconv"
	"strings"
)

// Tok is one lexical item as written. K: 'w' word, 'n' number (or real literal), 's' symbol.
type Tok struct {
	S string
	K byte
}

type printer struct{ toks []Tok }

func (p *printer) w(ss ...string) {
	for _, s := range ss {
		p.toks = append(p.toks, Tok{s, 'w'})
	}
}
func (p *printer) n(s string) { p.toks = append(p.toks, Tok{s, 'n'}) }
func (p *printer) s(ss ...string) {
	for _, s := range ss {
		p.toks = append(p.toks, Tok{s, 's'})
	}
}
func (p *printer) int(i int64) {
	s := strconv.FormatInt(i, 10)
	if s[0] == '-' {
		p.s("-")
		s = s[1:]
	}
	p.n(s)
}

func (p *printer) defVal(mod, val string) {
	if mod != "" {
		p.w(mod)
		p.s(".")
	}
	p.w(val)
}

func (p *printer) oid(cs []OIDComp) {
	p.s("{")
	for _, c := range cs {
		switch c.Form {
		case "name":
			p.w(c.Name)
		case "num":
			p.int(c.Num)
		case "namenum":
			p.w(c.Name)
			p.s("(")
			p.int(c.Num)
			p.s(")")
		case "nameref":
			p.w(c.Name)
			p.s("(")
			p.defVal(c.Mod, c.Val)
			p.s(")")
		case "ref":
			p.defVal(c.Mod, c.Val)
		default:
			panic("oid form " + c.Form)
		}
	}
	p.s("}")
}

// realText is the literal without its sign.
func realText(v *Value) string {
	s := v.Int
	if v.Frac != "" {
		s += "." + v.Frac
	}
	return s + v.Exp
}

func (p *printer) value(v *Value) {
	switch v.K {
	case "int":
		p.int(v.I)
	case "bigint": // decimal text in Int, any size
		if v.Neg {
			p.s("-")
		}
		p.n(v.Int)
	case "ident":
		p.w(v.S)
	case "bool":
		if v.B {
			p.w("TRUE")
		} else {
			p.w("FALSE")
		}
	case "real":
		if v.Neg {
			p.s("-")
		}
		p.n(realText(v))
	case "inf":
		if v.Neg {
			p.w("MINUS-INFINITY")
		} else {
			p.w("PLUS-INFINITY")
		}
	case "oid":
		p.oid(v.OID)
	default:
		panic("value kind " + v.K)
	}
}

func (p *printer) namedNums(nn []NamedNum) {
	p.s("{")
	for i, n := range nn {
		if i > 0 {
			p.s(",")
		}
		p.w(n.Name)
		p.s("(")
		if n.Val != "" {
			p.defVal(n.Mod, n.Val)
		} else {
			p.int(n.I)
		}
		p.s(")")
	}
	p.s("}")
}

func (p *printer) comps(cs []Comp) {
	for i := range cs {
		if i > 0 {
			p.s(",")
		}
		c := &cs[i]
		if c.CompsOf != nil {
			p.w("COMPONENTS", "OF")
			p.typ(c.CompsOf)
			continue
		}
		p.w(c.Name)
		p.typ(c.Type)
		if c.Opt {
			p.w("OPTIONAL")
		} else if c.Def != nil {
			p.w("DEFAULT")
			p.value(c.Def)
		}
	}
}

func (p *printer) exc(e *Exc) {
	if e == nil {
		return
	}
	p.s("!")
	switch e.K {
	case "num":
		p.int(e.I)
	case "ref":
		p.defVal(e.Mod, e.Val)
	case "typed":
		p.typ(e.T)
		p.s(":")
		p.value(e.V)
	}
}

func (p *printer) elem(e *Elem) {
	switch e.K {
	case "val":
		p.value(e.Val)
	case "range":
		if e.Lo == nil {
			p.w("MIN")
		} else {
			p.value(e.Lo)
		}
		if e.LoO {
			p.s("<")
		}
		p.s("..")
		if e.HiO {
			p.s("<")
		}
		if e.Hi == nil {
			p.w("MAX")
		} else {
			p.value(e.Hi)
		}
	case "size":
		p.w("SIZE")
		p.constraint(e.C)
	case "type":
		p.typ(e.T)
	case "inner":
		p.w("WITH")
		if e.Inner.Single != nil {
			p.w("COMPONENT")
			p.constraint(e.Inner.Single)
			return
		}
		p.w("COMPONENTS")
		p.s("{")
		if e.Inner.Partial {
			p.s("...", ",")
		}
		for i, n := range e.Inner.Named {
			if i > 0 {
				p.s(",")
			}
			p.w(n.Name)
			if n.C != nil {
				p.constraint(n.C)
			}
			if n.Presence != "" {
				p.w(n.Presence)
			}
		}
		p.s("}")
	case "paren":
		p.s("(")
		p.elemSet(e.P)
		p.s(")")
	default:
		panic("elem kind " + e.K)
	}
}

func (p *printer) elemSet(s *ElemSet) {
	if s.AllExcept != nil {
		p.w("ALL", "EXCEPT")
		p.elem(s.AllExcept)
		return
	}
	for i := range s.Unions {
		u := &s.Unions[i]
		if i > 0 {
			if u.Kw {
				p.w("UNION")
			} else {
				p.s("|")
			}
		}
		for j := range u.Elems {
			e := &u.Elems[j]
			if j > 0 {
				if e.Kw {
					p.w("INTERSECTION")
				} else {
					p.s("^")
				}
			}
			p.elem(&e.E)
			if e.Except != nil {
				p.w("EXCEPT")
				p.elem(e.Except)
			}
		}
	}
}

func (p *printer) constraint(c *Constraint) {
	p.s("(")
	p.elemSet(&c.Root)
	if c.Ext {
		p.s(",", "...")
		if c.Add != nil {
			p.s(",")
			p.elemSet(c.Add)
		}
	}
	p.exc(c.Exc)
	p.s(")")
}

var strKeywords = []string{"BMPString", "GeneralString", "GraphicString", "IA5String", "ISO646String", "NumericString",
	"PrintableString", "TeletexString", "T61String", "UniversalString", "UTF8String", "VideotexString", "VisibleString"}

func (p *printer) typ(t *Type) {
	switch t.K {
	case kBool, kReal, kNull:
		p.w(t.K)
	case kInt:
		p.w("INTEGER")
		if len(t.NN) > 0 {
			p.namedNums(t.NN)
		}
	case kOID:
		p.w("OBJECT", "IDENTIFIER")
	case kOctet:
		p.w("OCTET", "STRING")
	case kBit:
		p.w("BIT", "STRING")
		if len(t.NN) > 0 {
			p.namedNums(t.NN)
		}
	case kStr, kUseful, kRef:
		p.w(t.Ref)
	case kChar:
		p.w("CHARACTER", "STRING")
	case kAny:
		p.w("ANY")
		if t.Ref != "" {
			p.w("DEFINED", "BY", t.Ref)
		}
	case kEnum:
		p.w("ENUMERATED")
		p.s("{")
		for i, it := range t.Items {
			if i > 0 {
				p.s(",")
			}
			p.w(it.Name)
			if it.HasNN {
				p.s("(")
				if it.Val != "" {
					p.defVal(it.Mod, it.Val)
				} else {
					p.int(it.I)
				}
				p.s(")")
			}
		}
		p.s("}")
	case kSeq, kSet:
		if t.K == kSeq {
			p.w("SEQUENCE")
		} else {
			p.w("SET")
		}
		p.s("{")
		p.comps(t.Comps)
		if t.Ext != nil {
			if len(t.Comps) > 0 {
				p.s(",")
			}
			p.s("...")
			p.exc(t.Ext.Exc)
			if len(t.Ext.Adds) > 0 {
				p.s(",")
				p.comps(t.Ext.Adds)
			}
			if t.Ext.End || len(t.Ext.Trail) > 0 {
				p.s(",", "...")
			}
			if len(t.Ext.Trail) > 0 {
				p.s(",")
				p.comps(t.Ext.Trail)
			}
		}
		p.s("}")
	case kSeqOf, kSetOf:
		if t.K == kSeqOf {
			p.w("SEQUENCE")
		} else {
			p.w("SET")
		}
		if t.C != nil {
			if t.Bare {
				p.elem(&t.C.Root.Unions[0].Elems[0].E) // SIZE (...)
			} else {
				p.constraint(t.C)
			}
		}
		p.w("OF")
		if t.ElemName != "" {
			p.w(t.ElemName)
		}
		p.typ(t.Elem)
	case kChoice:
		p.w("CHOICE")
		p.s("{")
		for i, a := range t.Alts {
			if i > 0 {
				p.s(",")
			}
			p.w(a.Name)
			p.typ(a.Type)
		}
		if t.AltExt != nil {
			if len(t.Alts) > 0 {
				p.s(",")
			}
			p.s("...")
			p.exc(t.AltExt.Exc)
			for _, a := range t.AltExt.Adds {
				p.s(",")
				p.w(a.Name)
				p.typ(a.Type)
			}
			if t.AltExt.End {
				p.s(",", "...")
			}
		}
		p.s("}")
	case kTag:
		p.s("[")
		if t.Tag.Class != "" {
			p.w(t.Tag.Class)
		}
		if t.Tag.Val != "" {
			p.defVal(t.Tag.Mod, t.Tag.Val)
		} else {
			p.int(t.Tag.Num)
		}
		p.s("]")
		if t.Tag.Kw != "" {
			p.w(t.Tag.Kw)
		}
		p.typ(t.Elem)
	case kConstr:
		p.typ(t.Elem)
		p.constraint(t.C)
	default:
		panic("type kind " + t.K)
	}
}

func (p *printer) assign(a *Assign) {
	p.w(a.Name)
	if a.Value != nil {
		p.typ(a.Type)
		p.s("::=")
		p.value(a.Value)
	} else {
		p.s("::=")
		p.typ(a.Type)
	}
}

func (p *printer) symbols(ss []string) {
	for i, s := range ss {
		if i > 0 {
			p.s(",")
		}
		p.w(s)
	}
}

func (p *printer) module(m *Module) {
	p.w(m.Name)
	if len(m.DefID) > 0 {
		p.oid(m.DefID)
	}
	p.w("DEFINITIONS")
	if m.TagDefault != "" {
		p.w(m.TagDefault, "TAGS")
	}
	if m.ExtImplied {
		p.w("EXTENSIBILITY", "IMPLIED")
	}
	p.s("::=")
	p.w("BEGIN")
	if !m.Empty {
		if m.Exports != nil {
			p.w("EXPORTS")
			if m.Exports.All {
				p.w("ALL")
			} else {
				p.symbols(m.Exports.Symbols)
			}
			p.s(";")
		}
		if m.HasImports {
			p.w("IMPORTS")
			for _, im := range m.Imports {
				p.symbols(im.Symbols)
				p.w("FROM", im.Module)
				if len(im.OID) > 0 {
					p.oid(im.OID)
				} else if im.Val != "" {
					p.defVal(im.Mod, im.Val)
				}
			}
			p.s(";")
		}
		for i := range m.Assigns {
			p.assign(&m.Assigns[i])
		}
	}
	p.w("END")
}

func tokensOf(m *Module) []Tok {
	var p printer
	p.module(m)
	return p.toks
}

// Layout decides what stands between the items: Seps[i] is used before item i mod len, Lead before
// the first, Trail after the last.
type Layout struct {
	Seps  []string
	Idx   []int `json:",omitempty"` // per gap index into Seps; cyclic
	Trail string
}

var plainLayout = Layout{Seps: []string{" "}}

func isWordByte(b byte) bool {
	return b == '-' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// sepBetween adapts a separator to its neighbours: adds white space where two items would merge
// and where a line comment would be read as part of the item before it.
func sepBetween(prev, next *Tok, sep string) string {
	if prev == nil {
		return sep
	}
	if strings.HasPrefix(sep, "--") && (prev.K == 'w' || prev.S == "-") {
		return " " + sep
	}
	if sep == "" && next != nil {
		a, b := prev.K != 's', next.K != 's'
		if a && b || prev.K == 'w' && next.S[0] == '-' {
			return " "
		}
	}
	return sep
}

// render returns the text and the byte offset of every item.
func render(toks []Tok, l Layout) (string, []int) {
	var b strings.Builder
	offs := make([]int, len(toks))
	for i := range toks {
		var prev *Tok
		if i > 0 {
			prev = &toks[i-1]
		}
		b.WriteString(sepBetween(prev, &toks[i], l.sep(i)))
		offs[i] = b.Len()
		b.WriteString(toks[i].S)
	}
	if len(toks) > 0 {
		b.WriteString(sepBetween(&toks[len(toks)-1], nil, l.Trail))
	} else {
		b.WriteString(l.Trail)
	}
	return b.String(), offs
}

func (l Layout) sep(i int) string {
	if len(l.Seps) == 0 {
		return " "
	}
	k := i
	if len(l.Idx) > 0 {
		k = l.Idx[i%len(l.Idx)]
	}
	return l.Seps[k%len(l.Seps)]
}

func textOf(m *Module, l Layout) string {
	s, _ := render(tokensOf(m), l)
	return s
}
