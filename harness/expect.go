package main

import (
	"math"
	"strconv"

	"github.com/chemikadze/asn1go"
)

// Conversion of the model into the tree that parsing its text must return. Written against the
// documentation of the exported tree types (ast.go) and X.680, never against the grammar actions.

var strLex = map[string]int{
	"BMPString": asn1go.BMPString, "GeneralString": asn1go.GeneralString, "GraphicString": asn1go.GraphicString,
	"IA5String": asn1go.IA5String, "ISO646String": asn1go.ISO646String, "NumericString": asn1go.NumericString,
	"PrintableString": asn1go.PrintableString, "TeletexString": asn1go.TeletexString, "T61String": asn1go.T61String,
	"UniversalString": asn1go.UniversalString, "UTF8String": asn1go.UTF8String, "VideotexString": asn1go.VideotexString,
	"VisibleString": asn1go.VisibleString,
}

func xDefVal(mod, val string) asn1go.DefinedValue {
	return asn1go.DefinedValue{ModuleName: asn1go.ModuleReference(mod), ValueName: asn1go.ValueReference(val)}
}

func xOID(cs []OIDComp) asn1go.ObjectIdentifierValue {
	var r asn1go.ObjectIdentifierValue
	for _, c := range cs {
		var e asn1go.ObjectIdElement
		switch c.Form {
		case "name": // "NameForm is always parsed as Reference"
			d := xDefVal("", c.Name)
			e.Reference = &d
		case "num":
			e.ID = int(c.Num)
		case "namenum":
			e.Name, e.ID = c.Name, int(c.Num)
		case "nameref":
			d := xDefVal(c.Mod, c.Val)
			e.Name, e.Reference = c.Name, &d
		case "ref":
			d := xDefVal(c.Mod, c.Val)
			e.Reference = &d
		}
		r = append(r, e)
	}
	return r
}

// realOf is the correctly rounded value of the literal as written.
func realOf(v *Value) float64 {
	if v.K == "inf" {
		if v.Neg {
			return math.Inf(-1)
		}
		return math.Inf(1)
	}
	f, err := strconv.ParseFloat(realText(v), 64)
	if err != nil && !math.IsInf(f, 0) {
		panic(err)
	}
	if v.Neg {
		f = -f
	}
	return f
}

func xValue(v *Value) asn1go.Value {
	switch v.K {
	case "int":
		return asn1go.Number(v.I)
	case "ident":
		return asn1go.IdentifiedIntegerValue{Name: v.S}
	case "bool":
		return asn1go.Boolean(v.B)
	case "real", "inf":
		return asn1go.Real(realOf(v))
	case "oid":
		return xOID(v.OID)
	}
	panic("xValue " + v.K)
}

func xComps(cs []Comp) (r []asn1go.ComponentType) {
	for i := range cs {
		c := &cs[i]
		if c.CompsOf != nil {
			r = append(r, asn1go.ComponentsOfComponentType{Type: xType(c.CompsOf)})
			continue
		}
		n := asn1go.NamedComponentType{NamedType: asn1go.NamedType{Identifier: asn1go.Identifier(c.Name), Type: xType(c.Type)}, IsOptional: c.Opt}
		if !c.Opt && c.Def != nil {
			v := xValue(c.Def)
			n.Default = &v
		}
		r = append(r, n)
	}
	return
}

func xElemType(t *Type) asn1go.Type {
	e := xType(t.Elem)
	if t.ElemName != "" {
		return asn1go.NamedType{Identifier: asn1go.Identifier(t.ElemName), Type: e}
	}
	return e
}

func xType(t *Type) asn1go.Type {
	switch t.K {
	case kBool:
		return asn1go.BooleanType{}
	case kReal:
		return asn1go.RealType{}
	case kNull:
		return asn1go.NullType{}
	case kInt:
		var it asn1go.IntegerType
		for _, n := range t.NN {
			nn := asn1go.NamedNumber{Name: asn1go.Identifier(n.Name)}
			if n.Val != "" {
				nn.Value = xDefVal(n.Mod, n.Val)
			} else {
				nn.Value = asn1go.Number(n.I)
			}
			it.NamedNumberList = append(it.NamedNumberList, nn)
		}
		return it
	case kOID:
		return asn1go.ObjectIdentifierType{}
	case kOctet:
		return asn1go.OctetStringType{}
	case kBit:
		var bt asn1go.BitStringType
		for _, n := range t.NN {
			nb := asn1go.NamedBit{Name: asn1go.Identifier(n.Name)}
			if n.Val != "" {
				nb.Index = xDefVal(n.Mod, n.Val)
			} else {
				nb.Index = asn1go.Number(n.I)
			}
			bt.NamedBits = append(bt.NamedBits, nb)
		}
		return bt
	case kStr:
		return asn1go.RestrictedStringType{LexType: strLex[t.Ref]}
	case kChar:
		return asn1go.CharacterStringType{}
	case kUseful, kRef:
		return asn1go.TypeReference(t.Ref)
	case kAny:
		return asn1go.AnyType{Identifier: asn1go.Identifier(t.Ref)}
	case kEnum:
		var et asn1go.EnumeratedType
		for _, it := range t.Items {
			if !it.HasNN {
				et.RootEnumeration = append(et.RootEnumeration, asn1go.Identifier(it.Name))
				continue
			}
			nn := asn1go.NamedNumber{Name: asn1go.Identifier(it.Name)}
			if it.Val != "" {
				nn.Value = xDefVal(it.Mod, it.Val)
			} else {
				nn.Value = asn1go.Number(it.I)
			}
			et.RootEnumeration = append(et.RootEnumeration, nn)
		}
		return et
	case kSeq, kSet:
		var adds []asn1go.ExtensionAddition
		if t.Ext != nil {
			for _, c := range xComps(t.Ext.Adds) {
				adds = append(adds, c)
			}
		}
		if t.K == kSeq {
			return asn1go.SequenceType{Components: xComps(t.root()), ExtensionAdditions: adds}
		}
		return asn1go.SetType{Components: xComps(t.root()), ExtensionAdditions: adds}
	case kSeqOf, kSetOf:
		var base asn1go.Type
		if t.K == kSeqOf {
			base = asn1go.SequenceOfType{Type: xElemType(t)}
		} else {
			base = asn1go.SetOfType{Type: xElemType(t)}
		}
		if t.C != nil {
			return asn1go.ConstraintedType{Type: base, Constraint: xConstraint(t.C)}
		}
		return base
	case kChoice:
		var ct asn1go.ChoiceType
		for _, a := range t.Alts {
			ct.AlternativeTypeList = append(ct.AlternativeTypeList, asn1go.NamedType{Identifier: asn1go.Identifier(a.Name), Type: xType(a.Type)})
		}
		if t.AltExt != nil {
			for _, a := range t.AltExt.Adds {
				ct.ExtensionTypes = append(ct.ExtensionTypes, asn1go.NamedType{Identifier: asn1go.Identifier(a.Name), Type: xType(a.Type)})
			}
		}
		return ct
	case kTag:
		tt := asn1go.TaggedType{Type: xType(t.Elem)}
		switch t.Tag.Class {
		case "UNIVERSAL":
			tt.Tag.Class = asn1go.CLASS_UNIVERSAL
		case "APPLICATION":
			tt.Tag.Class = asn1go.CLASS_APPLICATION
		case "PRIVATE":
			tt.Tag.Class = asn1go.CLASS_PRIVATE
		default:
			tt.Tag.Class = asn1go.CLASS_CONTEXT_SPECIFIC
		}
		if t.Tag.Val != "" {
			tt.Tag.ClassNumber = xDefVal(t.Tag.Mod, t.Tag.Val)
		} else {
			tt.Tag.ClassNumber = asn1go.Number(t.Tag.Num)
		}
		switch t.Tag.Kw {
		case "EXPLICIT":
			tt.TagType, tt.HasTagType = asn1go.TAGS_EXPLICIT, true
		case "IMPLICIT":
			tt.TagType, tt.HasTagType = asn1go.TAGS_IMPLICIT, true
		}
		return tt
	case kConstr:
		return asn1go.ConstraintedType{Type: xType(t.Elem), Constraint: xConstraint(t.C)}
	}
	panic("xType " + t.K)
}

func xElem(e *Elem) asn1go.Elements {
	switch e.K {
	case "val":
		return asn1go.SingleValue{Value: xValue(e.Val)}
	case "range":
		var r asn1go.ValueRange
		if e.Lo != nil {
			r.LowerEndpoint.Value = xValue(e.Lo)
		}
		if e.Hi != nil {
			r.UpperEndpoint.Value = xValue(e.Hi)
		}
		r.LowerEndpoint.IsOpen, r.UpperEndpoint.IsOpen = e.LoO, e.HiO
		return r
	case "size":
		return asn1go.SizeConstraint{Constraint: xConstraint(e.C)}
	case "type":
		return asn1go.TypeConstraint{Type: xType(e.T)}
	case "inner":
		return asn1go.InnerTypeConstraint{}
	case "paren":
		return xElemSet(e.P)
	}
	panic("xElem " + e.K)
}

func xElemSet(s *ElemSet) asn1go.ElementSetSpec {
	if s.AllExcept != nil {
		return asn1go.Exclusions{Elements: xElem(s.AllExcept)}
	}
	var us asn1go.Unions
	for i := range s.Unions {
		var is asn1go.Intersections
		for j := range s.Unions[i].Elems {
			e := &s.Unions[i].Elems[j]
			ie := asn1go.IntersectionElements{Elements: xElem(&e.E)}
			if e.Except != nil {
				ie.Exclusions = asn1go.Exclusions{Elements: xElem(e.Except)}
			}
			is = append(is, ie)
		}
		us = append(us, is)
	}
	return us
}

func xConstraint(c *Constraint) asn1go.Constraint {
	sc := asn1go.SubtypeConstraint{xElemSet(&c.Root)}
	if c.Ext && c.Add != nil {
		sc = append(sc, xElemSet(c.Add))
	}
	return asn1go.Constraint{ConstraintSpec: sc}
}

func isUpper(s string) bool { return s[0] >= 'A' && s[0] <= 'Z' }

func xAssign(a *Assign) asn1go.Assignment {
	if a.Value != nil {
		return asn1go.ValueAssignment{ValueReference: asn1go.ValueReference(a.Name), Type: xType(a.Type), Value: xValue(a.Value)}
	}
	return asn1go.TypeAssignment{TypeReference: asn1go.TypeReference(a.Name), Type: xType(a.Type)}
}

func xModule(m *Module) *asn1go.ModuleDefinition {
	d := &asn1go.ModuleDefinition{}
	d.ModuleIdentifier.Reference = m.Name
	for _, c := range m.DefID {
		x := asn1go.DefinitiveObjIdComponent{Name: c.Name}
		if c.Form != "name" {
			x.Id = int(c.Num)
		}
		d.ModuleIdentifier.DefinitiveIdentifier = append(d.ModuleIdentifier.DefinitiveIdentifier, x)
	}
	switch m.TagDefault {
	case "IMPLICIT":
		d.TagDefault = asn1go.TAGS_IMPLICIT
	case "AUTOMATIC":
		d.TagDefault = asn1go.TAGS_AUTOMATIC
	default:
		d.TagDefault = asn1go.TAGS_EXPLICIT
	}
	d.ExtensibilityImplied = m.ExtImplied
	if m.Empty {
		return d
	}
	if m.HasImports {
		for _, im := range m.Imports {
			var s asn1go.SymbolsFromModule
			for _, n := range im.Symbols {
				if isUpper(n) {
					s.SymbolList = append(s.SymbolList, asn1go.TypeReference(n))
				} else {
					s.SymbolList = append(s.SymbolList, asn1go.ValueReference(n))
				}
			}
			s.Module.Reference = im.Module
			if len(im.OID) > 0 {
				s.Module.AssignedIdentifier = xOID(im.OID)
			} else if im.Val != "" {
				s.Module.AssignedIdentifier = xDefVal(im.Mod, im.Val)
			}
			d.ModuleBody.Imports = append(d.ModuleBody.Imports, s)
		}
	}
	for i := range m.Assigns {
		d.ModuleBody.AssignmentList = append(d.ModuleBody.AssignmentList, xAssign(&m.Assigns[i]))
	}
	return d
}
