package main

import (
	"encoding/json"
	"unicode/utf8"
)

// The harness's own model of an ASN.1 module. It shares no type with the code under test and is
// JSON-serialisable, so that a failing case is a replay file.

type Module struct {
	Name       string
	DefID      []OIDComp `json:",omitempty"`
	TagDefault string    `json:",omitempty"` // "", EXPLICIT, IMPLICIT, AUTOMATIC
	ExtImplied bool      `json:",omitempty"`
	Empty      bool      `json:",omitempty"`
	Exports    *Exports  `json:",omitempty"`
	HasImports bool      `json:",omitempty"`
	Imports    []Import  `json:",omitempty"`
	Assigns    []Assign  `json:",omitempty"`
}

type Exports struct {
	All     bool     `json:",omitempty"`
	Symbols []string `json:",omitempty"`
}

type Import struct {
	Symbols []string
	Module  string
	OID     []OIDComp `json:",omitempty"` // assigned identifier: OID value ...
	Mod     string    `json:",omitempty"` // ... or a defined value
	Val     string    `json:",omitempty"`
}

type Assign struct {
	Name  string
	Type  *Type
	Value *Value `json:",omitempty"`
}

// OIDComp: Form name (foo), num (5), namenum (foo(5)), nameref (foo(bar) / foo(M.bar)), ref (M.bar)
type OIDComp struct {
	Form string
	Name string `json:",omitempty"`
	Num  int64  `json:",omitempty"`
	Mod  string `json:",omitempty"`
	Val  string `json:",omitempty"`
}

type Value struct {
	K    string    // int, ident, bool, real, inf, oid
	I    int64     `json:",omitempty"`
	S    string    `json:",omitempty"` // identifier
	B    bool      `json:",omitempty"`
	Neg  bool      `json:",omitempty"` // real, inf
	Int  string    `json:",omitempty"` // real: integer digits
	Frac string    `json:",omitempty"` // real: fraction digits, "" = none
	Exp  string    `json:",omitempty"` // real: e[-]digits including the letter, "" = none
	OID  []OIDComp `json:",omitempty"`
}

type NamedNum struct {
	Name string
	I    int64  `json:",omitempty"`
	Mod  string `json:",omitempty"`
	Val  string `json:",omitempty"` // reference when non-empty
}

type EnumItem struct {
	Name  string
	HasNN bool   `json:",omitempty"`
	I     int64  `json:",omitempty"`
	Mod   string `json:",omitempty"`
	Val   string `json:",omitempty"`
}

type Tag struct {
	Class string `json:",omitempty"` // "", UNIVERSAL, APPLICATION, PRIVATE
	Num   int64
	Mod   string `json:",omitempty"`
	Val   string `json:",omitempty"` // reference when non-empty
	Kw    string `json:",omitempty"` // "", EXPLICIT, IMPLICIT
}

type Comp struct {
	CompsOf *Type  `json:",omitempty"` // COMPONENTS OF
	Name    string `json:",omitempty"`
	Type    *Type  `json:",omitempty"`
	Opt     bool   `json:",omitempty"`
	Def     *Value `json:",omitempty"`
}

type Exc struct {
	K   string // num, ref, typed
	I   int64  `json:",omitempty"`
	Mod string `json:",omitempty"`
	Val string `json:",omitempty"`
	T   *Type  `json:",omitempty"`
	V   *Value `json:",omitempty"`
}

// Ext is the extension part of a SEQUENCE/SET: root, "..." [exc] [, adds] [, "..." [, trail]]
type Ext struct {
	Exc   *Exc   `json:",omitempty"`
	Adds  []Comp `json:",omitempty"`
	End   bool   `json:",omitempty"` // implied by Trail
	Trail []Comp `json:",omitempty"` // the second list of root components
}

// root returns root components of a SEQUENCE or SET, fields all of them in the order they are reported.
func (t *Type) root() []Comp {
	r := append([]Comp{}, t.Comps...)
	if t.Ext != nil {
		r = append(r, t.Ext.Trail...)
	}
	return r
}

func (t *Type) fields() []Comp {
	r := t.root()
	if t.Ext != nil {
		r = append(r, t.Ext.Adds...)
	}
	return r
}

type NamedType struct {
	Name string
	Type *Type
}

type ChoiceExt struct {
	Exc  *Exc        `json:",omitempty"`
	Adds []NamedType `json:",omitempty"`
	End  bool        `json:",omitempty"`
}

const (
	kBool   = "BOOLEAN"
	kInt    = "INTEGER"
	kReal   = "REAL"
	kNull   = "NULL"
	kOID    = "OID"
	kOctet  = "OCTET"
	kBit    = "BIT"
	kStr    = "STR"  // restricted string: Ref holds the keyword
	kChar   = "CHAR" // CHARACTER STRING
	kUseful = "USEFUL"
	kAny    = "ANY"
	kEnum   = "ENUM"
	kSeq    = "SEQ"
	kSet    = "SET"
	kSeqOf  = "SEQOF"
	kSetOf  = "SETOF"
	kChoice = "CHOICE"
	kTag    = "TAGGED"
	kRef    = "REF"
	kConstr = "CONSTR"
)

type Type struct {
	K        string
	Ref      string      `json:",omitempty"` // REF, STR, USEFUL; ANY: DEFINED BY identifier
	NN       []NamedNum  `json:",omitempty"` // INTEGER named numbers, BIT STRING named bits
	Comps    []Comp      `json:",omitempty"`
	Ext      *Ext        `json:",omitempty"`
	Alts     []NamedType `json:",omitempty"`
	AltExt   *ChoiceExt  `json:",omitempty"`
	Items    []EnumItem  `json:",omitempty"`
	Elem     *Type       `json:",omitempty"` // SEQOF, SETOF, TAGGED, CONSTR
	ElemName string      `json:",omitempty"` // named element of SEQOF/SETOF
	C        *Constraint `json:",omitempty"` // CONSTR; SEQOF/SETOF: prefix constraint
	Bare     bool        `json:",omitempty"` // prefix constraint written as SIZE (..) without parentheses
	Tag      *Tag        `json:",omitempty"`
}

type Constraint struct {
	Root ElemSet
	Ext  bool     `json:",omitempty"`
	Add  *ElemSet `json:",omitempty"`
	Exc  *Exc     `json:",omitempty"`
}

type ElemSet struct {
	AllExcept *Elem    `json:",omitempty"`
	Unions    []Inters `json:",omitempty"`
}

type Inters struct {
	Kw    bool `json:",omitempty"` // operator before this operand spelled as a word
	Elems []IElem
}

type IElem struct {
	Kw     bool `json:",omitempty"`
	E      Elem
	Except *Elem `json:",omitempty"`
}

type Elem struct {
	K     string      // val, range, size, type, inner, paren
	Val   *Value      `json:",omitempty"`
	Lo    *Value      `json:",omitempty"` // nil = MIN
	Hi    *Value      `json:",omitempty"` // nil = MAX
	LoO   bool        `json:",omitempty"`
	HiO   bool        `json:",omitempty"`
	C     *Constraint `json:",omitempty"` // size
	T     *Type       `json:",omitempty"`
	Inner *Inner      `json:",omitempty"`
	P     *ElemSet    `json:",omitempty"`
}

type Inner struct {
	Single  *Constraint `json:",omitempty"` // WITH COMPONENT
	Partial bool        `json:",omitempty"`
	Named   []InnerNamed
}

type InnerNamed struct {
	Name     string
	C        *Constraint `json:",omitempty"`
	Presence string      `json:",omitempty"`
}

// walkTypes calls f for t and every type written inside it (elements, components, alternatives;
// not types inside constraints).
func walkTypes(t *Type, f func(*Type)) {
	if t == nil {
		return
	}
	f(t)
	for i := range t.Comps {
		walkTypes(t.Comps[i].Type, f)
		walkTypes(t.Comps[i].CompsOf, f)
	}
	if t.Ext != nil {
		for i := range t.Ext.Adds {
			walkTypes(t.Ext.Adds[i].Type, f)
			walkTypes(t.Ext.Adds[i].CompsOf, f)
		}
		for i := range t.Ext.Trail {
			walkTypes(t.Ext.Trail[i].Type, f)
			walkTypes(t.Ext.Trail[i].CompsOf, f)
		}
	}
	for i := range t.Alts {
		walkTypes(t.Alts[i].Type, f)
	}
	if t.AltExt != nil {
		for i := range t.AltExt.Adds {
			walkTypes(t.AltExt.Adds[i].Type, f)
		}
	}
	walkTypes(t.Elem, f)
}

func (m *Module) walk(f func(*Type)) {
	for i := range m.Assigns {
		walkTypes(m.Assigns[i].Type, f)
	}
}

func (m *Module) typeDef(name string) *Type {
	for i := range m.Assigns {
		if m.Assigns[i].Value == nil && m.Assigns[i].Name == name {
			return m.Assigns[i].Type
		}
	}
	return nil
}

func (m *Module) valueDef(name string) *Assign {
	for i := range m.Assigns {
		if m.Assigns[i].Value != nil && m.Assigns[i].Name == name {
			return &m.Assigns[i]
		}
	}
	return nil
}

// Str is a string of any bytes that survives JSON.
type Str string

func (s Str) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(string(s)) {
		return json.Marshal(string(s))
	}
	return json.Marshal(map[string][]byte{"base64": []byte(s)})
}

func (s *Str) UnmarshalJSON(b []byte) error {
	if len(b) > 0 && b[0] == '"' {
		return json.Unmarshal(b, (*string)(s))
	}
	var m map[string][]byte
	err := json.Unmarshal(b, &m)
	*s = Str(m["base64"])
	return err
}
