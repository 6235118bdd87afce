package main

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"
	"unicode/utf16"
)

// Reference encoder: the distinguished encoding (X.690) of a value of a type of the model,
// written from the standards and sharing nothing with encoding/asn1 or the code under test.

// VV is a value. Its kind follows from the type it is a value of.
type VV struct {
	B     bool    `json:",omitempty"`
	S     Str     `json:",omitempty"` // strings; integers in decimal
	By    []byte  `json:",omitempty"`
	N     int     `json:",omitempty"` // bit length
	Arcs  []int64 `json:",omitempty"`
	T     int64   `json:",omitempty"` // seconds since 1970
	Items []*VV   `json:",omitempty"` // elements; components, null when absent
	Alt   int     `json:",omitempty"` // CHOICE: alternative taken, its value in Items[0]
	AT    *Type   `json:",omitempty"` // ANY: type of the value in Items[0]
}

// tlv is an encoding of which the identifier may still be replaced.
type tlv struct {
	class, num int
	cons       bool
	body       []byte
}

func (t *tlv) bytes() []byte {
	var b []byte
	lead := byte(t.class << 6)
	if t.cons {
		lead |= 0x20
	}
	if t.num < 31 {
		b = append(b, lead|byte(t.num))
	} else {
		b = append(b, lead|31)
		b = append(b, base128(int64(t.num))...)
	}
	n := len(t.body)
	if n < 128 {
		b = append(b, byte(n))
	} else {
		l := big.NewInt(int64(n)).Bytes()
		b = append(b, 0x80|byte(len(l)))
		b = append(b, l...)
	}
	return append(b, t.body...)
}

func base128(n int64) []byte {
	b := []byte{byte(n & 0x7f)}
	for n >>= 7; n > 0; n >>= 7 {
		b = append([]byte{byte(n&0x7f) | 0x80}, b...)
	}
	return b
}

// twosComplement is the shortest two's complement representation of n.
func twosComplement(n *big.Int) []byte {
	for size := 1; ; size++ {
		lim := new(big.Int).Lsh(big.NewInt(1), uint(8*size-1))
		if n.Cmp(lim) >= 0 || n.Cmp(new(big.Int).Neg(lim)) < 0 {
			continue
		}
		v := new(big.Int).Set(n)
		if v.Sign() < 0 {
			v.Add(v, new(big.Int).Lsh(lim, 1))
		}
		b := v.Bytes()
		return append(make([]byte, size-len(b)), b...)
	}
}

var strTags = map[string]int{"UTF8String": 12, "NumericString": 18, "PrintableString": 19, "TeletexString": 20,
	"T61String": 20, "VideotexString": 21, "IA5String": 22, "GraphicString": 25, "VisibleString": 26,
	"ISO646String": 26, "GeneralString": 27, "UniversalString": 28, "BMPString": 30}

const (
	mutNum   = "number"
	mutClass = "class"
	mutMode  = "mode"
	mutUniv  = "universal"
)

type derEnc struct {
	m   *Module
	mut map[*VV]string // components encoded with a wrong tag
}

func (e *derEnc) explicit(tag *Tag, inner *Type) bool {
	kw := tag.Kw
	if kw == "" {
		kw = e.m.TagDefault
	}
	if kw != "IMPLICIT" {
		return true
	}
	return e.untagged(inner)
}

// untagged: the type is a CHOICE or ANY without a tag of its own.
func (e *derEnc) untagged(t *Type) bool {
	for {
		switch t.K {
		case kConstr:
			t = t.Elem
		case kRef:
			t = e.m.typeDef(t.Ref)
		default:
			return t.K == kChoice || t.K == kAny
		}
	}
}

var classNums = map[string]int{"UNIVERSAL": 0, "APPLICATION": 1, "": 2, "PRIVATE": 3}

func univ(num int, body []byte) *tlv         { return &tlv{num: num, body: body} }
func univCons(num int, body []byte) *tlv     { return &tlv{num: num, cons: true, body: body} }
func bigOf(s Str) *big.Int                   { n, _ := new(big.Int).SetString(string(s), 10); return n }
func (e *derEnc) full(t *Type, v *VV) []byte { return e.enc(t, v).bytes() }

func (e *derEnc) enc(t *Type, v *VV) *tlv {
	switch t.K {
	case kTag:
		in := e.enc(t.Elem, v)
		if e.explicit(t.Tag, t.Elem) {
			in = &tlv{cons: true, body: in.bytes()}
		}
		in.class, in.num = classNums[t.Tag.Class], int(t.Tag.Num)
		return in
	case kConstr:
		return e.enc(t.Elem, v)
	case kRef:
		return e.enc(e.m.typeDef(t.Ref), v)
	case kBool:
		if v.B {
			return univ(1, []byte{0xff})
		}
		return univ(1, []byte{0})
	case kInt:
		return univ(2, twosComplement(bigOf(v.S)))
	case kEnum:
		return univ(10, twosComplement(bigOf(v.S)))
	case kBit:
		return univ(3, append([]byte{byte((8 - v.N%8) % 8)}, v.By...))
	case kOctet:
		return univ(4, v.By)
	case kNull:
		return univ(5, nil)
	case kOID:
		b := base128(v.Arcs[0]*40 + v.Arcs[1])
		for _, a := range v.Arcs[2:] {
			b = append(b, base128(a)...)
		}
		return univ(6, b)
	case kStr:
		if t.Ref == "BMPString" {
			var b []byte
			for _, u := range utf16.Encode([]rune(string(v.S))) {
				b = append(b, byte(u>>8), byte(u))
			}
			return univ(30, b)
		}
		return univ(strTags[t.Ref], []byte(v.S))
	case kUseful:
		x := time.Unix(v.T, 0).UTC()
		if t.Ref == "UTCTime" {
			return univ(23, []byte(fmt.Sprintf("%02d%02d%02d%02d%02d%02dZ", x.Year()%100, x.Month(), x.Day(), x.Hour(), x.Minute(), x.Second())))
		}
		return univ(24, []byte(fmt.Sprintf("%04d%02d%02d%02d%02d%02dZ", x.Year(), x.Month(), x.Day(), x.Hour(), x.Minute(), x.Second())))
	case kAny:
		return e.enc(v.AT, v.Items[0])
	case kChoice:
		return e.enc(t.alts()[v.Alt].Type, v.Items[0])
	case kSeqOf, kSetOf:
		var parts [][]byte
		for _, x := range v.Items {
			parts = append(parts, e.full(t.Elem, x))
		}
		if t.K == kSetOf {
			sort.SliceStable(parts, func(i, j int) bool { return bytes.Compare(parts[i], parts[j]) < 0 })
			return univCons(17, bytes.Join(parts, nil))
		}
		return univCons(16, bytes.Join(parts, nil))
	case kSeq, kSet:
		var parts []*tlv
		for i, c := range t.allComps() {
			if v.Items[i] == nil {
				continue
			}
			parts = append(parts, e.component(t, c, v.Items[i]))
		}
		num := 16
		if t.K == kSet {
			num = 17
			sort.SliceStable(parts, func(i, j int) bool {
				a, b := parts[i], parts[j]
				return a.class < b.class || a.class == b.class && a.num < b.num
			})
		}
		var b []byte
		for _, p := range parts {
			b = append(b, p.bytes()...)
		}
		return univCons(num, b)
	}
	panic("no encoding for " + t.K)
}

// component encodes a component, with a wrong tag if told so.
func (e *derEnc) component(st *Type, c Comp, v *VV) *tlv {
	x := e.enc(c.Type, v)
	switch e.mut[v] {
	case mutNum:
		x.num = 77
	case mutClass:
		x.class = map[int]int{1: 2, 2: 1, 3: 2}[x.class]
	case mutMode:
		tag := *c.Type.Tag
		tag.Kw = "IMPLICIT"
		if !e.explicit(c.Type.Tag, c.Type.Elem) {
			tag.Kw = "EXPLICIT"
		}
		x = e.enc(&Type{K: kTag, Tag: &tag, Elem: c.Type.Elem}, v)
	case mutUniv:
		to, ok := map[int]int{16: 17, 17: 16, 2: 10}[x.num]
		for _, o := range st.allComps() { // which another component may take
			ok = ok && (o.Type.K == kTag || e.univNum(e.m.encLeaf(o.Type)) != to)
		}
		if ok {
			x.num = to
		} else {
			x.class, x.num = 2, 77
		}
	}
	return x
}

func (t *Type) allComps() []Comp {
	if t.Ext == nil {
		return t.Comps
	}
	return append(append([]Comp{}, t.Comps...), t.Ext.Adds...)
}

func (t *Type) alts() []NamedType {
	if t.AltExt == nil {
		return t.Alts
	}
	return append(append([]NamedType{}, t.Alts...), t.AltExt.Adds...)
}
