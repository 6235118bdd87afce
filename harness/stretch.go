package main

import (
	"fmt"

	"pgregory.net/rapid"
)

// Stretching: one list of a module is made long, or one construct is nested deep.

var longCounts = []int{10, 16, 17, 20, 30, 33, 50, 64, 65, 100, 101, 128, 129, 200, 250, 256, 257, 300, 500, 512, 513, 1000, 1024, 1025, 2000, 2049, 4097, 5000}
var deepCounts = []int{5, 8, 9, 10, 12, 16, 17, 20, 30, 32, 33, 50, 64, 65, 100, 128, 129, 200, 256, 257, 300, 400}

type stretcher struct {
	deep bool
	f    func(n int)
}

// suffix makes the i-th copy of a name; no generated name looks like it.
func suffix(name string, i int) string { return fmt.Sprintf("%s-n%dq", name, i) }

// values of the types keep matching when only lists are made longer; deep is left out then.
func (m *Module) stretchers(onlyLists bool) (r []stretcher) {
	list := func(f func(n int)) { r = append(r, stretcher{false, f}) }
	deep := func(f func(n int)) {
		if !onlyLists {
			r = append(r, stretcher{true, f})
		}
	}
	below := map[*Type]bool{} // types with a constraint after them
	oid := func(o *[]OIDComp) {
		if k := len(*o); k > 0 {
			list(func(n int) {
				for len(*o) < n {
					c := (*o)[len(*o)-k]
					if c.Form != "name" && c.Form != "ref" {
						c.Num = int64(len(*o))
					}
					*o = append(*o, c)
				}
			})
		}
	}
	value := func(v *Value) {
		if v != nil {
			oid(&v.OID)
		}
	}
	comps := func(cs *[]Comp) {
		if k := len(*cs); k > 0 {
			list(func(n int) {
				for len(*cs) < n {
					c := (*cs)[len(*cs)-k]
					if c.CompsOf == nil {
						c.Name = suffix((*cs)[len(*cs)%k].Name, len(*cs))
					}
					*cs = append(*cs, c)
				}
			})
		}
		for i := range *cs {
			value((*cs)[i].Def)
		}
	}
	alts := func(as *[]NamedType) {
		if k := len(*as); k > 0 {
			list(func(n int) {
				for len(*as) < n {
					*as = append(*as, NamedType{suffix((*as)[len(*as)%k].Name, len(*as)), (*as)[len(*as)%k].Type})
				}
			})
		}
	}
	var typ func(t *Type)
	set := func(s *ElemSet) {
		if k := len(s.Unions); k > 0 {
			list(func(n int) {
				for len(s.Unions) < n {
					u := s.Unions[len(s.Unions)%k]
					u.Kw = len(s.Unions)%3 == 0
					s.Unions = append(s.Unions, u)
				}
			})
			deep(func(n int) {
				for i := 0; i < n; i++ {
					in := *s
					*s = ElemSet{Unions: []Inters{{Elems: []IElem{{E: Elem{K: "paren", P: &in}}}}}}
				}
			})
		}
		for i := range s.Unions {
			u := &s.Unions[i]
			k := len(u.Elems)
			list(func(n int) {
				for len(u.Elems) < n {
					e := u.Elems[len(u.Elems)%k]
					e.Kw = len(u.Elems)%3 == 0
					u.Elems = append(u.Elems, e)
				}
			})
		}
	}
	typ = func(t *Type) {
		if t.K == kConstr {
			below[t.Elem] = true
		}
		if k := len(t.NN); k > 0 {
			list(func(n int) {
				for len(t.NN) < n {
					x := t.NN[len(t.NN)%k]
					x.Name = suffix(x.Name, len(t.NN))
					if x.Val == "" {
						x.I = int64(len(t.NN)) * 7919
					}
					t.NN = append(t.NN, x)
				}
			})
		}
		if k := len(t.Items); k > 0 {
			list(func(n int) {
				for len(t.Items) < n {
					x := t.Items[len(t.Items)%k]
					x.Name = suffix(x.Name, len(t.Items))
					if x.HasNN && x.Val == "" {
						x.I = int64(len(t.Items)) * 7919
					}
					t.Items = append(t.Items, x)
				}
			})
		}
		comps(&t.Comps)
		if t.Ext != nil {
			comps(&t.Ext.Adds)
			comps(&t.Ext.Trail)
		}
		alts(&t.Alts)
		if t.AltExt != nil {
			alts(&t.AltExt.Adds)
		}
		if t.C != nil {
			walkConstraint(t.constraint(), set)
			if t.K == kConstr {
				deep(func(n int) { // serial constraints
					for i := 0; i < n; i++ {
						in := *t
						t.Elem = &in
					}
				})
			}
		}
		deep(func(n int) {
			kinds := []string{kSeq, kChoice, kSet, kSeqOf, kSetOf, kTag}
			if below[t] {
				kinds = kinds[:3]
			}
			k := kinds[n%7%len(kinds)]
			for i := 0; i < n; i++ {
				in := *t
				if n%5 == 0 {
					k = kinds[i%len(kinds)]
				}
				switch k {
				case kSeqOf, kSetOf:
					*t = Type{K: k, Elem: &in}
				case kTag:
					*t = Type{K: kTag, Tag: &Tag{Num: int64(i), Class: []string{"", "PRIVATE", "APPLICATION"}[i%3]}, Elem: &in}
				case kSeq, kSet:
					*t = Type{K: k, Comps: []Comp{{Name: "inner", Type: &in, Opt: i%2 == 0}}}
				case kChoice:
					*t = Type{K: k, Alts: []NamedType{{"inner", &in}, {"other", &Type{K: kNull}}}}
				}
			}
		})
	}
	m.walk(typ)
	oid(&m.DefID)
	for i := range m.Assigns {
		value(m.Assigns[i].Value)
	}
	if k := len(m.Assigns); k > 0 {
		list(func(n int) {
			for len(m.Assigns) < n {
				a := m.Assigns[len(m.Assigns)%k]
				a.Name = suffix(a.Name, len(m.Assigns))
				m.Assigns = append(m.Assigns, a)
			}
		})
	}
	if m.Exports != nil {
		if k := len(m.Exports.Symbols); k > 0 {
			list(func(n int) {
				for len(m.Exports.Symbols) < n {
					m.Exports.Symbols = append(m.Exports.Symbols, suffix(m.Exports.Symbols[len(m.Exports.Symbols)%k], len(m.Exports.Symbols)))
				}
			})
		}
	}
	if k := len(m.Imports); k > 0 {
		list(func(n int) {
			for len(m.Imports) < n {
				x := m.Imports[len(m.Imports)%k]
				x.Module = suffix(x.Module, len(m.Imports))
				m.Imports = append(m.Imports, x)
			}
		})
		for i := range m.Imports {
			im := &m.Imports[i]
			oid(&im.OID)
			if k := len(im.Symbols); k > 0 {
				list(func(n int) {
					for len(im.Symbols) < n {
						im.Symbols = append(im.Symbols, suffix(im.Symbols[len(im.Symbols)%k], len(im.Symbols)))
					}
				})
			}
		}
	}
	return
}

// stretch makes one list of m long, or one construct deep. max bounds the length.
func stretch(t *rapid.T, m *Module, max int, onlyLists bool) {
	ss := m.stretchers(onlyLists)
	if len(ss) == 0 {
		return
	}
	s := rapid.SampledFrom(ss).Draw(t, "stretch")
	counts := longCounts
	if s.deep {
		counts = deepCounts
	}
	n := rapid.SampledFrom(counts).Draw(t, "length")
	if n > max {
		n = max
	}
	s.f(n)
}
