package main

import (
	"strings"
)

// The supported notation as a context-free grammar (README feature tables, X.680 productions),
// recognised with Earley's algorithm: no tables, no conflicts, nothing shared with asn1.y's parser.

const grammarText = `
Module = UP DefId "DEFINITIONS" TagDef ExtDef "::=" "BEGIN" Body "END"
DefId = | "{" DefComps "}"
DefComps = DefComp | DefComp DefComps
DefComp = LO | NUM | LO "(" NUM ")"
TagDef = | "EXPLICIT" "TAGS" | "IMPLICIT" "TAGS" | "AUTOMATIC" "TAGS"
ExtDef = | "EXTENSIBILITY" "IMPLIED"
Body = | Exports Imports Assigns
Exports = | "EXPORTS" ";" | "EXPORTS" Symbols ";" | "EXPORTS" "ALL" ";"
Imports = | "IMPORTS" ";" | "IMPORTS" Froms ";"
Froms = From | Froms From
From = Symbols "FROM" UP AssignedId
AssignedId = | OidVal | DefinedValue
Symbols = Symbol | Symbols "," Symbol
Symbol = UP | LO
Assigns = Assign | Assigns Assign
Assign = UP "::=" Type | LO Type "::=" Value
DefinedValue = LO | UP "." LO
Type = Builtin | UP | "GeneralizedTime" | "UTCTime" | Type Constraint | WithConstraint
NamedType = LO Type
Builtin = "BIT" "STRING" | "BIT" "STRING" "{" NamedBits "}" | "BOOLEAN" | StringType | Choice | Enum | IntType | "NULL" | "OBJECT" "IDENTIFIER" | "OCTET" "STRING" | "REAL" | SeqType | ListType | "ANY" | "ANY" "DEFINED" "BY" LO | Tagged
StringType = "BMPString" | "GeneralString" | "GraphicString" | "IA5String" | "ISO646String" | "NumericString" | "PrintableString" | "TeletexString" | "T61String" | "UniversalString" | "UTF8String" | "VideotexString" | "VisibleString" | "CHARACTER" "STRING"
NamedBits = NamedBit | NamedBits "," NamedBit
NamedBit = LO "(" NUM ")" | LO "(" DefinedValue ")"
IntType = "INTEGER" | "INTEGER" "{" NamedNums "}"
NamedNums = NamedNum | NamedNums "," NamedNum
NamedNum = LO "(" SignedNum ")" | LO "(" DefinedValue ")"
SignedNum = NUM | "-" NUM
Enum = "ENUMERATED" "{" Enums "}"
Enums = Items | Items "," "..." Exc | Items "," "..." Exc "," Items
Items = Item | Items "," Item
Item = LO | NamedNum
Value = "TRUE" | "FALSE" | SignedNum | LO | OidVal | Real | "-" Real | "PLUS-INFINITY" | "MINUS-INFINITY"
Real = NUM | NUM "." NUM | NUM "." NUM "EXPO" SignedNum | NUM "EXPO" SignedNum
OidVal = "{" OidComps "}"
OidComps = OidComp | OidComps OidComp
OidComp = NUM | DefinedValue | LO "(" NUM ")" | LO "(" DefinedValue ")"
SeqType = SeqKw "{" "}" | SeqKw "{" ExtMark OptEnd "}" | SeqKw "{" CompLists "}"
SeqKw = "SEQUENCE" | "SET"
ExtMark = "..." Exc
OptEnd = | "," "..."
CompLists = Comps | Comps "," ExtMark ExtAdds OptEnd | Comps "," ExtMark ExtAdds "," "..." "," Comps
ExtAdds = | "," ExtAddList
ExtAddList = ExtAdd | ExtAddList "," ExtAdd
ExtAdd = Comp | "[[" Version Comps "]]"
Version = | NUM ":"
Comps = Comp | Comps "," Comp
Comp = NamedType | NamedType "OPTIONAL" | NamedType "DEFAULT" Value | "COMPONENTS" "OF" Type
ListType = SeqKw "OF" Type | SeqKw "OF" NamedType
WithConstraint = SeqKw Constraint "OF" Type | SeqKw SizeC "OF" Type | SeqKw Constraint "OF" NamedType | SeqKw SizeC "OF" NamedType
Choice = "CHOICE" "{" AltLists "}"
AltLists = Alts | Alts "," ExtMark AltAdds OptEnd | ExtMark AltAdds OptEnd
AltAdds = | "," Alts
Alts = NamedType | Alts "," NamedType
Tagged = TagT Type | TagT "IMPLICIT" Type | TagT "EXPLICIT" Type
TagT = "[" Class NUM "]" | "[" Class DefinedValue "]"
Class = | "UNIVERSAL" | "APPLICATION" | "PRIVATE"
Constraint = "(" ElemSets Exc ")"
ElemSets = ElemSet | ElemSet "," "..." | ElemSet "," "..." "," ElemSet
ElemSet = Unions | "ALL" "EXCEPT" Elem
Unions = Inters | Unions "|" Inters | Unions "UNION" Inters
Inters = IElem | Inters "^" IElem | Inters "INTERSECTION" IElem
IElem = Elem | Elem "EXCEPT" Elem
Elem = Value | Range | SizeC | Type | InnerC | "(" ElemSet ")"
Range = Lower ".." Upper
Lower = Value | "MIN" | Value "<" | "MIN" "<"
Upper = Value | "MAX" | "<" Value | "<" "MAX"
SizeC = "SIZE" Constraint
InnerC = "WITH" "COMPONENT" Constraint | "WITH" "COMPONENTS" "{" TypeCs "}" | "WITH" "COMPONENTS" "{" "..." "," TypeCs "}"
TypeCs = NamedC | NamedC "," TypeCs
NamedC = LO OptC Presence
OptC = | Constraint
Presence = | "PRESENT" | "ABSENT" | "OPTIONAL"
Exc = | "!" SignedNum | "!" DefinedValue | "!" Type ":" Value
`

// The part of it that the README calls supported: no extension addition groups, second component
// lists, exceptions on extension markers or extensible enumerations.
var supportedText = func() string {
	s := grammarText
	for _, x := range [][2]string{
		{`Enums = Items | Items "," "..." Exc | Items "," "..." Exc "," Items`, `Enums = Items`},
		{`ExtMark = "..." Exc`, `ExtMark = "..."`},
		{` | Comps "," ExtMark ExtAdds "," "..." "," Comps`, ``},
		{`ExtAdd = Comp | "[[" Version Comps "]]"`, `ExtAdd = Comp`},
		{`Version = | NUM ":"`, ``},
	} {
		if !strings.Contains(s, x[0]) {
			panic("grammar: no " + x[0])
		}
		s = strings.Replace(s, x[0], x[1], 1)
	}
	return s
}()

type rule struct {
	lhs int
	rhs []int // >=0 nonterminal, <0: terminal ^id
}

type grammar struct {
	rules    []rule
	byLHS    [][]int
	term     map[string]int
	nullable []bool
	start    int
}

var theGrammar = buildGrammar(grammarText)
var supportedGrammar = buildGrammar(supportedText)

func buildGrammar(text string) *grammar {
	g := &grammar{term: map[string]int{}}
	nt := map[string]int{}
	var lines [][2]string
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		i := strings.Index(l, " = ")
		if i < 0 { // "X = | .."
			panic("grammar: " + l)
		}
		name := l[:i]
		nt[name] = len(lines)
		lines = append(lines, [2]string{name, l[i+2:]})
	}
	g.byLHS = make([][]int, len(lines))
	for _, l := range lines {
		lhs := nt[l[0]]
		// split alternatives on "|" not quoted
		var alts [][]string
		cur := []string{}
		for _, f := range strings.Fields(l[1]) {
			if f == "|" {
				alts = append(alts, cur)
				cur = []string{}
				continue
			}
			cur = append(cur, f)
		}
		alts = append(alts, cur)
		for _, a := range alts {
			r := rule{lhs: lhs}
			for _, f := range a {
				name := strings.Trim(f, `"`)
				if n, ok := nt[f]; ok {
					r.rhs = append(r.rhs, n)
					continue
				}
				if f[0] != '"' && f != "UP" && f != "LO" && f != "NUM" {
					panic("grammar: unknown symbol " + f)
				}
				id, ok := g.term[name]
				if !ok {
					id = len(g.term)
					g.term[name] = id
				}
				r.rhs = append(r.rhs, ^id)
			}
			g.byLHS[lhs] = append(g.byLHS[lhs], len(g.rules))
			g.rules = append(g.rules, r)
		}
	}
	g.nullable = make([]bool, len(lines))
	for changed := true; changed; {
		changed = false
		for _, r := range g.rules {
			ok := !g.nullable[r.lhs]
			for _, s := range r.rhs {
				if s < 0 || !g.nullable[s] {
					ok = false
				}
			}
			if ok {
				g.nullable[r.lhs] = true
				changed = true
			}
		}
	}
	g.start = nt["Module"]
	return g
}

type eitem struct {
	rule, dot, from int32
}

// recognise reports whether toks is a sentence; if not, at is the index of the first token at which
// no sentence can continue (len(toks) when the text merely ends too early).
func (g *grammar) recognise(toks []RTok) (ok bool, at int) {
	n := len(toks)
	cur := []eitem{}
	for _, r := range g.byLHS[g.start] {
		cur = append(cur, eitem{int32(r), 0, 0})
	}
	waiting := make([]map[int][]eitem, 0, n+1) // per set: items whose next symbol is nonterminal X
	for pos := 0; ; pos++ {
		set := cur
		seen := map[eitem]bool{}
		for _, it := range set {
			seen[it] = true
		}
		wait := map[int][]eitem{}
		waiting = append(waiting, wait)
		predicted := map[int]bool{}
		var next []eitem
		add := func(it eitem) {
			if !seen[it] {
				seen[it] = true
				set = append(set, it)
			}
		}
		tid := -1
		if pos < n {
			if id, ok := g.term[toks[pos].Kind]; ok {
				tid = id
			}
		}
		for i := 0; i < len(set); i++ {
			it := set[i]
			r := &g.rules[it.rule]
			if int(it.dot) == len(r.rhs) {
				for _, w := range waiting[it.from][r.lhs] {
					add(eitem{w.rule, w.dot + 1, w.from})
				}
				continue
			}
			s := r.rhs[it.dot]
			if s < 0 {
				if ^s == tid {
					next = append(next, eitem{it.rule, it.dot + 1, it.from})
				}
				continue
			}
			wait[s] = append(wait[s], it)
			if !predicted[s] {
				predicted[s] = true
				for _, rr := range g.byLHS[s] {
					add(eitem{int32(rr), 0, int32(pos)})
				}
			}
			if g.nullable[s] {
				add(eitem{it.rule, it.dot + 1, it.from})
			}
		}
		if pos == n {
			for _, it := range set {
				r := &g.rules[it.rule]
				if r.lhs == g.start && int(it.dot) == len(r.rhs) && it.from == 0 {
					return true, n
				}
			}
			return false, n
		}
		if len(next) == 0 {
			return false, pos
		}
		cur = next
	}
}
