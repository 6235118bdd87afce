package main

import (
	"errors"
	"fmt"
	"io"
	"regexp"
	"strconv"
	"strings"

	"github.com/chemikadze/asn1go"
	"pgregory.net/rapid"
)

// ---- C06 ----

type Nest struct {
	Pre, Open, Mid, Close, Post string
	N                           int
}

type BytesCase struct {
	Kind string
	Pad  int `json:",omitempty"` // white space in front, so that the text crosses the boundary of a buffer
	B    []byte
	Nest *Nest `json:",omitempty"`
}

func (c *BytesCase) text() string {
	if c.Nest != nil {
		n := c.Nest
		return n.Pre + strings.Repeat(n.Open, n.N) + n.Mid + strings.Repeat(n.Close, n.N) + n.Post
	}
	return strings.Repeat(" ", c.Pad) + string(c.B)
}

var soupWords = append(append([]string{}, reservedWords...),
	"{", "}", "<", ">", ",", ".", "..", "...", "(", ")", "[", "]", "[[", "]]", "-", ":", "::=", "=", "\"", "'", ";", "@", "|", "!", "^",
	"--", "/*", "*/", "\n", "\r", "\r\n", "a", "foo", "B", "Foo", "M", "0", "1", "42", "007", "9223372036854775808", "1e5", "1.5e-3", "e", "E", "5e", "x-", "a--b", "\x00", "\xff", "é", "#", "$", "\\", "_")

// characters of one to four bytes, boundaries of the ranges, and what is no character
var oddChars = []string{"\x00", "\x7f", "\u0080", "é", "\u07ff", "\u0800", "€", "\u2028", "\ufeff", "\ufffd", "\uffff", "\U00010000", "\U0001F600", "\U0010FFFF",
	"\x80", "\xc0\x80", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf0\x9f", "\xf0\x9f\x98", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\U0001F600\U0001F600"}

const head = "M DEFINITIONS ::= BEGIN "

var nests = []Nest{
	{head + "A ::= ", "SEQUENCE OF ", "NULL", "", " END", 0},
	{head + "A ::= ", "SEQUENCE { a ", "NULL", " }", " END", 0},
	{head + "A ::= ", "CHOICE { a ", "NULL", " }", " END", 0},
	{head + "A ::= ", "[1] ", "NULL", "", " END", 0},
	{head + "A ::= INTEGER ", "(", "1", ")", " END", 0},
	{head + "A ::= INTEGER ", "(SIZE ", "(1)", ")", " END", 0},
	{head + "A ::= INTEGER ", "(1..2)", "", "", " END", 0},
	{head + "A ::= INTEGER (1", "|1", "", "", ") END", 0},
	{head + "A ::= INTEGER (1", " ^ 1 EXCEPT 2", "", "", ") END", 0},
	{head, "A ::= NULL ", "", "", " END", 0},
	{head + "A ::= SEQUENCE { a NULL", ", a NULL OPTIONAL", "", "", " } END", 0},
	{head, "/*", "x", "*/", "A ::= NULL END", 0},
	{head, "/* x */ -- y --", "", "", "A ::= NULL END", 0},
	{head, "/*", "", "", "A ::= NULL END", 0},
	{head + "v OBJECT IDENTIFIER ::= { ", "a(1) ", "", "", "} END", 0},
	{"M { ", "a(1) ", "", "", "} DEFINITIONS ::= BEGIN END", 0},
	{head + "IMPORTS ", "A,", "B FROM C;", "", "A ::= NULL END", 0},
	{head + "IMPORTS ", "A FROM B ", ";", "", "A ::= NULL END", 0},
	{"", "{", "", "}", "", 0},
	{"", "A", "", "", "", 0},
	{"", "-", "", "", "", 0},
	{"", "1", "", "", "", 0},
	{"", "\n", "", "", head, 0},
	{"", "\x00", "", "", "", 0},
	{head + "A ::= SEQUENCE OF a ", "SEQUENCE OF a ", "NULL", "", "", 0},
	{head + "A ::= INTEGER (INCLUDES ", "SEQUENCE { x INTEGER (", "1", ") }", ") END", 0},
	{head + "A ::= INTEGER (", "INTEGER (WITH COMPONENTS { a (", "1", ") }) |", " 1) END", 0},
	{head + "A ::= ENUMERATED { a", ", b", "", "", "} END", 0},
	{head + "a REAL ::= 1E", "9", "", "", " END", 0},
	{head + "a REAL ::= 0.0E-", "9", "", "", " END", 0},
	{head + "a REAL ::= 0.", "0", "1", "", " END", 0},
	{head + "a REAL ::= 1", "0", ".5E-", "7", " END", 0},
}

// numbers that take much time or memory when they are written out
var vastReals = []string{"1E999", "1E-999", "1E99999", "1E-99999", "1E9999999", "1E-9999999", "0E-30000000", "1.5E-30000000", "1E300000000", "1E-300000000", "1E2147483647", "1E-2147483648", "0.0E9999999999", "7E-9999999999", "1E9223372036854775807", "1E-9223372036854775807", "1E-9223372036854775808", "1E00000000000000000000000000000000000001", "5E-324", "0.1E-999999999"}

func genC06(t *rapid.T) BytesCase {
	c := genC06text(t)
	if c.Nest == nil && rapid.IntRange(0, 9).Draw(t, "pad?") == 9 {
		c.Pad = newG(t, 0).padFor(len(c.B))
	}
	return c
}

func genC06text(t *rapid.T) BytesCase {
	g := newG(t, 20)
	switch g.n(0, 11) {
	case 0:
		return BytesCase{Kind: "bytes", B: rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "b")}
	case 1, 2:
		ws := rapid.SliceOfN(rapid.SampledFrom(soupWords), 0, 30).Draw(t, "soup")
		sep := g.pick([]string{" ", "", "\n"})
		pre := g.pick([]string{"", head, head + "A ::= ", "M DEFINITIONS ", head + "A ::= SEQUENCE { a INTEGER "})
		return BytesCase{Kind: "soup", B: []byte(pre + strings.Join(ws, sep))}
	case 3:
		return BytesCase{Kind: "ascii", B: []byte(rapid.StringOfN(rapid.RuneFrom([]rune("-/*.:=[]{}(),;eE1A a\n\r\"'<>|!^@")), 0, 40, -1).Draw(t, "s"))}
	case 4:
		n := rapid.SampledFrom(nests).Draw(t, "nest")
		n.N = rapid.OneOf(rapid.IntRange(1, 300), rapid.SampledFrom([]int{1000, 4096, 5000})).Draw(t, "N")
		if g.n(0, 3) == 3 { // unbalanced
			n.Close = ""
		}
		return BytesCase{Kind: "nest", Nest: &n}
	default:
		text, _ := render(g.someTokens(wholeNotation), g.layout())
		b := []byte(text)
		k := g.n(1, 4)
		for i := 0; i < k && len(b) > 0; i++ {
			at := g.n(0, len(b)-1)
			switch g.n(0, 7) {
			case 6, 7: // a character of any length in UTF-8, whole or not, close behind a symbol the lexer looks beyond
				sym := g.pick([]string{":", "::", ".", "..", "-", "/", "*", "[", "]", "--", "/*", "a", "1", "1.", "'", " "})
				odd := g.pick(oddChars)
				if i := strings.Index(string(b[at:]), sym); i >= 0 && g.n(0, 2) > 0 {
					at += i + len(sym)
				} else {
					odd = sym + odd
				}
				b = append(b[:at:at], append([]byte(odd), b[at:]...)...)
				if g.n(0, 4) == 4 {
					b = b[:at+len(odd)]
				}
			case 0:
				b = b[:at]
			case 1:
				b = append(b[:at:at], b[at+1:]...)
			case 2:
				b = append(b[:at:at], append([]byte{rapid.Byte().Draw(t, "x")}, b[at:]...)...)
			case 3:
				b = append([]byte{}, b...)
				b[at] = rapid.Byte().Draw(t, "x")
			case 4:
				w := g.pick(soupWords)
				if g.pickN(50) == 7 {
					w = head + "A ::= INTEGER (" + g.pick(vastReals) + ") END"
					b, at = nil, 0
				}
				b = append(b[:at:at], append([]byte(w), b[at:]...)...)
			case 5:
				to := g.n(at, len(b))
				b = append(b[:to:to], b[at:]...)
			}
		}
		return BytesCase{Kind: "mutated", B: b}
	}
}

func genC06deep(t *rapid.T) BytesCase {
	n := rapid.SampledFrom(nests).Draw(t, "nest")
	n.N = rapid.SampledFrom([]int{1000, 3000, 10000, 20000, 40000}).Draw(t, "N")
	if rapid.IntRange(0, 3).Draw(t, "u") == 3 {
		n.Close = ""
	}
	return BytesCase{Kind: "nest", Nest: &n}
}

var errTooManyReads = errors.New("keeps reading after the end of the stream")

// eofReader delivers s and panics when it is read again and again after its end.
type eofReader struct {
	s    string
	past int
}

func (r *eofReader) Read(p []byte) (int, error) {
	if r.s == "" {
		r.past++
		if r.past > 10000 {
			panic(errTooManyReads)
		}
		return 0, io.EOF
	}
	n := copy(p, r.s)
	r.s = r.s[n:]
	return n, nil
}

func parseOutcome(m *asn1go.ModuleDefinition, err error) string {
	if err != nil {
		return "error: " + err.Error()
	}
	return dump(m)
}

func checkC06(e *Env, c BytesCase) (o Outcome) {
	s := c.text()
	o.label(c.Kind)
	o.NonTrivial = len(s) > 0
	m, err := asn1go.ParseStream(&eofReader{s: s})
	if (m == nil) == (err == nil) {
		o.failf("module %v and error %v together\n---\n%q", m != nil, err, clip(s))
		return
	}
	if err != nil {
		o.label("error")
		if err.Error() == "" {
			o.failf("empty error message")
		}
	} else {
		o.label("module")
	}
	if len(s) > 20000 && c.Kind == "nest" {
		return // once is enough
	}
	m2, err2 := asn1go.ParseString(s)
	if a, b := parseOutcome(m, err), parseOutcome(m2, err2); a != b {
		o.failf("two parses of one text differ; %s\n---\n%q", firstDiff(a, b), clip(s))
	}
	return
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

// ---- C07 ----

type NegCase struct {
	Kind string
	Text Str
}

var foreign = []string{"#", "$", "%", "&", "+", "?", "~", "`", "\\", "_", "*", "/", "é", "Ω", "\x00", "\x1f", "\x7f", "\xff", "\u00a0", "٣", "\ufeff", "\b",
	"\u0085", "\u2028", "\u2029", "\u3000", "\u2003", "\u202f", "\u1680", "\u200b", "\u2060", "\xa0", "\x85", "\xc2", "\xe3\x80", "\x1a", "\x1b", "\x1c", "\x04", "\u00ad", "²", "Ⅷ", "ａ", "Ａ", "１", "ª", "ſ", "K", "İ", "‐", "–", "：", "\U0001F600", "\U000E0020"}

// extra: items of ASN.1 outside the supported notation, and runs of symbols
var extra = []string{"''", "\"\"", "'01'B", "'0F'H", "''B", "''H", "'0 1'B", "\"abc\"", "\"a b\"", "\"\"\"\"", "\"--\"", "'--'", ";;", ",,", "{}", "()", "[]", "[[]]", "[[ ]]", "::", ":=", "::::=", "<>", "..|", "||", "^^", "!!", "@@", "....", ". ..", "@", "@.a", "&x", "&Type", "&A", "a:1", "A:1", "A.b", "a.b", "A.B", "a.&b", "{1}", "{a 1}", "{}{}", "{A}", "{INTEGER:a}", "-1", "--1", "- -1", "1.5", "+1", "/", "//", "//x\n", "*", "/ * x */", "0x10", "1_000", "1e", "1e+", "e5", ".5", "5.", "a_b", "_a", "#if", "END END", "END.", "BEGIN BEGIN", "ALL", "...,...", ", ...", "... ,", "!1", "!INTEGER:1", "(1)", "(SIZE(1))", "[1]", "[UNIVERSAL 1]", "OPTIONAL OPTIONAL", "DEFAULT 1", "OPTIONAL DEFAULT 1", "IMPLICIT", "EXPLICIT IMPLICIT", "ANY", "ANY DEFINED BY a", "OF", "OF OF", "WITH", "INSTANCE OF A", "CLASS {}", "TIME", "DATE", "OID-IRI", "EXTERNAL", "EMBEDDED PDV", "CHARACTER STRING", "ObjectDescriptor", "RELATIVE-OID", "a < B", "< A", "CONTAINING A", "CONSTRAINED BY {}", "PATTERN \"a\"", "SETTINGS \"a\"", "WITH SYNTAX {}", "XER", "ENCODING-CONTROL XER", "<a/>", "<a>1</a>", "</a>", "IMPORTS A FROM B;", "IMPORTS;", "EXPORTS;", "EXPORTS ALL;", "IMPORTS ;", "WITH SUCCESSORS", "WITH DESCENDANTS", "AUTOMATIC TAGS", "EXTENSIBILITY IMPLIED"}

var otherValues = []string{"NULL", "NULL", "MIN", "MAX", "ALL", "{}", "{ }", "\"\"", "\"a\"", "\"5\"", "'01'B", "'0F'H", "''H", "a : 5", "a : NULL", "INTEGER : 5", "a.b", "A", "{ 1, 2 }", "{ a, b }", "{ a 1, b TRUE }", "{ mantissa 1, base 2, exponent 3 }", "NOT-A-NUMBER", "INFINITY", "+5", "+ 5", "-TRUE", "- a", "5.", ".5", "1.5.5", "(5)", "[1] 5", "5 6", "TRUE FALSE", "-MIN", "<5", "5 <", "NULL NULL", "ABSENT", "PRESENT", "OPTIONAL", "EXTERNAL", "SEQUENCE {}", "5 | 6", "TYPE-IDENTIFIER", "a:b", "@a", "&a", "- PLUS-INFINITY", "-MINUS-INFINITY"}

var anyToks = func() (r []Tok) {
	for _, w := range reservedWords {
		r = append(r, Tok{w, 'w'})
	}
	for _, w := range []string{"a", "b", "foo", "A", "B", "Foo", "e", "E"} {
		r = append(r, Tok{w, 'w'})
	}
	for _, n := range []string{"0", "1", "5", "42"} {
		r = append(r, Tok{n, 'n'})
	}
	for _, s := range refSymbols {
		r = append(r, Tok{s, 's'})
	}
	return
}()

var nearChars = []string{":", "=", ".", "-", "[", "]", "{", "}", "(", ")", ",", ";", "<", ">", "|", "^", "!", "@", "'", "\"", "/", "*", " ", "\n", "a", "e", "E", "A", "x", "0", "1", "9"}

// frequent: items likely to be nearly right
var frequentToks = []Tok{{",", 's'}, {"{", 's'}, {"}", 's'}, {"(", 's'}, {")", 's'}, {"[", 's'}, {"]", 's'}, {"...", 's'}, {"..", 's'}, {"|", 's'}, {"^", 's'}, {"::=", 's'}, {"a", 'w'}, {"A", 'w'}, {"1", 'n'}, {"-", 's'}, {";", 's'}, {"<", 's'}, {"!", 's'}, {":", 's'}, {".", 's'},
	{"OPTIONAL", 'w'}, {"DEFAULT", 'w'}, {"OF", 'w'}, {"SIZE", 'w'}, {"EXCEPT", 'w'}, {"INTEGER", 'w'}, {"SEQUENCE", 'w'}, {"END", 'w'}, {"BEGIN", 'w'}, {"MIN", 'w'}, {"MAX", 'w'}, {"ALL", 'w'}, {"TAGS", 'w'}, {"IMPLICIT", 'w'}, {"FROM", 'w'}}

func (g *G) anyTok() Tok {
	if g.n(0, 2) > 0 {
		return rapid.SampledFrom(frequentToks).Draw(g.t, "tok")
	}
	return rapid.SampledFrom(anyToks).Draw(g.t, "tok")
}

func genC07(t *rapid.T) NegCase {
	g := newG(t, 14)
	if g.pickN(3) == 0 {
		text, _ := render(g.sentenceVia(wholeNotation, 20*g.pickN(3), true), g.layout())
		return NegCase{"damaged-rule", Str(text)}
	}
	kind, text := g.mutate(g.someTokens(wholeNotation), g.layout())
	return NegCase{kind, Str(text)}
}

// someTokens are those of a module of the supported notation or of any sentence of the grammar.
func (g *G) someTokens(d *deriver) []Tok {
	switch g.pickN(6) {
	case 0:
		return g.sentenceVia(d, 20*g.pickN(4), false)
	case 2:
		return g.published()
	case 1:
		return g.sentence(d, 10+10*g.pickN(6))
	}
	return tokensOf(g.module(3, 3))
}

// mutate changes a text a little.
func (g *G) mutate(toks []Tok, lay Layout) (string, string) {
	t := g.t
	n := len(toks)
	kind := rapid.SampledFrom([]string{"delete", "insert", "replace", "swap", "duplicate", "move", "cut", "foreign", "extra", "extra", "comment", "trailing", "glue", "twice", "chars", "chars", "look-alike", "listed", "wrapped", "other-value", "graft"}).Draw(t, "kind")
	i := g.n(0, n-1)
	edit := func(k string, i int) {
		n := len(toks)
		if n == 0 {
			return
		}
		if i >= n {
			i = n - 1
		}
		switch k {
		case "delete":
			to := i + 1
			if g.n(0, 3) == 3 {
				to = g.n(i+1, min(n, i+4))
			}
			toks = append(toks[:i:i], toks[to:]...)
		case "insert":
			toks = append(toks[:i:i], append([]Tok{g.anyTok()}, toks[i:]...)...)
		case "replace":
			toks[i] = g.anyTok()
		case "swap":
			if i+1 < n {
				toks[i], toks[i+1] = toks[i+1], toks[i]
			}
		case "duplicate":
			to := g.n(i+1, min(n, i+4))
			toks = append(toks[:to:to], toks[i:]...)
		case "move":
			x := toks[i]
			toks = append(toks[:i:i], toks[i+1:]...)
			j := g.n(0, len(toks))
			toks = append(toks[:j:j], append([]Tok{x}, toks[j:]...)...)
		}
	}
	switch kind {
	case "delete", "insert", "replace", "swap", "duplicate", "move":
		edit(kind, i)
	case "twice":
		for k := 0; k < 2; k++ {
			edit(rapid.SampledFrom([]string{"delete", "insert", "replace", "swap", "duplicate", "move"}).Draw(t, "k2"), g.n(0, n-1))
		}
	case "listed": // an item, or a few of them, again behind a separator
		to := i + 1
		if g.n(0, 2) == 2 {
			to = g.n(i+1, min(n, i+6))
		}
		again := append([]Tok{{g.pick([]string{",", ",", ",", "|", ".", ":", ";", "-", "..", "...", "/", "::="}), 's'}}, toks[i:to]...)
		if len(again) == 2 && g.n(0, 1) == 1 {
			again[1] = g.anyTok()
		}
		toks = append(toks[:to:to], append(again, toks[to:]...)...)
	case "wrapped": // in brackets
		to := g.n(i+1, min(n, i+6))
		br := rapid.SampledFrom([][2]string{{"(", ")"}, {"{", "}"}, {"[", "]"}, {"[[", "]]"}, {"<", ">"}, {"\"", "\""}, {"'", "'"}}).Draw(t, "brackets")
		in := append([]Tok{{br[0], 's'}}, toks[i:to]...)
		toks = append(toks[:i:i], append(append(in, Tok{br[1], 's'}), toks[to:]...)...)
	case "graft": // a bracketed group also behind another item, or in place of another group
		type group struct{ from, to int }
		var groups []group
		var open []int
		for k, x := range toks {
			switch x.S {
			case "{", "(", "[":
				open = append(open, k)
			case "}", ")", "]":
				if len(open) > 0 {
					if from := open[len(open)-1]; k-from < 30 {
						groups = append(groups, group{from, k + 1})
					}
					open = open[:len(open)-1]
				}
			}
		}
		if len(groups) > 0 {
			from := rapid.SampledFrom(groups).Draw(t, "group")
			in := append([]Tok{}, toks[from.from:from.to]...)
			to := group{i + 1, i + 1}
			if g.n(0, 1) == 1 {
				to = rapid.SampledFrom(groups).Draw(t, "group")
			}
			toks = append(toks[:to.from:to.from], append(in, toks[to.to:]...)...)
		}
	case "other-value": // notation for values that are not supported, in place of a value
		var at []int
		for k := 1; k < n; k++ {
			switch toks[k-1].S {
			case "DEFAULT", "::=", "(", "|", "..", "^":
				at = append(at, k)
			}
		}
		if len(at) > 0 {
			i = rapid.SampledFrom(at).Draw(t, "value")
		}
		toks = append(toks[:i:i], append([]Tok{{g.pick(otherValues), 'w'}}, toks[i+g.n(0, 1):]...)...)
	case "cut":
		toks = toks[:i]
	}
	text, offs := render(toks, lay)
	switch kind {
	case "foreign": // anywhere in the text, also inside an item
		at := g.n(0, len(text))
		text = text[:at] + g.pick(foreign) + text[at:]
	case "extra": // between two items, or in place of one
		x := g.pick(extra)
		a, b := offs[i], offs[i]
		if g.n(0, 2) == 2 {
			b += len(toks[i].S)
		}
		sp := g.pick([]string{" ", "", "\n"})
		if g.n(0, 6) == 6 {
			a, b = len(text), len(text)
		}
		text = text[:a] + sp + x + sp + text[b:]
	case "chars": // a character of an item, or next to it
		var at []int
		for k, x := range toks {
			if len(x.S) > 1 && x.K == 's' {
				at = append(at, k)
			}
		}
		if len(at) == 0 || g.n(0, 2) == 2 {
			at = []int{i}
		}
		k := rapid.SampledFrom(at).Draw(t, "item")
		a, b := offs[k], offs[k]+len(toks[k].S)
		p := g.n(a, b-1)
		x := g.pick(nearChars)
		switch g.n(0, 4) {
		case 0:
			text = text[:p] + x + text[p+1:]
		case 1:
			text = text[:p] + text[p+1:]
		case 2:
			text = text[:p] + x + text[p:]
		case 3:
			text = text[:b] + x + text[b:]
		case 4:
			if p+1 < b {
				text = text[:p] + text[p+1:p+2] + text[p:p+1] + text[p+2:]
			}
		}
	case "look-alike": // an item with something that looks like a part of it or means the same, in another alphabet
		k := i
		if g.n(0, 2) == 2 { // rather a symbol
			k = g.pickN(n)
			for j := 0; j < n && toks[k].K != 's'; j++ {
				k = (k + 1) % n
			}
		}
		a, b := offs[k], offs[k]+len(toks[k].S)
		if g.n(0, 4) == 4 && k > 0 { // white space
			x := g.pick(otherBlanks)
			if pa := offs[k-1] + len(toks[k-1].S); pa < a && g.n(0, 1) == 1 {
				text = text[:pa] + x + text[a:]
			} else if g.n(0, 3) == 3 {
				text += x
			} else {
				text = text[:a] + x + text[a:]
			}
			break
		}
		if xs := lookAlikes[text[a:b]]; xs != nil && g.n(0, 3) > 0 {
			text = text[:a] + g.pick(xs) + text[b:]
			break
		}
		p := a + g.pickN(b-a)
		c := text[p]
		xs := lookAlikes[string(c)]
		if c > ' ' && c < 0x7f {
			xs = append(xs[:len(xs):len(xs)], string(rune(0xff00+int(c)-0x20)), string(rune(c)+0x80), string(rune(c)+0xe0000)) // full width, the upper half of Latin-1, a tag
		}
		switch {
		case c >= '0' && c <= '9':
			for _, zero := range []rune{0x660, 0x6f0, 0x966, 0xe50, 0x2080, 0x1d7ce, 0x1d7f6} {
				xs = append(xs, string(zero+rune(c-'0')))
			}
		case c >= 'a' && c <= 'z':
			xs = append(xs, string(rune(0x1d41a)+rune(c-'a')), string(rune(0x24d0)+rune(c-'a')), string(c)+"\u0301", string(c)+"\u200d")
		case c >= 'A' && c <= 'Z':
			xs = append(xs, string(rune(0x1d400)+rune(c-'A')), string(rune(0x24b6)+rune(c-'A')), string(c)+"\u0301", string(c)+"\u200d")
		}
		text = text[:p] + g.pick(xs) + text[p+1:]
	case "comment":
		at := len(text)
		if g.n(0, 2) > 0 {
			at = offs[i]
		}
		text = text[:at] + g.pick([]string{"/*", "/* x", "/* /* */", "/*/", "*/", "/* */ */", "/* -- */ --*/ */"}) + text[at:]
	case "trailing":
		text += g.pick([]string{" ", "\n", ""}) + g.pick([]string{"END", "x", "A ::= NULL", ";", ".", "}", "5", "M DEFINITIONS ::= BEGIN END", "-", "/", "\"", "BEGIN", "#", "\x00"})
	case "glue": // a missing separator between two items
		a := g.n(0, max(0, len(offs)-2))
		if a+1 < len(offs) {
			text = text[:offs[a]+len(toks[a].S)] + text[offs[a+1]:]
		}
	}
	return kind, text
}

// lookAlikes maps items and their characters to characters that could be taken for them.
var lookAlikes = map[string][]string{
	"...": {"\u2026", "\u22ef", "\ufe19", "\u2024\u2024\u2024", "\u2025.", ". . .", "....", "\u3002\u3002\u3002"},
	"..":  {"\u2025", "\ufe30", "\u2024\u2024", ". .", "\u2013", "\u2026", "~", ":", "to"},
	"::=": {"\u2a74", "\u2254", ":\u2254", "\u2237=", "=", ":=", ":==", "::", "=::", ": :=", ":: =", "\u2261", "\u2190", "->", ":\u003d:"},
	"[[":  {"\u27e6", "\u301a", "[ [", "{{"}, "]]": {"\u27e7", "\u301b", "] ]", "}}"},
	"|": {"\u00a6", "\u2223", "\u01c0", "\u2502", "\u222a", "\u22c3", "\u2228", "||", "OR", "\\", "/", "+"},
	"^": {"\u02c6", "\u2227", "\u2229", "\u22c2", "\u2191", "&", "&&", "AND", "^^", "*"},
	"!": {"\u01c3", "\u203c", "\u00a1", "\u00ac"},
	"<": {"\u2039", "\u3008", "\u2329", "\u27e8", "\u2264", "<=", "\u02c2", "<<"},
	"{": {"\u2774", "\ufe5b", "\ufe37", "<%", "BEGIN", "(", "??<"},
	"}": {"\u2775", "\ufe5c", "\ufe38", "%>", "END", ")", "??>"},
	"(": {"\u2768", "\u207d", "\ufe59", "\u208d", "["}, ")": {"\u2769", "\u207e", "\ufe5a", "\u208e", "]"},
	"[": {"\u2772", "\u27e6", "\u3010", "<:", "??("}, "]": {"\u2773", "\u27e7", "\u3011", ":>", "??)"},
	",": {"\u060c", "\u201a", "\u3001", "\ufe50", "\u02bb", "\u00b8", ",,", ";"},
	";": {"\u037e", "\u061b", "\ufe54", "\u204f", ".", ","},
	":": {"\u2236", "\ua789", "\u02d0", "\ufe55", "\u05c3"},
	"=": {"\u2550", "\ufe66", "\u30a0", "=="},
	".": {"\u2024", "\u00b7", "\u3002", "\ufe52", "\u0660", "\u2022"},
	"-": {"\u2010", "\u2011", "\u2012", "\u2013", "\u2014", "\u2015", "\u2212", "\u00ad", "\ufe63", "\u02d7", "_", "~", "\u00af", "\u00b7"},
	"'": {"\u2018", "\u2019", "\u02bc", "`", "\u00b4"}, "\"": {"\u201c", "\u201d", "\u00ab"}, "@": {"\ufe6b"}, ">": {"\u203a", "\u2265", "\u27e9"},
	"S": {"\u017f", "\u0405", "5"}, "s": {"\u017f", "\u0455"}, "K": {"\u212a", "\u039a", "\u041a"}, "k": {"\u212a"}, "I": {"\u0130", "\u0399", "\u0406", "l", "\u2160"}, "i": {"\u0131", "\u0456"},
	"A": {"\u0391", "\u0410", "\u212b"}, "B": {"\u0392", "\u0412"}, "E": {"\u0395", "\u0415"}, "a": {"\u0430", "\u00aa"}, "e": {"\u0435", "\u212f"}, "o": {"\u043e", "\u03bf", "\u00ba"}, "O": {"\u041e", "\u039f", "0"}, "T": {"\u03a4", "\u0422"},
	"1": {"\u00b9", "\u2460", "l", "\u2170"}, "2": {"\u00b2", "\u2461"}, "3": {"\u00b3", "\u2462"}, "0": {"\u24ea", "O"},
}

// otherBlanks are no white space in the notation, although they could be taken for that.
var otherBlanks = []string{"\x00", "\x01", "\x04", "\x08", "\x0e", "\x1a", "\x1b", "\x1c", "\x1d", "\x1e", "\x1f", "\x7f", "\u0080", "\u0085", "\u00a0", "\u00ad", "\u034f", "\u115f", "\u1680", "\u180e", "\u2000", "\u2002", "\u2003", "\u2007", "\u2008", "\u2009", "\u200a", "\u200b", "\u200c", "\u200d", "\u200e",
	"\u2028", "\u2029", "\u202a", "\u202f", "\u205f", "\u2060", "\u2063", "\u2424", "\u3000", "\u3164", "\ufe0f", "\ufeff", "\ufff9", "\ufffc", "\ufffd", "\U000e0020", "\x80", "\x85", "\xa0", "\xff", "\xfe\xff", "\\", "\\n", "&nbsp;", "_", "%", "#", "#!", "//", "$"}

func checkC07(e *Env, c NegCase) (o Outcome) {
	rt, lexErr := refLex(string(c.Text))
	at := -1
	if lexErr == nil {
		if len(rt) > 3000 {
			return
		}
		var ok bool
		ok, at = theGrammar.recognise(rt)
		if ok {
			o.label("still-a-sentence")
			return
		}
	}
	o.label(c.Kind)
	o.NonTrivial = true
	m, err := asn1go.ParseString(string(c.Text))
	if err == nil || m != nil {
		why := fmt.Sprint(lexErr)
		if lexErr == nil {
			why = "text ends too early"
			if at < len(rt) {
				why = fmt.Sprintf("%q at byte %d cannot stand there", rt[at].S, rt[at].Off)
			}
		}
		o.failf("text outside the notation is accepted (%s), err=%v\n---\n%q", why, err, string(c.Text))
	}
	return
}

// ---- C08 ----

type LineCase struct {
	Text  string
	Lines []int // acceptable line numbers
	Kind  string
	Nl    string `json:",omitempty"` // stands Rep times before Text, and ends Rep lines
	Rep   int    `json:",omitempty"`
}

// lineOf counts line terminators (LF, CR, CR LF, VT, FF) before offset.
func lineOf(s string, off int) int {
	n := 1
	for i := 0; i < off; i++ {
		switch s[i] {
		case '\n':
			if i == 0 || s[i-1] != '\r' {
				n++
			}
		case '\r', '\v', '\f':
			n++
		}
	}
	return n
}

var neverToks = []Tok{{"#", 's'}, {"$", 's'}, {"%", 's'}, {"&", 's'}, {"~", 's'}, {"+", 's'}, {"?", 's'}, {"\\", 's'}, {"_", 's'}, {"`", 's'}, {"é", 's'}, {"\"", 's'}, {"'", 's'}, {"=", 's'}, {"@", 's'}, {">", 's'},
	{"ENCODED", 'w'}, {"ABSTRACT-SYNTAX", 'w'}, {"UNIQUE", 'w'}, {"CLASS", 'w'}, {"PDV", 'w'}, {"EXTERNAL", 'w'}, {"ObjectDescriptor", 'w'}, {"RELATIVE-OID", 'w'}, {"TYPE-IDENTIFIER", 'w'}, {"CONTAINING", 'w'}, {"PATTERN", 'w'}, {"SYNTAX", 'w'}, {"INSTANCE", 'w'},
	{"99999999999999999999", 'n'}, {"a-", 'w'}, {"foo--bar", 'w'}, {"A--", 'w'}}

var upTo1000 = func() (r []int) {
	for i := 0; i < 1000; i++ {
		r = append(r, i)
	}
	return
}()

func genC08(t *rapid.T) LineCase {
	c := genC08text(t)
	u := rapid.SampledFrom(upTo1000).Draw(t, "far") // many lines in front
	if u == 999 {
		c.Rep = rapid.SampledFrom([]int{65530, 65536, 70000, 131080}).Draw(t, "rep")
	} else if u > 950 {
		c.Rep = rapid.SampledFrom([]int{9, 30, 100, 120, 127, 128, 200, 250, 255, 256, 260, 999, 1000, 1023, 2040, 4090, 4096, 5000}).Draw(t, "rep")
	}
	if c.Rep > 0 {
		c.Nl = rapid.SampledFrom([]string{"\n", "\r\n", "\v", "\f", " \n", "--x\n", "-- -- \n"}).Draw(t, "nl")
		if c.Kind == "skip" {
			c.Rep = 0
		}
	}
	return c
}

func genC08text(t *rapid.T) LineCase {
	g := newG(t, 10)
	toks := g.someTokens(supportedNotation)
	lay := g.layoutLines()
	n := len(toks)
	i := g.n(0, n)
	switch g.n(0, 5) {
	case 0: // text ends too early
		if i == n {
			i = n - 1
		}
		text, _ := render(toks[:i], lay)
		if g.n(0, 4) == 4 { // in a comment
			text += "\n /*" + g.pick([]string{"", " ", "x", "/* */", "/*"})
			for k := g.n(0, 6); k > 0; k-- {
				text += g.pick([]string{"\n", "\r\n", "\r", "\v", "\f", "\n", "x", " x ", "* /", "-- x", "/* \n */", "\"", "END"})
			}
		}
		ls := []int{lineOf(text, len(text))}
		for k := len(text); k > 0 && isNL(text[k-1]); k-- { // the line a final terminator ends
			ls = append(ls, lineOf(text, k-1))
			if !(text[k-1] == '\n' && k > 1 && text[k-2] == '\r') {
				break
			}
		}
		return LineCase{Text: text, Lines: ls, Kind: "end"}
	case 1, 2: // an item in the wrong place
		x := g.anyTok()
		toks = append(toks[:i:i], append([]Tok{x}, toks[i:]...)...)
		text, offs := renderInserted(toks, lay, i)
		rt, err := refLex(text)
		if err != nil {
			return LineCase{Kind: "skip"}
		}
		ok, at := theGrammar.recognise(rt)
		if ok || at >= len(rt) || rt[at].Off != offs[i] {
			return LineCase{Kind: "skip"}
		}
		return LineCase{Text: text, Lines: []int{lineOf(text, offs[i])}, Kind: "misplaced"}
	default:
		x := rapid.SampledFrom(neverToks).Draw(t, "never")
		toks = append(toks[:i:i], append([]Tok{x}, toks[i:]...)...)
		text, offs := renderInserted(toks, lay, i)
		return LineCase{Text: text, Lines: []int{lineOf(text, offs[i])}, Kind: "never"}
	}
}

// renderInserted renders with the separators around item i kept from merging with it.
func renderInserted(toks []Tok, l Layout, i int) (string, []int) {
	seps := make([]string, len(toks))
	for k := range toks {
		seps[k] = l.sep(k)
		if k == i || k == i+1 {
			seps[k] = " " + seps[k]
		}
	}
	idx := make([]int, len(toks))
	for k := range idx {
		idx[k] = k
	}
	return render(toks, Layout{Seps: seps, Idx: idx, Trail: " " + l.Trail})
}

// layoutLines: separators rich in line terminators.
func (g *G) layoutLines() Layout {
	if g.n(0, 3) == 0 {
		nl := g.pick([]string{"\n", "\r\n", "\r", "\v", "\f"})
		return Layout{Seps: []string{" ", nl, nl + nl, " ", " --x" + nl, "/*" + nl + "*/"}, Idx: []int{0, 1, 3, 2, 0, 4, 1, 5, 0}, Trail: nl}
	}
	return g.layoutHeavy()
}

var lineRE = regexp.MustCompile(`\bline (\d+)\b`)

func checkC08(e *Env, c LineCase) (o Outcome) {
	o.label(c.Kind)
	if c.Kind == "skip" {
		return
	}
	if c.Rep > 0 {
		c.Text = strings.Repeat(c.Nl, c.Rep) + c.Text
		c.Lines = append([]int{}, c.Lines...)
		for i := range c.Lines {
			c.Lines[i] += c.Rep
		}
		o.label("far")
	}
	o.NonTrivial = c.Lines[0] > 1
	_, err := asn1go.ParseString(c.Text)
	if err == nil {
		o.failf("text outside the notation is accepted\n---\n%q", c.Text)
		return
	}
	mm := lineRE.FindStringSubmatch(err.Error())
	if mm == nil {
		o.failf("error names no line: %q\n---\n%q", err, c.Text)
		return
	}
	got, _ := strconv.Atoi(mm[1])
	for _, l := range c.Lines {
		if l == got {
			return
		}
	}
	o.failf("error %q, but the text stops making sense on line %v\n---\n%q", err, c.Lines, c.Text)
	return
}

// ---- C22 ----

type NameCase struct {
	Word string
	Role string
	Sep  string
}

var nameRoles = []string{"type", "value", "module", "component", "setcomponent", "ref", "enum", "import-symbol", "import-module", "named-number", "alternative", "listref", "default", "oid", "elemname", "defined-by", "extension",
	"module-oid", "import-module-oid", "export-symbol", "named-bit", "named-ref", "named-module", "enum-ref", "tag-ref", "tag-module", "upper-bound", "oid-name", "oid-ref", "definitive-name", "definitive-alone", "alternative-extension", "import-oid-ref", "set-elemname", "exception-ref", "single-value", "components-of"}

// words that mean something elsewhere: in other editions of the notation, in its useful modules, in other languages
var knownWords = []string{"TIME", "DATE", "DATE-TIME", "TIME-OF-DAY", "DURATION", "OID-IRI", "RELATIVE-OID-IRI", "SETTINGS", "ENCODING-CONTROL", "INSTRUCTIONS", "NOT-A-NUMBER",
	"MACRO", "NOTATION", "TYPE", "VALUE", "OPERATION", "ERROR", "ERRORS", "ARGUMENT", "RESULT", "BIND", "UNBIND", "OBJECT-TYPE", "OBJECT-IDENTIFIER", "OID", "BITSTRING", "BIT-STRING", "OCTETSTRING", "OCTET-STRING",
	"CHARACTER-STRING", "EMBEDDED-PDV", "INSTANCE-OF", "STRINGS", "INFINITY", "NAN", "INT", "INTEGER32", "LONG", "FLOAT", "DOUBLE", "BOOL", "CHAR", "BYTE", "STRUCT", "UNSIGNED", "LIST", "ARRAY", "RECORD", "VOID", "NIL",
	"TAG", "EXPLICIT-TAGS", "IMPLICIT-TAGS", "IMPORT", "EXPORT", "DEFINITION", "DEFINE", "DESCRIPTION", "MODULE", "AND", "OR", "NOT", "IN", "IS", "TO", "AS", "IF", "ELSE", "THEN", "DO", "NONE", "EMPTY", "UNION-OF", "ALL-EXCEPT",
	"RestrictedString", "Time", "Date", "UTF8", "UTF16String", "UTF-8String", "ISO10646String", "ASCIIString", "BitString", "OctetString", "ObjectIdentifier", "UtcTime", "UTCTIME", "GeneralisedTime", "TeleTexString", "VideoTexString", "T51String", "Null", "Boolean", "Integer",
	"absent", "present", "optional", "default", "true", "false", "null", "min", "max", "size", "func", "type", "var", "package", "import", "map", "chan", "string", "int64", "iso", "ccitt", "itu-t", "joint-iso-itu-t"}

func genC22(t *rapid.T) NameCase {
	g := newG(t, 5)
	c := NameCase{Role: rapid.SampledFrom(nameRoles).Draw(t, "role"), Sep: g.pick([]string{" ", "\n", "--c\n", "/**/", ""})}
	w := rapid.SampledFrom(append(append([]string{}, reservedWords...), "a", "B", "foo", "Foo-bar")).Draw(t, "base")
	if g.pickN(12) == 0 {
		w = g.pick(knownWords)
	}
	switch g.n(0, 11) {
	case 0:
	case 1:
		w = strings.ToLower(w)
	case 2:
		w = w + g.pick([]string{"s", "S", "1", "-x", "-1", "Q", "0"})
	case 3:
		w = g.pick([]string{"a", "A", "x-", "Z-"}) + w
	case 4: // one letter changes its case
		i := g.n(0, len(w)-1)
		b := []byte(w)
		if isLetterASCII(rune(b[i])) {
			b[i] ^= 0x20
		}
		w = string(b)
	case 5:
		i := g.n(1, len(w))
		if g.n(0, 2) == 2 {
			i = len(w)
		}
		w = w[:i] + g.pick([]string{"-", "--", "---", "x", "9"}) + w[i:]
	case 6:
		if len(w) > 1 {
			w = w[:len(w)-1]
		}
	case 7:
		if len(w) > 1 {
			w = w[1:]
		}
	case 8:
		w = rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9]{0,8}(-[a-zA-Z0-9]{1,4}){0,3}`).Draw(t, "w")
	case 9:
		w = rapid.StringMatching(`[a-zA-Z0-9-]{1,10}`).Draw(t, "w")
	case 10:
		w = strings.ToUpper(w[:1]) + strings.ToLower(w[1:])
	case 11:
		w = rapid.StringMatching(`[a-zA-Z][a-zA-Z0-9]{3}`).Draw(t, "w") + strings.Repeat(g.pick([]string{"a", "Z9", "-x"}), g.n(1, 3000))
	}
	c.Word = w
	return c
}

// nameModule is a module with the word in its role; lower: whether the role wants a lower-case initial.
func nameModule(role, w string) (m *Module, lower bool) {
	m = &Module{Name: "Mod"}
	add := func(n string, t *Type) { m.Assigns = append(m.Assigns, Assign{Name: n, Type: t}) }
	null := &Type{K: kBool}
	switch role {
	case "type":
		add(w, null)
	case "value":
		lower = true
		m.Assigns = append(m.Assigns, Assign{Name: w, Type: &Type{K: kInt}, Value: &Value{K: "int", I: 5}})
	case "module":
		m.Name = w
		add("T", null)
	case "component", "setcomponent":
		lower = true
		k := kSeq
		if role == "setcomponent" {
			k = kSet
		}
		add("T", &Type{K: k, Comps: []Comp{{Name: "first", Type: null}, {Name: w, Type: null}, {Name: "last", Type: null, Opt: true}}})
	case "extension":
		lower = true
		add("T", &Type{K: kSeq, Comps: []Comp{{Name: "first", Type: null}}, Ext: &Ext{Adds: []Comp{{Name: w, Type: null}}}})
	case "ref":
		add("T", &Type{K: kRef, Ref: w})
	case "listref":
		add("T", &Type{K: kSeqOf, Elem: &Type{K: kTag, Tag: &Tag{Num: 3}, Elem: &Type{K: kRef, Ref: w}}})
	case "enum":
		lower = true
		add("T", &Type{K: kEnum, Items: []EnumItem{{Name: "first"}, {Name: w}, {Name: "last", HasNN: true, I: 7}}})
	case "named-number":
		lower = true
		add("T", &Type{K: kInt, NN: []NamedNum{{Name: w, I: 3}, {Name: "last", I: 4}}})
	case "alternative":
		lower = true
		add("T", &Type{K: kChoice, Alts: []NamedType{{w, null}, {"last", null}}})
	case "import-symbol":
		m.HasImports = true
		m.Imports = []Import{{Symbols: []string{"First", w, "last"}, Module: "Other"}}
		add("T", null)
	case "import-module":
		m.HasImports = true
		m.Imports = []Import{{Symbols: []string{"First"}, Module: w}}
		add("T", null)
	case "default":
		lower = true
		add("T", &Type{K: kSeq, Comps: []Comp{{Name: "first", Type: &Type{K: kInt}, Def: &Value{K: "ident", S: w}}}})
	case "oid":
		lower = true
		m.Assigns = append(m.Assigns, Assign{Name: "v", Type: &Type{K: kOID}, Value: &Value{K: "oid", OID: []OIDComp{{Form: "namenum", Name: w, Num: 4}}}})
	case "elemname":
		lower = true
		add("T", &Type{K: kSeqOf, ElemName: w, Elem: null})
	case "defined-by":
		lower = true
		add("T", &Type{K: kAny, Ref: w})
	case "module-oid":
		m.Name, m.DefID = w, []OIDComp{{Form: "num", Num: 1}, {Form: "num", Num: 3}}
		add("T", null)
	case "definitive-name", "definitive-alone":
		lower = true
		m.DefID = []OIDComp{{Form: "name", Name: "iso"}, {Form: "namenum", Name: w, Num: 5}, {Form: "num", Num: 3}}
		if role == "definitive-alone" {
			m.DefID[1] = OIDComp{Form: "name", Name: w}
		}
		add("T", null)
	case "import-module-oid":
		m.HasImports = true
		m.Imports = []Import{{Symbols: []string{"First"}, Module: w, OID: []OIDComp{{Form: "num", Num: 1}}}, {Symbols: []string{"last"}, Module: "Other"}}
		add("T", null)
	case "import-oid-ref":
		lower = true
		m.HasImports = true
		m.Imports = []Import{{Symbols: []string{"First"}, Module: "Other", Mod: "Third", Val: w}}
		add("T", null)
	case "export-symbol":
		m.Exports = &Exports{Symbols: []string{"First", w, "last"}}
		add("T", null)
	case "named-bit":
		lower = true
		add("T", &Type{K: kBit, NN: []NamedNum{{Name: "first", I: 3}, {Name: w, I: 4}}})
	case "named-ref":
		lower = true
		add("T", &Type{K: kInt, NN: []NamedNum{{Name: "first", Val: w}, {Name: "last", I: 4}}})
	case "named-module":
		add("T", &Type{K: kInt, NN: []NamedNum{{Name: "first", Mod: w, Val: "x"}, {Name: "last", I: 4}}})
	case "enum-ref":
		lower = true
		add("T", &Type{K: kEnum, Items: []EnumItem{{Name: "first", HasNN: true, Val: w}, {Name: "last"}}})
	case "tag-ref":
		lower = true
		add("T", &Type{K: kTag, Tag: &Tag{Class: "APPLICATION", Val: w}, Elem: null})
	case "tag-module":
		add("T", &Type{K: kTag, Tag: &Tag{Mod: w, Val: "x"}, Elem: null})
	case "upper-bound", "single-value", "exception-ref":
		lower = true
		e := Elem{K: "range", Lo: &Value{K: "int", I: 1}, Hi: &Value{K: "ident", S: w}}
		if role == "single-value" {
			e = Elem{K: "val", Val: &Value{K: "ident", S: w}}
		}
		k := &Constraint{Root: ElemSet{Unions: []Inters{{Elems: []IElem{{E: e}}}}}}
		if role == "exception-ref" {
			e.Hi = &Value{K: "int", I: 2}
			k.Root.Unions[0].Elems[0].E = e
			k.Exc = &Exc{K: "ref", Val: w}
		}
		add("T", &Type{K: kConstr, Elem: &Type{K: kInt}, C: k})
	case "oid-name", "oid-ref":
		lower = true
		x := OIDComp{Form: "name", Name: w}
		if role == "oid-ref" {
			x = OIDComp{Form: "nameref", Name: "x", Val: w}
		}
		m.Assigns = append(m.Assigns, Assign{Name: "v", Type: &Type{K: kOID}, Value: &Value{K: "oid", OID: []OIDComp{{Form: "num", Num: 1}, x, {Form: "num", Num: 1}}}})
	case "alternative-extension":
		lower = true
		add("T", &Type{K: kChoice, Alts: []NamedType{{"first", null}}, AltExt: &ChoiceExt{Adds: []NamedType{{"second", null}, {w, null}}}})
	case "set-elemname":
		lower = true
		add("T", &Type{K: kSetOf, ElemName: w, Elem: null})
	case "components-of":
		add("T", &Type{K: kSeq, Comps: []Comp{{Name: "first", Type: null}, {CompsOf: &Type{K: kRef, Ref: w}}}})
	}
	return
}

var nameRE = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9]*(-[a-zA-Z0-9]+)*$`)

func checkC22(e *Env, c NameCase) (o Outcome) {
	m, lower := nameModule(c.Role, c.Word)
	lay := Layout{Seps: []string{" ", c.Sep}, Trail: c.Sep}
	if c.Sep == "" {
		lay.Seps = []string{""}
	}
	text := textOf(m, lay)
	w := c.Word
	isLow := w[0] >= 'a' && w[0] <= 'z'
	o.label(c.Role)
	switch {
	case nameRE.MatchString(w) && !reserved[w] && (isLow == lower || c.Role == "import-symbol" || c.Role == "export-symbol"):
		o.NonTrivial = true
		o.label("(name)")
		expectParse(&o, m, text)
	case reserved[w]:
		// A type keyword where a type is referred to, or a value keyword where a value is, is no name but legal.
		switch c.Role {
		case "ref", "listref", "default", "components-of", "upper-bound", "single-value":
			o.label("(keyword-skipped)")
			return
		}
		fallthrough
	default:
		rt, lexErr := refLex(text)
		if lexErr == nil {
			if ok, _ := theGrammar.recognise(rt); ok {
				o.label("(other-sentence)")
				return
			}
		}
		o.NonTrivial = true
		o.label("(not-a-name)")
		if mod, err := asn1go.ParseString(text); err == nil || mod != nil {
			o.failf("%q is accepted as %s\n---\n%s", clip(w), c.Role, clip(text))
		}
	}
	return
}

// Several words that resemble each other, each in many roles of one module.
type AlikeCase struct {
	Words []string // as with a lower-case initial
	Kind  string
}

func genC22alike(t *rapid.T) AlikeCase {
	g := newG(t, 5)
	base := rapid.StringMatching(`[a-z][a-zA-Z0-9]{1,6}(-[a-zA-Z0-9]{1,3}){0,2}`).Draw(t, "base")
	c := AlikeCase{Kind: g.pick([]string{"late", "late", "early", "swapped", "case", "hyphen", "digits", "length", "keyword"})}
	n := rapid.SampledFrom([]int{1, 5, 10, 13, 14, 15, 20, 26, 28, 29, 30, 31, 32, 40, 60, 62, 63, 64, 100, 120, 125, 127, 128, 250, 255, 256, 500, 1000, 1024, 4000, 4096}).Draw(t, "length")
	fill := strings.Repeat(g.pick([]string{"a", "x9", "Ab", "-q", "0"}), n)[:n]
	fill = strings.TrimRight(fill, "-")
	k := g.n(2, 4)
	for i := 0; i < k; i++ {
		ch := string("bcdefg"[i])
		w := base
		switch c.Kind {
		case "late":
			w = base + fill + ch
		case "early":
			w = base + ch + fill
		case "swapped": // same letters, another order
			w = base + strings.Repeat("p", i+1) + "q" + strings.Repeat("p", k-i)
		case "case":
			b := []byte(base + "Word")
			for j := 1; j < len(b); j++ {
				if b[j] != '-' && isLetterASCII(rune(b[j])) && (i>>uint(j%2))&1 == 1 {
					b[j] ^= 0x20
				}
			}
			w = string(b)
		case "hyphen":
			w = base + []string{"abc", "a-bc", "ab-c", "a-b-c"}[i%4]
		case "digits":
			w = base + []string{"1", "01", "10", "001"}[i%4]
		case "length":
			w = base + strings.Repeat(fill, i+1)
		case "keyword":
			w = strings.ToLower(g.pick(reservedWords)) + []string{"", "s", "-x", "1"}[i%4]
		}
		c.Words = append(c.Words, strings.TrimRight(w, "-"))
	}
	return c
}

func checkC22alike(e *Env, c AlikeCase) (o Outcome) {
	o.label(c.Kind)
	seen := map[string]bool{}
	m := &Module{Name: "Mod", HasImports: true}
	seq := &Type{K: kSeq}
	enum := &Type{K: kEnum}
	ints := &Type{K: kInt}
	choice := &Type{K: kChoice}
	oid := &Value{K: "oid"}
	add := func(n string, t *Type, v *Value) { m.Assigns = append(m.Assigns, Assign{Name: n, Type: t, Value: v}) }
	for i, w := range c.Words {
		up := strings.ToUpper(w[:1]) + w[1:]
		if seen[w] || !nameRE.MatchString(w) || reserved[w] || reserved[up] {
			continue
		}
		seen[w] = true
		leaf := []*Type{{K: kBool}, {K: kInt}, {K: kNull}, {K: kOctet}}[i%4]
		seq.Comps = append(seq.Comps, Comp{Name: w, Type: &Type{K: kRef, Ref: up}, Opt: i%2 == 1})
		enum.Items = append(enum.Items, EnumItem{Name: w, HasNN: true, I: int64(i)})
		ints.NN = append(ints.NN, NamedNum{Name: w, I: int64(i)})
		choice.Alts = append(choice.Alts, NamedType{w, &Type{K: kRef, Ref: up}})
		oid.OID = append(oid.OID, OIDComp{Form: "namenum", Name: w, Num: int64(i)})
		m.Imports = append(m.Imports, Import{Symbols: []string{up + "i", w}, Module: up + "m"})
		add(up, leaf, nil)
		add(w, &Type{K: kInt}, &Value{K: "int", I: int64(i)})
	}
	if len(seen) < 2 {
		return
	}
	o.NonTrivial = true
	add("TheSeq", seq, nil)
	add("TheEnum", enum, nil)
	add("TheInt", ints, nil)
	add("TheChoice", choice, nil)
	add("the-oid", &Type{K: kOID}, oid)
	text := textOf(m, plainLayout)
	expectParse(&o, m, text)
	if o.Err != nil {
		return
	}
	mod, _ := asn1go.ParseString(text)
	for _, a := range m.Assigns {
		if a.Value == nil {
			if x := mod.ModuleBody.AssignmentList.GetType(a.Name); x == nil || x.Reference().Name() != a.Name {
				o.failf("looking up type %s gives %s", clip(a.Name), dump(x))
			}
		} else if x := mod.ModuleBody.AssignmentList.GetValue(a.Name); x == nil || x.Reference().Name() != a.Name {
			o.failf("looking up value %s gives %s", clip(a.Name), dump(x))
		}
	}
	return
}

func init() {
	register("C06", []string{"texts up to a few hundred kilobytes; nesting up to 40000 levels (the parser keeps its stack on the heap)"},
		sub("any-text", "non-trivial: non-empty text", 180000, 4000000, genC06, checkC06).term(),
		sub("deep", "non-trivial: non-empty text", 300, 2000, genC06deep, checkC06).term(),
	)
	register("C07", []string{"the supported notation is the grammar in earley.go, which also admits what the implementation may refuse (see C01)"},
		sub("not-a-sentence", "non-trivial: the text is not a sentence of the supported notation according to the reference lexer and the Earley recogniser", 1200000, 8000000, genC07, checkC07),
	)
	register("C08", []string{"when the text ends with a line terminator, both the line it ends and the empty one after it count as last line"},
		sub("line", "non-trivial: the error is not on line 1", 600000, 12000000, genC08, checkC08),
	)
	register("C22", nil,
		sub("names", "non-trivial: a name or a word that is no name in this role", 1000000, 15000000, genC22, checkC22),
		sub("alike", "non-trivial: at least two names that differ late, early, in case, hyphens, digits, length or order of letters", 60000, 1000000, genC22alike, checkC22alike),
	)
}
