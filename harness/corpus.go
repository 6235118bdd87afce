package main

import (
	"embed"
	"sync"
)

//go:embed corpus/*.asn1
var corpusFiles embed.FS

// corpus holds the declarations of published modules, as items.
var corpus = sync.OnceValue(func() (r [][]Tok) {
	es, _ := corpusFiles.ReadDir("corpus")
	for _, e := range es {
		b, _ := corpusFiles.ReadFile("corpus/" + e.Name())
		toks, err := refLex(string(b))
		if err != nil {
			continue
		}
		var starts []int
		for p := range toks {
			if toks[p].Kind != "::=" || p < 3 || toks[p-1].S == "DEFINITIONS" || toks[p-1].S == "TAGS" {
				continue
			}
			s := p - 1
			if toks[s].Kind != "UP" || toks[s-1].Kind == "LO" { // a value
				for s > 0 && toks[s].Kind != "LO" {
					s--
				}
			}
			starts = append(starts, s)
		}
		for i, s := range starts {
			end := len(toks) - 1
			if i+1 < len(starts) {
				end = starts[i+1]
			}
			if end <= s || end-s > 400 {
				continue
			}
			var ts []Tok
			for k := s; k < end; k++ {
				t := toks[k]
				switch {
				case t.Kind == "NUM":
					ts = append(ts, Tok{t.S, 'n'})
				case isLetterASCII(rune(t.S[0])):
					ts = append(ts, Tok{t.S, 'w'})
				default:
					ts = append(ts, Tok{t.S, 's'})
				}
			}
			text, _ := render(wrapDecls([][]Tok{ts}), plainLayout)
			if rt, err := refLex(text); err == nil {
				if ok, _ := supportedGrammar.recognise(rt); ok {
					r = append(r, ts)
				}
			}
		}
	}
	return
})

func wrapDecls(ds [][]Tok) []Tok {
	r := []Tok{{"M", 'w'}, {"DEFINITIONS", 'w'}, {"::=", 's'}, {"BEGIN", 'w'}}
	for _, d := range ds {
		r = append(r, d...)
	}
	return append(r, Tok{"END", 'w'})
}

// published is a module of a few published declarations.
func (g *G) published() []Tok {
	c := corpus()
	var ds [][]Tok
	for i := 1 + g.pickN(3); i > 0; i-- {
		ds = append(ds, c[g.pickN(len(c))])
	}
	return wrapDecls(ds)
}
