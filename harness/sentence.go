package main

// Sentences derived from the reference grammar itself: every production, also those the module
// generator does not model (extension addition groups, two component lists, exceptions anywhere).

// heights: least depth of a derivation of a rule, and of a nonterminal.
func (g *grammar) heights() ([]int, []int) {
	nh := make([]int, len(g.byLHS))
	rh := make([]int, len(g.rules))
	for i := range nh {
		nh[i] = 1 << 20
	}
	for changed := true; changed; {
		changed = false
		for i, r := range g.rules {
			h := 0
			for _, s := range r.rhs {
				if s >= 0 && nh[s]+1 > h {
					h = nh[s] + 1
				}
			}
			rh[i] = h
			if h < nh[r.lhs] {
				nh[r.lhs] = h
				changed = true
			}
		}
	}
	return rh, nh
}

type deriver struct {
	*grammar
	ruleHeight, ntHeight []int
	termName             []string
	dist                 []int      // of a nonterminal from the start
	uses                 [][][2]int // of a nonterminal: rule and position
}

func newDeriver(g *grammar) *deriver {
	d := &deriver{grammar: g, termName: make([]string, len(g.term)), dist: make([]int, len(g.byLHS)), uses: make([][][2]int, len(g.byLHS))}
	d.ruleHeight, d.ntHeight = g.heights()
	for n, id := range g.term {
		d.termName[id] = n
	}
	for i := range d.dist {
		d.dist[i] = 1 << 20
	}
	d.dist[g.start] = 0
	for changed := true; changed; {
		changed = false
		for _, r := range g.rules {
			for _, s := range r.rhs {
				if s >= 0 && d.dist[r.lhs]+1 < d.dist[s] {
					d.dist[s] = d.dist[r.lhs] + 1
					changed = true
				}
			}
		}
	}
	for k, r := range g.rules {
		for i, s := range r.rhs {
			if s >= 0 && d.dist[r.lhs] < 1<<20 {
				d.uses[s] = append(d.uses[s], [2]int{k, i})
			}
		}
	}
	return d
}

var wholeNotation, supportedNotation = newDeriver(theGrammar), newDeriver(supportedGrammar)

// sentence derives a sentence of about the given number of choices.
func (g *G) sentence(gr *deriver, fuel int) []Tok { return g.derive(gr, nil, fuel, false) }

// sentenceVia derives a sentence that uses a rule picked evenly from all of them; with a defect, a
// symbol of that rule is missing, doubled, in the wrong place or another one.
func (g *G) sentenceVia(gr *deriver, fuel int, defect bool) []Tok {
	r := 0
	for {
		if r = g.pickN(len(gr.rules)); gr.dist[gr.rules[r].lhs] < 1<<20 {
			break
		}
	}
	path := [][2]int{{r, -1}}
	for nt := gr.rules[r].lhs; nt != gr.start; {
		var us [][2]int
		for _, u := range gr.uses[nt] {
			if len(path) < 8 || gr.dist[gr.rules[u[0]].lhs] < gr.dist[nt] {
				us = append(us, u)
			}
		}
		u := us[g.pickN(len(us))]
		path = append([][2]int{u}, path...)
		nt = gr.rules[u[0]].lhs
	}
	return g.derive(gr, path, fuel, defect)
}

// derive follows the path (rules, and the position in each where the next one stands) first.
func (g *G) derive(gr *deriver, path [][2]int, fuel int, defect bool) []Tok {
	var toks []Tok
	glue := false // the next token continues the number before it
	terminal := func(k string) {
		last := len(toks) - 1
		switch k {
		case "UP":
			toks = append(toks, Tok{g.word(true), 'w'})
		case "LO":
			toks = append(toks, Tok{g.word(false), 'w'})
		case "NUM":
			if glue {
				toks[last].S += g.pick([]string{"0", "1", "5", "05", "22"})
				glue = false
			} else {
				toks = append(toks, Tok{g.pick([]string{"0", "1", "2", "5", "42", "127", "128", "65536"}), 'n'})
			}
		case "EXPO":
			if last < 0 {
				return
			}
			toks[last].S += g.pick([]string{"e", "E"})
			glue = true
		default:
			switch {
			case k == "-" && glue:
				toks[last].S += "-"
			case k == "." && last >= 0 && toks[last].K == 'n':
				toks[last].S += "."
				glue = true
			case isLetterASCII(rune(k[0])):
				toks = append(toks, Tok{k, 'w'})
				glue = false
			default:
				toks = append(toks, Tok{k, 's'})
				glue = false
			}
		}
	}
	var expand func(nt int, path [][2]int)
	expand = func(nt int, path [][2]int) {
		alts := gr.byLHS[nt]
		fuel--
		at := -1
		var r int
		switch {
		case len(path) > 0:
			r, at = path[0][0], path[0][1]
		case fuel > 0:
			r = alts[g.pickN(len(alts))]
		default:
			best := []int{}
			for _, a := range alts {
				if gr.ruleHeight[a] == gr.ntHeight[nt] {
					best = append(best, a)
				}
			}
			r = best[g.pickN(len(best))]
		}
		rhs := gr.rules[r].rhs
		if defect && len(path) == 1 {
			rhs = g.damage(gr, rhs)
		}
		for i, s := range rhs {
			switch {
			case s < 0:
				terminal(gr.termName[^s])
			case i == at:
				expand(s, path[1:])
			default:
				expand(s, nil)
			}
		}
	}
	expand(gr.start, path)
	return toks
}

func (g *G) damage(gr *deriver, rhs []int) []int {
	r := append([]int{}, rhs...)
	other := func() int {
		if g.n(0, 1) == 0 {
			return ^g.pickN(len(gr.termName))
		}
		for {
			if s := g.pickN(len(gr.dist)); gr.dist[s] < 1<<20 && s != gr.start {
				return s
			}
		}
	}
	if len(r) == 0 {
		return []int{other()}
	}
	i := g.pickN(len(r))
	switch g.pickN(10) {
	case 0, 1:
		return append(r[:i:i], r[i+1:]...)
	case 2:
		return append(r[:i+1:i+1], r[i:]...)
	case 3:
		j := g.pickN(len(r))
		r[i], r[j] = r[j], r[i]
		return r
	case 4:
		r[i] = other()
		return r
	case 5: // several symbols are missing
		return append(r[:i:i], r[g.n(i+1, len(r)):]...)
	case 6, 7: // goes on like another rule with the same symbol in it
		q, j := gr.sharing(g, r[i])
		return append(r[:i:i], q[j:]...)
	case 8: // a symbol of a rule that has another symbol in common
		q, _ := gr.sharing(g, r[g.pickN(len(r))])
		r[i] = q[g.pickN(len(q))]
		return r
	default:
		return append(r[:i:i], append([]int{other()}, r[i:]...)...)
	}
}

// sharing is a rule with the symbol in it, and the place of the symbol.
func (d *deriver) sharing(g *G, symbol int) ([]int, int) {
	var found [][2]int
	for k, r := range d.rules {
		if d.dist[r.lhs] == 1<<20 {
			continue
		}
		for i, s := range r.rhs {
			if s == symbol {
				found = append(found, [2]int{k, i})
			}
		}
	}
	f := found[g.pickN(len(found))]
	return append([]int{}, d.rules[f[0]].rhs...), f[1]
}
