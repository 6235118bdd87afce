package main

import (
	"bytes"
	"context"
	_ "embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"pgregory.net/rapid"
)

// C14, C15: generated types, compiled and used with encoding/asn1, against the reference encoder.

//go:embed driver.go.txt
var driverSource string

// dv is a value as the driver is told to build it.
type dv struct {
	K     string
	B     bool    `json:",omitempty"`
	S     []byte  `json:",omitempty"`
	By    []byte  `json:",omitempty"`
	N     int     `json:",omitempty"`
	Arcs  []int64 `json:",omitempty"`
	T     int64   `json:",omitempty"`
	Items []*dv   `json:",omitempty"`
}

// toDV: sorted tells to order the elements of SET OF as they are encoded.
func toDV(e *derEnc, t *Type, v *VV, big, sorted bool) *dv {
	whole := t
	t = e.m.leafOf(t)
	switch t.K {
	case kBool:
		return &dv{K: "bool", B: v.B}
	case kInt:
		return &dv{K: "int", S: []byte(v.S)}
	case kEnum:
		return &dv{K: "enum", S: []byte(v.S)}
	case kStr:
		return &dv{K: "str", S: []byte(v.S)}
	case kOctet:
		return &dv{K: "oct", By: v.By}
	case kBit:
		return &dv{K: "bits", By: v.By, N: v.N}
	case kOID:
		return &dv{K: "oid", Arcs: v.Arcs}
	case kUseful:
		return &dv{K: "time", T: v.T}
	case kAny:
		return &dv{K: "any", Items: []*dv{toDV(e, v.AT, v.Items[0], big, sorted)}}
	case kChoice:
		if e.m.taggedAlts(t) {
			return &dv{K: "raw", By: e.full(whole, v)}
		}
		x := toDV(e, t.alts()[v.Alt].Type, v.Items[0], big, sorted)
		if len(t.Alts) == 1 {
			return x
		}
		return &dv{K: "any", Items: []*dv{x}}
	case kSeqOf, kSetOf:
		r := &dv{K: "list"}
		items := append([]*VV{}, v.Items...)
		if t.K == kSetOf && sorted {
			sort.SliceStable(items, func(i, j int) bool {
				return bytes.Compare(e.full(t.Elem, items[i]), e.full(t.Elem, items[j])) < 0
			})
		}
		for _, x := range items {
			r.Items = append(r.Items, toDV(e, t.Elem, x, big, sorted))
		}
		return r
	case kSeq, kSet:
		r := &dv{K: "seq"}
		for i, c := range t.allComps() {
			switch {
			case v.Items[i] != nil:
				r.Items = append(r.Items, toDV(e, c.Type, v.Items[i], big, sorted))
			case c.Def != nil && c.Def.K == "int" && !big:
				r.Items = append(r.Items, &dv{K: "int", S: []byte(fmt.Sprint(c.Def.I))})
			default:
				r.Items = append(r.Items, &dv{K: "absent"})
			}
		}
		return r
	}
	panic("no Go value for " + t.K)
}

// occurrence of a component in a value, seen by the decoder.
type occurrence struct {
	st *Type
	c  Comp
	v  *VV
}

func occurrences(m *Module, t *Type, v *VV, r *[]occurrence) {
	t = m.leafOf(t)
	switch t.K {
	case kChoice:
		if len(t.Alts) == 1 && !m.taggedAlts(t) {
			occurrences(m, t.Alts[0].Type, v.Items[0], r)
		}
	case kSeqOf, kSetOf:
		for _, x := range v.Items {
			occurrences(m, t.Elem, x, r)
		}
	case kSeq, kSet:
		for i, c := range t.allComps() {
			if v.Items[i] != nil {
				*r = append(*r, occurrence{t, c, v.Items[i]})
				occurrences(m, c.Type, v.Items[i], r)
			}
		}
	}
}

// mutations that a decoder has to refuse in a mandatory component.
func (o *occurrence) mutations(m *Module) (r []string) {
	if o.c.Opt || o.c.Def != nil {
		return nil
	}
	l := m.leafOf(o.c.Type)
	raw := l.K == kChoice && m.taggedAlts(l)
	if l.K == kAny || l.K == kChoice && !raw && len(l.Alts) > 1 {
		return nil
	}
	if o.c.Type.K != kTag {
		if raw {
			return nil
		}
		return []string{mutUniv}
	}
	r = []string{mutNum}
	tag := o.c.Type.Tag
	to := map[string]string{"APPLICATION": "", "": "APPLICATION", "PRIVATE": ""}[tag.Class]
	free := true
	for _, c := range o.st.allComps() {
		if c.Type.K == kTag && c.Type.Tag.Class == to && c.Type.Tag.Num == tag.Num {
			free = false
		}
	}
	if free {
		r = append(r, mutClass)
	}
	switch m.encLeaf(o.c.Type).K {
	case kBool, kInt, kEnum, kOctet, kBit, kOID, kStr, kUseful:
		// encoding an untagged CHOICE implicitly tagged is no encoding at all
		if e := (&derEnc{m: m}); !e.untagged(o.c.Type.Elem) {
			r = append(r, mutMode)
		}
	}
	return r
}

// quirk: encoding/asn1 does not skip an absent explicitly tagged component in front of a last
// component of no content, whatever the type. Not something generated types can help.
func quirk(e *derEnc, m *Module, t *Type, v *VV) bool {
	t = m.leafOf(t)
	switch t.K {
	case kChoice:
		return len(t.Alts) == 1 && !m.taggedAlts(t) && quirk(e, m, t.Alts[0].Type, v.Items[0])
	case kSeqOf, kSetOf:
		for _, x := range v.Items {
			if quirk(e, m, t.Elem, x) {
				return true
			}
		}
	case kSeq, kSet:
		comps := t.allComps()
		absent := false
		for i, c := range comps {
			if v.Items[i] == nil {
				absent = absent || c.Type.K == kTag && e.explicit(c.Type.Tag, c.Type.Elem)
				continue
			}
			if quirk(e, m, c.Type, v.Items[i]) {
				return true
			}
			last := true
			for _, x := range v.Items[i+1:] {
				last = last && x == nil
			}
			if absent && last && len(e.enc(c.Type, v.Items[i]).body) == 0 {
				return true
			}
			absent = false
		}
	}
	return false
}

// ---- running ----

type asnRequest struct {
	ID   int
	Op   string
	Type string
	V    *dv    `json:",omitempty"`
	Der  []byte `json:",omitempty"`
	// what to do with the answer
	cse    int
	expect []byte
	what   string
}

type asnResponse struct {
	ID  int
	Err string
	Out []byte
}

var goTools = sync.OnceValues(func() (string, string) {
	tool := func(n string) string {
		b, err := exec.Command("go", "tool", "-n", n).Output()
		if err != nil {
			panic(fmt.Sprintf("go tool %s: %v", n, err))
		}
		return strings.TrimSpace(string(b))
	}
	return tool("compile"), tool("link")
})

func run(dir string, limit time.Duration, stdin []byte, name string, args ...string) ([]byte, []byte, error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(stdin)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err := cmd.Run()
	return out.Bytes(), errb.Bytes(), err
}

// buildDriver compiles generated sources with the driver.
func buildDriver(dir string, sources map[string]string, types []string) (exe string, err error) {
	compile, link := goTools()
	args := []string{"-p", "main", "-importcfg", os.Getenv("VH_IMPORTCFG"), "-pack", "-c", "2", "-o", "main.a"}
	reg := "package main\n\nimport \"reflect\"\n\nvar registry = map[string]reflect.Type{\n"
	for _, t := range types {
		reg += fmt.Sprintf("%q: reflect.TypeOf((*%s)(nil)).Elem(),\n", t, goName(t))
	}
	all := map[string]string{"driver.go": driverSource, "registry.go": reg + "}\n"}
	for n, s := range sources {
		all[n] = s
	}
	var names []string
	for n, s := range all {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(s), 0644); err != nil {
			panic(err)
		}
		names = append(names, n)
	}
	sort.Strings(names)
	if out, errb, err := run(dir, 120*time.Second, nil, compile, append(args, names...)...); err != nil {
		return "", fmt.Errorf("generated code does not compile: %v\n%s%s", err, firstLines(string(out), 15), firstLines(string(errb), 5))
	}
	if _, errb, err := run(dir, 120*time.Second, nil, link, "-importcfg", os.Getenv("VH_IMPORTCFG"), "-s", "-w", "-o", "main.exe", "main.a"); err != nil {
		panic(fmt.Sprintf("link: %v %s", err, errb))
	}
	return filepath.Join(dir, "main.exe"), nil
}

func batchAsn(e *Env, cases []AsnCase, dec bool) []Outcome {
	outs := make([]Outcome, len(cases))
	var live []int
	sources := map[string]string{}
	types := map[int][]string{}
	texts := map[int]string{}
	reqs := map[int][]*asnRequest{}
	id := 0
	for i := range cases {
		c := &cases[i]
		o := &outs[i]
		p := fmt.Sprintf("Q%d-", i)
		m := c.M.prefixed(p)
		texts[i] = textOf(m, Layout{})
		out, perr, gerr := generate(texts[i], "main", c.Repr)
		if perr != nil {
			o.failf("module is not parsed: %v\n%s", perr, texts[i])
			continue
		}
		if gerr != nil {
			o.failf("no code is generated: %v\n%s", gerr, texts[i])
			continue
		}
		sources[fmt.Sprintf("gen%d.go", i)] = out
		live = append(live, i)
		big := c.Repr == "big.Int"
		seen := map[string]bool{}
		enc := &derEnc{m: c.M}
		for _, r := range c.Roots {
			if !seen[r.Type] {
				seen[r.Type] = true
				types[i] = append(types[i], p+r.Type)
			}
			t := c.M.typeDef(r.Type)
			der := enc.full(t, r.V)
			o.features(c.M, t, r.V, der)
			add := func(q *asnRequest) {
				q.ID, q.Type, q.cse = id, p+r.Type, i
				id++
				reqs[i] = append(reqs[i], q)
			}
			js, _ := json.Marshal(r.V)
			if len(js) > 600 {
				js = append(js[:600:600], "..."...)
			}
			what := fmt.Sprintf("type %s value %s", r.Type, js)
			if !dec {
				add(&asnRequest{Op: "marshal", V: toDV(enc, t, r.V, big, false), expect: der, what: what})
				continue
			}
			if quirk(enc, c.M, t, r.V) {
				o.label("left out: empty last component")
				continue
			}
			add(&asnRequest{Op: "unmarshal", V: toDV(enc, t, r.V, big, true), Der: der, what: what})
			var occ []occurrence
			occurrences(c.M, t, r.V, &occ)
			type neg struct {
				v    *VV
				kind string
				name string
			}
			var negs []neg
			for _, oc := range occ {
				for _, k := range oc.mutations(c.M) {
					negs = append(negs, neg{oc.v, k, oc.c.Name})
				}
			}
			for _, n := range r.Neg {
				if len(negs) == 0 {
					break
				}
				ng := negs[(n.At*7+n.Kind)%len(negs)]
				bad := &derEnc{m: c.M, mut: map[*VV]string{ng.v: ng.kind}}
				o.label("refuse " + ng.kind)
				add(&asnRequest{Op: "refuse", Der: bad.full(t, r.V), what: fmt.Sprintf("%s, with the wrong tag %s in component %s", what, ng.kind, ng.name)})
			}
		}
	}
	runAsn(e, live, sources, types, texts, reqs, outs)
	return outs
}

func runAsn(e *Env, live []int, sources map[string]string, types map[int][]string, texts map[int]string, reqs map[int][]*asnRequest, outs []Outcome) {
	if len(live) == 0 {
		return
	}
	dir, err := os.MkdirTemp(e.Scratch, "asn")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	part := map[string]string{}
	var ts []string
	var in bytes.Buffer
	js := json.NewEncoder(&in)
	pending := map[int]*asnRequest{}
	for _, i := range live {
		n := fmt.Sprintf("gen%d.go", i)
		part[n] = sources[n]
		ts = append(ts, types[i]...)
		for _, q := range reqs[i] {
			pending[q.ID] = q
			js.Encode(q)
		}
	}
	exe, err := buildDriver(dir, part, ts)
	if err != nil {
		if len(live) == 1 {
			outs[live[0]].failf("%v\n%s\n%s", err, texts[live[0]], part[fmt.Sprintf("gen%d.go", live[0])])
			return
		}
		h := len(live) / 2 // find the modules that do not compile
		runAsn(e, live[:h], sources, types, texts, reqs, outs)
		runAsn(e, live[h:], sources, types, texts, reqs, outs)
		return
	}
	out, errb, err := run(dir, 60*time.Second, in.Bytes(), exe)
	d := json.NewDecoder(bytes.NewReader(out))
	for {
		var r asnResponse
		if d.Decode(&r) != nil {
			break
		}
		q := pending[r.ID]
		delete(pending, r.ID)
		o := &outs[q.cse]
		src := func() string { return texts[q.cse] + "\n" + sources[fmt.Sprintf("gen%d.go", q.cse)] }
		switch {
		case r.Err != "":
			o.failf("%s of %s: %s\nencoding % x\n%s", q.Op, q.what, r.Err, clipBytes(append(q.expect, q.Der...)), src())
		case q.Op == "marshal" && !bytes.Equal(r.Out, q.expect):
			o.failf("%s: Marshal gives % x, X.690 prescribes % x\n%s", q.what, clipBytes(r.Out), clipBytes(q.expect), src())
		}
	}
	if len(pending) == 0 {
		return
	}
	if len(live) == 1 {
		o := &outs[live[0]]
		o.failf("the program using the generated types ended: %v %s\n%s", err, firstLines(string(errb), 10), texts[live[0]])
		return
	}
	var left []int
	for _, i := range live {
		missing := false
		for _, q := range reqs[i] {
			missing = missing || pending[q.ID] != nil
		}
		if missing {
			left = append(left, i)
		}
	}
	if len(left) == len(live) {
		h := len(left) / 2
		runAsn(e, left[:h], sources, types, texts, reqs, outs)
		left = left[h:]
	}
	runAsn(e, left, sources, types, texts, reqs, outs)
}

func clipBytes(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

// features labels what the case has in it; a case is non-trivial when a value holds a component or element.
func (o *Outcome) features(m *Module, t *Type, v *VV, der []byte) {
	seen := map[string]bool{}
	var walk func(t *Type, v *VV)
	walk = func(t *Type, v *VV) {
		t = m.leafOf(t)
		seen[t.K] = true
		switch t.K {
		case kAny:
			walk(v.AT, v.Items[0])
		case kChoice:
			if m.taggedAlts(t) {
				seen["RAW"] = true
				return
			}
			walk(t.alts()[v.Alt].Type, v.Items[0])
		case kSeqOf, kSetOf:
			for _, x := range v.Items {
				walk(t.Elem, x)
				o.NonTrivial = true
			}
		case kSeq, kSet:
			for i, c := range t.allComps() {
				x := v.Items[i]
				if x == nil {
					seen["absent"] = true
					if c.Def != nil {
						seen["default"] = true
					}
					continue
				}
				o.NonTrivial = true
				if c.Type.K == kTag {
					if (&derEnc{m: m}).explicit(c.Type.Tag, c.Type.Elem) {
						seen["explicit"] = true
					} else {
						seen["implicit"] = true
					}
					if c.Type.Tag.Num > 30 {
						seen["long tag"] = true
					}
				}
				walk(c.Type, x)
			}
		}
	}
	walk(t, v)
	if len(der) > 130 {
		seen["long length"] = true
	}
	for k := range seen {
		o.label(k)
	}
}

// ---- shrinking ----

func cloneAsn(c AsnCase) (r AsnCase) {
	b, _ := json.Marshal(c)
	if err := json.Unmarshal(b, &r); err != nil {
		panic(err)
	}
	return
}

func shrinkAsn(c AsnCase) (r []AsnCase) {
	if len(c.Roots) > 1 {
		for i := range c.Roots {
			x := cloneAsn(c)
			x.Roots = x.Roots[i : i+1]
			r = append(r, x)
		}
		return
	}
	for i := range c.Roots[0].Neg {
		x := cloneAsn(c)
		x.Roots[0].Neg = append(x.Roots[0].Neg[:i], x.Roots[0].Neg[i+1:]...)
		r = append(r, x)
	}
	// declarations not needed
	need := map[string]bool{}
	var mark func(n string)
	markType := func(t *Type) {
		walkTypes(t, func(t *Type) {
			if t.K == kRef {
				mark(t.Ref)
			}
		})
	}
	mark = func(n string) {
		if !need[n] {
			need[n] = true
			markType(c.M.typeDef(n))
		}
	}
	mark(c.Roots[0].Type)
	forAny(c.Roots[0].V, markType)
	x := cloneAsn(c)
	var keep []Assign
	for _, as := range x.M.Assigns {
		if need[as.Name] {
			keep = append(keep, as)
		}
	}
	if len(keep) < len(x.M.Assigns) {
		x.M.Assigns = keep
		return append(r, x)
	}
	// components, everywhere they occur in values
	n := countStructs(c.M)
	for s := 0; s < n; s++ {
		for k := 0; k < 26; k++ {
			x := cloneAsn(c)
			if dropComp(x.M, s, k, x.Roots) {
				r = append(r, x)
			}
		}
	}
	// elements of lists, parts of strings
	for k := 0; k < 400; k++ {
		x := cloneAsn(c)
		i := 0
		if !trimValue(x.M, x.M.typeDef(x.Roots[0].Type), x.Roots[0].V, &i, k) {
			if i <= k {
				break
			}
			continue
		}
		r = append(r, x)
	}
	// plainer types
	for k := 0; k < 60; k++ {
		x := cloneAsn(c)
		i, done := 0, false
		x.M.walk(func(t *Type) {
			plain := func(f func()) {
				if i == k {
					f()
					done = true
				}
				i++
			}
			if t.K == kConstr {
				plain(func() { *t = *t.Elem })
			}
			if t.C != nil && t.K != kConstr {
				plain(func() { t.C, t.Bare = nil, false })
			}
			if t.K == kInt && len(t.NN) > 0 {
				plain(func() { t.NN = nil })
			}
			if t.Ext != nil && len(t.Ext.Adds) == 0 {
				plain(func() { t.Ext = nil })
			}
			if t.Tag != nil && t.Tag.Kw != "" {
				plain(func() { t.Tag.Kw = "" })
			}
		})
		if !done {
			break
		}
		r = append(r, x)
	}
	return r
}

func forAny(v *VV, f func(*Type)) {
	if v == nil {
		return
	}
	if v.AT != nil {
		f(v.AT)
	}
	for _, x := range v.Items {
		forAny(x, f)
	}
}

func countStructs(m *Module) (n int) {
	m.walk(func(t *Type) {
		if t.K == kSeq || t.K == kSet {
			n++
		}
	})
	return
}

func dropComp(m *Module, s, k int, roots []AsnVal) bool {
	var st *Type
	m.walk(func(t *Type) {
		if t.K == kSeq || t.K == kSet {
			if s == 0 {
				st = t
			}
			s--
		}
	})
	if st == nil || k >= len(st.allComps()) {
		return false
	}
	var walk func(t *Type, v *VV)
	walk = func(t *Type, v *VV) {
		if v == nil {
			return
		}
		t = m.leafOf(t)
		switch t.K {
		case kAny:
			walk(v.AT, v.Items[0])
		case kChoice:
			walk(t.alts()[v.Alt].Type, v.Items[0])
		case kSeqOf, kSetOf:
			for _, x := range v.Items {
				walk(t.Elem, x)
			}
		case kSeq, kSet:
			for i, c := range t.allComps() {
				walk(c.Type, v.Items[i])
			}
			if t == st {
				v.Items = append(append([]*VV{}, v.Items[:k]...), v.Items[k+1:]...)
			}
		}
	}
	for _, r := range roots {
		walk(m.typeDef(r.Type), r.V)
	}
	if k < len(st.Comps) {
		st.Comps = append(append([]Comp{}, st.Comps[:k]...), st.Comps[k+1:]...)
	} else {
		k -= len(st.Comps)
		st.Ext.Adds = append(append([]Comp{}, st.Ext.Adds[:k]...), st.Ext.Adds[k+1:]...)
	}
	if len(st.Comps) == 0 && st.Ext != nil {
		st.Comps, st.Ext = st.Ext.Adds, nil
	}
	return true
}

// trimValue makes the k-th possible cut into a value.
func trimValue(m *Module, t *Type, v *VV, i *int, k int) bool {
	if v == nil {
		return false
	}
	cut := func(f func()) bool {
		*i++
		if *i-1 == k {
			f()
			return true
		}
		return false
	}
	t = m.leafOf(t)
	switch t.K {
	case kSeqOf, kSetOf:
		for x := range v.Items {
			if cut(func() { v.Items = append(append([]*VV{}, v.Items[:x]...), v.Items[x+1:]...) }) {
				return true
			}
		}
		for _, x := range v.Items {
			if trimValue(m, t.Elem, x, i, k) {
				return true
			}
		}
	case kSeq, kSet:
		for j, c := range t.allComps() {
			if trimValue(m, c.Type, v.Items[j], i, k) {
				return true
			}
		}
	case kOctet:
		return len(v.By) > 0 && cut(func() { v.By = nil })
	case kBit:
		return len(v.By) > 1 && cut(func() { v.By, v.N = []byte{0x80}, 1 })
	case kOID:
		return len(v.Arcs) > 2 && cut(func() { v.Arcs = v.Arcs[:2] })
	case kStr:
		return len(v.S) > 1 && t.Ref != "UTF8String" && cut(func() { v.S = v.S[:1] })
	}
	return false
}

func init() {
	gen := func(dec bool) func(*rapid.T) AsnCase {
		return func(t *rapid.T) AsnCase { return genAsn(t, dec) }
	}
	rule := "the module's code was generated, compiled and linked; non-trivial when an encoded value holds at least one component or element"
	register("C14", []string{
		"encoding/asn1 of the installed Go is the marshaller; types and values it cannot express are outside the documented subset (tags elsewhere than on components, SET as a whole message, several tags in a row, NULL, REAL, optional components whose present value is a Go zero value, defaults other than literal integers and zero values)",
		"the reference encoder in der.go follows X.690",
	}, batchSub("marshal", rule, 20000, 400000, 60, gen(false), func(e *Env, cs []AsnCase) []Outcome { return batchAsn(e, cs, false) }, shrinkAsn))
	register("C15", []string{
		"encoding/asn1 of the installed Go is the unmarshaller; what it cannot express is outside the documented subset (as for C14; also explicit PRIVATE tags, tagged ANY, and an absent explicitly tagged component in front of a last component without content)",
		"the reference encoder in der.go follows X.690",
	}, batchSub("unmarshal", rule, 20000, 400000, 60, gen(true), func(e *Env, cs []AsnCase) []Outcome { return batchAsn(e, cs, true) }, shrinkAsn))
}
