package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/chemikadze/asn1go"
	"pgregory.net/rapid"
)

// ---- C09 ----

type StreamCase struct {
	Pad     int // white space before the text, so that it crosses the boundary of a buffer
	Text    Str
	Chunks  []int // sizes of the pieces, cyclic; 0 = empty read
	EOFData bool  // the last piece comes together with EOF
	Pipe    bool  `json:",omitempty"` // the file is a named pipe
	File    Str   `json:",omitempty"` // its name

	// the kind of stream: "" has no methods other than Read
	Via  string `json:",omitempty"`
	Size int    `json:",omitempty"` // buffered: size of the buffer; offset: what is read before; other: the length it tells
}

var streamKinds = []string{"", "", "", "", "buffered", "buffered", "strings", "bytes", "buffer", "section", "file", "limited", "multi", "talking", "talking", "closer", "pointer"}

// via is the stream that delivers what r does, where the kind does not say that it is a stream of its own.
func (c *StreamCase) via(e *Env, r io.Reader, s string) (io.Reader, func()) {
	none := func() {}
	before := strings.Repeat("#", c.Size%5000)
	switch c.Via {
	case "buffered":
		return bufio.NewReaderSize(r, c.Size), none
	case "limited":
		return io.LimitReader(r, 1<<40), none
	case "multi":
		return io.MultiReader(strings.NewReader(""), r, strings.NewReader("")), none
	case "talking":
		return &talkingReader{r, c.Size}, none
	case "closer":
		return &closingReader{Reader: r}, none
	case "pointer":
		return struct{ *bufio.Reader }{bufio.NewReader(r)}, none
	}
	if s == "" {
		return r, none
	}
	switch c.Via { // streams that were read in part before
	case "strings":
		x := strings.NewReader(before + s)
		x.Seek(int64(len(before)), io.SeekStart)
		return x, none
	case "bytes":
		x := bytes.NewReader([]byte(before + s))
		x.Seek(int64(len(before)), io.SeekStart)
		return x, none
	case "buffer":
		x := bytes.NewBufferString(before + s)
		x.Next(len(before))
		return x, none
	case "section":
		return io.NewSectionReader(strings.NewReader(before+s+before), int64(len(before)), int64(len(s))), none
	case "file":
		path := filepath.Join(e.Scratch, "partly-read")
		if err := os.WriteFile(path, []byte(before+s), 0600); err != nil {
			panic(err)
		}
		f, err := os.Open(path)
		if err != nil {
			panic(err)
		}
		f.Seek(int64(len(before)), io.SeekStart)
		return f, func() { f.Close(); os.Remove(path) }
	}
	return r, none
}

// talkingReader has further methods, of other meanings than those a parser could expect.
type talkingReader struct {
	r io.Reader
	n int
}

func (r *talkingReader) Read(p []byte) (int, error) { return r.r.Read(p) }
func (r *talkingReader) Len() int                   { return r.n }
func (r *talkingReader) Size() int64                { return int64(r.n) }
func (r *talkingReader) Buffered() int              { return r.n }
func (r *talkingReader) Name() string               { return "/nonexistent/x.asn1" }
func (r *talkingReader) String() string             { return "M DEFINITIONS ::= BEGIN END" }
func (r *talkingReader) Bytes() []byte              { return nil }
func (r *talkingReader) Seek(int64, int) (int64, error) {
	return 0, errors.New("this is no file")
}
func (r *talkingReader) Close() error { return errors.New("can not be closed") }

// closingReader can not be read after it was closed.
type closingReader struct {
	io.Reader
	closed bool
}

func (r *closingReader) Read(p []byte) (int, error) {
	if r.closed {
		return 0, os.ErrClosed
	}
	return r.Reader.Read(p)
}
func (r *closingReader) Close() error { r.closed = true; return nil }

func (c *StreamCase) text() string {
	return strings.Repeat(" ", c.Pad) + string(c.Text)
}

// anyText generates valid modules (mostly), nearly valid ones and garbage.
func (g *G) anyText() string {
	switch g.n(0, 9) {
	case 0, 1:
		c := genC06(g.t)
		if c.Nest != nil && c.Nest.N > 300 {
			c.Nest.N = 300
		}
		return c.text()
	case 2:
		return string(genC07(g.t).Text)
	case 3:
		return genC08(g.t).Text
	case 4:
		return textOf(genCgModule(g, 2, 4, 3), g.layout())
	}
	return textOf(g.module(3, 4), g.layoutHeavy())
}

func (g *G) padFor(n int) int {
	size := 0
	switch rapid.IntRange(0, 29).Draw(g.t, "pad") {
	case 12, 13, 14, 15, 16, 17, 18, 19:
		size = 4096
	case 20, 21, 22, 23, 24, 25, 26:
		size = 8192
	case 27, 28:
		size = rapid.SampledFrom([]int{16384, 32768, 65536, 65536}).Draw(g.t, "size")
	case 29:
		size = rapid.SampledFrom([]int{65536, 131072, 65536, 131072, 262144, 1 << 20}).Draw(g.t, "size")
	default:
		return 0
	}
	return g.n(max(0, size-n), size)
}

func genC09(t *rapid.T) StreamCase {
	g := newG(t, 25)
	var c StreamCase
	s := g.anyText()
	c.Text = Str(s)
	c.Pad = g.padFor(len(s))
	switch g.n(0, 4) {
	case 0:
		c.Chunks = []int{1}
	case 1:
		c.Chunks = []int{4096}
	case 2:
		c.Chunks = []int{rapid.SampledFrom([]int{2, 3, 4, 5, 7, 15, 16, 17, 512, 4095, 4097}).Draw(t, "c")}
	default:
		c.Chunks = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 5000), rapid.Just(0)), 1, 12).Draw(t, "chunks")
		c.Chunks = append(c.Chunks, g.n(1, 50))
	}
	c.Via = g.pick(streamKinds)
	c.Size = rapid.SampledFrom([]int{0, 1, 3, 15, 16, 17, 64, 100, 512, 4095, 4096, 4097, 5000, 65536}).Draw(t, "size")
	c.EOFData = g.n(0, 1) == 1
	c.Pipe = g.n(0, 7) == 7
	c.File = Str(g.fileName())
	return c
}

// parsePipe parses a named pipe into which s is written.
func parsePipe(path, s string) string {
	os.Remove(path)
	if err := syscall.Mkfifo(path, 0600); err != nil {
		panic(err)
	}
	defer os.Remove(path)
	done := make(chan bool)
	go func() {
		defer close(done)
		if f, err := os.OpenFile(path, os.O_WRONLY, 0); err == nil { // waits for the reader
			f.WriteString(s)
			f.Close()
		}
	}()
	r := parseOutcome(asn1go.ParseFile(path))
	for { // in case it was not even opened
		if f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0); err == nil {
			select {
			case <-done:
				f.Close()
				return r
			case <-time.After(time.Millisecond):
				f.Close()
			}
		} else {
			panic(err)
		}
	}
}

// chunkReader delivers s in pieces.
type chunkReader struct {
	s       string
	chunks  []int
	i       int
	eofData bool
	past    int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.s == "" {
		if r.past++; r.past > 10000 {
			panic(errTooManyReads)
		}
		return 0, io.EOF
	}
	n := min(r.chunks[r.i%len(r.chunks)], len(r.s), len(p))
	r.i++
	copy(p, r.s[:n])
	// a reader may use all of p as scratch space
	for i := n; i < len(p) && i < n+64; i++ {
		p[i] = 'Z'
	}
	r.s = r.s[n:]
	if r.s == "" && r.eofData {
		return n, io.EOF
	}
	return n, nil
}

func checkC09(e *Env, c StreamCase) (o Outcome) {
	s := c.text()
	m, err := asn1go.ParseString(s)
	if (m == nil) == (err == nil) {
		o.failf("module %v, error %v", m != nil, err)
		return
	}
	want := parseOutcome(m, err)
	o.NonTrivial = err == nil && len(c.Chunks) > 0
	if err == nil {
		o.label("module")
	} else {
		o.label("error")
	}
	if len(s) > 4096 {
		o.label("crosses-4096")
	}
	stream, done := c.via(e, &chunkReader{s: s, chunks: c.Chunks, eofData: c.EOFData}, s)
	defer done()
	if got := parseOutcome(asn1go.ParseStream(stream)); got != want {
		o.failf("pieces of %v bytes (EOF with data: %v, stream %q %d) give another outcome than the string; %s\n---\n%s", c.Chunks, c.EOFData, c.Via, c.Size, firstDiff(want, got), clip(s))
		return
	}
	name := string(c.File)
	if name == "" {
		name = "in.asn1"
	}
	path := filepath.Join(e.Scratch, name)
	if err := os.WriteFile(path, []byte(s), 0600); err != nil {
		panic(err)
	}
	got := parseOutcome(asn1go.ParseFile(path))
	os.Remove(path)
	if got != want {
		o.failf("the file %q gives another outcome than the string; %s\n---\n%s", name, firstDiff(want, got), clip(s))
		return
	}
	if c.Pipe {
		o.label("pipe")
		if got := parsePipe(filepath.Join(e.Scratch, "in.pipe"), s); got != want {
			o.failf("the named pipe gives another outcome than the string; %s\n---\n%s", firstDiff(want, got), clip(s))
			return
		}
	}
	if got := parseOutcome(asn1go.ParseString(s)); got != want {
		o.failf("repeating the parse gives another outcome; %s\n---\n%s", firstDiff(want, got), clip(s))
	}
	return
}

type FailCase struct {
	StreamCase
	Pos  int    // number of bytes delivered before the error
	Kind string // sticky, once (the rest follows), with-data, once-with-data
	Err  string
}

type blankErr struct{}

func (blankErr) Error() string { return "" }

var streamErrs = map[string]error{
	"plain":      errors.New("disk on fire"),
	"unexpected": io.ErrUnexpectedEOF,
	"closed":     io.ErrClosedPipe,
	"deadline":   os.ErrDeadlineExceeded,
	"path":       &os.PathError{Op: "read", Path: "x", Err: errors.New("input/output error")},
	"saysEOF":    errors.New("EOF"),
	"blank":      blankErr{},
	"noprogress": io.ErrNoProgress,
	"percent":    errors.New("100%d %s"),
}

func genC09fail(t *rapid.T) FailCase {
	g := newG(t, 20)
	var c FailCase
	var s string
	if g.n(0, 4) == 4 {
		s = g.anyText()
	} else {
		s = textOf(g.module(2, 4), g.layout())
	}
	c.Text = Str(s)
	c.Pad = g.padFor(len(s))
	c.Chunks = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 9), rapid.IntRange(1, 5000)), 1, 5).Draw(t, "chunks")
	n := len(s)
	c.Pos = c.Pad
	switch g.n(0, 9) {
	case 0, 1:
		c.Pos += n // nothing but the end of file is missing
	case 2, 3: // the end of the text: after END or inside it
		c.Pos += g.n(max(0, n-6), n)
	case 4:
		c.Pos = g.n(0, c.Pad)
	default:
		c.Pos += g.n(0, n)
	}
	c.Via = g.pick(streamKinds)
	c.Size = rapid.SampledFrom([]int{0, 1, 16, 64, 100, 512, 4096, 5000, 65536}).Draw(t, "size")
	c.Kind = g.pick([]string{"sticky", "once", "with-data", "once-with-data"})
	c.Err = g.pick([]string{"plain", "unexpected", "closed", "deadline", "path", "saysEOF", "blank", "noprogress", "percent"})
	return c
}

// failReader delivers the first pos bytes, then an error.
type failReader struct {
	chunkReader
	pos    int
	kind   string
	err    error
	failed bool
	after  int
}

func (r *failReader) Read(p []byte) (int, error) {
	if r.failed {
		if r.after++; r.after > 10000 {
			panic(errTooManyReads)
		}
		if strings.HasPrefix(r.kind, "once") {
			return r.chunkReader.Read(p)
		}
		return 0, r.err
	}
	if r.pos == 0 {
		r.failed = true
		return 0, r.err
	}
	n := min(r.chunks[r.i%len(r.chunks)], r.pos, len(p))
	r.i++
	copy(p, r.s[:n])
	r.s = r.s[n:]
	r.pos -= n
	if r.pos == 0 && strings.HasSuffix(r.kind, "with-data") {
		r.failed = true
		return n, r.err
	}
	return n, nil
}

func checkC09fail(e *Env, c FailCase) (o Outcome) {
	s := c.text()
	if c.Pos > len(s) {
		return
	}
	o.label(c.Kind)
	r := &failReader{chunkReader: chunkReader{s: s, chunks: c.Chunks}, pos: c.Pos, kind: c.Kind, err: streamErrs[c.Err]}
	stream, done := c.via(e, r, "")
	defer done()
	m, err := asn1go.ParseStream(stream)
	_, perr := asn1go.ParseString(s[:c.Pos])
	o.NonTrivial = r.failed
	if perr == nil {
		o.label("complete-before-failure")
	}
	if err == nil {
		o.failf("stream failing with %q (%s) after %d of %d bytes: no error, module returned: %v\n---\n%s", r.err, c.Kind, c.Pos, len(s), m != nil, clip(s))
	} else if m != nil {
		o.failf("stream failing with %q after %d bytes: both an error and a module", r.err, c.Pos)
	}
	return
}

// ---- C10 ----

type HistText struct {
	M   *Module `json:",omitempty"`
	Raw Str     `json:",omitempty"`
}

func (h *HistText) text() string {
	if h.M != nil {
		return textOf(h.M, plainLayout)
	}
	return string(h.Raw)
}

type HistCfg struct{ Pkg, Repr string }

func (c HistCfg) params() asn1go.GenParams {
	return asn1go.GenParams{Package: c.Pkg, IntegerRepr: asn1go.IntegerRepr(c.Repr)}
}

type HistOp struct {
	Op   string // parse, gen, edit: the owner of the latest module of this text turns it, in place, into that of text With
	Text int    // parse: text; gen: uses the latest module of this text
	Cfg  int
	New  bool `json:",omitempty"` // gen: a new generator object
	With int  `json:",omitempty"`
	Lim  int  `json:",omitempty"` // gen: the destination fails after Lim-1 bytes (0 = does not fail)
}

type HistCase struct {
	Texts []HistText
	Cfgs  []HistCfg
	Ops   []HistOp
	Par   int `json:",omitempty"` // goroutines
}

// variant changes a module a little, keeping names.
func (g *G) variant(m *Module) *Module {
	var c Module
	b, _ := json.Marshal(m)
	json.Unmarshal(b, &c)
	n := len(c.Assigns)
	switch rapid.SampledFrom(seqInts(10)).Draw(g.t, "variation") {
	case 7: // a name that stands for something else
		if n > 0 {
			if i := g.n(0, n-1); c.Assigns[i].Value == nil {
				c.Assigns[i].Type = &Type{K: kRef, Ref: g.pick([]string{c.Name, "P", "Main", "Foo", "Other-Module", "Asn1", "Big"})}
			}
		}
	case 5, 6:
		g.duplicate(&c)
	case 0:
		c.TagDefault = g.pick([]string{"", "IMPLICIT", "EXPLICIT", "AUTOMATIC"})
	case 1: // exchange what two names stand for
		if n > 1 {
			i, j := g.n(0, n-1), g.n(0, n-1)
			if (c.Assigns[i].Value == nil) == (c.Assigns[j].Value == nil) {
				c.Assigns[i].Name, c.Assigns[j].Name = c.Assigns[j].Name, c.Assigns[i].Name
			}
		}
	case 2, 8, 9:
		if n > 0 {
			i := g.n(0, n-1)
			if used := usedTypes(&c); len(used) > 0 && g.n(0, 1) == 1 {
				i = used[g.n(0, len(used)-1)]
			}
			if c.Assigns[i].Value == nil {
				c.Assigns[i].Type = rapid.SampledFrom([]*Type{{K: kBool}, {K: kInt}, {K: kReal}, {K: kNull}, {K: kBit}, {K: kSeq}, {K: kUseful, Ref: "UTCTime"}}).Draw(g.t, "t")
			}
		}
	case 3:
		if n > 0 {
			i := g.n(0, n-1)
			c.Assigns = append(c.Assigns[:i:i], c.Assigns[i+1:]...)
		}
	case 4:
		c.Assigns = permuteAssigns(c.Assigns, rapid.Permutation(seqInts(n)).Draw(g.t, "perm"))
	}
	return &c
}

// usedTypes: the declared types that the module refers to.
func usedTypes(m *Module) (r []int) {
	used := map[string]bool{}
	m.walk(func(t *Type) {
		if t.K == kRef {
			used[t.Ref] = true
		}
	})
	for i := range m.Assigns {
		if m.Assigns[i].Value == nil && used[m.Assigns[i].Name] {
			r = append(r, i)
		}
	}
	return
}

// duplicate declares a name twice: not ASN.1, but a parse succeeds.
func (g *G) duplicate(m *Module) {
	var fs []func()
	num := func(nn *[]NamedNum) {
		if len(*nn) > 0 {
			fs = append(fs, func() {
				x := (*nn)[g.n(0, len(*nn)-1)]
				x.I += int64(g.n(0, 3))
				at := g.n(0, len(*nn))
				*nn = append((*nn)[:at:at], append([]NamedNum{x}, (*nn)[at:]...)...)
			})
		}
	}
	comps := func(cs *[]Comp) {
		if len(*cs) > 0 {
			fs = append(fs, func() {
				x := (*cs)[g.n(0, len(*cs)-1)]
				if k := g.n(0, 2); k > 0 && x.CompsOf == nil {
					x.Type, x.Def = []*Type{{K: kBool}, {K: kOctet}}[k-1], nil
				}
				at := g.n(0, len(*cs))
				*cs = append((*cs)[:at:at], append([]Comp{x}, (*cs)[at:]...)...)
			})
		}
	}
	m.walk(func(t *Type) {
		num(&t.NN)
		comps(&t.Comps)
		if t.Ext != nil {
			comps(&t.Ext.Adds)
		}
	})
	if len(m.Assigns) > 0 {
		fs = append(fs, func() {
			x := m.Assigns[g.n(0, len(m.Assigns)-1)]
			if x.Value == nil && g.n(0, 1) == 1 {
				x.Type = m.Assigns[0].Type
				if x.Type == nil || m.Assigns[0].Value != nil {
					x.Type = &Type{K: kReal}
				}
			}
			at := g.n(0, len(m.Assigns))
			m.Assigns = append(m.Assigns[:at:at], append([]Assign{x}, m.Assigns[at:]...)...)
		})
		rapid.SampledFrom(fs).Draw(g.t, "duplicate")()
	}
}

func (g *G) histTexts(n int) []HistText {
	var r []HistText
	for len(r) < n {
		switch k := g.n(0, 7); {
		case k == 0:
			r = append(r, HistText{M: g.module(3, 3)})
			*g = *newG(g.t, g.budget)
		case k == 1:
			r = append(r, HistText{Raw: genC07(g.t).Text})
		case k < 5 && len(r) > 0 && r[len(r)-1].M != nil:
			r = append(r, HistText{M: g.variant(r[len(r)-1].M)})
		default:
			g.budget = 25
			r = append(r, HistText{M: genCgModule(g, 2, 4, 3)})
		}
	}
	return r
}

func (g *G) histCfgs() []HistCfg {
	var r []HistCfg
	for i := g.n(1, 3); i > 0; i-- {
		r = append(r, HistCfg{g.pick([]string{"", "p", "main", "foo"}), g.pick([]string{"", "int64", "big.Int", "big.Int", "float"})})
	}
	return r
}

func genC10(t *rapid.T) HistCase {
	g := newG(t, 25)
	c := HistCase{Texts: g.histTexts(g.n(1, 3)), Cfgs: g.histCfgs()}
	for i := g.n(2, 12); i > 0; i-- {
		op := HistOp{Op: "gen", Text: g.n(0, len(c.Texts)-1), Cfg: g.n(0, len(c.Cfgs)-1)}
		switch g.n(0, 6) {
		case 6:
			// between two generations, mostly
			op.With = g.n(0, len(c.Texts)-1)
			if g.n(0, 3) > 0 {
				c.Ops = append(c.Ops, HistOp{Op: "gen", Text: op.Text, Cfg: op.Cfg})
			}
			c.Ops = append(c.Ops, HistOp{Op: "edit", Text: op.Text, With: op.With})
			op.Text, op.With = op.With, 0
		case 0, 1:
			op.Op, op.Cfg = "parse", 0
		case 2:
			op.New = true
		case 3:
			op.Lim = g.n(1, 300)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func genC10par(t *rapid.T) HistCase {
	c := genC10(t)
	for i := range c.Ops {
		if c.Ops[i].Op == "edit" {
			c.Ops[i].Op = "parse"
		}
	}
	c.Par = rapid.IntRange(2, 6).Draw(t, "par")
	return c
}

// Baseline: what one parse, and one generation after one parse, give in a process that did nothing before.
type oneReq struct {
	Text []byte
	Gen  bool
	Cfg  HistCfg
}

func oneMode([]string) int {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		return 3
	}
	var r oneReq
	if err := json.Unmarshal(b, &r); err != nil {
		return 3
	}
	m, err := asn1go.ParseString(string(r.Text))
	if !r.Gen || err != nil {
		os.Stdout.WriteString(parseOutcome(m, err))
		return 0
	}
	os.Stdout.WriteString(genOutcome(asn1go.NewCodeGenerator(r.Cfg.params()), m, 0))
	return 0
}

// genOutcome: code or error. lim as in HistOp.
func genOutcome(g asn1go.CodeGenerator, m *asn1go.ModuleDefinition, lim int) string {
	var w limWriter
	w.lim = -1
	if lim > 0 {
		w.lim = lim - 1
	}
	if err := g.Generate(*m, &w); err != nil {
		if w.failed {
			return "destination failed"
		}
		return fmt.Sprintf("error: %v\noutput: %q", err, w.b.String())
	}
	return "code: " + w.b.String()
}

// limWriter accepts lim bytes and then fails; lim < 0: never.
type limWriter struct {
	b      bytes.Buffer
	lim    int
	failed bool
	after  int
	err    error // what is returned, instead of errFull
}

// writeErrors: what a destination may report.
var writeErrors = []error{errFull, io.ErrShortWrite, io.EOF, io.ErrClosedPipe, io.ErrUnexpectedEOF, os.ErrClosed, syscall.EPIPE, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded,
	context.Canceled, fmt.Errorf("flush: %w", io.EOF), &os.PathError{Op: "write", Path: "/x", Err: syscall.ENOSPC}, errors.New(""), emptyError{}}

type emptyError struct{}

func (emptyError) Error() string   { return "timeout" }
func (emptyError) Timeout() bool   { return true }
func (emptyError) Temporary() bool { return true }

var errFull = errors.New("no space left on device")

func (w *limWriter) Write(p []byte) (int, error) {
	if w.lim >= 0 && w.b.Len()+len(p) > w.lim {
		n := w.lim - w.b.Len()
		w.b.Write(p[:n])
		w.failed = true
		w.after++
		if w.err != nil {
			return n, w.err
		}
		return n, errFull
	}
	return w.b.Write(p)
}

type histBase struct {
	parse map[int]string
	gen   map[[2]int]string
}

func (c *HistCase) baseline(e *Env) (*histBase, error) {
	b := &histBase{map[int]string{}, map[[2]int]string{}}
	run := func(r oneReq) (string, error) {
		js, _ := json.Marshal(r)
		cmd := exec.Command(e.Self, "one")
		cmd.Stdin = bytes.NewReader(js)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=off")
		out, err := cmd.Output()
		return string(out), err
	}
	for _, op := range c.Ops {
		t := op.Text
		for _, t := range []int{op.Text, op.With} {
			if _, ok := b.parse[t]; !ok {
				s, err := run(oneReq{Text: []byte(c.Texts[t].text())})
				if err != nil {
					return nil, err
				}
				b.parse[t] = s
			}
		}
		if _, ok := b.gen[[2]int{t, op.Cfg}]; op.Op == "gen" && !ok && !strings.HasPrefix(b.parse[t], "error") {
			s, err := run(oneReq{Text: []byte(c.Texts[t].text()), Gen: true, Cfg: c.Cfgs[op.Cfg]})
			if err != nil {
				return nil, err
			}
			b.gen[[2]int{t, op.Cfg}] = s
		}
	}
	return b, nil
}

type heldModule struct {
	text int
	m    *asn1go.ModuleDefinition
	from string
}

func checkC10(e *Env, c HistCase) (o Outcome) {
	base, err := c.baseline(e)
	if err != nil {
		o.failf("the code under test does not finish in a fresh process: %v", err)
		return
	}
	if c.Par > 1 {
		checkC10par(&o, c, base)
		return
	}
	gens := make([]asn1go.CodeGenerator, len(c.Cfgs))
	for i := range gens {
		gens[i] = asn1go.NewCodeGenerator(c.Cfgs[i].params())
	}
	last := map[int]*asn1go.ModuleDefinition{}
	var held []heldModule
	sawErr, sawCode, genCount := false, false, 0
	for i, op := range c.Ops {
		t := op.Text
		if op.Op == "parse" || last[t] == nil {
			m, err := asn1go.ParseString(c.Texts[t].text())
			got := parseOutcome(m, err)
			if got != base.parse[t] {
				o.failf("operation %d: parsing text %d gives another outcome than in a fresh process; %s", i, t, firstDiff(base.parse[t], got))
				return
			}
			if err != nil {
				sawErr = true
				continue
			}
			last[t] = m
			held = append(held, heldModule{t, m, fmt.Sprintf("operation %d", i)})
		}
		if op.Op == "edit" && last[t] != nil && op.With != t && !strings.HasPrefix(base.parse[op.With], "error") {
			m, err := asn1go.ParseString(c.Texts[op.With].text())
			if got := parseOutcome(m, err); got != base.parse[op.With] {
				o.failf("operation %d: parsing text %d gives another outcome than in a fresh process; %s", i, op.With, firstDiff(base.parse[op.With], got))
				return
			}
			become(last[t], m)
			for k := range held {
				if held[k].m == last[t] {
					held[k].text = op.With
				}
			}
			last[op.With] = last[t]
			delete(last, t)
			o.label("edited")
			if got := dump(last[op.With]); got != base.parse[op.With] {
				panic("become: " + firstDiff(base.parse[op.With], got))
			}
		}
		if op.Op != "gen" || last[t] == nil {
			continue
		}
		gen := gens[op.Cfg]
		if op.New {
			gen = asn1go.NewCodeGenerator(c.Cfgs[op.Cfg].params())
		}
		genCount++
		want := base.gen[[2]int{t, op.Cfg}]
		got := genOutcome(gen, last[t], op.Lim)
		if got == "destination failed" {
			o.label("destination-failed")
		} else if got != want {
			o.failf("operation %d: generating from text %d with configuration %+v gives another outcome than in a fresh process; %s", i, t, c.Cfgs[op.Cfg], firstDiff(want, got))
			return
		}
		if strings.HasPrefix(got, "code") {
			sawCode = true
		} else {
			sawErr = true
		}
		for _, h := range held {
			if got := dump(h.m); got != base.parse[h.text] {
				o.failf("operation %d changed the module returned by %s for text %d; %s", i, h.from, h.text, firstDiff(base.parse[h.text], got))
				return
			}
		}
	}
	for _, h := range held {
		if got := dump(h.m); got != base.parse[h.text] {
			o.failf("the module returned by %s for text %d was changed later; %s", h.from, h.text, firstDiff(base.parse[h.text], got))
			return
		}
	}
	o.NonTrivial = genCount > 1 && sawCode
	if sawErr {
		o.label("with-failures")
	}
	if sawCode {
		o.label("with-code")
	}
	return
}

// become gives m the contents of from, in the memory that m has.
func become(m, from *asn1go.ModuleDefinition) {
	list := m.ModuleBody.AssignmentList
	n := len(from.ModuleBody.AssignmentList)
	if n <= len(list) {
		list = list[:n]
	} else {
		list = append(list, from.ModuleBody.AssignmentList[len(list):]...)
	}
	copy(list, from.ModuleBody.AssignmentList)
	if from.ModuleBody.AssignmentList == nil {
		list = nil
	}
	*m = *from
	m.ModuleBody.AssignmentList = list
}

// checkC10par runs the operations in several goroutines at once; modules and generators are shared.
func checkC10par(o *Outcome, c HistCase, base *histBase) {
	gens := make([]asn1go.CodeGenerator, len(c.Cfgs))
	for i := range gens {
		gens[i] = asn1go.NewCodeGenerator(c.Cfgs[i].params())
	}
	shared := map[int]*asn1go.ModuleDefinition{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	start := make(chan bool)
	errs := make(chan string, 100)
	module := func(t int, again bool) *asn1go.ModuleDefinition {
		mu.Lock()
		m := shared[t]
		mu.Unlock()
		if m != nil && !again {
			return m
		}
		m, err := asn1go.ParseString(c.Texts[t].text())
		if got := parseOutcome(m, err); got != base.parse[t] {
			select {
			case errs <- fmt.Sprintf("concurrently, parsing text %d gives another outcome than alone; %s", t, firstDiff(base.parse[t], got)):
			default:
			}
			return nil
		}
		if err != nil {
			return nil
		}
		mu.Lock()
		if shared[t] == nil {
			shared[t] = m
		}
		m = shared[t]
		mu.Unlock()
		return m
	}
	for k := 0; k < c.Par; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					select {
					case errs <- fmt.Sprintf("panic in concurrent use: %v", r):
					default:
					}
				}
			}()
			<-start
			for i := range c.Ops {
				op := c.Ops[(i+k)%len(c.Ops)]
				m := module(op.Text, op.Op == "parse")
				if m == nil || op.Op != "gen" {
					continue
				}
				gen := gens[op.Cfg]
				if op.New {
					gen = asn1go.NewCodeGenerator(c.Cfgs[op.Cfg].params())
				}
				want := base.gen[[2]int{op.Text, op.Cfg}]
				if got := genOutcome(gen, m, op.Lim); got != want && got != "destination failed" {
					select {
					case errs <- fmt.Sprintf("concurrently, generating from text %d with %+v gives another outcome than alone; %s", op.Text, c.Cfgs[op.Cfg], firstDiff(want, got)):
					default:
					}
				}
			}
		}(k)
	}
	close(start)
	wg.Wait()
	close(errs)
	for s := range errs {
		o.failf("%s", s)
		return
	}
	for t, m := range shared {
		if got := dump(m); got != base.parse[t] {
			o.failf("concurrent use changed the module of text %d; %s", t, firstDiff(base.parse[t], got))
			return
		}
	}
	ng := 0
	for _, op := range c.Ops {
		if op.Op == "gen" && shared[op.Text] != nil {
			ng++
		}
	}
	o.NonTrivial = ng > 1
}

// ---- C11 ----

type WildCase struct {
	M     *Module `json:",omitempty"`
	Nest  *Nest   `json:",omitempty"`
	Steps *Ladder `json:",omitempty"`
	Pkg   string  `json:",omitempty"`
	Repr  string  `json:",omitempty"`
	Fails []int   // failing destinations: byte limit in permille of the output
}

// Ladder is declarations each of which refers to the next ones several times, so that the number of paths
// through them is exponential.
type Ladder struct {
	Levels   int
	Forms    []string // forms of declarations, in turn; %[1]s and %[2]s are the next declarations
	Leaf     string
	Reversed bool
	Defaults string
}

var ladderForms = []string{
	"SEQUENCE { a %[1]s, b %[1]s }", "SET { a %[1]s, b [1] %[1]s OPTIONAL, c %[2]s }", "SEQUENCE { a SEQUENCE { b %[1]s }, c SEQUENCE OF %[1]s }",
	"CHOICE { a %[1]s, b %[1]s }", "CHOICE { a %[1]s }", "CHOICE { a [1] %[1]s, b [2] %[1]s }", "SEQUENCE OF %[1]s", "SET OF %[1]s", "%[1]s", "[5] %[1]s",
	"CHOICE { a CHOICE { b %[1]s, c %[1]s }, d %[2]s }", "SEQUENCE OF SEQUENCE { a %[1]s, b %[2]s }", "SET { a CHOICE { x %[1]s }, b CHOICE { x %[2]s } }",
	"SEQUENCE { a [1] IMPLICIT %[1]s, ..., b [2] EXPLICIT %[1]s }",
}

func (l *Ladder) text() string {
	name := func(i int) string {
		if i > l.Levels {
			i = l.Levels
		}
		return fmt.Sprintf("Level-%d", i)
	}
	var as []string
	for i := 0; i < l.Levels; i++ {
		as = append(as, name(i)+" ::= "+fmt.Sprintf(l.Forms[i%len(l.Forms)]+"%.0[1]s%.0[2]s", name(i+1), name(i+2)))
	}
	as = append(as, name(l.Levels)+" ::= "+l.Leaf)
	if l.Reversed {
		for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
			as[i], as[j] = as[j], as[i]
		}
	}
	return "Ladder DEFINITIONS " + l.Defaults + " ::= BEGIN\n" + strings.Join(as, "\n") + "\nEND\n"
}

func (c *WildCase) text() string {
	if c.Steps != nil {
		return c.Steps.text()
	}
	if c.Nest != nil {
		b := BytesCase{Nest: c.Nest}
		return b.text()
	}
	return textOf(c.M, plainLayout)
}

var genNests = []Nest{
	{head + "A ::= ", "SEQUENCE OF ", "INTEGER", "", " END", 0},
	{head + "A ::= ", "SET OF ", "BOOLEAN", "", " END", 0},
	{head + "A ::= ", "SEQUENCE { a ", "REAL", " }", " END", 0},
	{head + "A ::= ", "SET { a [1] ", "A", " }", " END", 0},
	{head + "A ::= ", "CHOICE { a ", "INTEGER", " }", " END", 0},
	{head + "A ::= ", "CHOICE { a ", "A", " }", " END", 0},
	{head + "A ::= ", "[1] ", "BIT STRING", "", " END", 0},
	{head + "A ::= ", "[1] ", "A", "", " END", 0},
	{head + "A ::= INTEGER ", "(1..2)", "", "", " END", 0},
	{head + "A ::= SEQUENCE { a ", "SEQUENCE OF ", "A", "", " } END", 0},
	{head + "A ::= SEQUENCE { a BOOLEAN", ", a [1] INTEGER OPTIONAL", "", "", " } END", 0},
	{head, "A ::= SEQUENCE OF A ", "", "", " END", 0},
	{head, "A ::= B ", "B ::= A", "", " END", 0},
}

// wildType: any combination of references, wrappers and containers over a few names.
func (g *G) wildType(d int, names []string) *Type {
	if d <= 0 || g.n(0, 9) < 2 {
		switch g.n(0, 7) {
		case 0:
			return g.leaf()
		case 1:
			return &Type{K: kNull}
		}
		return &Type{K: kRef, Ref: g.pick(names)}
	}
	k := rapid.SampledFrom([]string{kSeq, kSet, kSeqOf, kSetOf, kChoice, kChoice, kTag, kConstr, kRef, kRef}).Draw(g.t, "k")
	t := &Type{K: k}
	field := func() string { return string(rune('a' + g.n(0, 3))) }
	switch k {
	case kRef:
		t.Ref = g.pick(names)
	case kSeq, kSet:
		comps := func(lo, hi int) (r []Comp) {
			for i := g.n(lo, hi); i > 0; i-- {
				c := Comp{Name: field(), Type: g.wildType(d-1, names)}
				switch g.n(0, 9) {
				case 0:
					c = Comp{CompsOf: g.wildType(0, names)}
				case 1, 2:
					c.Opt = true
				case 3:
					c.Def = g.value()
				}
				r = append(r, c)
			}
			return
		}
		t.Comps = comps(0, 3)
		if g.n(0, 4) == 4 {
			t.Ext = &Ext{}
			if len(t.Comps) > 0 {
				t.Ext.Adds = comps(0, 2)
			}
		}
	case kSeqOf, kSetOf:
		if g.n(0, 5) == 5 {
			t.ElemName = field()
		}
		t.Elem = g.wildType(d-1, names)
	case kChoice:
		for i := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(g.t, "alts"); i > 0; i-- {
			t.Alts = append(t.Alts, NamedType{field(), g.wildType(d-1, names)})
		}
		if g.n(0, 4) == 4 {
			t.AltExt = &ChoiceExt{Adds: []NamedType{{field(), g.wildType(d-1, names)}}}
		}
	case kTag:
		t.Tag = g.tag(true)
		t.Elem = g.wildType(d-1, names)
	case kConstr:
		e := g.wildType(d-1, names)
		for e.K == kTag || e.K == kSeqOf || e.K == kSetOf {
			e = e.Elem
		}
		t.Elem = e
		t.C = g.constraint(1)
	}
	return t
}

func (g *G) wildModule() *Module {
	m := &Module{Name: "M", TagDefault: g.pick([]string{"", "", "IMPLICIT", "EXPLICIT", "EXPLICIT", "AUTOMATIC"})}
	names := []string{"A", "B", "C", "D", "E"}[:g.n(1, 5)]
	refs := append([]string{}, names...)
	switch g.n(0, 5) {
	case 4:
		refs = append(refs, "Undeclared")
	case 5:
		refs = append(refs, "GeneralizedTime", "UTCTime")
	}
	for _, n := range names {
		if g.n(0, 19) == 0 {
			continue // undeclared
		}
		m.Assigns = append(m.Assigns, Assign{Name: n, Type: g.wildType(g.n(1, 4), refs)})
	}
	if g.n(0, 9) == 9 && len(names) > 0 { // declared twice
		m.Assigns = append(m.Assigns, Assign{Name: names[0], Type: g.wildType(2, refs)})
	}
	for i := g.n(0, 3); i > 0; i-- {
		a := Assign{Name: g.pick([]string{"v", "w", "x", "a"}), Type: g.wildType(g.n(0, 1), refs), Value: g.value()}
		m.Assigns = append(m.Assigns, a)
	}
	if len(m.Assigns) == 0 {
		m.Empty = true
	}
	return m
}

var reprs = []string{"", "int64", "big.Int", "big.Int", "int32", "Int64"}

func genC11(t *rapid.T) WildCase {
	g := newG(t, 30)
	c := WildCase{Pkg: g.pick(pkgNames), Repr: g.pick(reprs)}
	switch g.n(0, 9) {
	case 0, 1, 2:
		c.M = g.module(3, 4)
	case 3:
		c.M = genCgModule(g, 3, 4, 3)
	case 4:
		n := rapid.SampledFrom(genNests).Draw(t, "nest")
		n.N = rapid.OneOf(rapid.IntRange(1, 40), rapid.SampledFrom([]int{100, 300, 1000})).Draw(t, "N")
		c.Nest = &n
	case 5:
		if g.pickN(8) == 0 {
			l := &Ladder{Levels: rapid.SampledFrom([]int{2, 5, 20, 40, 60, 100}).Draw(t, "levels"), Leaf: g.pick([]string{"INTEGER", "NULL", "UTCTime", "ANY", "BIT STRING", "SET OF REAL", "Undeclared", "Level-0"}), Reversed: g.n(0, 1) == 1, Defaults: g.pick([]string{"", "IMPLICIT TAGS"})}
			for i := g.n(1, 3); i > 0; i-- {
				l.Forms = append(l.Forms, g.pick(ladderForms))
			}
			c.Steps = l
			break
		}
		fallthrough
	default:
		c.M = g.wildModule()
	}
	c.Fails = rapid.SliceOfN(rapid.IntRange(0, 1000), 1, 4).Draw(t, "fails")
	return c
}

func checkC11(e *Env, c WildCase) (o Outcome) {
	text := c.text()
	m, err := asn1go.ParseString(text)
	if err != nil {
		o.label("not-parsed") // C01 decides whether it should be
		return
	}
	params := asn1go.GenParams{Package: c.Pkg, IntegerRepr: asn1go.IntegerRepr(c.Repr)}
	var w limWriter
	w.lim = -1
	err = asn1go.NewCodeGenerator(params).Generate(*m, &w)
	out := w.b.String()
	if err != nil {
		o.label("refused")
		o.NonTrivial = true
		if out != "" {
			o.failf("generation fails with %v after writing %d bytes\n---\n%s\n---\n%s", err, len(out), clip(text), clip(out))
		}
		return
	}
	o.label("generated")
	if bad := completeSource(m, out); bad != "" {
		o.failf("generation reports success but the output is not complete: %s\n---\n%s\n---\n%s", bad, clip(text), clip(out))
		return
	}
	if len(out) > 30000 {
		return
	}
	o.NonTrivial = true
	for _, f := range c.Fails {
		lim := f * len(out) / 1000
		werr := writeErrors[f%len(writeErrors)]
		w := limWriter{lim: lim, err: werr}
		err := asn1go.NewCodeGenerator(params).Generate(*m, &w)
		switch {
		case lim == len(out) && (err != nil || w.b.String() != out):
			o.failf("generation into a destination of just the right size: %v", err)
		case lim < len(out) && err == nil:
			o.failf("generation reports success although the destination rejected all after %d of %d bytes with %q\n---\n%s", lim, len(out), werr, clip(text))
		case lim < len(out) && !strings.HasPrefix(out, w.b.String()):
			o.failf("the destination holds something that is not the beginning of the output")
		}
		if o.Err != nil {
			return
		}
		once := &onceWriter{fail: f % 7, err: werr}
		err = asn1go.NewCodeGenerator(params).Generate(*m, once)
		if once.failed && err == nil {
			o.failf("generation reports success although write %d was rejected with %q\n---\n%s", f%7, werr, clip(text))
			return
		}
		if !once.failed && (err != nil || once.b.String() != out) {
			o.failf("generating again gives another outcome: %v", err)
			return
		}
	}
	return
}

// onceWriter rejects one write and accepts all others.
type onceWriter struct {
	fail, n int
	failed  bool
	err     error
	b       bytes.Buffer
}

func (w *onceWriter) Write(p []byte) (int, error) {
	w.n++
	if w.n-1 == w.fail {
		w.failed = true
		return len(p) / 3, w.err
	}
	return w.b.Write(p)
}

// completeSource: the text is a whole Go file declaring something for every type assignment.
func completeSource(m *asn1go.ModuleDefinition, out string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "gen.go", out, parser.SkipObjectResolution)
	if err != nil {
		return err.Error()
	}
	types := map[string]int{}
	for _, d := range f.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
			for _, s := range gd.Specs {
				types[s.(*ast.TypeSpec).Name.Name]++
			}
		}
	}
	for _, a := range m.ModuleBody.AssignmentList {
		if t, ok := a.(asn1go.TypeAssignment); ok {
			if types[goName(string(t.TypeReference))] == 0 {
				return "no declaration for " + string(t.TypeReference)
			}
		}
	}
	return ""
}

func init() {
	extraModes["one"] = oneMode
	register("C09", []string{"a stream makes progress: at most 12 consecutive empty reads", "no reader returns io.EOF wrapped or as a failure"},
		sub("delivery", "non-trivial: the text is a module", 40000, 800000, genC09, checkC09).term(),
		sub("failure", "non-trivial: the stream failed before its end", 60000, 1200000, genC09fail, checkC09fail).term(),
	)
	register("C10", []string{"the reference outcome is that of a process that does nothing else"},
		sub("history", "non-trivial: at least two generations, one of them successful", 6000, 90000, genC10, checkC10),
		sub("concurrent", "non-trivial: at least two generations per goroutine", 800, 12000, genC10par, checkC10).race(),
	)
	register("C11", []string{"configured package names are Go identifiers", "nesting up to 1000 levels"},
		sub("wild", "non-trivial: refused, or generated and then generated into failing destinations", 180000, 3000000, genC11, checkC11).term(),
	)
}
