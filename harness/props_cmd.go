package main

import (
	"bytes"
	"encoding/asn1"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/chemikadze/asn1go"
	"pgregory.net/rapid"
)

// ---- C18 ----

type CliCase struct {
	Text     Str
	Pad      int      `json:",omitempty"` // so much white space before the text
	Decls    int      `json:",omitempty"` // so many declarations instead of the text
	PkgFlag  []string `json:",omitempty"`
	Pkg      string   `json:",omitempty"`
	ReprFlag []string `json:",omitempty"`
	Repr     string   `json:",omitempty"`
	ReprFst  bool     `json:",omitempty"` // flag order
	In       string   // stdin, stdin-pipe, stdin-broken, fd-0, file, missing, dir, stdin-dir
	Out      string   // stdout, new, existing, same, same-link, same-symlink (the input), nodir, dir, stdout-closed; limited, stdout-limited: no more than Limit kilobytes can be written
	Former   Str      `json:",omitempty"`
	Limit    int      `json:",omitempty"` // limited: file size limit in kilobytes
	Misuse   string   `json:",omitempty"` // args, flag
	Extra    []string `json:",omitempty"` // args: the arguments too many
	InName   string   `json:",omitempty"`
	OutName  string   `json:",omitempty"`
	Rel      bool     `json:",omitempty"` // names relative to the current directory
	Dashes   bool     `json:",omitempty"` // -- before the names
	Env      []string `json:",omitempty"` // environment other than that of the check; the first entry tells if it is all there is
}

// variables that programs like this one might look at
var envNames = []string{"GOPACKAGE", "GOFILE", "GOLINE", "GOARCH", "GOOS", "GOPATH", "GOROOT", "GOFLAGS", "DOLLAR", "PACKAGE", "ASN1GO_PACKAGE", "ASN1GO", "ASN1GO_FLAGS", "DEFAULT_INTEGER_REPR", "ASN1GO_DEFAULT_INTEGER_REPR", "INTEGER_REPR", "OUTPUT", "INPUT", "LANG", "LC_ALL", "TZ", "TERM", "NO_COLOR", "HOME", "USER", "DEBUG", "VERBOSE", "SOURCE_DATE_EPOCH", "COLUMNS", "PWD"}
var envValues = []string{"", "main", "other", "pkg_x", "1", "0", "true", "big.Int", "int64", "C", "POSIX", "tr_TR.UTF-8", "de_DE.UTF-8", "dumb", "out.go", "x.asn1", "/nonexistent"}

func genC18(t *rapid.T) CliCase {
	g := newG(t, 25)
	var c CliCase
	switch g.pick([]string{"cg", "cg", "cg", "cg", "cg", "cg", "bad", "unsupported", "bytes", "any", "errors"}) {
	case "errors": // as many as the exit status can tell apart, and nearby
		n := rapid.SampledFrom([]int{1, 2, 7, 8, 10, 20, 64, 100, 126, 127, 128, 129, 255, 256, 257, 512, 768}).Draw(t, "errors")
		if n > 100 {
			n += g.n(0, 4) - 2
		}
		var b strings.Builder
		b.WriteString("Many-Errors DEFINITIONS ::= BEGIN\n")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "Type-%d ::= %s\n", i, []string{"NULL", "SEQUENCE { a NULL }", "Undeclared"}[n%3])
		}
		c.Text = Str(b.String() + "END\n")
	case "bad":
		c.Text = genC07(t).Text
	case "unsupported":
		u := genC17(t)
		if m, ok := u.plant(); ok {
			c.Text = Str(textOf(m, plainLayout))
		} else {
			c.Text = Str(textOf(u.M, plainLayout))
		}
	case "bytes":
		bc := genC06text(t)
		c.Text = Str(bc.text())
		if len(c.Text) > 20000 {
			c.Text = c.Text[:20000]
		}
	case "any":
		c.Text = Str(textOf(g.module(3, 4), g.layout()))
	default:
		c.Text = Str(textOf(genCgModule(g, 3, 5, 4), g.layout()))
	}
	form := func(name, v string) []string {
		switch g.n(0, 3) {
		case 0:
			return []string{"-" + name, v}
		case 1:
			return []string{"--" + name, v}
		case 2:
			return []string{"-" + name + "=" + v}
		}
		return []string{"--" + name + "=" + v}
	}
	if g.n(0, 1) == 1 {
		c.Pkg = g.pick([]string{"main", "foo", "p", "asn1", "Foo_bar", "_foo", "x_", "p1", "a_b_c", "go_asn1", "main_test", "v2", "X", "internal", "кот", "Main", "MAIN", "int64", "time", "bytes", "string", "l0ng_package_name_of_more_than_thirty_two_letters_in_all"})
		if g.n(0, 9) == 9 { // whatever the library makes of them
			c.Pkg = g.pick([]string{"", " ", "a/b", "github.com/x/y", "./z", "a.b", "go-asn1", "a b", " main", "main ", "main;", "main\nimport \"fmt\"", "1a", "func", "type", "_", "%s", "$GOPACKAGE", "\"main\"", "package main", "main.go", "A-B", "a\\b", "a,b", "main // x"})
		}
		if g.n(0, 9) == 9 {
			c.PkgFlag = form("package", "former") // the last one counts
		}
		c.PkgFlag = append(c.PkgFlag, form("package", c.Pkg)...)
	}
	if g.n(0, 1) == 1 {
		c.Repr = g.pick([]string{"int64", "int64", "big.Int", "big.Int", "big.Int", "int64", "int64", "int64", "big.Int", "big.Int", "int32", "int64 ", " int64", "INT64", "big.int", "bigInt", "Big.Int", "*big.Int", "", "int", "uint64", "int64,big.Int", "bigint", "big"})
		if g.n(0, 9) == 9 {
			c.ReprFlag = form("default-integer-repr", g.pick([]string{"int64", "big.Int", "x"}))
		}
		c.ReprFlag = append(c.ReprFlag, form("default-integer-repr", c.Repr)...)
	}
	c.ReprFst = g.n(0, 1) == 1
	if g.n(0, 14) == 14 {
		c.Misuse = g.pick([]string{"args", "args", "flag"})
		if c.Misuse == "args" {
			for i := g.n(1, 3); i > 0; i-- {
				c.Extra = append(c.Extra, g.pick([]string{"extra", "", "-", " ", "x.go", "int64"}))
			}
		}
	}
	if g.pickN(12) == 7 { // marks that texts have elsewhere
		switch x := g.pick([]string{"\ufeff", "\xff\xfe", "\xfe\xff", "#!/usr/bin/asn1go\n", "# x\n", "// x\n", "/* x */", "\x00", "\x1f\x8b", "<?xml?>\n", "--\n", "\f", "\v", "\u00a0", "\u200b", "\x1a", "\x04", "\n\x1a", ".\n", "\nEOF\n", "\x00\x00\x00", "\\\n"}); g.n(0, 2) {
		case 0:
			c.Text += Str(x)
		case 1:
			c.Text = Str(strings.Replace(string(c.Text), "\n", x, 1))
		default:
			c.Text = Str(x) + c.Text
		}
	}
	c.InName = g.pick([]string{"in %d.asn1", "in %d.asn1", "a", "x.asn1", "x.asn", "X.ASN1", "x.asn1.txt", "x.go", ".asn1", "1", "x y", "ю.asn1", "x,y;z", "out", "'q'", "a=b", "..x", "*", "$HOME", "%s", "package"})
	c.OutName = g.pick([]string{"out %s.go", "out %s.go", "b", "y.go", "y.txt", "y.asn1", c.InName + ".go", c.InName + ".out", "Y.GO", ".y", "2", "y z.go", "ю.go", "y_test.go", "ouT", "a=b.go", "stdout", "*.go"})
	c.Rel = g.n(0, 1) == 1
	c.Dashes = g.n(0, 9) == 9
	switch g.pickN(6) {
	case 2: // as when go generate runs it
		c.Env = []string{"all", "GOARCH=amd64", "GOOS=linux", "GOFILE=x.go", "GOLINE=7", "GOPACKAGE=" + g.pick(envValues), "DOLLAR=$", "PATH=/usr/bin:/bin"}
	case 3, 4:
		c.Env = []string{g.pick([]string{"all", "more"})}
		for i := g.n(0, 4); i > 0; i-- {
			c.Env = append(c.Env, g.pick(envNames)+"="+g.pick(envValues))
		}
	}
	c.In = g.pick([]string{"stdin", "stdin", "stdin-pipe", "fd-0", "file", "file", "file", "file", "file", "file", "file", "file", "file", "file", "file", "missing", "dir", "stdin-dir", "stdin-broken"})
	if strings.HasPrefix(c.In, "stdin") {
		c.Out = g.pick([]string{"stdout", "stdout", "stdout", "stdout", "stdout", "stdout", "stdout-closed", "stdout-limited"})
	} else {
		c.Out = g.pick([]string{"stdout", "stdout", "stdout", "new", "new", "new", "new", "existing", "existing", "existing", "existing", "existing", "existing", "nodir", "dir", "stdout-closed", "stdout-limited", "limited", "limited"})
		if c.In == "file" && g.pickN(20) == 7 {
			c.Out = g.pick([]string{"same", "same", "same-link", "same-symlink"})
		}
	}
	if c.Out == "existing" {
		c.Former = Str(strings.Repeat(g.pick([]string{"x", "package former\n", "\x00"}), rapid.SampledFrom([]int{1, 10, 500, 5000, 0}).Draw(t, "n")))
	}
	switch g.pickN(150) {
	case 101:
		c.Pad = rapid.SampledFrom([]int{4000, 65536, 1 << 20, 2 << 20, 5 << 20}).Draw(t, "pad") + g.n(-3, 3)
	case 102:
		c.Decls = rapid.SampledFrom([]int{100, 3000, 20000}).Draw(t, "decls")
	}
	if strings.HasSuffix(c.Out, "limited") {
		c.Pad, c.Decls = 0, 0
		c.Limit = g.n(0, 1)
		// code of more than a kilobyte
		var b strings.Builder
		fmt.Fprintf(&b, "Limited-Module DEFINITIONS ::= BEGIN\n")
		for i := rapid.SampledFrom([]int{1, 30, 60, 200}).Draw(t, "decls"); i > 0; i-- {
			fmt.Fprintf(&b, "Type-%d ::= SEQUENCE { a INTEGER, b [1] BOOLEAN OPTIONAL }\n", i)
		}
		c.Text = Str(b.String() + "END\n")
	}
	return c
}

func checkC18(e *Env, c CliCase) (o Outcome) {
	if c.Decls > 0 {
		var b strings.Builder
		b.WriteString("Many-Declarations DEFINITIONS ::= BEGIN\n")
		for i := 0; i < c.Decls; i++ {
			fmt.Fprintf(&b, "Type-%d ::= SEQUENCE { number INTEGER, flag [1] BOOLEAN OPTIONAL }\n", i)
		}
		c.Text = Str(b.String() + "END\n")
	}
	c.Text = Str(strings.Repeat(" ", c.Pad)) + c.Text
	if len(c.Text) > 1000000 {
		o.label("more than a megabyte")
	}
	dir, err := os.MkdirTemp(e.Scratch, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	var args []string
	if c.ReprFst {
		args = append(append(args, c.ReprFlag...), c.PkgFlag...)
	} else {
		args = append(append(args, c.PkgFlag...), c.ReprFlag...)
	}
	repr := c.Repr
	if len(c.ReprFlag) == 0 {
		repr = "int64" // the documented default of the option
	}

	var wantCode, wantErr string
	m, err := asn1go.ParseString(string(c.Text))
	if err == nil {
		var b bytes.Buffer
		err = asn1go.NewCodeGenerator(asn1go.GenParams{Package: c.Pkg, IntegerRepr: asn1go.IntegerRepr(repr)}).Generate(*m, &b)
		wantCode = b.String()
	}
	if err != nil {
		wantErr = err.Error()
	}
	fail := wantErr != ""
	libErr := fail // the library's error is what is reported

	if c.InName == c.OutName {
		c.OutName += "2"
	}
	if c.Dashes {
		args = append(args, "--")
	}
	inPath, outPath := filepath.Join(dir, c.InName), filepath.Join(dir, c.OutName)
	arg := func(path string) string {
		if c.Rel {
			if r, err := filepath.Rel(dir, path); err == nil {
				return r
			}
		}
		return path
	}
	stdin := "/dev/null"
	switch c.In {
	case "stdin":
		if err := os.WriteFile(inPath, []byte(c.Text), 0644); err != nil {
			panic(err)
		}
		stdin = inPath
	case "stdin-pipe":
	case "fd-0": // a file of unknown size
		args = append(args, "/proc/self/fd/0")
	case "stdin-broken":
		fail, libErr = true, false
	case "stdin-dir":
		stdin = dir
		fail, libErr = true, false
	case "file":
		if err := os.WriteFile(inPath, []byte(c.Text), 0644); err != nil {
			panic(err)
		}
		args = append(args, arg(inPath))
	case "missing":
		args = append(args, arg(inPath))
		fail, libErr = true, false
	case "dir":
		args = append(args, dir)
		fail, libErr = true, false
	}
	toFile := true
	switch c.Out {
	case "stdout", "stdout-closed", "stdout-limited":
		toFile = false
	case "new", "limited":
		args = append(args, arg(outPath))
	case "existing":
		if err := os.WriteFile(outPath, []byte(c.Former), 0644); err != nil {
			panic(err)
		}
		args = append(args, arg(outPath))
	case "same":
		outPath = inPath
		args = append(args, arg(outPath))
	case "same-link", "same-symlink":
		link := os.Link
		if c.Out == "same-symlink" {
			link = os.Symlink
		}
		if err := link(inPath, outPath); err != nil {
			panic(err)
		}
		args = append(args, arg(outPath))
	case "nodir":
		outPath = filepath.Join(dir, "no", "such", "out.go")
		args = append(args, arg(outPath))
		fail, libErr = true, false
	case "dir":
		outPath = filepath.Join(dir, "d")
		os.Mkdir(outPath, 0755)
		args = append(args, arg(outPath))
		fail, libErr = true, false
	}
	if c.Out == "stdout-closed" {
		fail = true
	}
	limited := strings.HasSuffix(c.Out, "limited")
	over := limited && len(wantCode) > c.Limit*1024
	if over {
		fail, libErr = true, false
	}
	switch c.Misuse {
	case "args":
		n := 2 + len(c.PkgFlag) + len(c.ReprFlag)
		if c.Dashes {
			n++
		}
		for len(args) < n {
			args = append(args, filepath.Join(dir, "extra"))
		}
		args = append(args, c.Extra...)
		fail, libErr = true, false
	case "flag":
		args = append([]string{"-no-such-flag"}, args...)
		fail, libErr = true, false
	}
	cmd := exec.Command(e.Asn1go, args...)
	if limited {
		cmd = limitedCommand(c.Limit, e.Asn1go, args...)
	}
	cmd.Dir = dir
	if len(c.Env) > 0 {
		if c.Env[0] != "all" {
			cmd.Env = os.Environ()
		}
		cmd.Env = append(cmd.Env, c.Env[1:]...)
	}
	f, err := os.Open(stdin)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	cmd.Stdin = f
	if c.In == "stdin-pipe" || c.In == "fd-0" {
		cmd.Stdin = strings.NewReader(string(c.Text))
	}
	if c.In == "stdin-broken" {
		in := brokenInput(string(c.Text))
		defer in.Close()
		cmd.Stdin = in
	}
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	redirected := filepath.Join(dir, "redirected output")
	switch c.Out {
	case "stdout-closed":
		f := closedOutput(redirected)
		defer f.Close()
		cmd.Stdout = f
	case "stdout-limited":
		f, err := os.Create(redirected)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	exited := 0
	if err := runLimited(cmd); err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		exited = ee.ExitCode()
	}
	o.label("in-" + c.In)
	o.label("out-" + c.Out)
	o.NonTrivial = true
	if fail {
		o.label("fails")
	}
	ctx := func() string {
		return fmt.Sprintf("asn1go %q, input %s, output %s\nexit status %d\nstdout: %q\nstderr: %q\n---\n%s", args, c.In, c.Out, exited, clip(stdout.String()), clip(stderr.String()), clip(string(c.Text)))
	}
	if strings.HasPrefix(c.Out, "same") && c.Misuse == "" {
		// The text may be gone before it is read. Then the run fails, and otherwise the code is all there is.
		b, err := os.ReadFile(outPath)
		switch {
		case exited != 0 && (stderr.Len() == 0 || stdout.Len() != 0):
			o.failf("failure without a message on standard error, or with standard output\n%s", ctx())
		case exited != 0 && (err != nil || len(b) > 0 && string(b) != string(c.Text)):
			o.failf("the run fails but the output file has contents: %q\n%s", clip(string(b)), ctx())
		case exited == 0 && (libErr || err != nil || string(b) != wantCode):
			o.failf("exit status 0, and the output file, which is the input file, is not what the library generates (error %q): %q\n%s", wantErr, clip(string(b)), ctx())
		}
		return
	}
	if fail != (exited != 0) {
		o.failf("exit status %d although the run should have failed=%v (library error: %q)\n%s", exited, fail, wantErr, ctx())
		return
	}
	var file []byte
	fileErr := os.ErrNotExist
	if toFile && (c.Out == "new" || c.Out == "existing" || c.Out == "limited") {
		file, fileErr = os.ReadFile(outPath)
	}
	if !fail {
		got := stdout.String()
		if c.Out == "stdout-limited" {
			b, _ := os.ReadFile(redirected)
			got = string(b)
		}
		if toFile {
			if got != "" {
				o.failf("standard output is written although an output file is named\n%s", ctx())
				return
			}
			if fileErr != nil {
				o.failf("no output file: %v\n%s", fileErr, ctx())
				return
			}
			got = string(file)
		}
		if got != wantCode {
			o.failf("the output is not what the library generates; %s\n%s", firstDiff(wantCode, got), ctx())
		}
		return
	}
	if stderr.Len() == 0 {
		o.failf("failure without a message on standard error\n%s", ctx())
	}
	// the error is about the file that can not be opened
	blamed := func(path string) bool {
		for _, n := range []string{arg(path), strconv.Quote(arg(path))} {
			if strings.Contains(stderr.String(), n) {
				return true
			}
		}
		return false
	}
	if in, out := c.In == "missing", c.Out == "nodir" || c.Out == "dir"; (in || out) && c.Misuse == "" {
		if !(in && blamed(inPath)) && !(out && blamed(outPath)) && c.In != "dir" {
			o.failf("standard error does not name the file that can not be opened\n%s", ctx())
		}
	}
	if libErr && c.Misuse == "" && !strings.Contains(stderr.String(), wantErr) {
		o.failf("standard error does not have the error of the library %q\n%s", wantErr, ctx())
	}
	if stdout.Len() != 0 {
		o.failf("standard output is written although the run fails\n%s", ctx())
	}
	if toFile && fileErr == nil && len(file) > 0 {
		switch {
		case over:
			if !strings.HasPrefix(wantCode, string(file)) {
				o.failf("the output file is not the beginning of the code\n%s", ctx())
			}
		case c.Out != "existing" || string(file) != string(c.Former):
			o.failf("the run fails but the output file has contents: %q\n%s", clip(string(file)), ctx())
		}
	}
	if c.In == "file" || c.In == "stdin" {
		if b, err := os.ReadFile(inPath); err != nil || string(b) != string(c.Text) {
			o.failf("the input file was changed\n%s", ctx())
		}
	}
	return
}

// brokenInput is an input that gives the text, and then fails (a connection reset by the other side) without ever ending.
func brokenInput(text string) *os.File {
	fds, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	for i := range fds {
		syscall.SetsockoptInt(fds[i], syscall.SOL_SOCKET, syscall.SO_SNDBUF, 1<<20)
	}
	if _, err := syscall.Write(fds[0], []byte("unread")); err != nil { // what is closed unread resets the connection
		panic(err)
	}
	for b := []byte(text); len(b) > 0; {
		n, err := syscall.SendmsgN(fds[1], b, nil, nil, syscall.MSG_DONTWAIT)
		if err != nil {
			break // more than the connection holds
		}
		b = b[n:]
	}
	syscall.Close(fds[1])
	return os.NewFile(uintptr(fds[0]), "socket")
}

// closedOutput is an output that can not be written.
func closedOutput(path string) *os.File {
	if err := os.WriteFile(path, nil, 0644); err != nil {
		panic(err)
	}
	f, err := os.Open(path) // for reading
	if err != nil {
		panic(err)
	}
	return f
}

// limitedCommand is a command that can write no more than so many kilobytes to a file.
func limitedCommand(limit int, name string, args ...string) *exec.Cmd {
	return exec.Command("/bin/bash", append([]string{"-c", "ulimit -f " + strconv.Itoa(limit) + "; exec \"$0\" \"$@\"", name}, args...)...)
}

// runLimited runs a command for at most two minutes.
func runLimited(cmd *exec.Cmd) error {
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	t := time.AfterFunc(2*time.Minute, func() { cmd.Process.Kill() })
	defer t.Stop()
	return cmd.Wait()
}

// ---- C19 ----

type DumpCase struct {
	Lines []DumpLine
	CR    bool   `json:",omitempty"`
	Bad   string `json:",omitempty"` // this column is not a byte ...
	BadAt [2]int // ... in this line at this place
	NoEnd bool   `json:",omitempty"` // no line end after the last line
	Full  int    `json:",omitempty"` // 1: the output can not be written, 2: nor more than some kilobytes of it
	In    string `json:",omitempty"` // broken: the input fails at its end; dir: it can not be read at all
}

type DumpLine struct {
	Off   string
	B     []byte
	Upper bool
	Lead  string
	Gap   string // after the offset
	Seps  []string
	Trail string
	Blank bool
}

func (c *DumpCase) render() (string, []byte) {
	var b strings.Builder
	var want []byte
	nl := "\n"
	if c.CR {
		nl = "\r\n"
	}
	for i, l := range c.Lines {
		if l.Blank {
			b.WriteString(l.Lead)
		} else {
			b.WriteString(l.Lead + l.Off)
			cols := []string{}
			for _, x := range l.B {
				f := "%02x"
				if l.Upper {
					f = "%02X"
				}
				cols = append(cols, fmt.Sprintf(f, x))
				want = append(want, x)
			}
			if c.Bad != "" && c.BadAt[0] == i {
				at := c.BadAt[1] % (len(cols) + 1)
				cols = append(cols[:at:at], append([]string{c.Bad}, cols[at:]...)...)
			}
			for k, s := range cols {
				if k == 0 {
					b.WriteString(l.Gap)
				} else {
					b.WriteString(l.Seps[k%len(l.Seps)])
				}
				b.WriteString(s)
			}
			b.WriteString(l.Trail)
		}
		if i < len(c.Lines)-1 || !c.NoEnd {
			b.WriteString(nl)
		}
	}
	return b.String(), want
}

var badColumns = []string{"zz", "0x", "xx", "1g", "g1", "-1", "+1", "+a", "_1", "1_", "100", "fff", "1ff", "deadbeef", "é", "0x1f", "..", ":", "6a:", "\"61\"", "a.", "--", "%d", "6a,81", "18446744073709551615", "10000000000000000000000", "256", "0x01", "١٢"}

func genC19(t *rapid.T) DumpCase {
	g := newG(t, 0)
	var c DumpCase
	ws := []string{" ", " ", " ", "  ", "   ", "\t", "    ", "\f", "\v", "\t \t"}
	n := g.n(0, 8)
	total := 0
	odd := g.n(0, 6)
	line := func() DumpLine {
		l := DumpLine{Off: fmt.Sprintf("%0*x", g.n(4, 8), total), Upper: g.n(0, 2) == 2, Lead: "", Gap: "   ", Seps: []string{" "}}
		if odd == 1 { // columns of any number
			l.Off = fmt.Sprintf("%0*x", g.n(1, 8), g.n(0, 70000))
		}
		if l.Upper && g.n(0, 1) == 1 {
			l.Off = strings.ToUpper(l.Off)
		}
		if g.n(0, 3) == 3 {
			l.Gap = g.pick(ws)
			l.Seps = rapid.SliceOfN(rapid.SampledFrom(ws), 1, 4).Draw(t, "seps")
			l.Lead = g.pick([]string{"", " ", "  ", "\t"})
			l.Trail = g.pick([]string{"", " ", "  ", "\t"})
		}
		return l
	}
	for i := 0; i < n; i++ {
		if g.n(0, 6) == 6 {
			c.Lines = append(c.Lines, DumpLine{Blank: true, Lead: g.pick([]string{"", " ", "   ", "\t", "\f", "\v "})})
			continue
		}
		if odd == 2 && g.pickN(3) == 0 { // the next of several dumps
			total = 0
		}
		l := line()
		k := rapid.SampledFrom([]int{16, 16, 16, 1, 2, 8, 15, 17, 32, 0}).Draw(t, "width")
		l.B = rapid.SliceOfN(rapid.Byte(), k, k).Draw(t, "bytes")
		total += k
		c.Lines = append(c.Lines, l)
	}
	if g.n(0, 3) == 3 && n > 0 { // the offset of the end
		c.Lines = append(c.Lines, line())
	}
	if g.n(0, 79) == 79 { // very long line, or very many
		l := line()
		l.B = bytes.Repeat([]byte{0x00, 0xff, 0x6a, 0x0a, 0x20}, rapid.SampledFrom([]int{300, 5000, 9000}).Draw(t, "long"))
		c.Lines = append(c.Lines, l)
	}
	c.CR = g.n(0, 7) == 7
	c.NoEnd = g.n(0, 2) == 2
	if g.n(0, 3) == 3 {
		var at []int
		for i, l := range c.Lines {
			if !l.Blank {
				at = append(at, i)
			}
		}
		if len(at) > 0 {
			c.Bad = g.pick(badColumns)
			c.BadAt = [2]int{rapid.SampledFrom(at).Draw(t, "line"), g.n(0, 40)}
		}
	} else if g.n(0, 29) == 29 {
		c.Full = 1 + g.n(0, 1)
	} else if g.pickN(30) == 0 {
		c.In = g.pick([]string{"broken", "broken", "dir"})
	}
	return c
}

func checkC19(e *Env, c DumpCase) (o Outcome) {
	text, want := c.render()
	cmd := exec.Command(e.Ws2bin)
	cmd.Stdin = strings.NewReader(text)
	var stdout, stderr bytes.Buffer
	cmd.Stdout, cmd.Stderr = &stdout, &stderr
	switch c.In {
	case "broken":
		in := brokenInput(text)
		defer in.Close()
		cmd.Stdin = in
	case "dir":
		in, err := os.Open(e.Scratch)
		if err != nil {
			panic(err)
		}
		defer in.Close()
		cmd.Stdin = in
	}
	full := c.Full > 0 && len(want) > 0
	if full {
		dir, err := os.MkdirTemp(e.Scratch, "dump")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		var f *os.File
		if c.Full == 1 {
			f = closedOutput(filepath.Join(dir, "output"))
		} else {
			limit := 0
			if len(want) > 2048 {
				limit = 1
			}
			stdin := cmd.Stdin
			cmd = limitedCommand(limit, e.Ws2bin)
			cmd.Stdin, cmd.Stderr = stdin, &stderr
			if f, err = os.Create(filepath.Join(dir, "output")); err != nil {
				panic(err)
			}
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := runLimited(cmd)
	o.NonTrivial = len(want) > 0
	switch {
	case c.Bad != "":
		o.label("bad column")
		if err == nil {
			o.failf("column %q is not refused\n---\n%s", c.Bad, clip(text))
		} else if stdout.Len() > 0 {
			o.failf("column %q is refused, but there is output %x\n---\n%s", c.Bad, stdout.Bytes(), clip(text))
		}
	case c.In != "":
		o.label("input-" + c.In)
		if err == nil {
			o.failf("exit status 0 although the input could not be read to its end\n---\n%s", clip(text))
		} else if stdout.Len() > 0 {
			o.failf("the input could not be read to its end, but there is output %x\n---\n%s", stdout.Bytes(), clip(text))
		}
	case full:
		o.label("output can not be written")
		if err == nil {
			o.failf("exit status 0 although the output could not be written\n---\n%s", clip(text))
		}
	case err != nil:
		o.failf("dump is refused: %v %s\n---\n%s", err, clip(stderr.String()), clip(text))
	case !bytes.Equal(stdout.Bytes(), want):
		o.failf("bytes %x expected, %x found\n---\n%s", clip(string(want)), clip(stdout.String()), clip(text))
	}
	if len(want) > 10000 {
		o.label("long")
	}
	return
}

// ---- C20 ----

type MVal struct {
	K   string
	I   int64  `json:",omitempty"`
	S   Str    `json:",omitempty"`
	Rep int    `json:",omitempty"` // S so many times
	L   []MVal `json:",omitempty"`
}

type StoreCase struct {
	V      MVal
	Mode   uint32
	Umask  int
	Target string // new, existing, nodir, dir, full (nothing can be written), limited (no more than a kilobyte can be written)
	Former int    // size of the former content
	Like   string `json:",omitempty"` // how the former content is like the encoding
	Name   Str    `json:",omitempty"` // name of the file
}

type storeStruct struct {
	A int
	B string `asn1:"utf8"`
	C []byte `asn1:"tag:1,optional,explicit"`
}

// binaryValue and textValue have encodings of their own, other than that of encoding/asn1.
type binaryValue []byte

func (b binaryValue) MarshalBinary() ([]byte, error) { return []byte("binary"), nil }
func (b binaryValue) String() string                 { return "string" }
func (b binaryValue) WriteTo(w io.Writer) (int64, error) {
	n, err := w.Write([]byte("written"))
	return int64(n), err
}

type textValue struct {
	A int
	B string `asn1:"utf8"`
}

func (t textValue) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (t textValue) MarshalJSON() ([]byte, error) { return []byte("{}"), nil }
func (t textValue) MarshalASN1() ([]byte, error) { return []byte("asn1"), nil }
func (t textValue) Marshal() ([]byte, error)     { return []byte("own"), nil }
func (t textValue) Bytes() []byte                { return []byte("bytes") }
func (t textValue) Error() string                { return "error" }

// contentStruct is encoded as it was read.
type contentStruct struct {
	Raw asn1.RawContent
	A   int
}

// value builds the Go value; ok = it can be encoded.
func (v *MVal) value() interface{} {
	if v.Rep > 0 {
		w := *v
		w.S, w.Rep = Str(strings.Repeat(string(v.S), v.Rep)), 0
		return w.value()
	}
	switch v.K {
	case "int":
		return v.I
	case "int32":
		return int32(v.I)
	case "bool":
		return v.I%2 == 0
	case "string":
		return string(v.S)
	case "bytes":
		return []byte(v.S)
	case "big":
		return new(big.Int).Mul(big.NewInt(v.I), big.NewInt(v.I))
	case "bits":
		return asn1.BitString{Bytes: []byte(v.S), BitLength: 8 * len(v.S)}
	case "oid":
		return asn1.ObjectIdentifier{1, 3, int(v.I & 0xffffff)}
	case "time":
		return time.Unix(v.I&0x7fffffff, 0).UTC()
	case "enum":
		return asn1.Enumerated(int32(v.I))
	case "struct":
		return storeStruct{int(int32(v.I)), string(v.S), []byte(v.S)}
	case "pointer":
		return &storeStruct{A: 1}
	case "list":
		r := []interface{}{}
		for i := range v.L {
			r = append(r, v.L[i].value())
		}
		return r
	case "raw":
		return asn1.RawValue{Class: 2, Tag: 5, Bytes: []byte(v.S)}
	case "full":
		return asn1.RawValue{FullBytes: []byte(v.S)}
	case "encoded": // bytes that are an encoding themselves
		b, err := asn1.Marshal(string(v.S))
		if err != nil || v.I%2 == 0 {
			b, _ = asn1.Marshal([]byte(v.S))
		}
		if v.I%3 == 0 {
			return binaryValue(b)
		}
		return b
	case "binary":
		return binaryValue(v.S)
	case "text":
		return textValue{int(int32(v.I)), string(v.S)}
	case "content":
		b, _ := asn1.Marshal(storeStruct{int(int32(v.I)), "b", []byte(v.S)})
		return contentStruct{b, 1}
	case "float":
		return 1.5
	case "nil":
		return nil
	case "map":
		return map[string]int{"a": 1}
	case "badoid":
		return asn1.ObjectIdentifier{1}
	case "badstruct":
		return struct{ A, B interface{} }{1, 2.5}
	case "baduint":
		return uint32(7)
	case "badtime":
		return time.Date(12345, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	panic(v.K)
}

func genMVal(g *G, d int) MVal {
	ks := []string{"int", "int", "int32", "bool", "string", "bytes", "big", "bits", "oid", "time", "enum", "struct", "raw", "pointer", "full", "encoded", "encoded", "binary", "text", "content"}
	if d > 0 && g.n(0, 2) == 2 {
		v := MVal{K: "list"}
		for i := g.n(0, 4); i > 0; i-- {
			v.L = append(v.L, genMVal(g, d-1))
		}
		return v
	}
	if g.n(0, 5) == 5 {
		ks = []string{"float", "nil", "map", "badoid", "badstruct", "baduint", "badtime"}
	}
	v := MVal{K: g.pick(ks), I: g.anyInt()}
	v.S = Str(rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"", "abc", "\xff\xfe", "*&@", strings.Repeat("x", 200), strings.Repeat("long ", 3000)})).Draw(g.t, "s"))
	if g.pickN(150) == 101 { // large
		v = MVal{K: g.pick([]string{"string", "bytes", "struct", "raw", "bits"}), Rep: rapid.SampledFrom([]int{1 << 16, 1 << 18, 1 << 20, 2 << 20, 5 << 20}).Draw(g.t, "size") + g.n(-30, 100), S: "x"}
	}
	return v
}

func genC20(t *rapid.T) StoreCase {
	g := newG(t, 0)
	return StoreCase{V: genMVal(g, 3), Mode: rapid.SampledFrom([]uint32{0644, 0600, 0640, 0400, 0755, 0777, 0, 0222}).Draw(t, "mode"), Umask: rapid.SampledFrom([]int{0, 022, 077}).Draw(t, "umask"),
		Target: g.pick([]string{"new", "new", "existing", "existing", "existing", "nodir", "dir", "full", "limited"}), Former: rapid.SampledFrom([]int{0, 1, 50, 5000, 100000}).Draw(t, "former"), Like: g.pick([]string{"", "", "", "same", "begin", "longer", "before", "byte", "length", "zeros", "last"}), Name: Str(g.fileName())}
}

func safeMarshal(v interface{}) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	return asn1.Marshal(v)
}

func checkC20(e *Env, c StoreCase) (o Outcome) {
	want, werr := safeMarshal(c.V.value())
	if werr != nil && strings.HasPrefix(werr.Error(), "panic") {
		return
	}
	dir, err := os.MkdirTemp(e.Scratch, "store")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	name := string(c.Name)
	if name == "" {
		name = "out.der"
	}
	path := filepath.Join(dir, name)
	former := bytes.Repeat([]byte{0xAA}, c.Former)
	if n := len(want); werr == nil {
		like := append([]byte{}, want...)
		switch c.Like {
		case "same":
			former = like
		case "begin":
			former = like[:c.Former%(n+1)]
		case "longer":
			former = append(like, former...)
		case "before":
			former = append(former, like...)
		case "byte":
			if n > 0 {
				like[c.Former%n] ^= 1
			}
			former = like
		case "last":
			if n > 0 {
				like[n-1] ^= 0x80
			}
			former = like
		case "length":
			former = bytes.Repeat([]byte{0xAA}, n)
		case "zeros":
			former = make([]byte, n+c.Former)
		}
	}
	fail := werr != nil
	o.label(c.Target)
	if werr != nil {
		o.label("can not be encoded")
	}
	o.NonTrivial = true
	switch c.Target {
	case "existing":
		if err := os.WriteFile(path, former, 0644); err != nil {
			panic(err)
		}
	case "nodir":
		path = filepath.Join(dir, "no", "such", "file")
		fail = true
	case "dir":
		path = dir
		fail = true
	case "full":
		fail = fail || len(want) > 0
	case "limited":
		fail = fail || len(want) > 1024
	}
	var gerr error
	if c.Target == "limited" || c.Target == "full" {
		limit := 0
		if c.Target == "limited" {
			limit = 1
		}
		js, _ := json.Marshal(c)
		cmd := limitedCommand(limit, e.Self, "store", path)
		cmd.Stdin = bytes.NewReader(js)
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		if err := runLimited(cmd); err != nil {
			if ee, ok := err.(*exec.ExitError); !ok || ee.ExitCode() != 9 {
				o.failf("storing ends with %v\n%s", err, clip(out.String()))
				return
			}
			gerr = err
		}
	} else {
		old := syscall.Umask(c.Umask)
		gerr = asn1go.MarshalToFile(c.V.value(), path, os.FileMode(c.Mode))
		syscall.Umask(old)
	}
	got, rerr := os.ReadFile(path)
	ctx := fmt.Sprintf("value %+v, target %s", c.V, c.Target)
	if len(ctx) > 1000 {
		ctx = ctx[:1000]
	}
	if fail != (gerr != nil) {
		o.failf("error %v, encoding error %v; failure expected: %v\n%s", gerr, werr, fail, ctx)
		return
	}
	if werr != nil {
		switch {
		case c.Target == "existing" && !bytes.Equal(got, former):
			o.failf("the value can not be encoded, but the file is changed\n%s", ctx)
		case c.Target == "new" && rerr == nil:
			o.failf("the value can not be encoded, but the file is created\n%s", ctx)
		}
		return
	}
	if fail {
		return
	}
	if c.Target == "new" || c.Target == "existing" || c.Target == "limited" {
		if rerr != nil || !bytes.Equal(got, want) {
			o.failf("the file has %d bytes %x, the encoding is %d bytes %x (%v)\n%s", len(got), clipB(got), len(want), clipB(want), rerr, ctx)
			return
		}
		st, _ := os.Stat(path)
		if w := os.FileMode(c.Mode) &^ os.FileMode(c.Umask); c.Target == "new" && st.Mode().Perm() != w {
			o.failf("mode %o expected, %o found (umask %o)\n%s", w, st.Mode().Perm(), c.Umask, ctx)
		}
	}
	return
}

func clipB(b []byte) []byte {
	if len(b) > 100 {
		return b[:100]
	}
	return b
}

func storeMode(args []string) int {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		return 3
	}
	var c StoreCase
	if err := json.Unmarshal(b, &c); err != nil {
		return 3
	}
	if err := asn1go.MarshalToFile(c.V.value(), args[0], 0644); err != nil {
		return 9
	}
	return 0
}

func init() {
	extraModes["store"] = storeMode
	register("C18", []string{"the library in this process is the reference", "permission errors are not exercised (checks run as root)"},
		sub("runs", "non-trivial: every run of the command", 20000, 200000, genC18, checkC18),
	)
	register("C19", []string{"bytes are written with two digits"},
		sub("dumps", "non-trivial: the dump has bytes", 40000, 400000, genC19, checkC19),
	)
	register("C20", []string{"encoding/asn1 is the reference encoder"},
		sub("stores", "non-trivial: every call", 60000, 600000, genC20, checkC20),
	)
}
