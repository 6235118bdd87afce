package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"strings"
	"sync"

	"github.com/chemikadze/asn1go"
)

// Loading and looking at generated source.

// generate runs text through the library.
func generate(text, pkg, repr string) (string, error, error) {
	m, err := asn1go.ParseString(text)
	if err != nil {
		return "", err, nil
	}
	var b strings.Builder
	err = asn1go.NewCodeGenerator(asn1go.GenParams{Package: pkg, IntegerRepr: asn1go.IntegerRepr(repr)}).Generate(*m, &b)
	return b.String(), nil, err
}

var stdImporter = sync.OnceValue(func() types.Importer {
	exports := importCfg()
	return importer.ForCompiler(token.NewFileSet(), "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("package %q is not known here", path)
		}
		return os.Open(f)
	})
})

func importCfg() map[string]string {
	exports := map[string]string{}
	b, err := os.ReadFile(os.Getenv("VH_IMPORTCFG"))
	if err != nil {
		panic(err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if p, f, ok := strings.Cut(strings.TrimPrefix(l, "packagefile "), "="); ok {
			exports[p] = f
		}
	}
	return exports
}

type goSrc struct {
	text string
	fset *token.FileSet
	file *ast.File
	pkg  *types.Package
	info *types.Info
}

func loadGo(text string) (*goSrc, error) {
	s := &goSrc{text: text, fset: token.NewFileSet()}
	var err error
	s.file, err = parser.ParseFile(s.fset, "gen.go", text, parser.SkipObjectResolution)
	if err != nil {
		return nil, err
	}
	s.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}}
	cfg := types.Config{Importer: stdImporter()}
	s.pkg, err = cfg.Check("gen", s.fset, []*ast.File{s.file}, s.info)
	if err != nil {
		return nil, err
	}
	return s, nil
}

// varSpec finds the declaration of a package level variable.
func (s *goSrc) varSpec(name string) (spec *ast.ValueSpec, i, count int) {
	for _, d := range s.file.Decls {
		if gd, ok := d.(*ast.GenDecl); ok && (gd.Tok == token.VAR || gd.Tok == token.CONST) {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				for k, n := range vs.Names {
					if n.Name == name {
						spec, i = vs, k
						count++
					}
				}
			}
		}
	}
	return
}

// value evaluates the initial value of a package level variable. inf is 1 or -1 for infinities.
func (s *goSrc) value(name string, depth int) (v constant.Value, inf int, err error) {
	spec, i, n := s.varSpec(name)
	if n == 0 {
		return nil, 0, fmt.Errorf("%s is not declared", name)
	}
	if n > 1 {
		return nil, 0, fmt.Errorf("%s is declared %d times", name, n)
	}
	if len(spec.Values) != len(spec.Names) {
		return nil, 0, fmt.Errorf("%s has no value of its own", name)
	}
	return s.eval(spec.Values[i], depth)
}

func (s *goSrc) eval(e ast.Expr, depth int) (constant.Value, int, error) {
	if tv := s.info.Types[e]; tv.Value != nil {
		return tv.Value, 0, nil
	}
	if depth > 50 {
		return nil, 0, fmt.Errorf("initial values form a cycle")
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return s.eval(e.X, depth)
	case *ast.Ident:
		return s.value(e.Name, depth+1)
	case *ast.CallExpr:
		fun := types.ExprString(e.Fun)
		if len(e.Args) == 1 {
			v, inf, err := s.eval(e.Args[0], depth)
			if err != nil {
				return nil, 0, err
			}
			if s.info.Types[e.Fun].IsType() || fun == "big.NewInt" {
				return v, inf, nil
			}
			if fun == "math.Inf" {
				if constant.Sign(v) < 0 {
					return nil, -1, nil
				}
				return nil, 1, nil
			}
		}
	}
	return nil, 0, fmt.Errorf("initial value %s is not understood", types.ExprString(e))
}

// declTexts: the package level declarations in order, white space normalised, imports left out.
// key: the names declared.
func (s *goSrc) declTexts() (keys []string, text map[string]string) {
	text = map[string]string{}
	for _, d := range s.file.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok || gd.Tok == token.IMPORT {
			continue
		}
		var names []string
		for _, sp := range gd.Specs {
			switch sp := sp.(type) {
			case *ast.TypeSpec:
				names = append(names, sp.Name.Name)
			case *ast.ValueSpec:
				for _, n := range sp.Names {
					names = append(names, n.Name)
				}
			}
		}
		k := strings.Join(names, " ")
		keys = append(keys, k)
		src := s.text[s.fset.Position(gd.Pos()).Offset:s.fset.Position(gd.End()).Offset]
		text[k] = strings.Join(strings.Fields(src), " ")
	}
	return
}

// asn1Params splits an `asn1:"..."` field tag.
func asn1Params(tag string) (params []string, err error) {
	if tag == "" {
		return nil, nil
	}
	v, ok := structTag(tag, "asn1")
	if !ok {
		return nil, fmt.Errorf("field tag %q is not an asn1 tag", tag)
	}
	if v == "" {
		return nil, nil
	}
	for _, p := range strings.Split(v, ",") {
		switch {
		case wellFormedParam(p):
			params = append(params, p)
		default:
			return nil, fmt.Errorf("parameter %q of field tag %q is not well formed", p, tag)
		}
	}
	return params, nil
}
