package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/chemikadze/asn1go"
)

// dump renders any tree canonically: dynamic types of interfaces are named, pointers followed,
// nil and empty lists equal, unexported fields left out, floats exact.
func dump(x interface{}) string {
	var b strings.Builder
	dumpV(&b, reflect.ValueOf(x), "\n", 0)
	return b.String()
}

func dumpV(b *strings.Builder, v reflect.Value, nl string, depth int) {
	if depth > 200000 {
		b.WriteString("<too deep>")
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	t := v.Type()
	switch t.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if t.Kind() == reflect.Ptr {
			b.WriteString("&")
		}
		dumpV(b, v.Elem(), nl, depth+1)
	case reflect.Struct:
		b.WriteString(t.Name() + "{")
		tagged := t == reflect.TypeOf(asn1go.TaggedType{})
		inner := nl + " "
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath != "" {
				continue
			}
			if tagged && f.Name == "TagType" && !v.FieldByName("HasTagType").Bool() {
				continue // not written: documented to be the module's default, which the field need not repeat
			}
			fv := v.Field(i)
			switch fv.Kind() {
			case reflect.Slice:
				if fv.Len() == 0 {
					continue
				}
			case reflect.Interface, reflect.Ptr:
				if fv.IsNil() {
					continue
				}
			default:
				if fv.IsZero() {
					continue
				}
			}
			b.WriteString(inner + f.Name + ": ")
			dumpV(b, fv, inner, depth+1)
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString(t.Name() + "[")
		inner := nl + " "
		for i := 0; i < v.Len(); i++ {
			b.WriteString(inner)
			dumpV(b, v.Index(i), inner, depth+1)
		}
		b.WriteString("]")
	case reflect.Int, reflect.Int64, reflect.Int32:
		b.WriteString(t.Name() + "(" + strconv.FormatInt(v.Int(), 10) + ")")
	case reflect.Float64:
		f := v.Float()
		if f == 0 {
			f = 0 // -0 is the same mathematical value
		}
		if math.IsNaN(f) {
			b.WriteString(t.Name() + "(NaN)")
			return
		}
		b.WriteString(t.Name() + "(" + strconv.FormatFloat(f, 'g', -1, 64) + ")")
	case reflect.String:
		b.WriteString(t.Name() + "(" + strconv.Quote(v.String()) + ")")
	case reflect.Bool:
		b.WriteString(t.Name() + "(" + strconv.FormatBool(v.Bool()) + ")")
	default:
		b.WriteString("<" + t.Kind().String() + ">")
	}
}

// firstDiff shows the first differing line of two dumps with a little context.
func firstDiff(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	ctx := func(s []string) string {
		lo, hi := i-3, i+4
		if lo < 0 {
			lo = 0
		}
		if hi > len(s) {
			hi = len(s)
		}
		if lo > hi {
			lo = hi
		}
		return strings.Join(s[lo:hi], "\n")
	}
	return fmt.Sprintf("first difference at line %d\nwant:\n%s\ngot:\n%s", i+1, ctx(a), ctx(b))
}

// methods walks a parsed tree and says what is wrong with the answers of its nodes' methods: names of references,
// values and types of literals, and whether a bound of a range was given.
func methods(x interface{}) (bad string) {
	note := func(format string, args ...interface{}) {
		if bad == "" {
			bad = fmt.Sprintf(format, args...)
		}
	}
	wantType := func(v asn1go.Value, want asn1go.Type) {
		if got := v.Type(); dump(got) != dump(want) {
			note("Type() of the literal %s is %s", dump(v), dump(got))
		}
	}
	var walk func(v reflect.Value, depth int)
	walk = func(v reflect.Value, depth int) {
		if depth > 200000 || !v.IsValid() || bad != "" {
			return
		}
		if v.CanInterface() {
			switch n := v.Interface().(type) {
			case asn1go.Number:
				wantType(n, asn1go.IntegerType{})
				if n.IntValue() != int(n) || int(n.UnaryMinus()) != -int(n) {
					note("IntValue() and UnaryMinus() of %d are %d and %d", int(n), n.IntValue(), int(n.UnaryMinus()))
				}
			case asn1go.Real:
				wantType(n, asn1go.RealType{})
				if float64(n.UnaryMinus()) != -float64(n) {
					note("UnaryMinus() of %v is %v", float64(n), float64(n.UnaryMinus()))
				}
			case asn1go.Boolean:
				wantType(n, asn1go.BooleanType{})
			case asn1go.ObjectIdentifierValue:
				wantType(n, asn1go.ObjectIdentifierType{})
			case asn1go.TypeReference:
				if n.Name() != string(n) {
					note("Name() of type reference %q is %q", string(n), n.Name())
				}
			case asn1go.ValueReference:
				if n.Name() != string(n) {
					note("Name() of value reference %q is %q", string(n), n.Name())
				}
			case asn1go.Identifier:
				if n.Name() != string(n) {
					note("Name() of identifier %q is %q", string(n), n.Name())
				}
			case asn1go.RangeEndpoint:
				if n.IsUnspecified() != (n.Value == nil) {
					note("IsUnspecified() of a bound %s is %v", dump(n), n.IsUnspecified())
				}
			case asn1go.TypeAssignment:
				if r := n.Reference(); r == nil || r.Name() != string(n.TypeReference) {
					note("Reference() of the type assignment %q is %s", string(n.TypeReference), dump(r))
				}
			case asn1go.ValueAssignment:
				if r := n.Reference(); r == nil || r.Name() != string(n.ValueReference) {
					note("Reference() of the value assignment %q is %s", string(n.ValueReference), dump(r))
				}
			}
		}
		switch v.Kind() {
		case reflect.Interface, reflect.Ptr:
			if !v.IsNil() {
				walk(v.Elem(), depth+1)
			}
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).PkgPath == "" {
					walk(v.Field(i), depth+1)
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i), depth+1)
			}
		}
	}
	walk(reflect.ValueOf(x), 0)
	return
}
