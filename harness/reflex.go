package main

import (
	"fmt"
	"strings"
	"unicode/utf8"
)

// Reference lexer: an independent reading of X.680 clause 11 for the supported lexical items.

// RTok: kind is the keyword or symbol itself, or UP, LO, NUM, EXPO.
type RTok struct {
	Kind string
	S    string
	Off  int
}

func isSpaceByte(c byte) bool { return c >= 9 && c <= 13 || c == ' ' }
func isNL(c byte) bool        { return c >= 10 && c <= 13 }

// skipBlank returns the offset after white space and comments starting at i.
func skipBlank(s string, i int) (int, error) {
	for i < len(s) {
		switch {
		case isSpaceByte(s[i]):
			i++
		case strings.HasPrefix(s[i:], "--"):
			i += 2
			for i < len(s) && !isNL(s[i]) {
				if strings.HasPrefix(s[i:], "--") {
					i += 2
					goto next
				}
				i++
			}
		case strings.HasPrefix(s[i:], "/*"):
			i += 2
			for d := 1; d > 0; {
				if i >= len(s) {
					return i, fmt.Errorf("unterminated block comment")
				}
				if strings.HasPrefix(s[i:], "*/") {
					d--
					i += 2
				} else if strings.HasPrefix(s[i:], "/*") {
					d++
					i += 2
				} else {
					i++
				}
			}
		default:
			return i, nil
		}
	next:
	}
	return i, nil
}

var refSymbols = []string{"::=", "...", "..", "[[", "]]", "{", "}", "<", ">", ",", ".", "(", ")", "[", "]", "-", ":", "=", "\"", "'", ";", "@", "|", "!", "^"}

func refLex(s string) ([]RTok, error) {
	var r []RTok
	i := 0
	afterNum := -1
	for {
		j, err := skipBlank(s, i)
		if err != nil {
			return nil, err
		}
		i = j
		if i >= len(s) {
			return r, nil
		}
		c, size := utf8.DecodeRuneInString(s[i:])
		if isLetterASCII(c) {
			if i == afterNum && (c == 'e' || c == 'E') {
				r = append(r, RTok{"EXPO", s[i : i+1], i})
				i++
				continue
			}
			k := i + size
			for k < len(s) {
				c2, sz := utf8.DecodeRuneInString(s[k:])
				if !isLetterASCII(c2) && !(c2 >= '0' && c2 <= '9') && c2 != '-' {
					break
				}
				k += sz
			}
			w := s[i:k]
			if strings.Contains(w, "--") || strings.HasSuffix(w, "-") {
				return nil, fmt.Errorf("bad word %q", w)
			}
			switch {
			case reserved[w]:
				r = append(r, RTok{w, w, i})
			case c <= 'Z':
				r = append(r, RTok{"UP", w, i})
			default:
				r = append(r, RTok{"LO", w, i})
			}
			i = k
			continue
		}
		if c >= '0' && c <= '9' {
			k := i
			for k < len(s) && s[k] >= '0' && s[k] <= '9' {
				k++
			}
			r = append(r, RTok{"NUM", s[i:k], i})
			i = k
			afterNum = k
			continue
		}
		found := false
		for _, sym := range refSymbols {
			if strings.HasPrefix(s[i:], sym) {
				r = append(r, RTok{sym, sym, i})
				i += len(sym)
				found = true
				break
			}
		}
		if !found {
			return nil, fmt.Errorf("unknown character %q", c)
		}
	}
}

// isBlank: s consists of white space and complete comments only.
func isBlank(s string) bool {
	i, err := skipBlank(s, 0)
	return err == nil && i == len(s)
}

func isLetterASCII(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
