package main

import (
	"fmt"
	"strings"
)

// S is an S-expression: an atom (list == nil) or a list.
type S struct {
	atom string
	list []*S
	str  bool // "..." literal
	line int
}

func (s *S) isList() bool { return s.atom == "" && !s.str }
func (s *S) head() string {
	if s.isList() && len(s.list) > 0 {
		return s.list[0].atom
	}
	return ""
}

func (s *S) String() string {
	if s.str {
		return fmt.Sprintf("%q", s.atom)
	}
	if !s.isList() {
		return s.atom
	}
	var p []string
	for _, x := range s.list {
		p = append(p, x.String())
	}
	return "(" + strings.Join(p, " ") + ")"
}

func parseSexps(text, file string) []*S {
	i, line := 0, 1
	var parse func() *S
	skip := func() {
		for i < len(text) {
			c := text[i]
			if c == '\n' {
				line++
				i++
			} else if c == ' ' || c == '\t' || c == '\r' {
				i++
			} else if c == ';' {
				for i < len(text) && text[i] != '\n' {
					i++
				}
			} else {
				break
			}
		}
	}
	parse = func() *S {
		skip()
		if i >= len(text) {
			return nil
		}
		l := line
		switch c := text[i]; {
		case c == '(':
			i++
			s := &S{list: []*S{}, line: l}
			for {
				skip()
				if i >= len(text) {
					panic(fmt.Sprintf("%s:%d: unclosed (", file, l))
				}
				if text[i] == ')' {
					i++
					return s
				}
				s.list = append(s.list, parse())
			}
		case c == ')':
			panic(fmt.Sprintf("%s:%d: unexpected )", file, line))
		case c == '"':
			i++
			var b strings.Builder
			for text[i] != '"' {
				if text[i] == '\\' {
					i++
					switch text[i] {
					case 'n':
						b.WriteByte('\n')
					case 'r':
						b.WriteByte('\r')
					case 't':
						b.WriteByte('\t')
					default:
						b.WriteByte(text[i])
					}
				} else {
					b.WriteByte(text[i])
				}
				i++
			}
			i++
			return &S{atom: b.String(), str: true, line: l}
		default:
			j := i
			if c == '|' {
				i++
				for text[i] != '|' {
					i++
				}
				i++
			}
			for i < len(text) && !strings.ContainsRune(" \t\r\n();\"", rune(text[i])) {
				i++
			}
			return &S{atom: text[j:i], line: l}
		}
	}
	var out []*S
	for {
		s := parse()
		if s == nil {
			return out
		}
		out = append(out, s)
	}
}
