package main

import (
	"fmt"
	"sort"
	"strings"
)

// gqlField is a field of a GraphQL type as read from or wanted in generated text.
type gqlField struct {
	name, typ, desc string
	args            []string // name: type = default
	dirs            []string // without the @
	total           string   // the list this field is the length of
}

func (f gqlField) line() string {
	s := f.name
	if len(f.args) > 0 {
		s += "(" + strings.Join(f.args, ", ") + ")"
	}
	s += ": " + f.typ
	for _, d := range f.dirs {
		s += " @" + d
	}
	if f.desc != "" {
		s += " # " + strings.ReplaceAll(f.desc, "\n", "|")
	}
	return s
}

type gqlType struct {
	kind, name string
	implements []string
	dirs       []string
	desc       string
	fields     []gqlField
}

func (t gqlType) head() string {
	s := t.kind + " " + t.name
	if len(t.implements) > 0 {
		s += " implements " + strings.Join(t.implements, " & ")
	}
	for _, d := range t.dirs {
		s += " @" + d
	}
	if t.desc != "" {
		s += " # " + strings.ReplaceAll(t.desc, "\n", "|")
	}
	return s
}

// gqlTok is a token: k is one of name, string, number, eof or the punctuator itself.
type gqlTok struct{ k, v string }

func gqlLex(src string) ([]gqlTok, []string, error) {
	var out []gqlTok
	var comments []string
	isName := func(c byte, first bool) bool {
		return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || !first && c >= '0' && c <= '9'
	}
	for i := 0; i < len(src); {
		c := src[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == ',':
			i++
		case c == '#':
			j := strings.IndexByte(src[i:], '\n')
			if j < 0 {
				j = len(src) - i
			}
			comments = append(comments, src[i:i+j])
			i += j
		case strings.HasPrefix(src[i:], "..."):
			out = append(out, gqlTok{"...", "..."})
			i += 3
		case strings.IndexByte("!$&()=:@[]{}|", c) >= 0:
			out = append(out, gqlTok{string(c), string(c)})
			i++
		case strings.HasPrefix(src[i:], `"""`):
			i += 3
			var b strings.Builder
			for {
				if i >= len(src) {
					return nil, nil, fmt.Errorf("a block string does not end")
				}
				if strings.HasPrefix(src[i:], `\"""`) {
					b.WriteString(`"""`)
					i += 4
					continue
				}
				if strings.HasPrefix(src[i:], `"""`) {
					i += 3
					break
				}
				b.WriteByte(src[i])
				i++
			}
			out = append(out, gqlTok{"string", blockText(b.String())})
		case c == '"':
			i++
			var b strings.Builder
			for {
				if i >= len(src) || src[i] == '\n' || src[i] == '\r' {
					return nil, nil, fmt.Errorf("a string does not end: %s", b.String())
				}
				if src[i] == '"' {
					i++
					break
				}
				if src[i] == '\\' && i+1 < len(src) {
					j := strings.IndexByte(`"\/bfnrt`, src[i+1])
					if j >= 0 {
						b.WriteByte("\"\\/\b\f\n\r\t"[j])
						i += 2
						continue
					}
					if src[i+1] == 'u' && i+6 <= len(src) {
						var r rune
						if _, err := fmt.Sscanf(src[i+2:i+6], "%04x", &r); err == nil {
							b.WriteRune(r)
							i += 6
							continue
						}
					}
					return nil, nil, fmt.Errorf("\\%c is not known in a string", src[i+1])
				}
				b.WriteByte(src[i])
				i++
			}
			out = append(out, gqlTok{"string", b.String()})
		case isName(c, true):
			j := i
			for j < len(src) && isName(src[j], false) {
				j++
			}
			out = append(out, gqlTok{"name", src[i:j]})
			i = j
		case c == '-' || c >= '0' && c <= '9':
			j := i + 1
			for j < len(src) && (src[j] >= '0' && src[j] <= '9' || src[j] == '.') {
				j++
			}
			out = append(out, gqlTok{"number", src[i:j]})
			i = j
		default:
			return nil, nil, fmt.Errorf("there is a %q", c)
		}
	}
	return append(out, gqlTok{"eof", ""}), comments, nil
}

// blockText is the value of a block string: without common indentation and empty lines around it.
func blockText(s string) string {
	lines := strings.Split(s, "\n")
	common := -1
	for i, l := range lines {
		t := strings.TrimLeft(l, " \t")
		if i == 0 || t == "" {
			continue
		}
		if n := len(l) - len(t); common < 0 || n < common {
			common = n
		}
	}
	for i := range lines {
		if i > 0 && common > 0 {
			if len(lines[i]) >= common {
				lines[i] = lines[i][common:]
			} else {
				lines[i] = ""
			}
		}
	}
	for len(lines) > 0 && strings.TrimSpace(lines[0]) == "" {
		lines = lines[1:]
	}
	for len(lines) > 0 && strings.TrimSpace(lines[len(lines)-1]) == "" {
		lines = lines[:len(lines)-1]
	}
	return strings.Join(lines, "\n")
}

type gqlParser struct {
	t   []gqlTok
	err error
}

func (p *gqlParser) peek() gqlTok { return p.t[0] }
func (p *gqlParser) next() gqlTok {
	t := p.t[0]
	if len(p.t) > 1 {
		p.t = p.t[1:]
	}
	return t
}
func (p *gqlParser) want(k string) string {
	t := p.next()
	if t.k != k && p.err == nil {
		p.err = fmt.Errorf("%s is needed where there is %q", k, t.v)
	}
	return t.v
}
func (p *gqlParser) has(k string) bool {
	if p.peek().k == k {
		p.next()
		return true
	}
	return false
}

func (p *gqlParser) value() string {
	switch t := p.next(); t.k {
	case "string":
		return fmt.Sprintf("%q", t.v)
	case "name", "number":
		return t.v
	case "[":
		var vs []string
		for p.peek().k != "]" && p.err == nil {
			vs = append(vs, p.value())
		}
		p.want("]")
		return "[" + strings.Join(vs, ", ") + "]"
	default:
		if p.err == nil {
			p.err = fmt.Errorf("a value is needed where there is %q", t.v)
		}
		return ""
	}
}

func (p *gqlParser) typ() string {
	s := ""
	if p.has("[") {
		s = "[" + p.typ() + "]"
		p.want("]")
	} else {
		s = p.want("name")
	}
	if p.has("!") {
		s += "!"
	}
	return s
}

func (p *gqlParser) directives() []string {
	var out []string
	for p.err == nil && p.has("@") {
		s := p.want("name")
		if p.has("(") {
			var as []string
			for p.peek().k != ")" && p.err == nil {
				n := p.want("name")
				p.want(":")
				as = append(as, n+": "+p.value())
			}
			if len(as) == 0 && p.err == nil {
				p.err = fmt.Errorf("there are no arguments of @%s", s)
			}
			sort.Strings(as)
			p.want(")")
			s += "(" + strings.Join(as, ", ") + ")"
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return out
}

func (p *gqlParser) desc() string {
	if p.peek().k == "string" {
		return p.next().v
	}
	return ""
}

func (p *gqlParser) field() gqlField {
	f := gqlField{desc: p.desc()}
	f.name = p.want("name")
	if p.has("(") {
		for p.peek().k != ")" && p.err == nil {
			p.desc()
			a := p.want("name")
			p.want(":")
			a += ": " + p.typ()
			if p.has("=") {
				a += " = " + p.value()
			}
			p.directives()
			f.args = append(f.args, a)
		}
		if len(f.args) == 0 && p.err == nil {
			p.err = fmt.Errorf("the field %s has empty arguments", f.name)
		}
		p.want(")")
	}
	p.want(":")
	f.typ = p.typ()
	f.dirs = p.directives()
	return f
}

// gqlParse reads a GraphQL document of types, interfaces and scalars.
func gqlParse(src string) ([]gqlType, []string, error) {
	toks, comments, err := gqlLex(src)
	if err != nil {
		return nil, nil, err
	}
	p := &gqlParser{t: toks}
	var out []gqlType
	for p.err == nil && p.peek().k != "eof" {
		t := gqlType{desc: p.desc()}
		t.kind = p.want("name")
		switch t.kind {
		case "scalar":
			t.name = p.want("name")
			t.dirs = p.directives()
		case "type", "interface":
			t.name = p.want("name")
			if p.peek() == (gqlTok{"name", "implements"}) {
				p.next()
				p.has("&")
				for p.err == nil {
					t.implements = append(t.implements, p.want("name"))
					if !p.has("&") {
						break
					}
				}
			}
			t.dirs = p.directives()
			p.want("{")
			for p.err == nil && p.peek().k != "}" {
				f := p.field()
				for _, g := range t.fields {
					if g.name == f.name && p.err == nil {
						p.err = fmt.Errorf("%s has two fields %s", t.name, f.name)
					}
				}
				t.fields = append(t.fields, f)
			}
			if len(t.fields) == 0 && p.err == nil {
				p.err = fmt.Errorf("%s %s has no fields", t.kind, t.name)
			}
			p.want("}")
		default:
			if p.err == nil {
				p.err = fmt.Errorf("there is a %q", t.kind)
			}
		}
		out = append(out, t)
	}
	return out, comments, p.err
}

func gqlBase(t string) string { return strings.Trim(t, "[]!") }
