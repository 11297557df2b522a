package c19

import (
	"fmt"
	"strconv"
	"strings"
)

// A parser for the DOT language (graphs, node, edge and attribute statements).

type dotNode struct {
	ID    string
	Attrs map[string]string
	Count int
}

type dotGraph struct {
	Nodes map[string]*dotNode
	Edges map[[2]string]int
}

type dotLexer struct {
	s   string
	pos int
}

func isID(b byte, first bool) bool {
	return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' || b >= 128 || (!first && b >= '0' && b <= '9')
}

// next returns kind (id, string, punct or end) and text.
func (l *dotLexer) next() (kind, text string, err error) {
	for l.pos < len(l.s) && strings.IndexByte(" \t\r\n", l.s[l.pos]) >= 0 {
		l.pos++
	}
	if l.pos >= len(l.s) {
		return "end", "", nil
	}
	b := l.s[l.pos]
	switch {
	case b == '"':
		var out []byte
		for i := l.pos + 1; i < len(l.s); i++ {
			if l.s[i] == '"' {
				l.pos = i + 1
				return "string", string(out), nil
			}
			if l.s[i] == '\\' && i+1 < len(l.s) && l.s[i+1] == '"' {
				out = append(out, '"')
				i++
				continue
			}
			if l.s[i] == '\\' && i+1 < len(l.s) && l.s[i+1] == '\\' {
				out = append(out, '\\', '\\')
				i++
				continue
			}
			if l.s[i] == 0 {
				return "", "", fmt.Errorf("zero byte in string at %d", i)
			}
			out = append(out, l.s[i])
		}
		return "", "", fmt.Errorf("unterminated string at %d", l.pos)
	case strings.HasPrefix(l.s[l.pos:], "->"):
		l.pos += 2
		return "punct", "->", nil
	case strings.IndexByte("{}[];,=", b) >= 0:
		l.pos++
		return "punct", string(b), nil
	case isID(b, true):
		i := l.pos
		for l.pos < len(l.s) && isID(l.s[l.pos], false) {
			l.pos++
		}
		return "id", l.s[i:l.pos], nil
	case b >= '0' && b <= '9' || b == '-' || b == '.':
		i := l.pos
		l.pos++
		for l.pos < len(l.s) && (l.s[l.pos] >= '0' && l.s[l.pos] <= '9' || l.s[l.pos] == '.') {
			l.pos++
		}
		if _, err := strconv.ParseFloat(l.s[i:l.pos], 64); err != nil {
			return "", "", err
		}
		return "id", l.s[i:l.pos], nil
	}
	return "", "", fmt.Errorf("unexpected byte %q at %d: %.80q", b, l.pos, l.s[l.pos:])
}

type dotParser struct {
	l          dotLexer
	kind, text string
	err        error
}

func (p *dotParser) adv() {
	if p.err == nil {
		p.kind, p.text, p.err = p.l.next()
	}
}

func (p *dotParser) fail(f string, args ...interface{}) {
	if p.err == nil {
		p.err = fmt.Errorf("at byte %d: "+f, append([]interface{}{p.l.pos}, args...)...)
	}
}

func (p *dotParser) punct(s string) bool {
	if p.err == nil && p.kind == "punct" && p.text == s {
		p.adv()
		return true
	}
	return false
}

func (p *dotParser) id() string {
	if p.err == nil && (p.kind == "id" || p.kind == "string") {
		t := p.text
		p.adv()
		return t
	}
	p.fail("identifier expected, got %s %q", p.kind, p.text)
	return ""
}

func (p *dotParser) attrs() map[string]string {
	m := map[string]string{}
	for p.punct("[") {
		for p.err == nil && !p.punct("]") {
			k := p.id()
			if !p.punct("=") {
				p.fail("= expected")
			}
			m[k] = p.id()
			if !p.punct(",") {
				p.punct(";")
			}
		}
	}
	return m
}

func parseDot(s string) (*dotGraph, error) {
	g := &dotGraph{Nodes: map[string]*dotNode{}, Edges: map[[2]string]int{}}
	p := &dotParser{l: dotLexer{s: s}}
	p.adv()
	if p.kind != "id" || strings.ToLower(p.text) != "digraph" {
		p.fail("digraph expected")
	}
	p.adv()
	if p.kind != "punct" {
		p.id()
	}
	if !p.punct("{") {
		p.fail("{ expected")
	}
	for p.err == nil && !p.punct("}") {
		if p.punct(";") {
			continue
		}
		plain := p.kind == "id"
		id := p.id()
		if p.err != nil {
			break
		}
		if plain && (id == "node" || id == "edge" || id == "graph") {
			p.attrs()
			continue
		}
		if p.punct("->") {
			for {
				to := p.id()
				g.Edges[[2]string{id, to}]++
				id = to
				if !p.punct("->") {
					break
				}
			}
			p.attrs()
			continue
		}
		n := g.Nodes[id]
		if n == nil {
			n = &dotNode{ID: id}
			g.Nodes[id] = n
		}
		n.Count++
		n.Attrs = p.attrs()
	}
	if p.err == nil && p.kind != "end" {
		p.fail("something after the graph: %s %q", p.kind, p.text)
	}
	return g, p.err
}

// label decodes what is shown for a label.
func label(s string) (string, error) {
	var out []byte
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '\\':
			if i+1 >= len(s) {
				return "", fmt.Errorf("label ends in a backslash")
			}
			i++
			switch s[i] {
			case 'l', 'n', 'r':
				out = append(out, '\n')
			case '\\':
				out = append(out, '\\')
			default:
				return "", fmt.Errorf("label has escape \\%c", s[i])
			}
		case s[i] == '&':
			j := strings.IndexByte(s[i:], ';')
			if j < 0 {
				return "", fmt.Errorf("unterminated entity in label")
			}
			ent := s[i+1 : i+j]
			if strings.HasPrefix(ent, "#") {
				n, err := strconv.Atoi(ent[1:])
				if err != nil {
					return "", fmt.Errorf("bad entity %q in label", ent)
				}
				if n < 128 {
					out = append(out, byte(n))
				} else {
					out = append(out, string(rune(n))...)
				}
			} else {
				r, ok := map[string]byte{"amp": '&', "lt": '<', "gt": '>', "quot": '"'}[ent]
				if !ok {
					return "", fmt.Errorf("unknown entity %q in label", ent)
				}
				out = append(out, r)
			}
			i += j
		default:
			out = append(out, s[i])
		}
	}
	return string(out), nil
}
