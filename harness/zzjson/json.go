// Package zzjson holds the text level of encoding/json for the symbolic
// executor, which walks typed values itself.
package zzjson

import (
	"strings"
	"unicode/utf8"
)

const hex = "0123456789abcdef"

// Quote is encoding/json's form of a string.
func Quote(s string, html int) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); {
		c := s[i]
		if c < utf8.RuneSelf {
			i++
			switch {
			case c == '"' || c == '\\':
				b.WriteByte('\\')
				b.WriteByte(c)
			case c == '\b':
				b.WriteString(`\b`)
			case c == '\f':
				b.WriteString(`\f`)
			case c == '\n':
				b.WriteString(`\n`)
			case c == '\r':
				b.WriteString(`\r`)
			case c == '\t':
				b.WriteString(`\t`)
			case c < ' ' || html != 0 && (c == '<' || c == '>' || c == '&'):
				b.WriteString(`\u00`)
				b.WriteByte(hex[c>>4])
				b.WriteByte(hex[c&15])
			default:
				b.WriteByte(c)
			}
			continue
		}
		r, n := utf8.DecodeRuneInString(s[i:])
		switch {
		case r == utf8.RuneError && n == 1:
			b.WriteString(`\ufffd`)
		case r == 0x2028:
			b.WriteString(`\u2028`)
		case r == 0x2029:
			b.WriteString(`\u2029`)
		default:
			b.WriteString(s[i : i+n])
		}
		i += n
	}
	b.WriteByte('"')
	return b.String()
}

// Node is a JSON value; Kind is its first character, '0' for numbers.
type Node struct {
	Kind  int
	Text  string
	Keys  []string
	Elems []*Node
}

type parser struct {
	s  string
	i  int
	ok bool
}

// Parse reads JSON text.
func Parse(s string) (*Node, bool) {
	p := &parser{s: s, ok: true}
	n := p.value()
	p.space()
	return n, p.ok && p.i == len(s)
}

func (p *parser) space() {
	for p.i < len(p.s) {
		c := p.s[p.i]
		if c != ' ' && c != '\n' && c != '\t' && c != '\r' {
			return
		}
		p.i++
	}
}

func (p *parser) fail() *Node {
	p.ok = false
	p.i = len(p.s)
	return &Node{Kind: 'n'}
}

func (p *parser) eat(c byte) bool {
	p.space()
	if p.i < len(p.s) && p.s[p.i] == c {
		p.i++
		return true
	}
	return false
}

func (p *parser) value() *Node {
	p.space()
	if p.i >= len(p.s) {
		return p.fail()
	}
	switch c := p.s[p.i]; {
	case c == '{':
		p.i++
		n := &Node{Kind: '{'}
		if p.eat('}') {
			return n
		}
		for p.ok {
			p.space()
			k := p.str()
			if !p.eat(':') {
				return p.fail()
			}
			n.Keys = append(n.Keys, k)
			n.Elems = append(n.Elems, p.value())
			if p.eat('}') {
				return n
			}
			if !p.eat(',') {
				return p.fail()
			}
		}
		return n
	case c == '[':
		p.i++
		n := &Node{Kind: '['}
		if p.eat(']') {
			return n
		}
		for p.ok {
			n.Elems = append(n.Elems, p.value())
			if p.eat(']') {
				return n
			}
			if !p.eat(',') {
				return p.fail()
			}
		}
		return n
	case c == '"':
		return &Node{Kind: '"', Text: p.str()}
	case c == '-' || c >= '0' && c <= '9':
		j := p.i
		p.i++
		for p.i < len(p.s) && p.s[p.i] >= '0' && p.s[p.i] <= '9' {
			p.i++
		}
		return &Node{Kind: '0', Text: p.s[j:p.i]}
	}
	for _, w := range []string{"null", "true", "false"} {
		if strings.HasPrefix(p.s[p.i:], w) {
			p.i += len(w)
			return &Node{Kind: int(w[0])}
		}
	}
	return p.fail()
}

func (p *parser) str() string {
	if p.i >= len(p.s) || p.s[p.i] != '"' {
		p.fail()
		return ""
	}
	p.i++
	var b strings.Builder
	for p.i < len(p.s) {
		c := p.s[p.i]
		p.i++
		if c >= utf8.RuneSelf {
			r, n := utf8.DecodeRuneInString(p.s[p.i-1:])
			if r == utf8.RuneError && n == 1 {
				b.WriteString("\uFFFD")
			} else {
				b.WriteString(p.s[p.i-1 : p.i-1+n])
				p.i += n - 1
			}
			continue
		}
		if c == '"' {
			return b.String()
		}
		if c < ' ' {
			break
		}
		if c != '\\' {
			b.WriteByte(c)
			continue
		}
		if p.i >= len(p.s) {
			break
		}
		c = p.s[p.i]
		p.i++
		switch c {
		case '"', '\\', '/':
			b.WriteByte(c)
		case 'b':
			b.WriteByte('\b')
		case 'f':
			b.WriteByte('\f')
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'u':
			if p.i+4 > len(p.s) {
				p.fail()
				return ""
			}
			r := rune(0)
			for _, d := range []byte(p.s[p.i : p.i+4]) {
				v := hexVal(d)
				if v < 0 {
					p.fail()
					return ""
				}
				r = r<<4 | rune(v)
			}
			p.i += 4
			b.WriteRune(r) // surrogates are not written by encoders of valid text
		default:
			p.fail()
			return ""
		}
	}
	p.fail()
	return ""
}

func hexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}
