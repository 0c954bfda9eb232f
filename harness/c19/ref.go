// Package c19: what token directives mean.
package c19

import (
	"strings"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
)

// def is a token type; match gives the end of the token at p, p if there is none.
type def struct {
	name      string
	group     int
	side, bad bool
	caseless  bool
	noLits    bool
	match     func(s string, p int) int
}

// arc is a step of the reference automaton: a literal that comes as any of the
// types, or a token of the type.
type arc struct {
	lit   string
	types string // names of the types, each followed by a space
	next  int
}

// model is an independent description of a language.
type model struct {
	text     string // grammar
	alphabet string
	defs     []def
	reserved string // each followed by a space
	states   [][]arc
	final    string // digits of final states
	n        int    // length of texts for the quick check
}

type token struct {
	d    *def
	text string
	pos  int
}

// outcome is the expected result.
type outcome struct {
	ok     bool
	code   []int
	pos    int // -1 unless the error has a certain place
	tokens []token
}

// lexeme gives what a group makes of the text at p: nil is a wrong character.
func (m *model) lexeme(s string, p, group int) (*def, int) {
	for i := range m.defs {
		if d := &m.defs[i]; d.group == group {
			if e := d.match(s, p); e > p {
				return d, e
			}
		}
	}
	return nil, p
}

func (m *model) groups() int {
	n := 0
	for _, d := range m.defs {
		if d.group > n {
			n = d.group
		}
	}
	return n + 1
}

// wrong tells what is wrong with the text at p when it is not what is wanted.
func (m *model) wrong(s string, p int) (codes []int) {
	for g := 0; g < m.groups(); g++ {
		d, _ := m.lexeme(s, p, g)
		switch {
		case d == nil:
			codes = append(codes, lexer.WrongCharError)
		case d.bad:
			codes = append(codes, lexer.BadTokenError)
		default:
			return []int{parser.UnexpectedTokenError, parser.RemainingSourceError}
		}
	}
	return codes[:1]
}

func (m *model) run(s string) (o outcome) {
	st := 0
	for p := 0; p < len(s); {
		var d *def
		var e int
		for g := 0; g < m.groups(); g++ {
			x, end := m.lexeme(s, p, g)
			if x == nil || x.bad {
				continue
			}
			want := x.side
			for _, a := range m.states[st] {
				want = want || strings.Contains(a.types, x.name+" ")
			}
			if want {
				d, e = x, end
				break
			}
		}
		if d == nil {
			o.code, o.pos = m.wrong(s, p), p
			return
		}
		o.tokens = append(o.tokens, token{d, s[p:e], p})
		if d.side {
			p = e
			continue
		}
		next := m.step(st, d, s[p:e])
		if next < 0 {
			o.code, o.pos = []int{parser.UnexpectedTokenError, parser.RemainingSourceError}, p
			return
		}
		p, st = e, next
	}
	o.ok = strings.IndexByte(m.final, byte('0'+st)) >= 0
	o.code, o.pos = []int{parser.UnexpectedEoiError, parser.UnexpectedTokenError}, -1
	return
}

// step: a literal goes first, a reserved word is nothing but a literal.
func (m *model) step(st int, d *def, text string) int {
	if d.caseless {
		text = strings.ToUpper(text)
	}
	if !d.noLits {
		for _, a := range m.states[st] {
			if a.lit != "" && a.lit == text {
				return a.next
			}
		}
		if has(m.reserved, text) {
			return -1
		}
	}
	for _, a := range m.states[st] {
		if a.lit == "" && strings.Contains(a.types, d.name+" ") {
			return a.next
		}
	}
	return -1
}

func has(list, s string) bool {
	for _, x := range strings.Fields(list) {
		if x == s {
			return true
		}
	}
	return false
}

// run1 matches one or more bytes of the set.
func run1(set string) func(string, int) int {
	return func(s string, p int) int {
		for p < len(s) && strings.IndexByte(set, s[p]) >= 0 {
			p++
		}
		return p
	}
}

func char(set string) func(string, int) int {
	return func(s string, p int) int {
		if strings.IndexByte(set, s[p]) >= 0 {
			return p + 1
		}
		return p
	}
}
