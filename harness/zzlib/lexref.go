package zzlib

import (
	"regexp"

	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
)

// Types of the reference lexer.
const (
	Word = iota // [a-z]+
	Num         // [0-9]+
	Op          // + or --
	Str         // "..." the token is the part between the quotes
)

// SampleLexer has words, numbers, operators, strings whose token is a part of
// the lexeme, insignificant spaces and comments, and broken strings as errors.
func SampleLexer() *lexer.Lexer {
	re := regexp.MustCompile(`(?s:([a-z]+)|([0-9]+)|(\+|--)|[ \n]+|#[^\n]*|"([^"\n]*)"|("[^"\n]*)|(!))`)
	return lexer.New(re, []lexer.TokenType{{Word, "word"}, {Num, "num"}, {Op, "op"}, {Str, "str"}, {-7, "err"}})
}

// Lexeme is the result of the reference lexer at one place.
type Lexeme struct {
	Kind       int // token type, or one of the following
	Start, End int // whole lexeme
	TS, TE     int // token text
}

const (
	Space   = -1
	BadTok  = -2
	BadChar = -3
)

// Scan is the definition: the lexeme at p < len(c).
func Scan(c []byte, p int) Lexeme {
	b := c[p]
	e := p + 1
	one := func(k int) Lexeme { return Lexeme{k, p, e, p, e} }
	switch {
	case b >= 'a' && b <= 'z':
		for e < len(c) && c[e] >= 'a' && c[e] <= 'z' {
			e++
		}
		return one(Word)
	case b >= '0' && b <= '9':
		for e < len(c) && c[e] >= '0' && c[e] <= '9' {
			e++
		}
		return one(Num)
	case b == '+':
		return one(Op)
	case b == '-':
		if e < len(c) && c[e] == '-' {
			e++
			return one(Op)
		}
		return one(BadChar)
	case b == ' ' || b == '\n':
		for e < len(c) && (c[e] == ' ' || c[e] == '\n') {
			e++
		}
		return one(Space)
	case b == '#':
		for e < len(c) && c[e] != '\n' {
			e++
		}
		return one(Space)
	case b == '"':
		for e < len(c) && c[e] != '"' && c[e] != '\n' {
			e++
		}
		if e < len(c) && c[e] == '"' {
			e++
			return Lexeme{Str, p, e, p + 1, e - 1}
		}
		return one(BadTok)
	case b == '!':
		return one(BadTok)
	}
	return one(BadChar)
}

// TokenSpan is the place of a token in its source.
func TokenSpan(t *lexer.Token) (s *source.Source, from, to int) {
	return t.Source(), t.Pos().Pos(), t.Pos().Pos() + len(t.Content())
}
