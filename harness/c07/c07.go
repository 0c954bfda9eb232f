// Package c07: a failed or unsuitable fetch leaves the input where it was.
package c07

import (
	"regexp"

	lib "github.com/ava12/llx/internal/zzverif/zzlib"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
)

var lex, other *lexer.Lexer

func Setup() {
	lex = lib.SampleLexer()
	other = lexer.New(regexp.MustCompile(`(?s:([ \n]*.))`), []lexer.TokenType{{0, "any"}})
}

const alphabet = "a1- \n#\"!\xc3"

func input() (*source.Queue, *source.Source, []byte, int) {
	n := 1 + sym.Choice("len", sym.N(4, 5))
	c := []byte(sym.StringOf("c", n, alphabet))
	s := source.New("s", c)
	q := source.NewQueue().Append(s).Append(source.New("t", []byte("zz")))
	p := sym.Concrete(sym.IntRange("start", 0, n))
	q.Seek(p)
	return q, s, c, p
}

func same(q *source.Queue, s *source.Source, p int, msg string) {
	sym.Assert(q.Source() == s && q.Pos() == p, msg)
}

// again checks that nothing was lost for another lexer.
func again(q *source.Queue, s *source.Source, c []byte, p int) {
	if p >= len(c) {
		return
	}
	e := p
	for e < len(c) && (c[e] == ' ' || c[e] == '\n') {
		e++
	}
	t, err := other.Next(q)
	if e < len(c) {
		sym.Assert(err == nil && t != nil && t.Source() == s && t.Pos().Pos() == p, "another lexer reads the same text")
	}
}

// H_Next: errors of the plain fetch.
//
//zz:bounds text of 1..4 (thorough 5) bytes over {a,1,-,space,LF,#,",!,C3}, any offset
func H_Next() {
	q, s, c, p := input()
	t, e := lex.Next(q)
	if e != nil {
		sym.Assert(t == nil, "no token with an error")
		same(q, s, p, "error leaves the position")
		t2, e2 := lex.Next(q)
		sym.Assert(t2 == nil && e2 != nil && e2.Error() == e.Error(), "the error repeats")
		same(q, s, p, "repeated error leaves the position")
		again(q, s, c, p)
	}
}

// H_NextOf: errors and unwanted types of the filtered fetch.
//
//zz:bounds as H_Next, any wanted-type set
func H_NextOf() {
	q, s, c, p := input()
	set := sym.Choice("set", 16)
	t, e := lex.NextOf(q, lexer.TokenTypeSet(set))
	if e != nil || t == nil {
		sym.Assert(t == nil, "no token with an error")
		same(q, s, p, "failed filtered fetch leaves the position")
		t2, e2 := lex.NextOf(q, lexer.TokenTypeSet(set))
		sym.Assert(t2 == nil && (e2 == nil) == (e == nil), "the outcome repeats")
		same(q, s, p, "repeated filtered fetch leaves the position")
		again(q, s, c, p)
	}
}

// H_Retry: after an unwanted type a full fetch gives the token.
//
//zz:bounds as H_Next, any wanted-type set
func H_Retry() {
	q, _, c, p := input()
	set := sym.Choice("set", 15)
	t, e := lex.NextOf(q, lexer.TokenTypeSet(set))
	if t != nil || e != nil {
		return
	}
	t, e = lex.Next(q)
	at := p
	for at < len(c) {
		x := lib.Scan(c, at)
		if x.Kind == lib.Space {
			at = x.End
			continue
		}
		if x.Kind >= 0 {
			sym.Assert(e == nil && t != nil && t.Type() == x.Kind && t.Text() == string(c[x.TS:x.TE]), "token after an unwanted type")
		} else {
			sym.Assert(e != nil, "error after an unwanted type")
		}
		return
	}
	sym.Assert(e == nil && t.Type() == lexer.EofTokenType, "end of source after an unwanted type")
}
