// Package c06: the lexer tiles its input.
package c06

import (
	"errors"
	"regexp"

	"github.com/ava12/llx"
	lib "github.com/ava12/llx/internal/zzverif/zzlib"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
)

var lex *lexer.Lexer

func Setup() { lex = lib.SampleLexer() }

const alphabet = "ab1+- \n#\"!\xc3"

var typeNames = []string{"word", "num", "op", "str"}

// step calls the lexer once at the known place and compares with the
// definition; it returns the new place, or -1 after an error.
func step(q *source.Queue, s *source.Source, c []byte, p int) int {
	start := p
	for p < len(c) {
		x := lib.Scan(c, p)
		if x.Kind == lib.Space {
			p = x.End
			continue
		}
		t, e := lex.Next(q)
		if x.Kind >= 0 {
			sym.Assert(e == nil && t != nil, "a token, no error")
			sym.Assert(t.Type() == x.Kind && t.TypeName() == typeNames[x.Kind], "token type")
			sym.Assert(t.Text() == string(c[x.TS:x.TE]), "token text")
			sym.Assert(t.Source() == s && t.Pos().Pos() == x.TS, "token position")
			sym.Assert(q.Source() == s && q.Pos() == x.End, "place after a token")
			return x.End
		}
		var le *llx.Error
		sym.Assert(t == nil && e != nil && errors.As(e, &le), "an error, no token")
		l, k := s.LineCol(p)
		sym.Assert(le.SourceName == s.Name() && le.Line == l && le.Col == k, "error location")
		if x.Kind == lib.BadTok {
			sym.Assert(le.Code == lexer.BadTokenError, "bad token error")
		} else {
			sym.Assert(le.Code == lexer.WrongCharError, "wrong char error")
		}
		sym.Assert(q.Source() == s && q.Pos() <= p && q.Pos() >= start, "no significant byte consumed by an error")
		return -1
	}
	t, e := lex.Next(q)
	sym.Assert(e == nil && t != nil, "end of source, no error")
	sym.Assert(t.Type() == lexer.EofTokenType && t.TypeName() == lexer.EofTokenName, "end of source token")
	sym.Assert(t.Source() == s && t.Pos().Pos() == len(c), "end of source position")
	return len(c) + 1
}

func eoi(q *source.Queue) {
	for i := 0; i < 2; i++ {
		t, e := lex.Next(q)
		sym.Assert(e == nil && t != nil && t.Type() == lexer.EoiTokenType, "end of input token")
		sym.Assert(t.Source() == nil && t.Text() == "", "end of input token has no source")
		sym.Assert(q.IsEmpty(), "queue is empty at the end of input")
	}
}

// H_Tile: one source, up to its end.
//
//zz:bounds text of 0..5 (thorough 6) bytes over {a,b,1,+,-,space,LF,#,",!,C3}
func H_Tile() {
	n := sym.Choice("len", sym.N(6, 7))
	c := []byte(sym.StringOf("c", n, alphabet))
	s := source.New("s", c)
	q := source.NewQueue().Append(s)
	p := 0
	for p >= 0 && p <= n {
		p = step(q, s, c, p)
	}
	if p > 0 {
		eoi(q)
	}
}

// H_Bytes: every byte value.
//
//zz:bounds text of 0..3 (thorough 4) arbitrary bytes
func H_Bytes() {
	n := sym.Choice("len", sym.N(4, 5))
	c := sym.Bytes("c", n)
	s := source.New("s", c)
	q := source.NewQueue().Append(s)
	p := 0
	for p >= 0 && p <= n {
		p = step(q, s, c, p)
	}
	if p > 0 {
		eoi(q)
	}
}

// H_Start: lexing may start anywhere.
//
//zz:bounds text of 1..5 bytes over the alphabet, any start offset, one token
func H_Start() {
	n := 1 + sym.Choice("len", 5)
	c := []byte(sym.StringOf("c", n, alphabet))
	s := source.New("s", c)
	q := source.NewQueue().Append(s)
	p := sym.Concrete(sym.IntRange("start", 0, n))
	q.Seek(p)
	step(q, s, c, p)
}

// H_Sources: several sources are lexed one after another, also when one is put
// in front in the middle of another.
//
//zz:bounds two queued texts of 0..2 bytes and one of 1..2 bytes put in front after 0..2 fetches, alphabet {a,1,space,",C3}
func H_Sources() {
	const al = "a1 \"\xc3"
	mk := func(nm string, n int) *source.Source { return source.New(nm, []byte(sym.StringOf(nm, n, al))) }
	s1 := mk("x", sym.Choice("len1", 3))
	s2 := mk("y", 1+sym.Choice("len2", 2))
	s3 := mk("z", 1+sym.Choice("len3", 2))
	q := source.NewQueue().Append(s1).Append(s2)
	type cur struct {
		s *source.Source
		p int
	}
	m := []cur{{s1, 0}, {s2, 0}}
	if s1.Len() == 0 {
		m = m[1:]
	}
	k := sym.Choice("after", 4)
	for i := 0; ; i++ {
		if i == k {
			q.Prepend(s3)
			m = append([]cur{{s3, 0}}, m...)
		}
		if len(m) == 0 {
			break
		}
		p := step(q, m[0].s, m[0].s.Content(), m[0].p)
		if p < 0 {
			return
		}
		if p > m[0].s.Len() {
			m = m[1:]
		} else {
			m[0].p = p
		}
	}
	eoi(q)
}

// H_NextOf: the filtered fetch.
//
//zz:bounds text of 0..4 (thorough 5) bytes over the alphabet, any start offset, any of the 16 wanted-type sets plus unused types
func H_NextOf() {
	n := sym.Choice("len", sym.N(5, 6))
	c := []byte(sym.StringOf("c", n, alphabet))
	s := source.New("s", c)
	q := source.NewQueue().Append(s)
	p := sym.Concrete(sym.IntRange("start", 0, n))
	q.Seek(p)
	set := sym.Choice("set", 16)
	tts := lexer.TokenTypeSet(set)
	if sym.Choice("extra", 2) == 1 {
		tts |= 1<<63 | 1<<40
	}
	x := lib.Lexeme{Kind: lib.Space}
	at := p
	for at < n {
		x = lib.Scan(c, at)
		if x.Kind != lib.Space {
			break
		}
		at = x.End
	}
	t, e := lex.NextOf(q, tts)
	switch {
	case set == 0:
		sym.Assert(t == nil && e == nil && q.Source() == s && q.Pos() == p, "nothing can match an empty set")
	case at >= n:
		sym.Assert(e == nil && t != nil && t.Type() == lexer.EofTokenType && t.Source() == s, "end of source")
		sym.Assert(q.IsEmpty(), "source discarded at its end")
	case x.Kind < 0:
		var le *llx.Error
		sym.Assert(t == nil && errors.As(e, &le), "lexical error")
		l, k := s.LineCol(at)
		sym.Assert(le.Line == l && le.Col == k, "error location")
	case set>>uint(x.Kind)&1 == 0:
		sym.Assert(t == nil && e == nil, "unwanted type gives nothing")
		sym.Assert(q.Source() == s && q.Pos() <= at, "unwanted token is not consumed")
	default:
		sym.Assert(e == nil && t != nil && t.Type() == x.Kind && t.Text() == string(c[x.TS:x.TE]) && t.Pos().Pos() == x.TS && t.Source() == s, "wanted token")
		sym.Assert(q.Pos() == x.End, "place after a wanted token")
	}
}

// H_Order: the first matching definition wins, not the longest.
//
//zz:bounds definitions (if), ([a-z]+), ([a-z0-9]+), spaces; text of 0..5 (thorough 6) bytes over {i,f,1,space}
func H_Order() {
	re := regexp.MustCompile(`(?s:(if)|([a-z]+)|([a-z0-9]+)|\s+)`)
	lx := lexer.New(re, []lexer.TokenType{{5, "if"}, {63, "id"}, {0, "any"}})
	n := sym.Choice("len", sym.N(6, 7))
	c := []byte(sym.StringOf("c", n, "if1 "))
	s := source.New("s", c)
	q := source.NewQueue().Append(s)
	p := 0
	for {
		for p < n && c[p] == ' ' {
			p++
		}
		t, e := lx.Next(q)
		sym.Assert(e == nil && t != nil, "no error")
		if p >= n {
			sym.Assert(t.Type() == lexer.EofTokenType, "end of source")
			return
		}
		st, ty := p, 0
		switch {
		case c[p] == 'i' && p+1 < n && c[p+1] == 'f':
			ty = 5
			p += 2
		case c[p] != '1':
			ty = 63
			for p < n && c[p] != '1' && c[p] != ' ' {
				p++
			}
		default:
			for p < n && c[p] != ' ' {
				p++
			}
		}
		sym.Assert(t.Type() == ty, "first matching definition")
		sym.Assert(t.Text() == string(c[st:p]) && t.Pos().Pos() == st && q.Pos() == p, "text and position")
	}
}

// H_Undescribed: groups without description and out-of-range types are error tokens.
//
//zz:bounds type numbers -1, 64, 1000, missing; text of one of the five letters
func H_Undescribed() {
	re := regexp.MustCompile(`(?s:(a)|(b)|(c)|(d)|(e))`)
	lx := lexer.New(re, []lexer.TokenType{{-1, "a"}, {64, "b"}, {1000, "c"}, {63, "d"}})
	c := []byte(sym.StringOf("c", 1, "abcde"))
	q := source.NewQueue().Append(source.New("s", c))
	t, e := lx.Next(q)
	if c[0] == 'd' {
		sym.Assert(e == nil && t.Type() == 63 && t.TypeName() == "d", "type 63 is valid")
	} else {
		var le *llx.Error
		sym.Assert(t == nil && errors.As(e, &le) && le.Code == lexer.BadTokenError, "bad token error")
	}
}

// H_Types: every type number, given to any group, is that group's type or makes it an error.
//
//zz:bounds three groups, type numbers any out of {-2,-1,0,1,31,32,62,63,64,65,1000} (the third may have none), any of the three lexemes, fetched by Next or by NextOf wanting one of the six valid numbers or all but one
func H_Types() {
	nums := []int{-2, -1, 0, 1, 31, 32, 62, 63, 64, 65, 1000}
	good := nums[2:8]
	var types []lexer.TokenType
	n := 2 + sym.Choice("described", 2)
	num := make([]int, 3)
	for i := range num {
		num[i] = -1
		if i < n {
			num[i] = nums[sym.Choice("type", len(nums))]
			types = append(types, lexer.TokenType{Type: num[i], TypeName: string(rune('x' + i))})
		}
	}
	l := lexer.New(regexp.MustCompile("(a)|(b)|(c)"), types)
	for i := range types {
		types[i] = lexer.TokenType{Type: 5, TypeName: "?"} // the lexer has its own copy
	}
	k := sym.Choice("lexeme", 3)
	s := source.New("s", []byte("abc"[k:k+1]))
	q := source.NewQueue().Append(s)
	valid := func(t int) bool { return t >= 0 && t < 64 }
	var t *lexer.Token
	var e error
	wanted := true
	if sym.Choice("all", 2) == 0 {
		t, e = l.Next(q)
	} else {
		g := good[sym.Choice("wanted", len(good))]
		set := lexer.TokenTypeSet(1) << uint(g)
		neg := sym.Choice("not", 2) == 1
		if neg {
			set = ^set
		}
		some := false
		for _, x := range num {
			some = some || valid(x) && (x == g) != neg
		}
		wanted = some && (!valid(num[k]) || (num[k] == g) != neg)
		t, e = l.NextOf(q, set)
	}
	switch {
	case !wanted:
		sym.Assert(t == nil && e == nil && q.Source() == s && q.Pos() == 0, "unwanted type gives nothing")
	case valid(num[k]):
		sym.Assert(e == nil && t != nil && t.Type() == num[k] && t.TypeName() == string(rune('x'+k)), "type and its name")
		sym.Assert(t.Text() == string(s.Content()) && q.Pos() == 1, "text")
	default:
		var le *llx.Error
		sym.Assert(t == nil && errors.As(e, &le) && le.Code == lexer.BadTokenError, "bad token error")
	}
}
