// Package c09: parsing always ends, never panics and reports located errors.
package c09

import (
	"context"
	"strings"

	"github.com/ava12/llx"
	gr "github.com/ava12/llx/internal/zzverif/zzgram"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
)

const tokens = "$sp = /[ \\n]+/; $t = /[a-z]/; $d = /[0-9]/; $bad = /!/; !side $sp; !error $bad; "

type subject struct {
	g   *gr.Gram
	e   *gr.Expr
	p   *parser.Parser
	err error
}

func build(g *gr.Gram) subject {
	s := subject{g: g}
	if !g.Recursive() {
		s.e = g.Inline(g.Body("g"))
	}
	gg, e := langdef.ParseString("", g.Text(tokens))
	if e != nil {
		s.err = e
		return s
	}
	s.p, s.err = parser.New(gg)
	return s
}

var subjects = map[string][]subject{}

func Setup_Total() {
	var r []subject
	i, step := 0, sym.N(47, 5)
	for k := 1; k <= 3; k++ {
		for _, s := range gr.Shapes(k) {
			for _, l := range gr.Labels(k) {
				if i++; k < 3 || i%step == 0 {
					r = append(r, build(gr.NewGram(gr.Label(s, l))))
				}
			}
		}
	}
	rnd := gr.Rand(11)
	for n := sym.N(50, 1000); n > 0; n-- {
		r = append(r, build(gr.NewGram(gr.Random(&rnd, 4+rnd.N(3), "aab"))))
	}
	for n := sym.N(50, 1000); n > 0; n-- {
		g := gr.NewGram(gr.Nodes(gr.Random(&rnd, 1+rnd.N(3), "HHa")), "h", gr.Nodes(gr.Random(&rnd, 1+rnd.N(3), "HGab")))
		if g.Used() {
			r = append(r, build(g))
		}
	}
	subjects["total"] = r
}

// H_Total: any grammar at all, also ambiguous ones and ones the parser cannot decide.
//
//zz:bounds all 111 grammars of 1..2 tokens, every 47th (thorough 5th) of 8910 of 3 tokens, 50 (thorough 1000) of 4..6 tokens, up to 50 (thorough 1000) of two nodes, some recursive; texts of 0..4 letters over {a,b,x,space,!,#}, whole or partial
//zz:steps 3000000
func H_Total() {
	s := subjects["total"][sym.Choice("g", len(subjects["total"]))]
	if s.err != nil {
		e, is := s.err.(*llx.Error)
		sym.Assert(is && e.Code != 0, "a rejected grammar gives a coded error")
		return
	}
	text := sym.StringOf("c", sym.Choice("len", 5), "abx !#")
	var opts []parser.ParseOption
	if sym.Choice("full", 2) == 1 {
		opts = append(opts, parser.WithFullSource())
	}
	_, err := s.p.ParseString(context.Background(), "name", text, parser.Hooks{}, opts...)
	if err == nil {
		return
	}
	e, is := err.(*llx.Error)
	sym.Assert(is && e.Code >= llx.LexicalErrors && e.Message != "", "an error has its code and message")
	if e.Code != parser.UnexpectedEoiError {
		sym.Assert(e.SourceName == "name" && e.Line == 1 && e.Col >= 1 && e.Col <= len(text), "an error is inside the text")
		c := text[e.Col-1]
		switch e.Code {
		case lexer.BadTokenError:
			sym.Assert(c == '!', "bad token is located at it")
		case lexer.WrongCharError:
			sym.Assert(c == '#', "wrong character is located at it")
		default:
			sym.Assert(sym.And(c != ' ', sym.And(c != '!', c != '#')), "unexpected token is located at a token")
		}
	}
}

func Setup_Located() {
	var r []subject
	add := func(g *gr.Gram) bool {
		if !g.Used() || !g.Covered() || g.Recursive() {
			return false
		}
		r = append(r, build(g))
		return true
	}
	i, step := 0, sym.N(97, 7)
	for k := 1; k <= 3; k++ {
		for _, s := range gr.Shapes(k) {
			for _, l := range gr.Labels(k) {
				if i++; k < 3 || i%step == 0 {
					add(gr.NewGram(gr.Label(s, l)))
				}
			}
		}
	}
	rnd := gr.Rand(12)
	for n := sym.N(50, 600); n > 0; {
		if add(gr.NewGram(gr.Random(&rnd, 4+rnd.N(3), "aabbc"))) {
			n--
		}
	}
	for n := sym.N(50, 600); n > 0; {
		if add(gr.NewGram(gr.Nodes(gr.Random(&rnd, 2+rnd.N(2), "HIIa")), "h", gr.Random(&rnd, 1+rnd.N(2), "aabc"), "i", gr.Random(&rnd, 1+rnd.N(2), "aabc"))) {
			n--
		}
	}
	subjects["located"] = r
}

// fits checks the expected token named in a message: the text could go on with it.
func fits(e *gr.Expr, c []byte, msg string) {
	const mark = "expecting "
	i := strings.LastIndex(msg, mark)
	if i < 0 {
		return
	}
	msg = msg[i+len(mark):]
	if i = strings.Index(msg, " in name"); i >= 0 {
		msg = msg[:i]
	}
	if msg == "$-eoi-" {
		_, acc := gr.Viable(e, c)
		sym.Assert(acc[len(c)], "the end of input named as expected is right")
		return
	}
	sym.Assert(len(msg) == 1, "the expected token is one of the grammar")
	pre, _ := gr.Viable(e, append(c[:len(c):len(c)], msg[0]))
	sym.Assert(pre[len(c)+1], "the token named as expected is right")
}

// H_Located: the error is at the first token that no text of the language continues with.
//
//zz:bounds covered grammars without recursion: all of 1..2 tokens, every 97th (thorough 7th) of 3 tokens, 50 (thorough 600) of 4..6 tokens, 50 (thorough 600) of 3 nodes; texts of 0..4 (thorough 5) letters over {a,b,c,x,space,LF,!,#}
func H_Located() {
	all := subjects["located"]
	s := all[sym.Choice("g", len(all))]
	sym.Assert(s.err == nil, "a valid grammar is accepted")
	n := sym.Choice("len", sym.N(5, 6))
	text := sym.StringOf("c", n, "abcx \n!#")
	_, err := s.p.ParseString(context.Background(), "name", text, parser.Hooks{}, parser.WithFullSource())
	// the tokens and the first lexical error
	var c []byte
	var at []int
	bad := -1
	for i := 0; i < n && bad < 0; i++ {
		switch b := text[i]; b {
		case ' ', '\n':
		case '!', '#':
			bad = i
		default:
			c, at = append(c, b), append(at, i)
		}
	}
	pre, acc := gr.Viable(s.e, c)
	if err == nil {
		sym.Assert(bad < 0, "a lexical error is reported")
		sym.Assert(acc[len(c)], "only whole texts are accepted")
		return
	}
	e := err.(*llx.Error)
	if e.Code == parser.UnexpectedEoiError {
		sym.Assert(sym.And(bad < 0, sym.And(pre[len(c)], !acc[len(c)])), "end of input is the first thing that cannot continue")
		fits(s.e, c, e.Message)
		return
	}
	// find the place
	p, line, col := -1, 1, 1
	for i := 0; i < n; i++ {
		if e.Line == line && e.Col == col {
			p = i
			break
		}
		if text[i] == '\n' {
			line, col = line+1, 0
		}
		col++
	}
	sym.Assert(p >= 0 && e.SourceName == "name", "an error is inside the text")
	if e.Code == lexer.WrongCharError || e.Code == lexer.BadTokenError {
		sym.Assert(p == bad, "a lexical error is at its place")
		sym.Assert((text[p] == '!') == (e.Code == lexer.BadTokenError), "error tokens and wrong characters differ")
		sym.Assert(pre[len(c)], "no earlier token is unexpected")
		return
	}
	for k, x := range at {
		if x == p {
			sym.Assert(pre[k], "no earlier token is unexpected")
			sym.Assert(!pre[k+1], "the token cannot continue the text")
			if e.Code == parser.RemainingSourceError {
				sym.Assert(acc[k], "remaining text follows a complete one")
			} else {
				sym.Assert(e.Code == parser.UnexpectedTokenError, "error code")
				fits(s.e, c[:k], e.Message)
			}
			return
		}
	}
	sym.Fail("an error is not at a token")
}

var odd []*parser.Parser

func Setup_Odd() {
	for _, d := range []string{
		// end of input in grammars
		"$t = /[a-z]/; g = 'a', $;",
		"$t = /[a-z]/; g = {'a', ('b' | $)};",
		"$t = /[a-z]/; g = ['a'], $ | 'b';",
		"$t = /[a-z]/; g = h, $; h = {'a'}, 'b' | $;",
		"$t = /[a-z]/; g = {h}; h = 'a', ['b'], $ | 'c';",
		"$t = /[a-z]/; g = $;",
		"$t = /[a-z]/; g = 'a', ($ | 'a', $ | 'a', 'b');",
		// token groups
		"$sp = / +/; $op = /-/; $num = /-?[0-9]+/; !side $sp; !group $op; g = $num, {$op, $num};",
		"$sp = / +/; $raw = /[^<]+/; $n = /[a-z]+/; $op = /[<>]/; !side $sp; !group $raw; g = {$raw | '<', $n, '>'};",
		"$sp = / +/; $raw = /[^<]+/; $n = /[a-z]+/; $op = /[<>]/; !side $sp; !group $raw; g = {['<', [$n], '>'], $raw | '<', $n, '<'};",
		"$a = /a+/; $b = /[ab]/; !group $b; g = ($a, $b | $a, $a, $b | $b, $a), {$b};",
		"$a = /a+/; $b = /[ab]/; $c = /b+/; !group $b; !group $c; g = {$a, $b} , $c;",
		// external tokens only
		"!extern $i; g = {$i};",
		"$e = /x/; !extern $i $d; g = {$i, $e, $d};",
		// caseless, reserved
		"$n = /[A-Za-z]+/; !caseless $n; !reserved 'AB'; g = {'AB', $n | $n, 'X'};",
	} {
		g, e := langdef.ParseString("", d)
		var p *parser.Parser
		if e == nil {
			p, e = parser.New(g)
		}
		if e != nil {
			panic(d + e.Error())
		}
		odd = append(odd, p)
	}
}

// H_Odd: end-of-input tokens, token groups, external and caseless tokens.
//
//zz:bounds 14 grammars; texts of 0..4 (thorough 5) bytes over {a,b,x,1,-,<,>,space}, whole or partial, with and without side tokens
//zz:steps 3000000
func H_Odd() {
	p := odd[sym.Choice("g", len(odd))]
	text := sym.StringOf("c", sym.Choice("len", sym.N(5, 6)), "abx1-<> ")
	var opts []parser.ParseOption
	switch sym.Choice("opts", 3) {
	case 1:
		opts = append(opts, parser.WithFullSource())
	case 2:
		opts = append(opts, parser.WithFullSource(), parser.WithSides())
	}
	_, err := p.ParseString(context.Background(), "name", text, parser.Hooks{}, opts...)
	if err == nil {
		return
	}
	e, is := err.(*llx.Error)
	sym.Assert(is && e.Code >= llx.LexicalErrors && e.Message != "", "an error has its code and message")
	if e.Code != parser.UnexpectedEoiError {
		sym.Assert(e.SourceName == "name" && e.Line == 1 && e.Col >= 1 && e.Col <= len(text)+1, "an error is inside the text")
	}
}
