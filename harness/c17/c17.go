// Package c17: several sources, partial parses, sources added by hooks.
package c17

import (
	"context"

	gr "github.com/ava12/llx/internal/zzverif/zzgram"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

const (
	words  = "!side $sp; $sp = /[ \\n]+/; $w = /[a-y]+/; $d = /[0-9]/; "
	single = "!side $sp; $sp = /[ \\n]+/; $t = /[a-z]/; $d = /[0-9]/; "
)

// at is a token at its place.
type at struct {
	name, text string
	src, pos   int
}

// tokens lexes one text on its own.
func tokens(text string, src int, word bool) (r []at) {
	for p := 0; p < len(text); {
		c, e := text[p], p+1
		switch {
		case c == ' ' || c == '\n':
			for e < len(text) && (text[e] == ' ' || text[e] == '\n') {
				e++
			}
			r = append(r, at{"sp", text[p:e], src, p})
		case c >= '0' && c <= '9':
			r = append(r, at{"d", text[p:e], src, p})
		case word:
			for e < len(text) && text[e] >= 'a' && text[e] <= 'y' {
				e++
			}
			r = append(r, at{"w", text[p:e], src, p})
		default:
			r = append(r, at{"t", text[p:e], src, p})
		}
		p = e
	}
	return
}

// list takes down the tokens of all nodes.
type list struct{ l *[]*parser.Token }

func (l list) NewNode(string, *parser.Token) error { return nil }
func (l list) HandleNode(string, any) error        { return nil }
func (l list) EndNode() (any, error)               { return nil, nil }
func (l list) HandleToken(t *parser.Token) error {
	if t.Type() != lexer.EoiTokenType {
		*l.l = append(*l.l, t)
	}
	return nil
}

func collect(l *[]*parser.Token) parser.NodeHooks {
	return parser.NodeHooks{parser.AnyNode: func(context.Context, string, *parser.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
		return list{l}, nil
	}}
}

func same(got []*parser.Token, want []at, srcs []*source.Source, what string) {
	sym.Assert(len(got) == len(want), what+": number of tokens")
	for i, t := range got {
		w := want[i]
		sym.Assert(t.TypeName() == w.name && t.Text() == w.text, what+": token")
		if w.src < 0 {
			sym.Assert(t.Source() == nil, what+": made by a hook")
			continue
		}
		sym.Assert(t.Source() == srcs[w.src] && t.Pos().Pos() == w.pos, what+": place of a token")
		l, c := t.LineCol()
		wl, wc := 1, 1
		for _, b := range srcs[w.src].Content()[:w.pos] {
			wc++
			if b == '\n' {
				wl, wc = wl+1, 1
			}
		}
		sym.Assert(l == wl && c == wc, what+": line and column of a token")
	}
}

func build(text string) *parser.Parser {
	gg, e := langdef.ParseString("", text)
	if e != nil {
		return nil
	}
	p, e := parser.New(gg)
	if e != nil {
		return nil
	}
	return p
}

var all, allWords *parser.Parser

func setup() {
	all = build(single + "g = {$t | $d};")
	allWords = build(words + "g = {($w, $w, $d) | ($w, $w, $w) | $w | $d};")
}

// cut splits a text at any places.
func cut(text string, n int) (parts []string) {
	from := 0
	for i := 1; i < n; i++ {
		to := sym.IntRange("cut", from, len(text))
		parts = append(parts, text[from:to])
		from = to
	}
	return append(parts, text[from:])
}

func queue(parts []string) (*source.Queue, []*source.Source) {
	q := source.NewQueue()
	var srcs []*source.Source
	for i, x := range parts {
		s := source.New(string(rune('A'+i)), []byte(x))
		srcs = append(srcs, s)
		q.Append(s)
	}
	return q, srcs
}

func Setup_Split() { setup() }

// H_Split: a text split over several sources.
//
//zz:bounds texts of 0..5 (thorough 6) letters over {a,1,space,newline} cut into 1..3 sources at any places, some empty; grammar with lookahead over token boundaries
func H_Split() {
	text := sym.StringOf("c", sym.Choice("len", sym.N(6, 7)), "a1 \n")
	parts := cut(text, 1+sym.Choice("parts", 3))
	q, srcs := queue(parts)
	var want []at
	files := 0
	for i, x := range parts {
		want = append(want, tokens(x, i, true)...)
		if len(x) > 0 {
			files++
		}
	}
	if files == 0 {
		files = 1
	}
	var got, eofs []*parser.Token
	hs := parser.Hooks{Nodes: collect(&got), Tokens: parser.TokenHooks{lexer.EofTokenName: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		eofs = append(eofs, t)
		return true, nil, nil
	}}}
	_, e := allWords.Parse(context.Background(), q, hs, parser.WithSides(), parser.WithFullSource())
	sym.Assert(e == nil, "a split text is parsed")
	same(got, want, srcs, "split text")
	sym.Assert(len(eofs) == files, "one end of file for each source")
	n := 0
	for i, x := range parts {
		if len(x) > 0 {
			sym.Assert(eofs[n].Source() == srcs[i] && eofs[n].Pos().Pos() == len(x), "end of file is at the end of its source")
			n++
		}
	}
	sym.Assert(q.IsEmpty(), "everything is consumed")
}

var parts []*parser.Parser

func Setup_Resume() {
	setup()
	i := 0
	for k := 1; k <= 3; k++ {
		for _, s := range gr.Shapes(k) {
			for _, l := range gr.Labels(k) {
				if i++; k < 3 || i%sym.N(80, 8) == 0 {
					if p := build(gr.NewGram(gr.Label(s, l)).Text(single)); p != nil {
						parts = append(parts, p)
					}
				}
			}
		}
	}
	r := gr.Rand(6)
	for n := sym.N(60, 600); n > 0; n-- {
		if g := gr.RandomNodes(&r); g.Used() {
			if p := build(g.Text(single)); p != nil {
				parts = append(parts, p)
			}
		}
	}
}

// H_Resume: a parse that stops early and another one for the rest.
//
//zz:bounds 111 grammars of 1..2 tokens, every 80th (thorough 8th) of 8910 of 3, 60 (thorough 600) of several nodes, also ambiguous ones; texts of 0..4 letters over {a,b,space} in 1..2 sources cut anywhere; with and without side tokens
func H_Resume() {
	p := parts[sym.Choice("g", len(parts))]
	text := sym.StringOf("c", sym.Choice("len", 5), "ab ")
	pieces := cut(text, 1+sym.Choice("parts", 2))
	resume(p, pieces)
}

func resume(p *parser.Parser, pieces []string) {
	q, srcs := queue(pieces)
	var want []at
	for i, x := range pieces {
		want = append(want, tokens(x, i, false)...)
	}
	var got, rest []*parser.Token
	var opts []parser.ParseOption
	if sym.Choice("sides", 2) == 1 {
		opts = append(opts, parser.WithSides())
	}
	_, e := p.Parse(context.Background(), q, parser.Hooks{Nodes: collect(&got)}, opts...)
	if e != nil {
		return
	}

	// where the queue is, against the last token used and the first one not used
	cur, pos := len(srcs), 0
	for i, s := range srcs {
		if q.Source() == s {
			cur, pos = i, q.Pos()
		}
	}
	used := 0 // in want
	n := 0
	for k, w := range want {
		if n < len(got) && got[n].Source() == srcs[w.src] && got[n].Pos().Pos() == w.pos {
			n++
			used = k + 1
		}
	}
	sym.Assert(n == len(got), "tokens used")
	ge := func(s, p int) bool { // the queue is at or after this place
		return cur > s || cur == s && pos >= p || p == len(pieces[s]) && cur == s+1 && pos == 0
	}
	if used > 0 {
		w := want[used-1]
		sym.Assert(ge(w.src, w.pos+len(w.text)), "the queue is after the last token used")
	}
	for _, w := range want[used:] {
		if w.name != "sp" {
			sym.Assert(cur < w.src || cur == w.src && pos <= w.pos, "the queue is not past the first token that was not used")
			break
		}
	}

	// the rest
	_, e = all.Parse(context.Background(), q, parser.Hooks{Nodes: collect(&rest)}, parser.WithFullSource())
	sym.Assert(e == nil, "the rest is parsed")
	var left []at
	for _, w := range want[used:] {
		if w.name != "sp" {
			left = append(left, w)
		}
	}
	same(rest, left, srcs, "rest")
}

var ahead []*parser.Parser

func Setup_Ahead() {
	setup()
	T, R, S, A, O, M := gr.T, gr.R, gr.S, gr.A, gr.O, gr.M
	a, b, c := T('a'), T('b'), T('1')
	for _, g := range []*gr.Gram{
		gr.NewGram(A(a, S(a, b, c))),
		gr.NewGram(S(M(a, b), O(a, c))),
		gr.NewGram(S(a, O(a, a, b))),
		gr.NewGram(S(M(R("h")), O(R("i"))), "h", S(a, b), "i", S(a, b, c)),
		gr.NewGram(A(R("h"), R("i")), "h", S(a, M(b)), "i", S(a, M(b), c)),
		gr.NewGram(M(A(S(a, a, b), S(a, c)))),
		gr.NewGram(S(M(a), O(b, c))),
	} {
		ahead = append(ahead, build(g.Text(single)))
	}
}

// H_Ahead: the parser has looked ahead over several tokens, and sources, when it stops.
//
//zz:bounds 7 grammars; texts of 0..5 (thorough 6) letters over {a,b,1,space} in 1..3 sources cut anywhere; with and without side tokens
func H_Ahead() {
	p := ahead[sym.Choice("g", len(ahead))]
	text := sym.StringOf("c", sym.Choice("len", sym.N(6, 7)), "ab1 ")
	resume(p, cut(text, 1+sym.Choice("parts", 3)))
}

// H_Repeat: the same parser is used again and again until everything is consumed.
//
//zz:bounds 4 grammars that take at least one token; texts of 0..5 (thorough 6) letters over {a,b,1,space} in 1..2 sources cut anywhere
func H_Repeat() {
	p := ahead[[]int{0, 2, 4, 0}[sym.Choice("g", 3)]]
	text := sym.StringOf("c", sym.Choice("len", sym.N(6, 7)), "ab1 ")
	pieces := cut(text, 1+sym.Choice("parts", 2))
	q, srcs := queue(pieces)
	var want []at
	for i, x := range pieces {
		for _, w := range tokens(x, i, false) {
			if w.name != "sp" {
				want = append(want, w)
			}
		}
	}
	var got []*parser.Token
	for i := 0; i < 7; i++ {
		_, e := p.Parse(context.Background(), q, parser.Hooks{Nodes: collect(&got)})
		if e != nil {
			break
		}
		same(got, want[:len(got)], srcs, "repeated partial parses")
	}
}

func Setup_Repeat() { Setup_Ahead() }

var include *parser.Parser
var inner *parser.Parser

func Setup_Hooks() {
	setup()
	include = build(single + "!extern $x; g = {($t, $t, $d) | ($t, $t, $t) | $t | $d | $x};")
	inner = build(single + "g = $d, [$d, $t], [$t, $t, $d];")
}

// pending is a stack of sources in the model.
type place struct {
	text string
	src  int
	pos  int
}

// H_Hooks: hooks add sources, move in the source, or run another parser on it.
//
//zz:bounds texts of 0..4 (thorough 5) letters over {a,i,j,1,space} with a second source; hooks of i and j put a source first, put one last, skip or rewind bytes, or parse on with another parser; grammar with lookahead
func H_Hooks() {
	text := sym.StringOf("c", sym.Choice("len", sym.N(5, 6)), "aij1 ")
	drop := sym.Choice("drop", 2) == 1
	what := [2]int{sym.Choice("i", 5), sym.Choice("j", 5)}
	names := map[string]int{"i": 0, "j": 1}
	q, srcs := queue([]string{text, "b2"})

	// the model: a list of places, the first one is read
	line := []place{{text, 0, 0}, {"b2", 1, 0}}
	if len(text) == 0 {
		line = line[1:]
	}
	extra := 0
	var want []at
	var ends []int // sources in the order they end
	inside := false
	for len(line) > 0 {
		l := &line[0]
		if l.pos >= len(l.text) {
			ends = append(ends, l.src)
			line = line[1:]
			continue
		}
		tk := tokens(l.text[l.pos:], l.src, false)[0]
		tk.pos += l.pos
		l.pos += len(tk.text)
		k, hooked := names[tk.text]
		if !hooked {
			want = append(want, tk)
			continue
		}
		keep := !drop
		switch what[k] {
		case 0:
			line = append([]place{{"c a", 2 + extra, 0}}, line...)
			extra++
		case 1:
			line = append(line, place{"3a", 2 + extra, 0})
			extra++
		case 2:
			l.pos += 2
		case 3: // reads two bytes as one token
			t := l.text[l.pos:]
			if len(t) > 2 {
				t = t[:2]
			}
			l.pos += len(t)
			if keep {
				want = append(want, tk)
			}
			want = append(want, at{"x", t, -1, 0})
			continue
		case 4:
			// the other parser takes 1 digit, [digit, letter], [letter, letter, digit]
			if keep {
				want = append(want, tk)
			}
			line = parseInner(line)
			inside = true // may take ends of sources
			continue
		}
		if keep {
			want = append(want, tk)
		}
	}

	var got []*parser.Token
	hook := func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
		s := tc.ParseContext().Sources()
		add := func(x string) *source.Source {
			n := source.New("added", []byte(x))
			srcs = append(srcs, n)
			return n
		}
		switch what[names[t.Text()]] {
		case 0:
			s.Prepend(add("c a"))
		case 1:
			s.Append(add("3a"))
		case 2:
			s.Skip(2)
		case 3:
			c, p := s.ContentPos()
			c = c[p:]
			if len(c) > 2 {
				c = c[:2]
			}
			s.Skip(len(c))
			x, e := tc.ParseContext().Parser().MakeToken("x", c)
			return !drop, []*parser.Token{x}, e
		case 4:
			pos := s.Pos()
			src := s.Source()
			_, e := inner.Parse(context.Background(), s, parser.Hooks{})
			if e != nil {
				sym.Assume(src == s.Source()) // what a failed parse leaves is not defined over sources
				s.Seek(pos)
			}
		}
		return !drop, nil, nil
	}
	var eofs []*parser.Token
	eof := func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		eofs = append(eofs, t)
		return true, nil, nil
	}
	_, e := include.Parse(context.Background(), q, parser.Hooks{Nodes: collect(&got), Literals: parser.TokenHooks{"i": hook, "j": hook}, Tokens: parser.TokenHooks{lexer.EofTokenName: eof}}, parser.WithSides(), parser.WithFullSource())
	sym.Assert(e == nil, "text with hooks is parsed")
	same(got, want, srcs, "text with hooks")
	if !inside {
		sym.Assert(len(eofs) == len(ends), "one end of file for each source")
		for i, t := range eofs {
			sym.Assert(t.Source() == srcs[ends[i]] && t.Pos().Pos() == srcs[ends[i]].Len(), "ends of files in order")
		}
	}
}

// parseInner moves over what the inner parser takes; nothing is taken if it fails.
func parseInner(line []place) []place {
	type cursor struct{ l, p int }
	next := func(c cursor) (byte, cursor, cursor) { // next significant letter, its place, the place after it
		for c.l < len(line) {
			t := line[c.l].text
			if c.p >= len(t) {
				c.l++
				if c.l < len(line) {
					c.p = line[c.l].pos
				}
				continue
			}
			if t[c.p] == ' ' {
				c.p++
				continue
			}
			return t[c.p], c, cursor{c.l, c.p + 1}
		}
		return 0, c, c
	}
	class := func(b byte) byte {
		if b >= '0' && b <= '9' {
			return 'd'
		} else if b != 0 {
			return 't'
		}
		return 0
	}
	c := cursor{0, line[0].pos}
	b, _, n := next(c)
	if class(b) != 'd' {
		return line
	}
	c = n
	take := func(what string) bool {
		x := c
		for i := 0; i < len(what); i++ {
			b, _, n := next(x)
			if class(b) != what[i] {
				if i == 0 {
					return true // the option is left out
				}
				return false // half of it: an error
			}
			x = n
		}
		c = x
		return true
	}
	old := append([]place(nil), line...)
	if !take("dt") || !take("ttd") {
		return old
	}
	// the queue is before the next significant token
	_, at, _ := next(c)
	if at.l >= len(line) {
		return nil
	}
	line = append([]place(nil), line[c.l:]...)
	line[0].pos = c.p
	return line
}
