// Package c08: the parser accepts exactly the language of the grammar.
package c08

import (
	"context"

	gr "github.com/ava12/llx/internal/zzverif/zzgram"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
)

const tokens = "$t = /[a-z]/; $d = /[0-9]/; "

type subject struct {
	g   *gr.Gram
	p   *parser.Parser
	err error
}

func build(g *gr.Gram) subject {
	gg, e := langdef.ParseString("", g.Text(tokens))
	if e != nil {
		return subject{g, nil, e}
	}
	p, e := parser.New(gg)
	return subject{g, p, e}
}

var pairs, triples, quads, nodes []subject

func enum(k, step int) (r []subject) {
	i := 0
	for _, s := range gr.Shapes(k) {
		for _, l := range gr.Labels(k) {
			g := gr.NewGram(gr.Label(s, l))
			if !g.Covered() {
				continue
			}
			if i%step == 0 {
				r = append(r, build(g))
			}
			i++
		}
	}
	return
}

func Setup_Pairs() { pairs = append(enum(1, 1), enum(2, 1)...) }

func Setup_Triples() { triples = enum(3, sym.N(3, 1)) }

// nd records the symbols of one node.
type nd struct {
	name string
	w    gr.Word
	all  *[]*nd
}

func (n *nd) NewNode(node string, t *parser.Token) error { return nil }
func (n *nd) HandleNode(node string, res any) error {
	n.w.C = append(n.w.C, 0)
	n.w.Node = append(n.w.Node, node)
	return nil
}
func (n *nd) HandleToken(t *parser.Token) error {
	if len(t.Content()) == 0 {
		return nil // end of input
	}
	n.w.C = append(n.w.C, t.Content()[0])
	n.w.Node = append(n.w.Node, "")
	return nil
}
func (n *nd) EndNode() (any, error) {
	*n.all = append(*n.all, n)
	return n, nil
}

func check(s subject, text string) {
	sym.Assert(s.err == nil, "a valid grammar is accepted")
	var all []*nd
	hs := parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: func(_ context.Context, name string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
		return &nd{name: name, all: &all}, nil
	}}}
	_, e := s.p.ParseString(context.Background(), "", text, hs, parser.WithFullSource())
	want := gr.Derives(s.g, s.g.Body("g"), gr.Word{C: []byte(text)})
	if e != nil {
		sym.Assert(!want, "every derived text is accepted")
		return
	}
	sym.Assert(want, "only derived texts are accepted")
	for _, n := range all {
		sym.Assert(gr.Derives(nil, s.g.Body(n.name), n.w), "every node is a derivation")
	}
}

// H_Pairs: all grammars of up to two tokens.
//
//zz:bounds all 59 covered grammars of 1..2 tokens built from sequence, alternative, option and repeat; texts of 0..4 (thorough 6) letters over {a,b,c,x}
func H_Pairs() {
	s := pairs[sym.Choice("g", len(pairs))]
	check(s, sym.StringOf("c", sym.Choice("len", sym.N(5, 7)), "abcx"))
}

// H_Triples: grammars of three tokens.
//
//zz:bounds every 3rd (thorough: every) of the 2000 covered grammars of 3 tokens; texts of 0..4 (thorough 5) letters over {a,b,c,x}
func H_Triples() {
	s := triples[sym.Choice("g", len(triples))]
	check(s, sym.StringOf("c", sym.Choice("len", sym.N(5, 6)), "abcx"))
}

func Setup_Quads() {
	r := gr.Rand(1)
	for n := sym.N(250, 1500); len(quads) < n; {
		g := gr.NewGram(gr.Random(&r, 4+r.N(3), "aabbc"))
		if g.Covered() {
			quads = append(quads, build(g))
		}
	}
}

// H_Quads: bigger grammars.
//
//zz:bounds 250 (thorough 1500) covered grammars of 4..6 tokens, chosen by a fixed pseudo-random sequence; texts of 0..5 letters over {a,b,c,x}
func H_Quads() {
	s := quads[sym.Choice("g", len(quads))]
	check(s, sym.StringOf("c", sym.Choice("len", 6), "abcx"))
}

func Setup_Nodes() {
	r := gr.Rand(2)
	for n := sym.N(300, 1500); len(nodes) < n; {
		g := gr.RandomNodes(&r)
		if g.Used() && g.Covered() {
			nodes = append(nodes, build(g))
		}
	}
}

// H_Nodes: nested nodes.
//
//zz:bounds 300 (thorough 1500) covered grammars of 2..3 nodes with bodies of 1..4 items, some recursive, chosen by a fixed pseudo-random sequence; texts of 0..4 (thorough 5) letters over {a,b,c,x}
func H_Nodes() {
	s := nodes[sym.Choice("g", len(nodes))]
	check(s, sym.StringOf("c", sym.Choice("len", sym.N(5, 6)), "abcx"))
}

var cycles []subject

func Setup_Cycles() {
	r := gr.Rand(3)
	for n := sym.N(150, 1000); len(cycles) < n; {
		g := gr.RandomCycle(&r)
		if g.Used() && g.Covered() {
			cycles = append(cycles, build(g))
		}
	}
}

// H_Cycles: nodes that refer to one another.
//
//zz:bounds 150 (thorough 1000) covered grammars of 3..5 nodes that refer to one another and begin with a letter or with another node, chosen by a fixed pseudo-random sequence; texts of 0..4 (thorough 5) letters over {a,b,c,d,x}
func H_Cycles() {
	s := cycles[sym.Choice("g", len(cycles))]
	check(s, sym.StringOf("c", sym.Choice("len", sym.N(5, 6)), "abcdx"))
}

var special []subject

func Setup_Special() {
	T, R, S, A, O, M := gr.T, gr.R, gr.S, gr.A, gr.O, gr.M
	a, b, c, x := T('a'), T('b'), T('c'), T('x')
	for _, g := range []*gr.Gram{
		// repeats and options around optional content
		gr.NewGram(S(M(O(a)), b)),
		gr.NewGram(S(M(M(a)), b)),
		gr.NewGram(S(M(O(a), O(b)), c)),
		gr.NewGram(M(O(a), O(b))),
		gr.NewGram(S(M(O(A(a, b))), c)),
		gr.NewGram(S(O(O(a)), b)),
		gr.NewGram(S(O(M(a)), b)),
		gr.NewGram(S(M(O(M(a))), b)),
		gr.NewGram(S(M(A(O(a), b)), c)),
		gr.NewGram(S(M(M(O(a), O(b)), O(c)), x)),
		gr.NewGram(S(x, M(O(a), M(b)), c)),
		gr.NewGram(S(O(M(O(a)), O(b)), c)),
		gr.NewGram(S(M(O(a), b), c)),
		// long common prefixes
		gr.NewGram(A(S(a, b, c, a), S(a, b, c, b), S(a, b, c, c))),
		gr.NewGram(A(S(a, A(S(b, c), S(b, x))), S(a, b, a))),
		gr.NewGram(S(M(A(S(a, b), S(a, c))), a, x)),
		gr.NewGram(S(M(a, b), O(a, c), a, x)),
		gr.NewGram(S(M(a), M(b), M(a), b, c)),
		gr.NewGram(S(O(a), O(a), O(a), b)),
		gr.NewGram(S(A(a, S(a, b)), A(c, S(b, c)))),
		gr.NewGram(A(R("h"), R("i"), R("k")), "h", S(a, b, c), "i", S(a, b, x), "k", S(a, b, M(a))),
		gr.NewGram(S(M(R("h")), M(R("i"))), "h", S(a, b), "i", S(a, c)),
		// recursion
		gr.NewGram(R("h"), "h", S(a, O(R("h")), b)),
		gr.NewGram(R("h"), "h", A(S(a, R("h")), b)),
		gr.NewGram(R("h"), "h", S(R("i"), M(c, R("i"))), "i", A(a, S(b, R("h"), x))),
		gr.NewGram(S(a, O(R("g")), b)),
		gr.NewGram(A(S(a, R("g"), b), S(a, R("g"), c), x)),
		gr.NewGram(R("h"), "h", A(S(a, R("i")), b), "i", A(S(a, R("h")), c)),
		// token types
		gr.NewGram(S(M(A(T('0'), a)), b)),
		gr.NewGram(A(S(T('0'), a), S(T('0'), T('0'), b))),
		gr.NewGram(S(R("h"), M(a, R("h"))), "h", S(T('0'), M(T('0')))),
		// end of input
		gr.NewGram(M(a, A(b, T('$')))),
		gr.NewGram(S(a, A(b, T('$')))),
		gr.NewGram(S(a, T('$'))),
		gr.NewGram(T('$')),
		gr.NewGram(S(R("h"), T('$')), "h", S(a, O(b))),
		gr.NewGram(S(M(R("h")), T('$')), "h", S(a, b)),
		gr.NewGram(M(R("h")), "h", S(a, A(c, T('$')))),
	} {
		special = append(special, build(g))
	}
}

// H_Special: chosen grammars: optional content in repeats, long lookahead, recursion, token types, end of input.
//
//zz:bounds 38 grammars; texts of 0..5 (thorough 7) letters over {a,b,c,x,1}
func H_Special() {
	s := special[sym.Choice("g", len(special))]
	check(s, sym.StringOf("c", sym.Choice("len", sym.N(6, 8)), "abcx1"))
}

var shared []subject

// pairs of grammar and text it must reject: what a repeat at the beginning of an
// alternative, option or repeat lets through (see KNOWN_FINDINGS.json)
var sharedText = []string{"a", "ac", "abc", "acd"}

func Setup_SharedRepeat() {
	T, S, A, O, M := gr.T, gr.S, gr.A, gr.O, gr.M
	a, b, c, x := T('a'), T('b'), T('c'), T('d')
	for _, g := range []*gr.Gram{
		gr.NewGram(O(M(a), b)),
		gr.NewGram(S(M(A(S(M(a), b))), c)),
		gr.NewGram(S(A(b, M(a)), c)),
		gr.NewGram(A(S(M(a), b), S(M(c), x))),
	} {
		shared = append(shared, build(g))
	}
}

// H_SharedRepeat: repeats at a place where something else may start too.
//
//zz:bounds 4 grammars with one text each
func H_SharedRepeat() {
	i := sym.Choice("case", len(shared))
	check(shared[i], sharedText[i])
}
