package c09

import (
	"context"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
)

// layer is a hook layer having any hooks.
type layer struct{ n int }

var layers [2]parser.Hooks

func (l layer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) { return l, nil }
func (l layer) Init(context.Context, *parser.ParseContext) parser.Hooks                { return layers[l.n] }

var layered []*parser.Parser

func Setup_Layers() {
	layered = nil
	for _, d := range []string{
		"!side $s; !extern $x; $s = / /; $w = /[a-z]/; $d = /[0-9]/; @one; @two; g = {'a' | 'b' | $w | $x | h}; h = $d, ['a', 'a', $d | ('a', $w)];",
		"!extern $x; $w = /[a-z]/; $s = / /; $d = /[0-9]/; @two; @one; g = {($w, $d) | ($w, $x) | $x | $d | $s}, [$];",
	} {
		g, e := langdef.ParseString("", d)
		if e != nil {
			panic(e)
		}
		p, e := parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": layer{0}, "two": layer{1}}))
		if e != nil {
			panic(e)
		}
		layered = append(layered, p)
	}
}

// hooks gives one of the sets of hooks, all of them do the same.
func hooks(name string) (hs parser.Hooks) {
	what := sym.Choice(name+"does", 5)
	hook := func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
		x, e := tc.ParseContext().Parser().MakeToken("x", []byte("q"))
		a, _ := tc.ParseContext().Parser().MakeToken("w", []byte("a"))
		switch what {
		case 0:
			return true, nil, e
		case 1:
			return false, nil, e
		case 2:
			return true, []*parser.Token{x, a}, e
		case 3:
			return false, []*parser.Token{t, x}, e
		}
		for i := 0; i < 3; i++ {
			tc.PeekToken()
		}
		return false, []*parser.Token{a}, e
	}
	hs.Tokens, hs.Literals = parser.TokenHooks{}, parser.TokenHooks{}
	switch sym.Choice(name+"keys", 9) {
	case 0: // none
	case 1:
		hs.Literals["a"] = hook
	case 2: // not in the grammar
		hs.Literals["c"] = hook
	case 3:
		hs.Literals["q"], hs.Literals["c"] = hook, hook
	case 4:
		hs.Tokens["s"] = hook
	case 5:
		hs.Tokens["d"], hs.Literals["b"] = hook, hook
	case 6:
		hs.Tokens[parser.AnyToken] = hook
	case 7:
		hs.Tokens[lexer.EofTokenName], hs.Tokens[lexer.EoiTokenName] = hook, hook
	case 8:
		hs.Tokens["x"], hs.Literals[""] = hook, hook
	}
	return
}

// H_Layers: any hooks in any layers.
//
//zz:bounds 2 grammars with two layers; any 9 sets of token hooks (some of literals that the grammar does not use) that keep, drop, add, repeat or peek in any two of the layers and the hooks of the user; texts of 0..2 (thorough 3) bytes over {a,b,c,1,space,#}, whole or partial
//zz:steps 3000000
func H_Layers() {
	p := layered[sym.Choice("g", len(layered))]
	a, b := hooks("a"), hooks("b")
	layers = [2]parser.Hooks{}
	var user parser.Hooks
	switch sym.Choice("where", 3) {
	case 0:
		layers[0], layers[1] = a, b
	case 1:
		layers[0], user = a, b
	case 2:
		user, layers[1] = a, b
	}
	text := sym.StringOf("c", sym.Choice("len", sym.N(3, 4)), "abc1 #")
	var opts []parser.ParseOption
	if sym.Choice("whole", 2) == 1 {
		opts = append(opts, parser.WithFullSource())
	}
	_, err := p.ParseString(context.Background(), "name", text, user, opts...)
	if err == nil {
		return
	}
	e, is := err.(*llx.Error)
	sym.Assert(is && e.Code >= llx.LexicalErrors && e.Message != "", "an error has its code and message")
}
