// Package c15: errors of hooks and cancellation.
package c15

import (
	"context"
	"errors"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

const text = "!side $sp; !extern $x; $sp = /[ ]/; $t = /[a-c]/; $d = /[0-9]/; g = {h | i | k}, [$x]; h = $t, $t, 'a'; i = $t, [j], 'b'; j = $d, [$t]; k = $d; @one; @two;"

var (
	hookErr = errors.New("hook")
	ctxErr  = errors.New("cancelled")
)

// cctx is a context that can be cancelled at any moment.
type cctx struct {
	context.Context
	err error
}

func (c *cctx) Err() error { return c.err }

// run is the state of one parse.
type run struct {
	calls  int
	at     int // the call that fails, -1 for none
	cancel int // the call during which the context is cancelled, -1 for none
	ctx    *cctx
	hooks  int             // token hook calls after the cancellation
	tokens []*parser.Token // significant tokens given to nodes after the cancellation
	emit   bool            // token hooks keep the token
	extra  bool            // token hooks add a token
	peek   bool
	last   string
	values bool // values are returned along with the error
}

var now *run

// call counts a call of any hook and gives its error.
func call(kind string, token *parser.Token) error {
	r := now
	if r.ctx.err != nil {
		if token == nil {
			// the rest of the current step may follow
		} else if kind == "token" {
			r.hooks++
		} else if !p.IsSideType(token.Type()) {
			if n := len(r.tokens); n == 0 || r.tokens[n-1] != token {
				r.tokens = append(r.tokens, token)
			}
		}
	}
	n := r.calls
	r.calls++
	if n == r.cancel {
		r.ctx.err = ctxErr
	}
	if n == r.at {
		r.last = kind
		return hookErr
	}
	return nil
}

func tokenHook(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
	e := call("token", t)
	if e != nil && !now.values {
		return false, nil, e
	}
	if e == nil && now.peek {
		_, e = tc.PeekToken()
		if e != nil {
			return false, nil, nil
		}
	}
	var extra []*parser.Token
	if now.extra && t.Type() >= 0 {
		x, _ := tc.ParseContext().Parser().MakeToken("x", nil)
		extra = append(extra, x)
	}
	return now.emit, extra, e
}

type inst struct{ name string }

func nodeHook(_ context.Context, name string, _ *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
	e := call("node hook", nil)
	if e != nil && !now.values {
		return nil, e
	}
	return &inst{name}, e
}

func (i *inst) NewNode(string, *parser.Token) error { return call("NewNode", nil) }
func (i *inst) HandleNode(string, any) error        { return call("HandleNode", nil) }
func (i *inst) HandleToken(t *parser.Token) error   { return call("HandleToken", t) }
func (i *inst) EndNode() (any, error) {
	return i, call("EndNode", nil)
}

var all = parser.Hooks{
	Tokens:   parser.TokenHooks{parser.AnyToken: tokenHook, parser.EofToken: tokenHook, parser.EoiToken: tokenHook},
	Literals: parser.TokenHooks{"a": tokenHook},
	Nodes:    parser.NodeHooks{parser.AnyNode: nodeHook},
}

type layer struct{ hs *parser.Hooks }

func (l *layer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l *layer) Init(context.Context, *parser.ParseContext) parser.Hooks { return *l.hs }

var (
	p      *parser.Parser
	g      *grammar.Grammar
	layers [2]parser.Hooks
)

func Setup() {
	var e error
	g, e = langdef.ParseString("", text)
	if e != nil {
		panic(e)
	}
	p, e = parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": &layer{&layers[0]}, "two": &layer{&layers[1]}}))
	if e != nil {
		panic(e)
	}
}

// where puts all hooks in some layers.
func where() (user parser.Hooks) {
	layers = [2]parser.Hooks{}
	switch sym.Choice("where", 6) {
	case 0:
		user = all
	case 4:
		user = parser.Hooks{Nodes: all.Nodes}
	case 5:
	case 1:
		layers[0] = all
	case 2:
		layers[1], user = all, all
	case 3:
		layers[0] = parser.Hooks{Tokens: all.Tokens}
		layers[1] = parser.Hooks{Nodes: all.Nodes}
		user = parser.Hooks{Literals: all.Literals, Nodes: parser.NodeHooks{"i": nodeHook, "j": nodeHook}}
	}
	return
}

func opts() (r []parser.ParseOption) {
	if sym.Choice("sides", 2) == 1 {
		r = append(r, parser.WithSides())
	}
	if sym.Choice("full", 2) == 1 {
		r = append(r, parser.WithFullSource())
	}
	return
}

func parse(r *run, txt string, user parser.Hooks, o []parser.ParseOption) (any, error) {
	now = r
	r.ctx = &cctx{Context: context.Background()}
	if r.cancel == -2 {
		r.ctx.err = ctxErr
	}
	return p.Parse(r.ctx, source.NewQueue().Append(source.New("", []byte(txt))), user, o...)
}

// input is any short text.
func input(n int) string {
	return sym.StringOf("c", sym.Choice("len", n), "ab1 ")
}

// H_HookError: any hook fails at any call.
//
//zz:bounds one grammar of 5 nodes that needs lookahead; all hooks in six arrangements over the user and two layers, whole and partial, with and without side tokens; texts of 0..4 (thorough 5) letters over {a,b,1,space}; the failing call is any of the first 40
func H_HookError() {
	user, o, txt := where(), opts(), input(sym.N(5, 6))
	r := &run{at: sym.Choice("at", 40), cancel: -1, emit: true, values: sym.Choice("values", 2) == 1}
	res, e := parse(r, txt, user, o)
	if r.last != "" {
		sym.Assert(e == hookErr, "the error of a hook is returned: "+r.last)
		sym.Assert(res == nil, "no result with an error: "+r.last)
		sym.Assert(r.calls == r.at+1, "no hook is called after an error: "+r.last)
	} else {
		sym.Assert(r.calls <= r.at && e != hookErr, "no error of a hook")
	}
}

// H_TokenHooks: a failing token hook that also drops, adds or peeks.
//
//zz:bounds as H_HookError, texts of 0..3 letters; the failing call is any of the first 12; hooks drop the token or keep it, add a token or not, peek or not
func H_TokenHooks() {
	layers = [2]parser.Hooks{}
	hs := parser.Hooks{Tokens: all.Tokens, Literals: all.Literals}
	user := hs
	if sym.Choice("two", 2) == 1 {
		layers[0] = hs
	}
	txt := sym.StringOf("c", sym.Choice("len", 4), "ab1 #")
	r := &run{at: sym.Choice("at", 12), cancel: -1, emit: sym.Choice("emit", 2) == 1, extra: sym.Choice("extra", 2) == 1, peek: sym.Choice("peek", 2) == 1, values: true}
	res, e := parse(r, txt, user, nil)
	if r.last != "" {
		sym.Assert(e == hookErr && res == nil && r.calls == r.at+1, "the error of a token hook is returned")
	} else {
		sym.Assert(e != hookErr, "no error of a hook")
	}
}

// H_Cancel: the context is cancelled before the parse or during any hook call.
//
//zz:bounds as H_HookError, texts of 0..3 (thorough 5) letters; the context is cancelled before the parse or during any of the first 40 calls
func H_Cancel() {
	user, o, txt := where(), opts(), input(sym.N(4, 6))
	r := &run{at: -1, cancel: sym.Choice("at", 41) - 2, emit: true}
	if r.cancel == -1 {
		r.cancel = -2
	}
	res, e := parse(r, txt, user, o)
	if r.ctx.err == nil {
		sym.Assert(e != ctxErr, "no cancellation")
		return
	}
	if r.cancel == -2 {
		sym.Assert(e == ctxErr && res == nil, "a cancelled context stops the parse at once")
		sym.Assert(r.hooks == 0 && r.tokens == nil, "no token after the cancellation")
		return
	}
	sym.Assert(r.hooks == 0, "no token is offered to a hook after the cancellation")
	sym.Assert(len(r.tokens) <= 1, "the parse goes on after the cancellation")
	// what was cancelled while the last token was being processed may still come to its end
	if e == nil {
		return
	}
	sym.Assert(res == nil, "no result with an error")
	if _, is := e.(*llx.Error); !is {
		sym.Assert(e == ctxErr, "the error of the context is returned")
	} else {
		// the token that was being processed is wrong itself
		sym.Assert(len(r.tokens) == 0, "the parse goes on after the cancellation")
	}
}

// H_Names: wrong names of hooks are reported before anything is parsed.
//
//zz:bounds one wrong token or node name in any of three layers
func H_Names() {
	r := &run{at: -1, cancel: -1, emit: true}
	layers = [2]parser.Hooks{}
	hs, code := parser.Hooks{Tokens: parser.TokenHooks{"t": tokenHook, "zz": tokenHook}, Nodes: all.Nodes}, parser.UnknownTokenTypeError
	if sym.Choice("node", 2) == 1 {
		hs, code = parser.Hooks{Tokens: all.Tokens, Nodes: parser.NodeHooks{"g": nodeHook, "zz": nodeHook}}, parser.UnknownNodeError
	}
	user := parser.Hooks{}
	switch sym.Choice("where", 3) {
	case 0:
		user = hs
	case 1:
		layers[0] = hs
	case 2:
		layers[1], user = hs, all
	}
	res, e := parse(r, "a1b", user, nil)
	le, is := e.(*llx.Error)
	sym.Assert(is && le.Code == code, "wrong name of a hook is reported")
	sym.Assert(res == nil && r.calls == 0, "nothing is parsed with a wrong hook")
}

type failing struct {
	e error
	n *int
}

func (f *failing) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	*f.n++
	return &layer{&layers[0]}, f.e
}

// H_Setup: errors of a layer template.
//
//zz:bounds two layers, either may fail
func H_Setup() {
	var n1, n2 int
	one, two := &failing{nil, &n1}, &failing{nil, &n2}
	bad := sym.Choice("bad", 3)
	if bad == 1 {
		one.e = hookErr
	} else if bad == 2 {
		two.e = hookErr
	}
	pp, e := parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": one, "two": two}))
	if bad == 0 {
		sym.Assert(e == nil && pp != nil && n1 == 1 && n2 == 1, "layers are configured once")
	} else {
		sym.Assert(e == hookErr && pp == nil, "the error of a layer is returned")
		sym.Assert(n1 == 1 && n2 == bad-1, "no layer is configured after an error")
	}
	_, e = parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": one}))
	le, is := e.(*llx.Error)
	sym.Assert(bad == 1 || is && le.Code == parser.UnknownLayerError, "unknown layer")
}
