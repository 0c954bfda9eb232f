// Package c16: a parser is never changed by parsing.
package c16

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	_ "github.com/ava12/llx/parser/layers"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

const (
	// lookahead over several tokens, token groups, caseless keywords, error tokens, literals of several types, own layers
	text = "!side $sp; !extern $x; !caseless $k; !error $bad; !group $q $r; " +
		"$sp = /[ \\n]+/; $k = /[a-bA-B]/; $d = /[0-9]/; $bad = /[!]/; $r = /[^\\x22]/; $q = /\\x22/; " +
		"g = {h | i | s | $x}; h = $k, $k, 'b'; i = $k, [j], 'a'; j = $d, [$k]; s = $q, {$r}, $q; @one; @two;"
	// the layers that come with the library
	lib = "!side $sp; !extern $x $in $de; $sp = /[ \\n]/; $t = /[a-c]/; " +
		"g = {h | $x | $in | $de}; h = $t, [j, 'c']; j = 'a', {h}, 'b'; " +
		"@convert input-type(t) convert('c', 'b'); @indent space(sp) on-indent(in) on-dedent(de); @restrict node(j) forbid-in(j) allow-in(g);"
)

var (
	shared, fresh       *parser.Parser
	sharedLib, freshLib *parser.Parser
	hookErr             = errors.New("hook")
)

// job is one parse: its text and what its hooks do.
type job struct {
	text string
	kind int
	opts []parser.ParseOption
}

// state of a parse is kept in its context.
type key struct{}

type values struct {
	context.Context
	t *trace
}

func (v values) Value(any) any { return v.t }

type trace struct {
	strings.Builder
	job    job
	calls  int
	at     int // the call after which inner is run
	inner  func()
	parser *parser.Parser
}

func (t *trace) call(f string, a ...any) bool {
	fmt.Fprintf(t, f, a...)
	n := t.calls
	t.calls++
	if n == t.at && t.inner != nil {
		t.inner()
	}
	return t.job.kind == 3 && n == 4
}

func token(t *parser.Token) string {
	if t == nil {
		return "-"
	}
	l, c := t.LineCol()
	return fmt.Sprintf("%d %s %s %s %d:%d", t.Type(), t.TypeName(), t.Text(), t.SourceName(), l, c)
}

func tokenHook(ctx context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
	tr := ctx.Value(key{}).(*trace)
	if tr.call("token %s;", token(t)) {
		return false, nil, hookErr
	}
	switch tr.job.kind {
	case 2:
		x, e := tc.PeekToken()
		fmt.Fprintf(tr, "peek %s %v;", token(x), e)
		if t.Type() < 0 {
			return true, nil, nil
		}
		x, e = tr.parser.MakeToken("x", t.Content())
		return len(t.Content())&1 == 0, []*parser.Token{x}, e
	}
	return true, nil, nil
}

type inst struct {
	tr   *trace
	name string
	n    int
}

func nodeHook(ctx context.Context, name string, t *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
	tr := ctx.Value(key{}).(*trace)
	if tr.call("new %s %s %v;", name, token(t), nc.NodeStack()) {
		return nil, hookErr
	}
	return &inst{tr, name, 0}, nil
}

func (i *inst) check(bad bool) error {
	i.n++
	if bad {
		return hookErr
	}
	return nil
}
func (i *inst) NewNode(n string, t *parser.Token) error {
	return i.check(i.tr.call("%s: node %s %s;", i.name, n, token(t)))
}
func (i *inst) HandleNode(n string, r any) error {
	return i.check(i.tr.call("%s: result %s %v;", i.name, n, r))
}
func (i *inst) HandleToken(t *parser.Token) error {
	return i.check(i.tr.call("%s: token %s;", i.name, token(t)))
}
func (i *inst) EndNode() (any, error) {
	return fmt.Sprint(i.name, i.n), i.check(i.tr.call("%s: end;", i.name))
}

// hook sets are shared by all parses
var sets = []parser.Hooks{
	{},
	{Nodes: parser.NodeHooks{parser.AnyNode: nodeHook}},
	{Tokens: parser.TokenHooks{parser.AnyToken: tokenHook, "sp": tokenHook}, Literals: parser.TokenHooks{"a": tokenHook, "1": tokenHook}, Nodes: parser.NodeHooks{"h": nodeHook, "j": nodeHook}},
	{Tokens: parser.TokenHooks{parser.AnyToken: tokenHook}, Literals: parser.TokenHooks{"z": tokenHook}, Nodes: parser.NodeHooks{parser.AnyNode: nodeHook}},
	{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}},
}

// layer hooks everything when the parse asks for it.
type layer struct{}

func (l layer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l layer) Init(ctx context.Context, _ *parser.ParseContext) parser.Hooks {
	if ctx.Value(key{}).(*trace).job.kind == 1 {
		return sets[1]
	}
	return sets[0]
}

func build(text string) *parser.Parser {
	gg, e := langdef.ParseString("", text)
	if e != nil {
		panic(e.Error())
	}
	p, e := parser.New(gg, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": layer{}, "two": layer{}}))
	if e != nil {
		panic(e.Error())
	}
	return p
}

// parse gives everything that can be observed of a parse.
func parse(p *parser.Parser, j job, at int, inner func()) string {
	tr := &trace{job: j, at: at, inner: inner, parser: p}
	q := source.NewQueue().Append(source.New("A", []byte(j.text)))
	ctx := values{context.Background(), tr}
	r, e := p.Parse(ctx, q, sets[j.kind], j.opts...)
	if n, ok := r.(tree.Element); ok {
		r = dump(n)
	}
	fmt.Fprintf(tr, "result %v", r)
	var le *llx.Error
	if errors.As(e, &le) {
		fmt.Fprintf(tr, " error %d %s", le.Code, le.Error())
	} else if e != nil {
		fmt.Fprintf(tr, " error %s", e.Error())
	}
	if s := q.Source(); s != nil {
		fmt.Fprintf(tr, " at %d", q.Pos())
	}
	return tr.String()
}

func dump(e tree.Element) string {
	if !e.IsNode() {
		return token(e.Token())
	}
	s := e.TypeName() + "("
	for _, c := range tree.Children(e) {
		s += dump(c) + ","
	}
	return s + ")"
}

func any1(n int, letters string) job {
	var j job
	j.kind = sym.Choice("kind", len(sets))
	j.text = sym.StringOf("c", sym.Choice("len", n+1), letters)
	if sym.Choice("opts", 2) == 1 {
		j.opts = []parser.ParseOption{parser.WithSides(), parser.WithFullSource()}
	}
	return j
}

func freeze(p *parser.Parser) {
	sym.Freeze(p)
	for _, s := range sets {
		sym.Freeze(s.Tokens)
		sym.Freeze(s.Literals)
		sym.Freeze(s.Nodes)
	}
}

func Setup_Sequence() { shared, fresh = build(text), build(text) }

// H_Sequence: what one parse leaves behind.
//
//zz:bounds any text of 0..3 (thorough 4) letters over {a,B,1,",!,space} parsed first with any of 5 hook sets, each giving up or failing on its own, then 7 texts with every hook set; all memory reachable from the parser and all package variables
func H_Sequence() {
	first := any1(sym.N(3, 4), "aB1\"! ")
	second := job{text: second[sym.Choice("second", len(second))], kind: sym.Choice("kind2", len(sets))}
	freeze(shared)
	var got string
	sym.Parallel(
		func() { parse(shared, first, -1, nil) },
		func() { got = parse(shared, second, -1, nil) },
	)
	want := parse(fresh, second, -1, nil)
	sym.Assert(got == want, "a parse after another one")
}

var second = []string{"", "aab", "a1ba aaB", "\"a1\n\"a", "aa", "a!", "b"}

func Setup_Nested() { Setup_Sequence() }

// H_Nested: one parse runs while another one is on its way.
//
//zz:bounds texts of the outer parse of 0..3 (thorough 4) letters over {a,B,1,",!,space} with hooks; at any call of its first 6 hooks one of 7 texts is parsed by the same parser with every hook set
func H_Nested() {
	outer := any1(sym.N(3, 4), "aB1\"! ")
	sym.Assume(outer.kind > 0 && outer.kind < 4)
	inner := job{text: second[sym.Choice("inner", len(second))], kind: sym.Choice("kind2", len(sets))}
	at := sym.Choice("at", 6)
	freeze(shared)
	ran := false
	var got string
	out := parse(shared, outer, at, func() { ran = true; got = parse(shared, inner, -1, nil) })
	want := parse(fresh, outer, -1, nil)
	sym.Assert(out == want, "a parse with another one inside")
	if ran {
		sym.Assert(got == parse(fresh, inner, -1, nil), "a parse inside another one")
	}
}

func Setup_Layers() { sharedLib, freshLib = build(lib), build(lib) }

// H_Layers: the same with the layers of the library.
//
//zz:bounds any text of 0..3 (thorough 4) letters over {a,b,c,space,newline} parsed with convert and indent layers and any of 5 hook sets, on its own and inside another parse
func H_Layers() {
	first := any1(sym.N(3, 4), "abc \n")
	second := job{text: []string{"", "ac", "a\n a\n b\nc", "ac\n  c", "aab"}[sym.Choice("second", 5)], kind: 1}
	freeze(sharedLib)
	var a, b string
	if sym.Choice("nested", 2) == 1 {
		b = parse(sharedLib, second, 2, func() { a = parse(sharedLib, first, -1, nil) })
		if a == "" {
			return
		}
	} else {
		sym.Parallel(
			func() { a = parse(sharedLib, first, -1, nil) },
			func() { b = parse(sharedLib, second, -1, nil) },
		)
	}
	sym.Assert(b == parse(freshLib, second, -1, nil), "a parse along with another one")
	sym.Assert(a == parse(freshLib, first, -1, nil), "a parse inside another one")
}

// H_Langdef: grammar descriptions are parsed by a shared lexer.
//
//zz:bounds descriptions with any 0..4 (thorough 5) letters over {a,|,',/,$,;,!} in the middle, two at once; all package variables
func H_Langdef() {
	t := sym.StringOf("c", sym.Choice("len", sym.N(5, 6)), "a|'/$;!")
	texts := []string{"$a = /a/; g = $a " + t + " ;", "$b = /b/; g = h; h = $b | 'b';"}
	var r [2]string
	parse := func(i int) func() {
		return func() {
			g, e := langdef.ParseString("", texts[i])
			if e != nil {
				r[i] = e.Error()
				return
			}
			p, e := parser.New(g)
			if e != nil {
				r[i] = e.Error()
				return
			}
			_, e = p.ParseString(context.Background(), "", "b", parser.Hooks{})
			r[i] = fmt.Sprint(len(g.Tokens), len(g.States), e == nil)
		}
	}
	sym.Parallel(parse(0), parse(1))
	sym.Assert(r[1] == other, "a grammar parsed along with another one: "+r[1])
}

var other string

func Setup_Langdef() {
	g, _ := langdef.ParseString("", "$b = /b/; g = h; h = $b | 'b';")
	p, _ := parser.New(g)
	_, e := p.ParseString(context.Background(), "", "b", parser.Hooks{})
	other = fmt.Sprint(len(g.Tokens), len(g.States), e == nil)
}
