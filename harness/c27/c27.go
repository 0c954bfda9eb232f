// Package c27: names and types of tokens and hook layers in the API of a parser.
//
//zz:fresh
//zz:sched
package c27

import (
	"context"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// grammars have tokens of all kinds, in different order, with and without literals and layers
var texts = []string{
	"!side $sp; !extern $x; !error $er; $sp = /[ ]/; $t = /[a-c]+/; $d = /[0-9]/; $er = /[!]/; g = {t | 'a' | 'b' | $x | d}; t = $t; d = $d; @one; @two;",
	"!error $er; $er = /[!]/; $t = /[a-c]+/; !reserved 'b'; g = {$t | 'b' | 'c'}; @one; @two;",
	"!extern $x $y; !side $x; $t = /[a-c]/; !caseless $t; g = {$t | $y}; @one; @two;",
	"$t = /[ab]/; g = {$t}; @one; @two;",
	"!group $u; !side $s; $s = /[ ]/; $t = /[a]+/; $u = /[^a]+/; !error $u; g = {$t}; @one; @two;",
}

// def is what a grammar says of its token types, in order of definition; literals have no type names.
type def struct {
	name          string
	side, bad, li bool
}

var (
	gs     []*grammar.Grammar
	ps     []*parser.Parser
	layers [2]parser.Hooks
)

type layer struct{ hs *parser.Hooks }

func (l *layer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l *layer) Init(context.Context, *parser.ParseContext) parser.Hooks { return *l.hs }

func Setup() {
	for _, text := range texts {
		g, e := langdef.ParseString("", text)
		if e != nil {
			panic(e)
		}
		p, e := parser.New(g, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": &layer{&layers[0]}, "two": &layer{&layers[1]}}))
		if e != nil {
			panic(e)
		}
		gs = append(gs, g)
		ps = append(ps, p)
	}
}

// defs reads flags of the grammar.
func defs(g *grammar.Grammar) (r []def) {
	for _, t := range g.Tokens {
		r = append(r, def{t.Name, t.Flags&grammar.SideToken != 0, t.Flags&grammar.ErrorToken != 0, t.Flags&grammar.LiteralToken != 0})
	}
	return
}

// usable types: those of significant, side and external tokens, ends of file and of input.
func usable(ds []def, tt int) bool {
	if tt == lexer.EofTokenType || tt == lexer.EoiTokenType {
		return true
	}
	return tt >= 0 && tt < len(ds) && !ds[tt].bad && !ds[tt].li
}

// H_Types: any number as a token type.
//
//zz:bounds five grammars with tokens of all kinds; any type in -40..40
func H_Types() {
	k := sym.Choice("grammar", len(ps))
	p, ds := ps[k], defs(gs[k])
	tt := sym.Concrete(sym.IntRange("type", -40, 40))
	sym.Assert(p.IsSideType(tt) == (tt >= 0 && tt < len(ds) && ds[tt].side), "side types")
	sym.Assert(p.IsSpecialType(tt) == (tt == lexer.EofTokenType || tt == lexer.EoiTokenType), "special types")
	sym.Assert(p.IsValidType(tt) == usable(ds, tt), "valid types")
}

// name of a token type, any short text or a known name.
func anyName(ds []def) string {
	switch k := sym.Choice("name", len(ds)+7); {
	case k < len(ds):
		return ds[k].name
	case k == len(ds):
		return parser.EofToken
	case k == len(ds)+1:
		return parser.EoiToken
	case k == len(ds)+2:
		return "-eof"
	case k == len(ds)+3:
		return "-error-"
	default:
		return sym.String("n", k-len(ds)-3)
	}
}

// H_Make: artificial tokens and types by names.
//
//zz:bounds five grammars; any name of 1..3 bytes, all names in the grammar (literals and error tokens included), names of special tokens and two names close to them; content of 0..2 (thorough 4) bytes
func H_Make() {
	k := sym.Choice("grammar", len(ps))
	p, ds := ps[k], defs(gs[k])
	name := anyName(ds)
	want, known := 0, true
	switch name {
	case parser.EofToken:
		want = lexer.EofTokenType
	case parser.EoiToken:
		want = lexer.EoiTokenType
	default:
		known = false
		for i, d := range ds {
			if !d.bad && !d.li && d.name == name {
				want, known = i, true
			}
		}
	}
	content := sym.Bytes("c", sym.Choice("size", sym.N(3, 5)))
	tt, valid := p.TokenType(name)
	tok, e := p.MakeToken(name, content)
	sym.Assert(valid == known, "known type names")
	if !known {
		le, is := e.(*llx.Error)
		sym.Assert(tok == nil && is && le.Code == parser.UnknownTokenTypeError, "no token of unknown type")
		return
	}
	sym.Assert(tt == want && p.IsValidType(tt), "type by its name")
	sym.Assert(e == nil && tok != nil, "token of a known type")
	sym.Assert(tok.Type() == want && tok.TypeName() == name, "type of an artificial token")
	sym.Assert(string(tok.Content()) == string(content) && tok.Text() == string(content), "content of an artificial token")
	line, col := tok.LineCol()
	sym.Assert(tok.Source() == nil && tok.SourceName() == "" && line == 0 && col == 0, "an artificial token has no position")
}

// emitter is a layer that adds a token of any type when it gets some token.
type emitter struct {
	at, calls int
	on        int // type of the hooked token
	tok       *parser.Token
	after     int // calls of hooks after the token is added
	added     bool
	drop      bool
	two       bool
	good      *parser.Token
	pc        []*parser.ParseContext
}

func (em *emitter) hook(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
	em.pc = append(em.pc, tc.ParseContext())
	n := em.calls
	em.calls++
	if em.added {
		em.after++
	}
	if n == em.at {
		em.added, em.on = true, t.Type()
		if em.two {
			return !em.drop, []*parser.Token{em.good, em.tok}, nil
		}
		return !em.drop, []*parser.Token{em.tok}, nil
	}
	return true, nil, nil
}

// upper records what the layer above gets.
type upper struct{ got []*parser.Token }

func (u *upper) hook(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
	u.got = append(u.got, t)
	return true, nil, nil
}

type inst struct{ got *[]*parser.Token }

func (i inst) NewNode(string, *parser.Token) error { return nil }
func (i inst) HandleNode(string, any) error        { return nil }
func (i inst) HandleToken(t *parser.Token) error   { *i.got = append(*i.got, t); return nil }
func (i inst) EndNode() (any, error)               { return i, nil }

// H_Emit: a hook adds a token of any type.
//
//zz:bounds three grammars; a hook of the user or of any of two layers adds a token of any type in -8..20, alone or after a right one, instead of the k-th token of a text of 0..3 letters, or after it
func H_Emit() {
	k := sym.Choice("grammar", 3)
	p, ds := ps[k], defs(gs[k])
	tt := sym.Concrete(sym.IntRange("type", -8, 20))
	em := &emitter{at: sym.Choice("at", 4), drop: sym.Choice("drop", 2) == 1, two: sym.Choice("two", 2) == 1}
	em.tok = lexer.NewToken(tt, "any", []byte("a"), source.NewPos(nil, 0))
	var e error
	em.good, e = p.MakeToken("t", []byte("c"))
	if e != nil {
		panic(e)
	}
	hooks := parser.TokenHooks{parser.AnyToken: em.hook, parser.EofToken: em.hook, parser.EoiToken: em.hook}
	u := &upper{}
	up := parser.TokenHooks{parser.AnyToken: u.hook, parser.EofToken: u.hook, parser.EoiToken: u.hook}
	var nodes []*parser.Token
	var pcs []*parser.ParseContext
	nh := func(_ context.Context, _ string, _ *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
		pcs = append(pcs, nc.ParseContext())
		return inst{&nodes}, nil
	}
	user := parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: nh}}
	layers = [2]parser.Hooks{}
	where := sym.Choice("where", 3)
	switch where {
	case 0:
		user.Tokens = hooks
	case 1:
		layers[1].Tokens = hooks
		user.Tokens = up
	case 2:
		layers[0].Tokens = hooks
		layers[1].Tokens = up
	}
	// with side tokens a node hook gets whatever is emitted
	txt := sym.StringOf("s", sym.Choice("len", 4), "ab")
	res, e := p.Parse(context.Background(), source.NewQueue().Append(source.New("", []byte(txt))), user, parser.WithSides())
	for _, pc := range append(em.pc, pcs...) {
		sym.Assert(pc == pcs[0] && pc.Parser() == p, "one context for all hooks")
	}
	le, is := e.(*llx.Error)
	wrong := is && le.Code == parser.EmitWrongTokenError
	bad := em.added && !usable(ds, tt)
	sym.Assert(wrong == bad, "a token of a wrong type is reported")
	for _, t := range nodes {
		sym.Assert(!bad || t != em.tok, "a token of a wrong type is used")
	}
	for _, t := range u.got {
		sym.Assert(!bad || t != em.tok, "a token of a wrong type is passed on")
	}
	if bad {
		sym.Assert(res == nil && em.after == 0, "parsing goes on after a wrong token")
	} else if where != 0 && em.added && e == nil {
		n := 0
		for _, t := range u.got {
			if t == em.tok {
				n++
			}
		}
		// what follows the end of input may stay unread
		sym.Assert(n == 1 || n == 0 && (tt == lexer.EoiTokenType || em.on == lexer.EoiTokenType), "an added token is passed on once")
	}
}

type template struct {
	no  int
	log *[]int
}

func (t *template) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	*t.log = append(*t.log, t.no)
	return &layer{&parser.Hooks{}}, nil
}

// layerName is the name of a layer known to the grammar or any other one.
func layerName(what string, text string) string {
	switch k := sym.Choice(what, 4); k {
	case 0:
		return "one"
	case 1:
		return "two"
	default:
		return sym.StringOf(what+"s", k, text)
	}
}

// H_Register: templates registered in any order, used or overridden.
//
//zz:bounds up to 3 (thorough 4) registrations under names "one", "two", any of 2..3 letters over {o,n,e,t,w}; a grammar with layers one, two, one; any of them overridden by an option or not
func H_Register() {
	var log []int
	known := map[string]int{}
	n := sym.Choice("n", sym.N(4, 5))
	for i := 1; i <= n; i++ {
		name := layerName("name", "onetw")
		e := parser.RegisterHookLayer(name, &template{i, &log})
		_, has := known[name]
		if has {
			le, is := e.(*llx.Error)
			sym.Assert(is && le.Code == parser.LayerRegisteredError, "a name is registered twice")
		} else {
			sym.Assert(e == nil, "a new name is registered")
			known[name] = i
		}
	}
	over := map[string]parser.HookLayerTemplate{"three": &template{12, &log}}
	names := []string{"one", "two", "one"}
	find := func(name string, i int) int {
		if sym.Bool("over" + name) {
			over[name] = &template{10 + i, &log}
			return 10 + i
		}
		return known[name]
	}
	one, two := find("one", 0), find("two", 1)
	want := []int{one, two, one}
	g, e := langdef.ParseString("", "$t = /[ab]/; g = {$t}; @one; @two x(a); @one y();")
	if e != nil {
		panic(e)
	}
	var opts []parser.Option
	if len(over) > 1 || sym.Choice("option", 2) == 1 {
		opts = append(opts, parser.WithLayerTemplates(over))
	}
	p, e := parser.New(g, opts...)
	for i, no := range want {
		if no == 0 {
			le, is := e.(*llx.Error)
			sym.Assert(p == nil && is && le.Code == parser.UnknownLayerError, "unknown layer "+names[i])
			sym.Assert(len(log) == i, "layers before the unknown one are set up")
			return
		}
		sym.Assert(i < len(log) && log[i] == no, "the template of a layer")
	}
	sym.Assert(p != nil && e == nil && len(log) == 3, "every layer is set up once")
}

// H_Concurrent: templates are registered while parsers are made.
//
//zz:bounds two registrations under names "one", "two", any of 2 letters over {o,n,e}, and a parser for a grammar with layers one, two, made at the same time (thorough: one more registration); all orders, any thread may run whole where another one is about to take a lock; data accessed without a common lock
func H_Concurrent() {
	g, e := langdef.ParseString("", "$t = /[ab]/; g = {$t}; @one; @two x(a); @one y();")
	if e != nil {
		panic(e)
	}
	n := sym.N(2, 3)
	var (
		log   []int
		names []string
		errs  = make([]error, n)
		fs    []func()
		p     *parser.Parser
		pe    error
	)
	for i := 0; i < n; i++ {
		var name string
		switch sym.Choice("name", 3) {
		case 0:
			name = "one"
		case 1:
			name = "two"
		default:
			name = sym.StringOf("names", 2, "one")
		}
		names = append(names, name)
		fs = append(fs, func() { errs[i] = parser.RegisterHookLayer(name, &template{i, &log}) })
	}
	fs = append(fs, func() { p, pe = parser.New(g) })
	sym.Schedule(fs...)

	// one registration of every name succeeds
	won := map[string]int{}
	for i, e := range errs {
		if e == nil {
			_, has := won[names[i]]
			sym.Assert(!has, "a name is registered once")
			won[names[i]] = i
		}
	}
	for i, e := range errs {
		_, has := won[names[i]]
		sym.Assert(has, "a name is registered")
		if e != nil {
			le, is := e.(*llx.Error)
			sym.Assert(is && le.Code == parser.LayerRegisteredError, "a name is registered twice")
		}
	}
	check := func(log []int) {
		for i, name := range []string{"one", "two", "one"} {
			if i < len(log) {
				no, has := won[name]
				sym.Assert(has && no == log[i], "the template that was registered")
			}
		}
	}
	check(log)
	if pe != nil {
		le, is := pe.(*llx.Error)
		sym.Assert(p == nil && is && le.Code == parser.UnknownLayerError, "unknown layer")
	} else {
		sym.Assert(p != nil && len(log) == 3, "every layer is set up once")
	}
	// and they stay
	log = nil
	p, pe = parser.New(g)
	_, one := won["one"]
	_, two := won["two"]
	sym.Assert((pe == nil) == (one && two) && (p != nil) == (pe == nil), "layers that are registered")
	check(log)
}
