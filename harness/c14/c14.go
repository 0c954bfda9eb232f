// Package c14: token hooks.
package c14

import (
	"context"

	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

const (
	defs = "!side $sp; !extern $x; $sp = /[ ]/; $t = /[a-c]/; $d = /[0-9]/; $n = /[z]/; "
	// takes any stream token by token
	plain = defs + "g = {$t | $d | $x | $n | 'b'}; @one; @two;"
	// must look ahead up to three tokens; type n does not match literals
	ahead = defs + "!literal $t $d; g = {($t, $t, $d) | ($t, $t, 'a') | ($t, $x) | $n | $x | $d}; @one; @two;"
)

// item is a token in the model.
type item struct {
	name, text string
	pos        int // in the source, -1 if made by a hook
}

// action says what a hook does.
type action struct {
	peek  int
	emit  bool
	extra []item
}

var (
	ex = item{"x", "q", -1}
	ea = item{"t", "a", -1}
	en = item{"n", "a", -1}
	es = item{"sp", " ", -1}
)

var actions = []action{
	{0, true, nil},
	{0, false, nil},
	{0, true, []item{ex}},
	{0, false, []item{ea}},
	{0, false, []item{ex, ea}},
	{0, true, []item{ea, en, es}},
	{1, true, nil},
	{3, false, []item{ex}},
	{2, true, []item{ex, ex}},
}

// hooked is a layer: keys and what the hooks do.
type hooked struct {
	literals, types []string
	act             action
	log             []string // key and token of each call, and what was peeked
}

func describe(name, text string, pos int) string {
	return name + " " + text + string(rune('0'+pos))
}

func (h *hooked) hook(key string) parser.TokenHook {
	return func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
		p := -1
		if t.Source() != nil {
			p = t.Pos().Pos()
		}
		h.log = append(h.log, key+": "+describe(t.TypeName(), t.Text(), p))
		for i := 0; i < h.act.peek; i++ {
			x, e := tc.PeekToken()
			if e != nil {
				h.log = append(h.log, "peek error")
				continue
			}
			p := -1
			if x.Source() != nil {
				p = x.Pos().Pos()
			}
			h.log = append(h.log, "peek "+describe(x.TypeName(), x.Text(), p))
		}
		var extra []*parser.Token
		for _, x := range h.act.extra {
			tok, e := tc.ParseContext().Parser().MakeToken(x.name, []byte(x.text))
			if e != nil {
				return false, nil, e
			}
			extra = append(extra, tok)
		}
		return h.act.emit, extra, nil
	}
}

func (h *hooked) hooks() parser.Hooks {
	r := parser.Hooks{Tokens: parser.TokenHooks{}, Literals: parser.TokenHooks{}}
	if h == nil {
		return r
	}
	for _, k := range h.literals {
		r.Literals[k] = h.hook("literal " + k)
	}
	for _, k := range h.types {
		r.Tokens[k] = h.hook("type " + k)
	}
	return r
}

// layer is the template and the configured layer.
type layer struct{ n int }

var layers [2]*hooked

func (l *layer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}
func (l *layer) Init(context.Context, *parser.ParseContext) parser.Hooks { return layers[l.n].hooks() }

// model is the reference pipeline: the lexer and the layers above it.
type model struct {
	text   string
	pos    int
	state  int // 0 text, 1 end of file is next, 2 end of input
	strict bool
	layers []*mlayer // from the lexer up
}

type mlayer struct {
	h     *hooked
	queue []item
	log   []string
}

func lex(c byte) string {
	switch {
	case c == ' ':
		return "sp"
	case c >= 'a' && c <= 'c':
		return "t"
	case c >= '0' && c <= '9':
		return "d"
	case c == 'z':
		return "n"
	}
	return ""
}

// fetch gives the token at a place.
func (m *model) fetch(pos, state int) (it item, npos, nstate int, ok bool) {
	if pos < len(m.text) {
		n := lex(m.text[pos])
		return item{n, m.text[pos : pos+1], pos}, pos + 1, state, n != ""
	}
	if state == 0 {
		return item{lexer.EofTokenName, "", pos}, pos, 2, true
	}
	return item{lexer.EoiTokenName, "", -1}, pos, 2, true
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// key is the hook of the layer that gets the token, "" if there is none.
func (m *model) key(h *hooked, it item) string {
	special := it.name == lexer.EofTokenName || it.name == lexer.EoiTokenName
	switch {
	case !special && has(h.literals, it.text) && !(m.strict && it.name != "t" && it.name != "d"):
		return "literal " + it.text
	case has(h.types, it.name):
		return "type " + it.name
	case !special && has(h.types, parser.AnyToken):
		return "type "
	}
	return ""
}

// pull gives the next token that leaves layer n (-1 is the lexer); ok is false for a lexical error.
func (m *model) pull(n int) (item, bool) {
	if n < 0 {
		it, p, s, ok := m.fetch(m.pos, m.state)
		if ok {
			m.pos, m.state = p, s
		}
		return it, ok
	}
	l := m.layers[n]
	for len(l.queue) == 0 {
		it, ok := m.pull(n - 1)
		if !ok {
			return it, false
		}
		k := m.key(l.h, it)
		if k == "" {
			return it, true
		}
		l.log = append(l.log, k+": "+describe(it.name, it.text, it.pos))
		var seen []item
		for u := n - 1; u >= 0; u-- {
			seen = append(seen, m.layers[u].queue...)
		}
		p, s := m.pos, m.state
		for i := 0; i < l.h.act.peek; i++ {
			if i < len(seen) {
				l.log = append(l.log, "peek "+describe(seen[i].name, seen[i].text, seen[i].pos))
				continue
			}
			x, np, ns, ok := m.fetch(p, s)
			if !ok {
				l.log = append(l.log, "peek error")
				continue
			}
			p, s = np, ns
			l.log = append(l.log, "peek "+describe(x.name, x.text, x.pos))
		}
		emit := l.h.act.emit
		l.queue = append(l.queue, l.h.act.extra...)
		if !emit && (it.name == lexer.EofTokenName || it.name == lexer.EoiTokenName) {
			// the end cannot be dropped, it comes after what the hook put before it
			l.queue = append(l.queue, it)
		}
		if emit {
			return it, true
		}
	}
	it := l.queue[0]
	l.queue = l.queue[1:]
	return it, true
}

// list records the tokens that the grammar gets.
type list struct{ l []string }

func (l *list) NewNode(string, *parser.Token) error { return nil }
func (l *list) HandleNode(string, any) error        { return nil }
func (l *list) EndNode() (any, error)               { return l, nil }
func (l *list) HandleToken(t *parser.Token) error {
	p := -1
	if t.Source() != nil {
		p = t.Pos().Pos()
	}
	l.l = append(l.l, describe(t.TypeName(), t.Text(), p))
	return nil
}

var plainParser, aheadParser *parser.Parser

func build(text string) *parser.Parser {
	gg, e := langdef.ParseString("", text)
	if e != nil {
		panic(e)
	}
	p, e := parser.New(gg, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": &layer{0}, "two": &layer{1}}))
	if e != nil {
		panic(e)
	}
	return p
}

func Setup() {
	plainParser, aheadParser = build(plain), build(ahead)
}

func check(p *parser.Parser, strict bool, text string, user *hooked) {
	m := &model{text: text, strict: strict}
	for _, h := range []*hooked{layers[0], layers[1], user} {
		if h != nil {
			m.layers = append(m.layers, &mlayer{h: h})
		}
	}
	var want []string
	bad := false
	for {
		it, ok := m.pull(len(m.layers) - 1)
		if !ok {
			bad = true
			break
		}
		if it.name == lexer.EoiTokenName {
			break
		}
		if it.name != lexer.EofTokenName {
			want = append(want, describe(it.name, it.text, it.pos))
		}
	}

	got := &list{}
	hs := user.hooks()
	hs.Nodes = parser.NodeHooks{"g": func(context.Context, string, *parser.Token, *parser.NodeContext) (parser.NodeHookInstance, error) {
		return got, nil
	}}
	q := source.NewQueue().Append(source.New("s", []byte(text)))
	_, e := p.Parse(context.Background(), q, hs, parser.WithSides(), parser.WithFullSource())
	if !strict {
		sym.Assert((e != nil) == bad, "the parse fails only for a wrong character")
	}
	same(got.l, want, e == nil, "token stream")
	for _, l := range m.layers {
		same(l.h.log, l.log, e == nil, "hook calls")
	}
}

// same compares lists; a failed parse may have seen a part of it only.
func same(got, want []string, whole bool, what string) {
	sym.Assert(len(got) == len(want) || !whole && len(got) < len(want), what+": number")
	for i := range got {
		sym.Assert(got[i] == want[i], what)
	}
}

var keys = []hooked{
	{literals: []string{"a"}},
	{types: []string{"t"}},
	{types: []string{parser.AnyToken}},
	{literals: []string{"a"}, types: []string{"t"}},
	{literals: []string{"b", "9"}, types: []string{parser.AnyToken}},
	{types: []string{"t", parser.AnyToken}},
	{literals: []string{"a", "z"}, types: []string{"t", "x", parser.AnyToken}},
	{types: []string{"sp"}},
	{types: []string{lexer.EofTokenName}},
	{types: []string{lexer.EoiTokenName, "d"}},
	{types: []string{lexer.EofTokenName, lexer.EoiTokenName, "n", "sp", parser.AnyToken}},
	{literals: []string{"", " ", "q"}},
}

func pick(n string) *hooked {
	h := keys[sym.Choice(n+"keys", len(keys))]
	h.act = actions[sym.Choice(n+"act", len(actions))]
	return &h
}

// H_One: hooks in one layer, given by the user or configured in the grammar.
//
//zz:bounds 12 sets of hooks (literals, types, any type, end of file, end of input), 9 actions (keep, drop, add up to 3 tokens, peek up to 3); texts of 0..3 (thorough 4) letters over {a,b,z,9,space,#}
func H_One() {
	layers = [2]*hooked{}
	h := pick("h")
	text := sym.StringOf("c", sym.Choice("len", sym.N(4, 5)), "abz9 #")
	if sym.Choice("user", 2) == 1 {
		check(plainParser, false, text, h)
	} else {
		layers[0] = h
		check(plainParser, false, text, nil)
	}
}

// H_Ahead: the parser looks ahead.
//
//zz:bounds 12 sets of hooks, 9 actions, one layer; texts of 0..4 letters over {a,b,z,9,space}
func H_Ahead() {
	layers = [2]*hooked{}
	h := pick("h")
	check(aheadParser, true, sym.StringOf("c", sym.Choice("len", 5), "abz9 "), h)
}

// H_Layers: hooks of two layers, and of the user.
//
//zz:bounds any two of 12 sets of hooks with any of 9 actions, in any two of three layers; texts of 0..1 (thorough 2) letters over {a,b,z,9,space}
func H_Layers() {
	layers = [2]*hooked{}
	a, b := pick("a"), pick("b")
	text := sym.StringOf("c", sym.Choice("len", sym.N(2, 3)), "abz9 ")
	switch sym.Choice("where", 3) {
	case 0:
		layers[0], layers[1] = a, b
		check(plainParser, false, text, nil)
	case 1:
		layers[0] = a
		check(plainParser, false, text, b)
	case 2:
		layers[1] = a
		check(plainParser, false, text, b)
	}
}

// H_Three: three layers, with lookahead.
//
//zz:bounds 6 combinations of hooks in three layers, 9 actions in the middle one; texts of 0..4 letters over {a,b,z,9,space}
func H_Three() {
	c := sym.Choice("case", 6)
	mk := func(k, a int) *hooked {
		h := keys[k]
		h.act = actions[a]
		return &h
	}
	act := sym.Choice("act", len(actions))
	text := sym.StringOf("c", sym.Choice("len", 5), "abz9 ")
	switch c {
	case 0:
		layers = [2]*hooked{mk(3, 5), mk(6, act)}
		check(plainParser, false, text, mk(2, 8))
	case 1:
		layers = [2]*hooked{mk(2, 2), mk(1, act)}
		check(plainParser, false, text, mk(4, 7))
	case 2:
		layers = [2]*hooked{mk(10, 8), mk(5, act)}
		check(aheadParser, true, text, mk(0, 6))
	case 3:
		layers = [2]*hooked{mk(0, 4), mk(2, act)}
		check(aheadParser, true, text, mk(6, 8))
	case 4:
		layers = [2]*hooked{mk(9, 2), mk(10, act)}
		check(plainParser, false, text, mk(11, 3))
	case 5:
		layers = [2]*hooked{mk(7, 5), mk(7, act)}
		check(aheadParser, true, text, mk(8, 7))
	}
}
