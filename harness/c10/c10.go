// Package c10: syntax trees are lossless, node events are well bracketed.
package c10

import (
	"context"

	"github.com/ava12/llx/grammar"
	gr "github.com/ava12/llx/internal/zzverif/zzgram"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

const tokens = "$sp = /[ \\n]+/; $t = /[a-z]/; $d = /[0-9]/; !side $sp; "

type subject struct {
	p   *parser.Parser
	err error
}

func build(text string) subject {
	gg, e := langdef.ParseString("", text)
	if e != nil {
		return subject{nil, e}
	}
	p, e := parser.New(gg)
	return subject{p, e}
}

var flat, nodes, special []subject

func Setup_Flat() {
	i := 0
	for k := 1; k <= 3; k++ {
		for _, s := range gr.Shapes(k) {
			for _, l := range gr.Labels(k) {
				if i++; k < 3 || i%sym.N(40, 5) == 0 {
					flat = append(flat, build(gr.NewGram(gr.Label(s, l)).Text(tokens)))
				}
			}
		}
	}
}

func Setup_Nodes() {
	r := gr.Rand(5)
	for n := sym.N(250, 1500); len(nodes) < n; {
		if g := gr.RandomNodes(&r); g.Used() {
			nodes = append(nodes, build(g.Text(tokens)))
		}
	}
}

// rec checks every call of a node hook when it is made.
type rec struct {
	stack  []*inst // open nodes
	next   *inst   // announced by NewNode
	ended  *inst   // ended, not yet given to its parent
	leaves []*parser.Token
	out    []string // brackets and tokens
}

type inst struct {
	r     *rec
	name  string
	tok   *parser.Token
	first int // leaves before it
}

func (r *rec) top(i *inst, what string) {
	sym.Assert(r.next == nil, what+" between the announcement of a node and its creation")
	sym.Assert(len(r.stack) > 0 && r.stack[len(r.stack)-1] == i, what+" for a node that is not the innermost open one")
}

func (r *rec) hook(_ context.Context, name string, tok *parser.Token, nc *parser.NodeContext) (parser.NodeHookInstance, error) {
	sym.Assert(r.ended == nil, "a finished node is given to its parent at once")
	i := &inst{r, name, tok, len(r.leaves)}
	if len(r.stack) == 0 {
		sym.Assert(r.next == nil && len(r.out) == 0, "one root")
	} else {
		sym.Assert(r.next != nil && r.next.name == name && r.next.tok == tok, "a node is created as announced")
		sym.Assert(tok != nil, "initial token")
		r.next = nil
	}
	st := nc.NodeStack()
	sym.Assert(len(st) == len(r.stack), "depth of the node stack")
	for k := range st {
		sym.Assert(st[k] == r.stack[len(st)-1-k].name, "names on the node stack")
	}
	r.stack = append(r.stack, i)
	r.out = append(r.out, "("+name)
	return i, nil
}

func (i *inst) NewNode(name string, tok *parser.Token) error {
	i.r.top(i, "NewNode")
	sym.Assert(i.r.ended == nil, "a finished node is given to its parent at once")
	i.r.next = &inst{name: name, tok: tok}
	return nil
}

func (i *inst) HandleToken(t *parser.Token) error {
	i.r.top(i, "HandleToken")
	sym.Assert(i.r.ended == nil, "a finished node is given to its parent at once")
	i.r.leaves = append(i.r.leaves, t)
	i.r.out = append(i.r.out, t.Text())
	return nil
}

func (i *inst) EndNode() (any, error) {
	i.r.top(i, "EndNode")
	sym.Assert(i.r.ended == nil, "a finished node is given to its parent at once")
	i.r.ended = i
	i.r.stack = i.r.stack[:len(i.r.stack)-1]
	i.r.out = append(i.r.out, ")")
	return i, nil
}

func (i *inst) HandleNode(name string, res any) error {
	i.r.top(i, "HandleNode")
	c := i.r.ended
	sym.Assert(c != nil && res == any(c) && c.name == name, "the parent receives the finished node")
	i.r.ended = nil
	for k := c.first; k < len(i.r.leaves); k++ {
		if i.r.leaves[k].TypeName() != "sp" {
			sym.Assert(c.tok == i.r.leaves[k], "a node starts with its initial token")
			break
		}
	}
	return nil
}

// flatten lists the same brackets and tokens for a tree.
func flatten(e tree.Element, parent tree.Element, out []string) []string {
	if parent == nil {
		sym.Assert(e.Parent() == nil, "root")
	} else {
		sym.Assert(tree.Element(e.Parent()) == parent, "parent link")
	}
	if !e.IsNode() {
		return append(out, e.Token().Text())
	}
	out = append(out, "("+e.TypeName())
	var prev tree.Element
	for c := e.(tree.NodeElement).FirstChild(); c != nil; c = c.Next() {
		sym.Assert(c.Prev() == prev, "previous link")
		prev = c
		out = flatten(c, e, out)
	}
	sym.Assert(e.(tree.NodeElement).LastChild() == prev, "last child")
	return append(out, ")")
}

func check(s subject, text string) {
	if s.err != nil {
		return
	}
	sides, full := sym.Choice("sides", 2) == 1, sym.Choice("full", 2) == 1
	var opts []parser.ParseOption
	if sides {
		opts = append(opts, parser.WithSides())
	}
	if full {
		opts = append(opts, parser.WithFullSource())
	}
	src := source.New("src", []byte(text))
	r := &rec{}
	q := source.NewQueue().Append(src)
	res, e := s.p.Parse(context.Background(), q, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: r.hook}}, opts...)
	if e != nil {
		sym.Assert(res == nil, "no result with an error")
		return
	}
	sym.Assert(len(r.stack) == 0 && r.next == nil && r.ended != nil && res == any(r.ended), "the result is the root")
	sym.Assert(r.ended.name == "g", "root name")
	rest := ""
	for _, t := range r.leaves {
		if t.Type() == lexer.EoiTokenType {
			continue
		}
		sym.Assert(t.Source() == src, "token of the source")
		sym.Assert(text[t.Pos().Pos():t.Pos().Pos()+len(t.Text())] == t.Text(), "token is at its place")
	}

	// consumed text: all of it, or up to some place when the parse may stop early
	p := 0
	eoi := false
	for _, t := range r.leaves {
		sym.Assert(!eoi, "end of input is the last token")
		if t.Type() == lexer.EoiTokenType {
			eoi = true
			continue
		}
		for !sides && p < len(text) && (text[p] == ' ' || text[p] == '\n') {
			p++
		}
		sym.Assert(t.Pos().Pos() == p, "tokens follow one another")
		p += len(t.Text())
	}
	rest = text[p:]
	// the root may end before the text does: then only side tokens can follow
	for k := 0; full && k < len(rest); k++ {
		sym.Assert(rest[k] == ' ' || rest[k] == '\n', "every token of the source is in the tree")
		sym.Assert(!sides || !eoi, "side tokens before the end of input are in the tree")
	}

	root, e := s.p.Parse(context.Background(), source.NewQueue().Append(src), parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}, opts...)
	sym.Assert(e == nil, "same parse with the tree hook")
	out := flatten(root.(tree.Element), nil, nil)
	sym.Assert(len(out) == len(r.out), "tree and events")
	for i := range out {
		sym.Assert(out[i] == r.out[i], "tree and events")
	}
}

// H_Flat: one node, small grammars.
//
//zz:bounds all 111 grammars of 1..2 tokens and every 40th (thorough 5th) of 8910 of 3 tokens, also ambiguous ones; texts of 0..4 letters over {a,b,space}; with and without side tokens, whole and partial
func H_Flat() {
	s := flat[sym.Choice("g", len(flat))]
	check(s, sym.StringOf("c", sym.Choice("len", 5), "ab "))
}

// H_Nodes: nested nodes.
//
//zz:bounds 250 (thorough 1500) grammars of 2..3 nodes, also ambiguous and recursive ones; texts of 0..4 (thorough 5) letters over {a,b,space}; with and without side tokens, whole and partial
func H_Nodes() {
	s := nodes[sym.Choice("g", len(nodes))]
	check(s, sym.StringOf("c", sym.Choice("len", sym.N(5, 6)), "ab "))
}

func Setup_Special() {
	T, R, S, A, O, M := gr.T, gr.R, gr.S, gr.A, gr.O, gr.M
	a, b, c, x := T('a'), T('b'), T('c'), T('x')
	for _, g := range []*gr.Gram{
		gr.NewGram(A(S(a, b, c, a), S(a, b, c, b), S(a, b, c, c))),
		gr.NewGram(S(M(A(S(a, b), S(a, c))), a, x)),
		gr.NewGram(A(R("h"), R("i"), R("k")), "h", S(a, b, c), "i", S(a, b, x), "k", S(a, b, M(a))),
		gr.NewGram(S(M(R("h")), M(R("i"))), "h", S(a, b), "i", S(a, c)),
		gr.NewGram(R("h"), "h", S(a, O(R("h")), b)),
		gr.NewGram(R("h"), "h", S(R("i"), M(c, R("i"))), "i", A(a, S(b, R("h"), x))),
		gr.NewGram(A(S(a, R("g"), b), S(a, R("g"), c), x)),
		gr.NewGram(R("h"), "h", A(S(a, R("i")), b), "i", A(S(a, R("h")), c)),
		gr.NewGram(S(R("h"), T('$')), "h", S(a, O(b))),
		gr.NewGram(S(M(R("h")), T('$')), "h", S(a, b)),
		gr.NewGram(S(R("h"), M(a, R("h"))), "h", S(T('0'), M(T('0')))),
	} {
		special = append(special, build(g.Text(tokens)))
	}
}

// H_Special: chosen grammars with lookahead and recursion.
//
//zz:bounds 11 grammars; texts of 0..5 (thorough 6) letters over {a,b,c,x,1,space}; with and without side tokens, whole and partial
func H_Special() {
	s := special[sym.Choice("g", len(special))]
	check(s, sym.StringOf("c", sym.Choice("len", sym.N(6, 7)), "abcx1 "))
}

var hooked subject

func Setup_Hooked() {
	hooked.p, hooked.err = nil, nil
	gg, e := langdef.ParseString("", tokens+"g = h, {k | h}; h = 'a', (i | 'b', k); i = 'c', [k]; k = 'x' | i; @one; @two;")
	if e != nil {
		panic(e)
	}
	hooked.p, e = parser.New(gg, parser.WithLayerTemplates(map[string]parser.HookLayerTemplate{"one": &layer{n: 0}, "two": &layer{n: 1}}))
	if e != nil {
		panic(e)
	}
}

// layer is a hook layer with node hooks for some of the nodes.
type layer struct{ n int }

func (l *layer) Setup([]grammar.LayerCommand, *parser.Parser) (parser.HookLayer, error) {
	return l, nil
}

func (l *layer) Init(context.Context, *parser.ParseContext) parser.Hooks {
	if layers[l.n] == nil {
		return parser.Hooks{}
	}
	return layers[l.n].hooks()
}

var layers [2]*some // hooks of the two layers in the present run

// some has hooks for some of the nodes; it takes down the events of each of these.
type some struct {
	names []string
	none  string // hooks give no instance for a node of this name
	log   []string
	count int
	nodes []*named // in order of creation
}

type named struct {
	s    *some
	name string
	log  []string
	id   string
}

func (s *some) hooks() parser.Hooks {
	nh := parser.NodeHooks{}
	for _, n := range s.names {
		nh[n] = func(_ context.Context, name string, tok *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
			if name == s.none {
				return nil, nil
			}
			id := name + string(rune('0'+len(s.nodes)))
			r := &named{s: s, name: name, id: id}
			s.nodes = append(s.nodes, r)
			return r, nil
		}
	}
	return parser.Hooks{Nodes: nh}
}

func (n *named) NewNode(name string, tok *parser.Token) error {
	n.log = append(n.log, "new "+name+" "+tok.Text())
	return nil
}

func (n *named) HandleToken(tok *parser.Token) error {
	n.log = append(n.log, "token "+tok.Text())
	return nil
}

func (n *named) HandleNode(name string, res any) error {
	id := "nil"
	if res != nil {
		id = res.(string)
	}
	n.log = append(n.log, "node "+name+" "+id)
	return nil
}

func (n *named) EndNode() (any, error) {
	n.log = append(n.log, "end")
	return n.id, nil
}

// expect replays the tree for hooks of the given names; the result is that of
// the element, or of the last hooked element inside one that is not hooked.
func expect(e tree.Element, names []string, none string, out *[]*named) any {
	var n *named
	for _, x := range names {
		if e.TypeName() == none {
			break
		}
		if e.TypeName() == x || x == parser.AnyNode {
			n = &named{name: e.TypeName(), id: e.TypeName() + string(rune('0'+len(*out)))}
			*out = append(*out, n)
			break
		}
	}
	var last any
	for c := e.(tree.NodeElement).FirstChild(); c != nil; c = c.Next() {
		if !c.IsNode() {
			if n != nil {
				n.HandleToken(c.Token())
			}
			continue
		}
		if n != nil {
			n.NewNode(c.TypeName(), c.Token())
		}
		r := expect(c, names, none, out)
		if n != nil {
			n.HandleNode(c.TypeName(), r)
		} else if r != nil {
			last = r
		}
	}
	if n != nil {
		last, _ = n.EndNode()
	}
	return last
}

// H_Hooked: hooks for some of the nodes only, by the user and by layers.
//
//zz:bounds one grammar of 4 nodes, some recursive; any subset of node hooks given by the user, by one layer or by two layers, or hooks for any node beside one for a name, or three sets one of which gives no instance for a name; texts of 2..5 (thorough 6) letters over {a,b,c,x}, with side tokens also over space
func H_Hooked() {
	pick := func(n string) *some {
		s := &some{}
		bits := sym.Choice(n, 17)
		if bits == 16 {
			s.names = []string{"i", parser.AnyNode}
		} else {
			for k, x := range []string{"g", "h", "i", "k"} {
				if bits>>k&1 == 1 {
					s.names = append(s.names, x)
				}
			}
		}
		return s
	}
	user := &some{}
	layers[0], layers[1] = nil, nil
	sets := []*some{user}
	switch sym.Choice("who", 4) {
	case 0:
		user = pick("user")
		sets = []*some{user}
	case 1:
		layers[sym.Choice("layer", 2)] = pick("one")
	case 2: // all three
		layers[0], layers[1] = &some{names: []string{"g", "i"}}, &some{names: []string{"k"}}
		user = &some{names: []string{"h", "k"}}
		sets = []*some{user}
	case 3: // hooks of one of three give no instance for one name
		layers[0], layers[1] = &some{names: []string{"g", "i"}}, &some{names: []string{"h", parser.AnyNode}}
		user = &some{names: []string{parser.AnyNode}}
		sets = []*some{user}
		[]*some{layers[0], layers[1], user}[sym.Choice("silent", 3)].none = []string{"g", "h", "i", "k"}[sym.Choice("none", 4)]
	}
	for _, l := range layers {
		if l != nil {
			sets = append(sets, l)
		}
	}
	letters, opts := "abcx", []parser.ParseOption{parser.WithFullSource()}
	if sym.Choice("sides", 2) == 1 {
		letters, opts = "abcx ", append(opts, parser.WithSides())
	}
	text := sym.StringOf("c", sym.IntRange("len", 2, sym.N(5, 6)), letters)
	saved := layers
	layers = [2]*some{}
	root, e := hooked.p.ParseString(context.Background(), "", text, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}, opts...)
	layers = saved
	res, e2 := hooked.p.ParseString(context.Background(), "", text, user.hooks(), opts...)
	sym.Assert((e == nil) == (e2 == nil), "hooks do not change what is accepted")
	if e != nil {
		return
	}
	for i, s := range sets {
		var want []*named
		r := expect(root.(tree.Element), s.names, s.none, &want)
		sym.Assert(len(want) == len(s.nodes), "one instance for each hooked node")
		for k, n := range s.nodes {
			sym.Assert(n.id == want[k].id, "hooked nodes in order")
			sym.Assert(len(n.log) == len(want[k].log), "events of a hooked node")
			for x := range n.log {
				if s.none == "" || n.log[x][:3] != "nod" {
					sym.Assert(n.log[x] == want[k].log[x], "events of a hooked node, results of nested ones")
				}
			}
		}
		if i == 0 && len(s.names) > 0 && s.none == "" {
			sym.Assert(res == r, "result of the parse")
		}
	}
	if len(user.names) == 0 {
		sym.Assert(res == nil, "no result without node hooks of the user")
	}
}

var foreign int

// other is a hook instance with a result of its own.
type other struct{ node tree.NodeElement }

func (o *other) NewNode(string, *parser.Token) error { return nil }
func (o *other) HandleNode(string, any) error        { return nil }
func (o *other) HandleToken(*parser.Token) error     { return nil }
func (o *other) EndNode() (any, error) {
	switch foreign {
	case 0:
		return o.node, nil
	case 1:
		return "text", nil
	}
	return nil, nil
}

// H_Foreign: a node hook of the tree beside one that gives something else.
//
//zz:bounds the grammar of H_Hooked, hooks of a tree for any node and another one for one of four nodes; texts of 2..5 letters over {a,b,c,x}
func H_Foreign() {
	layers = [2]*some{}
	foreign = sym.Choice("result", 3)
	name := []string{"g", "h", "i", "k"}[sym.Choice("node", 4)]
	var made []tree.NodeElement
	hs := parser.NodeHooks{parser.AnyNode: tree.NodeHook, name: func(_ context.Context, n string, tok *parser.Token, _ *parser.NodeContext) (parser.NodeHookInstance, error) {
		o := &other{tree.NewNodeElement(n, tok)}
		made = append(made, o.node)
		return o, nil
	}}
	text := sym.StringOf("c", sym.IntRange("len", 2, 5), "abcx")
	plain, e := hooked.p.ParseString(context.Background(), "", text, parser.Hooks{Nodes: parser.NodeHooks{parser.AnyNode: tree.NodeHook}}, parser.WithFullSource())
	made = nil
	res, e2 := hooked.p.ParseString(context.Background(), "", text, parser.Hooks{Nodes: hs}, parser.WithFullSource())
	if e != nil {
		sym.Assert(e2 != nil && res == nil, "wrong text")
		return
	}
	if name == "g" {
		sym.Assert(e2 == nil && len(made) == 1, "any result of the root")
		switch foreign {
		case 0:
			sym.Assert(res == any(made[0]), "result of the root")
		case 1:
			sym.Assert(res == any("text"), "result of the root")
		default:
			sym.Assert(res == nil, "result of the root")
		}
		return
	}
	// what the tree has without the other hook, outermost nodes of this name
	var want []tree.Element
	var walk func(el tree.Element)
	walk = func(el tree.Element) {
		for _, c := range tree.Children(el) {
			if c.TypeName() == name && c.IsNode() {
				want = append(want, c)
			} else {
				walk(c)
			}
		}
	}
	walk(plain.(tree.Element))
	if foreign != 0 && len(want) > 0 {
		sym.Assert(e2 != nil && res == nil, "a node that is not an element is reported")
		return
	}
	sym.Assert(e2 == nil, "other hooks may be used")
	var got []tree.Element
	root := res.(tree.Element)
	want2 := want
	want = nil
	walk(root)
	got = want
	sym.Assert(len(got) == len(want2), "elements of the other hook are in the tree")
	for i, el := range got {
		in := false
		for _, m := range made {
			in = in || el == tree.Element(m)
		}
		sym.Assert(in && el.TypeName() == name && el.Token().Text() == want2[i].Token().Text() && el.Token().Pos().Pos() == want2[i].Token().Pos().Pos(), "an element of the other hook")
		sym.Assert(el.(tree.NodeElement).FirstChild() == nil, "tokens of the other hook are its own")
	}
}

// Setup_Foreign uses the grammar of H_Hooked.
func Setup_Foreign() { Setup_Hooked() }
