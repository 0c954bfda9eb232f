// Package c20: the convert and restrict layers.
package c20

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	_ "github.com/ava12/llx/parser/layers/convert"
	_ "github.com/ava12/llx/parser/layers/restrict"
	"github.com/ava12/llx/source"
)

// command is a command of a layer definition.
type command struct {
	name string
	args []string
}

func (c command) String() string {
	var a []string
	for _, x := range c.args {
		a = append(a, "'"+x+"'")
	}
	return c.name + "(" + strings.Join(a, ",") + ")"
}

func define(layer string, cs []command) string {
	r := "@" + layer
	for _, c := range cs {
		r += " " + c.String()
	}
	return r + ";"
}

// reject checks an error of settings.
func reject(e error, codes []int) {
	sym.Assert(e != nil, "wrong settings are reported")
	var le *llx.Error
	sym.Assert(errors.As(e, &le), "llx error")
	sym.Assert(!strings.Contains(le.Error(), "%!"), "complete error message")
	for _, c := range codes {
		if c == le.Code {
			return
		}
	}
	sym.Fail(fmt.Sprint("error code for wrong settings: ", le.Code))
}

type tok struct {
	name, text string
	pos        int // -1 if none
}

// conv is what a convert layer must do.
type conv struct {
	in, out string
	save    bool
	from    []string
	to      []string
	codes   []int // what is wrong
}

const tokenNames = "w d s x"

func hasWord(list, s string) bool {
	for _, x := range strings.Fields(list) {
		if x == s {
			return true
		}
	}
	return false
}

func converter(cs []command) (c conv) {
	bad := func(code int) { c.codes = append(c.codes, code) }
	for _, x := range cs {
		switch x.name {
		case "convert":
			if len(x.args) == 0 || len(x.args)%2 != 0 {
				bad(common.NumberOfArgumentsError)
			}
			for i := 0; i+1 < len(x.args); i += 2 {
				for _, f := range c.from {
					if f == x.args[i] {
						bad(common.InvalidArgumentError)
					}
				}
				c.from = append(c.from, x.args[i])
				c.to = append(c.to, x.args[i+1])
			}
		case "input-type", "output-type":
			if len(x.args) != 1 {
				bad(common.NumberOfArgumentsError)
				break
			}
			if !hasWord(tokenNames, x.args[0]) {
				bad(common.UnknownTokenTypeError)
			}
			t := &c.in
			if x.name == "output-type" {
				t = &c.out
			}
			if *t != "" {
				bad(common.CommandAlreadyUsedError)
			}
			*t = x.args[0]
		case "save-position":
			if len(x.args) != 0 {
				bad(common.NumberOfArgumentsError)
			}
			c.save = true
		default:
			bad(common.UnknownCommandError)
		}
	}
	if len(c.from) == 0 {
		bad(common.MissingCommandError)
	}
	return
}

func (c *conv) apply(l []tok) (r []tok) {
	for _, t := range l {
		if c.in == "" || c.in == t.name {
			for i, f := range c.from {
				if f == t.text {
					t.text = c.to[i]
					if c.out != "" {
						t.name = c.out
					}
					if !c.save {
						t.pos = -1
					}
					break
				}
			}
		}
		r = append(r, t)
	}
	return
}

// split is the lexer: words of letters, digits, spaces.
func split(text string) (l []tok) {
	for p := 0; p < len(text); {
		e := p + 1
		name := "d"
		switch text[p] {
		case ' ':
			name = "s"
		case 'a', 'b':
			name = "w"
			for e < len(text) && (text[e] == 'a' || text[e] == 'b') {
				e++
			}
		}
		l = append(l, tok{name, text[p:e], p})
		p = e
	}
	return
}

const plain = "$w=/[a-b]+/; $d=/[0-9]/; $s=/ /; !side $s; !extern $x; !error $q; $q=/!/; g={$w|$d|$x}; "

func tokens(p *parser.Parser, text string) (got []tok, e error) {
	hs := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		x := tok{t.TypeName(), t.Text(), -1}
		if t.Source() != nil {
			x.pos = t.Pos().Pos()
		}
		tt, ok := p.TokenType(x.name)
		sym.Assert(ok && tt == t.Type(), "type and type name agree")
		got = append(got, x)
		return true, nil, nil
	}}}
	q := source.NewQueue().Append(source.New("name", []byte(text)))
	_, e = p.Parse(context.Background(), q, hs, parser.WithFullSource())
	return
}

func same(got, want []tok) {
	sym.Assert(len(got) == len(want), "number of tokens")
	for i := range got {
		sym.Assert(got[i] == want[i], "tokens are as configured")
	}
}

var convCommands = []command{
	{"convert", []string{"a", "b"}},
	{"convert", []string{"b", "a", "1", "2"}},
	{"convert", []string{"a", "", "ab", "a", " ", "x"}},
	{"convert", []string{"ba"}},
	{"convert", nil},
	{"convert", []string{"a", "b", "a"}},
	{"input-type", []string{"w"}},
	{"input-type", []string{"s"}},
	{"input-type", []string{"z"}},
	{"input-type", []string{"w", "d"}},
	{"input-type", []string{"q"}},
	{"output-type", []string{"d"}},
	{"output-type", []string{"x"}},
	{"output-type", nil},
	{"save-position", nil},
	{"save-position", []string{"a"}},
	{"save-positions", nil},
	{"Convert", []string{"a", "b"}},
}

// H_Convert: settings and the effect of the convert layer.
//
//zz:bounds any 0..3 of 18 commands in any order (wrong numbers of arguments, types, names included); text of 0..3 (thorough 4) bytes over {a,b,1,space} when the settings are right
func H_Convert() {
	var cs []command
	n := sym.Choice("commands", 4)
	for i := 0; i < n; i++ {
		cs = append(cs, convCommands[sym.Choice("command", len(convCommands))])
	}
	want := converter(cs)
	g, e := langdef.ParseString("", plain+define("convert", cs))
	sym.Assert(e == nil, "grammar")
	p, e := parser.New(g)
	if len(want.codes) > 0 {
		reject(e, want.codes)
		return
	}
	sym.Assert(e == nil, "right settings are accepted")
	text := sym.StringOf("text", sym.Choice("n", sym.N(4, 5)), "ab1 ")
	got, e := tokens(p, text)
	sym.Assert(e == nil, "parsed")
	same(got, want.apply(split(text)))
}

var chains = [][][]command{
	{{{"convert", []string{"a", "b"}}}, {{"convert", []string{"b", "a"}}}},
	{{{"convert", []string{"a", "1"}}, {"output-type", []string{"d"}}}, {{"input-type", []string{"d"}}, {"convert", []string{"1", "2"}}, {"save-position", nil}}},
	{{{"convert", []string{"a", "1"}}, {"input-type", []string{"w"}}, {"save-position", nil}}, {{"convert", []string{"1", "z", "b", "c"}}, {"input-type", []string{"w"}}, {"output-type", []string{"x"}}}},
	{{{"convert", []string{"1", " "}}, {"output-type", []string{"s"}}, {"save-position", nil}}, {{"convert", []string{" ", "b"}}, {"output-type", []string{"w"}}, {"save-position", nil}}},
	{{{"convert", []string{"b", "b"}}}, {{"convert", []string{"ab", "ba"}}, {"save-position", nil}}, {{"convert", []string{"ba", "ab"}}, {"output-type", []string{"x"}}}},
}

var chainParsers []*parser.Parser

func Setup_Chain() {
	chainParsers = nil
	for _, c := range chains {
		text := plain
		for _, cs := range c {
			text += define("convert", cs)
		}
		g, e := langdef.ParseString("", text)
		if e != nil {
			panic(e)
		}
		p, e := parser.New(g)
		if e != nil {
			panic(e)
		}
		chainParsers = append(chainParsers, p)
	}
}

// H_Chain: convert layers one after another.
//
//zz:bounds 5 chains of 2 or 3 layers; text of 0..5 (thorough 6) bytes over {a,b,1,space}
func H_Chain() {
	i := sym.Choice("chain", len(chains))
	text := sym.StringOf("text", sym.Choice("n", sym.N(6, 7)), "ab1 ")
	want := split(text)
	for _, cs := range chains[i] {
		c := converter(cs)
		want = c.apply(want)
	}
	got, e := tokens(chainParsers[i], text)
	sym.Assert(e == nil, "parsed")
	same(got, want)
}

// H_Broken: errors go through the layer unchanged.
//
//zz:bounds text of 1..4 bytes over {a,!,?,space} with an error token or a wrong character
func H_Broken() {
	g, e := langdef.ParseString("", plain+define("convert", []command{{"convert", []string{"!", "a", "?", "b"}}}))
	sym.Assert(e == nil, "grammar")
	p, e := parser.New(g)
	sym.Assert(e == nil, "parser")
	text := sym.StringOf("text", 1+sym.Choice("n", 4), "a!? ")
	at := strings.IndexAny(text, "!?")
	_, e = tokens(p, text)
	if at < 0 {
		sym.Assert(e == nil, "parsed")
		return
	}
	var le *llx.Error
	sym.Assert(errors.As(e, &le) && le.Line == 1 && le.Col == at+1, "lexical errors are located")
}
