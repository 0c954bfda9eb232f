package c19

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

var space = def{name: "s", side: true, match: run1(" ")}

var models = []model{
	{ // reserved words
		text:     `$name=/[a-z]+/; $s=/ +/; !side $s; !reserved 'if' 'in' 'fi'; g={n|(k,n)}; k='if'|('fi','x'); n=$name;`,
		alphabet: "ifnx ",
		defs:     []def{{name: "name", match: run1("abcdefghijklmnopqrstuvwxyz")}, space},
		reserved: "if in fi ",
		states: [][]arc{
			{{"if", "name ", 1}, {"fi", "name ", 2}, {"", "name ", 0}},
			{{"", "name ", 0}},
			{{"x", "name ", 1}},
		},
		final: "0",
		n:     6,
	},
	{ // plain literals may be names where names are expected
		text:     `$name=/[a-z]+/; $s=/ +/; !side $s; g={('if',$name,'x')|$name};`,
		alphabet: "ifx ",
		defs:     []def{{name: "name", match: run1("abcdefghijklmnopqrstuvwxyz")}, space},
		states: [][]arc{
			{{"if", "name ", 1}, {"", "name ", 0}},
			{{"", "name ", 2}},
			{{"x", "name ", 0}},
		},
		final: "0",
		n:     6,
	},
	{ // caseless types, one of two
		text:     `$name=/[a-zA-Z]+/; $num=/[0-9][a-zA-Z]*/; $s=/ +/; !side $s; !caseless $name; !reserved 'AB' '1b'; g={'AB',$name|'B'|'1b'|$num};`,
		alphabet: "aAbB1 ",
		defs: []def{
			{name: "name", caseless: true, match: run1("abAB")},
			{name: "num", match: func(s string, p int) int {
				if s[p] == '1' {
					return run1("abAB")(s, p+1)
				}
				return p
			}},
			space,
		},
		reserved: "AB 1b ",
		states: [][]arc{
			{{"AB", "name ", 1}},
			{{"B", "name ", 0}, {"1b", "num ", 0}, {"", "name ", 0}, {"", "num ", 0}},
		},
		final: "0",
		n:     5,
	},
	{ // error tokens
		text:     `$bad=/[!?][a-z]?/; $str=/"[^"]*"/; $name=/[a-z]+/; $s=/ +/; $brk=/".{0,2}/; !side $s; !error $bad $brk; g={$name,[$str]};`,
		alphabet: "a\"!? -",
		defs: []def{
			{name: "bad", bad: true, match: func(s string, p int) int {
				if s[p] == '!' || s[p] == '?' {
					return p + 1
				}
				return p
			}},
			{name: "str", match: func(s string, p int) int {
				if s[p] == '"' {
					for e := p + 1; e < len(s); e++ {
						if s[e] == '"' {
							return e + 1
						}
					}
				}
				return p
			}},
			{name: "name", match: run1("a")},
			space,
			{name: "brk", bad: true, match: char("\"")},
		},
		states: [][]arc{
			{{"", "name ", 1}},
			{{"", "str ", 0}, {"", "name ", 1}},
		},
		final: "01",
		n:     6,
	},
	{ // a group for the shorter token
		text:     `$num=/-?[0-9]+/; $op=/[-+]/; $s=/ +/; !side $s; !group $op; g=$num,{$op,$num};`,
		alphabet: "01-+ ",
		defs: []def{
			{name: "num", match: number},
			{name: "op", group: 1, match: char("-+")},
			space,
		},
		states: [][]arc{
			{{"", "num ", 1}},
			{{"", "op ", 0}},
		},
		final: "1",
		n:     6,
	},
	{ // both groups expected
		text:     `$num=/-?[0-9]+/; $op=/[-+]/; $s=/ +/; !side $s; !group $op; g={$num|$op|'+'};`,
		alphabet: "1-+ !",
		defs: []def{
			{name: "num", match: number},
			{name: "op", group: 1, match: char("-+")},
			space,
		},
		states: [][]arc{{{"", "num ", 0}, {"", "op ", 0}, {"+", "op ", 0}}},
		final:  "0",
		n:      6,
	},
	{ // groups for general types, literals only of one type
		text:     `!literal $op; !group $raw; !group $any; $raw=/[^;]+/; $op=/[=;,]/; $any=/./; $name=/[a-z]+/; g={$name,'=',$raw,';',$any,';'|','};`,
		alphabet: "a=;,!",
		defs: []def{
			{name: "op", match: char("=;,")},
			{name: "name", noLits: true, match: run1("ab")},
			{name: "raw", group: 1, noLits: true, match: run1("a=,!")},
			{name: "any", group: 2, noLits: true, match: func(s string, p int) int { return p + 1 }},
		},
		states: [][]arc{
			{{"", "name ", 1}},
			{{"=", "op ", 2}},
			{{"", "raw ", 3}},
			{{";", "op ", 4}},
			{{"", "any ", 5}},
			{{";", "op ", 0}, {",", "op ", 0}},
		},
		final: "0",
		n:     7,
	},
	{ // broken lexemes of one group may be tokens of another
		text:     `$str=/"[a-z]*"/; $err=/"/; !error $err; $semi=/;/; $raw=/[^;]+/; !group $raw; g={$str|$raw,';'};`,
		alphabet: "\"a;!",
		defs: []def{
			{name: "str", match: func(s string, p int) int {
				if s[p] == '"' {
					if e := run1("a")(s, p+1); e < len(s) && s[e] == '"' {
						return e + 1
					}
				}
				return p
			}},
			{name: "err", bad: true, match: char("\"")},
			{name: "semi", match: char(";")},
			{name: "raw", group: 1, match: run1("\"a!")},
		},
		states: [][]arc{
			{{"", "str ", 1}, {"", "raw ", 1}},
			{{";", "semi ", 0}},
		},
		final: "0",
		n:     6,
	},
	{ // side tokens anywhere, also within lookahead
		text:     `$s=/[ \n]/; $rem=/#[^\n]*/; $t=/[a-z]/; !side $s $rem; g={('a','b')|('a',$t)|x}; x='x','a';`,
		alphabet: "abx \n#",
		defs: []def{
			{name: "s", side: true, match: char(" \n")},
			{name: "rem", side: true, match: func(s string, p int) int {
				if s[p] == '#' {
					for p < len(s) && s[p] != '\n' {
						p++
					}
				}
				return p
			}},
			{name: "t", match: char("abx")},
		},
		states: [][]arc{
			{{"a", "t ", 1}, {"x", "t ", 2}},
			{{"b", "t ", 0}, {"", "t ", 0}},
			{{"a", "t ", 0}},
		},
		final: "0",
		n:     5,
	},
	{ // the end of input as a separator
		text:     `$s=/ /; !side $s; $t=/[a-z]/; $p=/;/; g={'a',['b'],$p|$};`,
		alphabet: "ab; ",
		defs: []def{
			space1,
			{name: "t", match: char("ab")},
			{name: "p", match: char(";")},
		},
		states: [][]arc{
			{{"a", "t ", 1}},
			{{"b", "t ", 2}, {"", "p ", 0}},
			{{"", "p ", 0}},
		},
		final: "012",
		n:     6,
	},
	{ // the first type wins within a group, literals of two types
		text:     `$kw=/[a-b]/; $name=/[a-z]+/; $s=/ +/; !side $s; !reserved 'a' 'cc'; g={'a'|'b',$name|'cc'};`,
		alphabet: "abc ",
		defs: []def{
			{name: "kw", match: char("ab")},
			{name: "name", match: run1("abc")},
			space,
		},
		reserved: "a cc ",
		states: [][]arc{
			{{"a", "kw name ", 1}, {"b", "kw name ", 1}},
			{{"", "name ", 0}, {"cc", "name ", 0}},
		},
		final: "0",
		n:     6,
	},
}

var space1 = def{name: "s", side: true, match: char(" ")}

func number(s string, p int) int {
	e := p
	if s[e] == '-' {
		e++
	}
	if end := run1("01")(s, e); end > e {
		return end
	}
	return p
}

var parsers []*parser.Parser

func Setup() {
	parsers = nil
	for _, m := range models {
		g, e := langdef.ParseString("", m.text)
		if e != nil {
			panic(m.text + ": " + e.Error())
		}
		p, e := parser.New(g)
		if e != nil {
			panic(e)
		}
		parsers = append(parsers, p)
	}
}

// H_Directives: texts against grammars using the directives.
//
//zz:bounds 11 grammars: reserved and plain words, caseless and case-sensitive types, error tokens, groups (shorter token, both expected, general types, broken lexemes), restricted literal types, side tokens within lookahead, end of input; any text of 0..5, 0..6 or 0..7 bytes (thorough 2 more) over their alphabets
func H_Directives() {
	i := sym.Choice("grammar", len(models))
	m := &models[i]
	n := sym.Choice("n", m.n+sym.N(1, 3))
	text := sym.StringOf("text", n, m.alphabet)
	want := m.run(text)

	var got []token
	hs := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		p := t.Pos().Pos()
		got = append(got, token{&def{name: t.TypeName()}, t.Text(), p})
		return true, nil, nil
	}}}
	q := source.NewQueue().Append(source.New("name", []byte(text)))
	_, e := parsers[i].Parse(context.Background(), q, hs, parser.WithFullSource())
	if want.ok {
		if e != nil {
			sym.Fail("text of the language is accepted: " + e.Error())
		}
		sym.Assert(len(got) == len(want.tokens), "number of tokens")
	} else {
		sym.Assert(e != nil, "text out of the language is rejected")
		var le *llx.Error
		sym.Assert(errors.As(e, &le), "llx error")
		known := false
		for _, c := range want.code {
			known = known || c == le.Code
		}
		if !known {
			sym.Fail(fmt.Sprint("error code: ", le.Code))
		}
		if want.pos >= 0 {
			line, col := 1, 1
			for j := 0; j < want.pos; j++ {
				col++
				if text[j] == '\n' {
					line, col = line+1, 1
				}
			}
			sym.Assert(le.SourceName == "name" && le.Line == line && le.Col == col, "error location")
		}
	}
	for j, t := range want.tokens {
		if j == len(got) && !want.ok {
			break
		}
		sym.Assert(got[j].text == t.text && got[j].pos == t.pos && got[j].d.name == t.d.name, "tokens are the same")
	}
}

// H_Extern: types emitted by hooks only.
//
//zz:bounds 5 sets of types allowed to be literals, named before or after the definitions; text of 0..4 (thorough 6) bytes over {a,x,;}: the hook replaces x with an external token of one of 2 types and 2 texts, one of which is a literal
func H_Extern() {
	lists := []string{"", "!literal $t $p;", "!literal $t $p $x;", "!literal $y $p $t;", "!literal $x $t $y $p;"}
	list := lists[sym.Choice("list", len(lists))]
	defs := "!extern $x $y; $t=/[a-z]/; $p=/;/; "
	if sym.Choice("place", 2) == 0 {
		defs = list + defs
	} else {
		defs += list
	}
	g, e := langdef.ParseString("", defs+" g={'a'|$x,';'};")
	sym.Assert(e == nil, "grammar")
	p, e := parser.New(g)
	sym.Assert(e == nil, "parser")
	n := sym.Choice("n", sym.N(5, 7))
	text := sym.StringOf("text", n, "ax;")
	names := []string{"x", "y"}
	name := names[sym.Choice("emit", 2)]
	content := []string{"zz", "a"}[sym.Choice("content", 2)]
	hs := parser.Hooks{Literals: parser.TokenHooks{"x": func(_ context.Context, t *parser.Token, tc *parser.TokenContext) (bool, []*parser.Token, error) {
		tok, e := tc.ParseContext().Parser().MakeToken(name, []byte(content))
		return false, []*parser.Token{tok}, e
	}}}
	_, e = p.ParseString(context.Background(), "name", text, hs, parser.WithFullSource())
	literal := content == "a" && (list == "" || strings.Contains(list, "$"+name))
	ok := n%2 == 0
	for i := 0; i < n && ok; i++ {
		if i%2 == 1 {
			ok = text[i] == ';'
		} else {
			ok = text[i] == 'a' || text[i] == 'x' && (name == "x" || literal)
		}
	}
	sym.Assert(ok == (e == nil), "external tokens are accepted where they are expected")
}
