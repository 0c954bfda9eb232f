package c19

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

// combo is a choice of directives for the types x and y.
type combo struct {
	kind, ykind                        int // plain, side, error
	caseless, group, literal, reserved bool
}

func (c combo) directives() (r []string) {
	add := func(use bool, text string) {
		if use {
			r = append(r, text)
		}
	}
	add(c.caseless, "!caseless $x; ")
	add(c.kind == 1, "!side $x; ")
	add(c.kind == 2, "!error $x; ")
	add(c.group, "!group $x; ")
	add(c.literal, "!literal $x; ")
	add(c.reserved, "!reserved '+' 'AB'; ")
	add(c.ykind == 1, "!side $y; ")
	add(c.ykind == 2, "!error $y; ")
	return
}

// text puts directives whose bit is set before the definitions.
func (c combo) text(first int) string {
	pre, post := "", ""
	for i, d := range c.directives() {
		if first>>i&1 == 1 {
			pre = d + pre
		} else {
			post += d
		}
	}
	alts := "$z"
	if c.kind == 0 {
		alts += " | $x | 'A' | '+' | 'B+'"
	}
	if c.ykind == 0 {
		alts += " | $y"
	}
	return pre + "$x = /[abAB+]+/; $y = /[0-9]/; $z = /[za]/; " + post + "g = {" + alts + "};"
}

func (c combo) model() *model {
	m := &model{final: "0", states: [][]arc{{{"", "z ", 0}}}}
	x := def{name: "x", side: c.kind == 1, bad: c.kind == 2, caseless: c.caseless, match: run1("abAB+")}
	if c.group {
		x.group = 1
	}
	y := def{name: "y", side: c.ykind == 1, bad: c.ykind == 2, noLits: c.literal, match: char("1")}
	m.defs = []def{x, y, {name: "z", noLits: c.literal, match: char("za")}}
	if c.reserved {
		m.reserved = "+ AB "
	}
	if c.kind == 0 {
		m.states[0] = append(m.states[0], arc{"A", "x ", 0}, arc{"+", "x ", 0}, arc{"B+", "x ", 0}, arc{"", "x ", 0})
	}
	if c.ykind == 0 {
		m.states[0] = append(m.states[0], arc{"", "y ", 0})
	}
	return m
}

func combos() (r []combo) {
	for i := 0; i < 144; i++ {
		r = append(r, combo{i % 3, i / 3 % 3, i/9&1 == 1, i/18&1 == 1, i/36&1 == 1, i/72 == 1})
	}
	return
}

type compiled struct {
	c combo
	m *model
	p *parser.Parser
}

var combined []compiled

func Setup_Combined() {
	combined = nil
	for _, c := range combos() {
		g, e := langdef.ParseString("", c.text(0))
		if e != nil {
			panic(c.text(0) + ": " + e.Error())
		}
		p, e := parser.New(g)
		if e != nil {
			panic(e)
		}
		combined = append(combined, compiled{c, c.model(), p})
	}
}

// H_Combined: several directives for one type.
//
//zz:bounds 144 combinations of caseless, side or error, group, literal and reserved for one type and side or error for another; any text of 0..3 (thorough 4) bytes over {a,A,B,+,1,z}
func H_Combined() {
	s := combined[sym.Choice("combo", len(combined))]
	text := sym.StringOf("text", sym.Choice("n", sym.N(4, 5)), "aAB+1z")
	want := s.m.run(text)
	var got []token
	hs := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		got = append(got, token{&def{name: t.TypeName()}, t.Text(), t.Pos().Pos()})
		return true, nil, nil
	}}}
	q := source.NewQueue().Append(source.New("name", []byte(text)))
	_, e := s.p.Parse(context.Background(), q, hs, parser.WithFullSource())
	if (e == nil) != want.ok {
		sym.Fail(fmt.Sprint("what is accepted: ", s.c.text(0), " ", e))
	}
	if e != nil {
		var le *llx.Error
		sym.Assert(errors.As(e, &le), "llx error")
		known := false
		for _, c := range want.code {
			known = known || c == le.Code
		}
		if !known {
			sym.Fail(fmt.Sprint("error code: ", le.Code, " ", s.c.text(0)))
		}
		if want.pos >= 0 {
			sym.Assert(le.SourceName == "name" && le.Line == 1 && le.Col == want.pos+1, "error location")
		}
	}
	for j, t := range want.tokens {
		if j == len(got) && !want.ok {
			break
		}
		sym.Assert(j < len(got) && got[j].text == t.text && got[j].pos == t.pos && got[j].d.name == t.d.name, "tokens are the same")
	}
}

func equal(a, b *grammar.Grammar) bool {
	if len(a.Tokens) != len(b.Tokens) || len(a.Nodes) != len(b.Nodes) || len(a.States) != len(b.States) || len(a.Rules) != len(b.Rules) || len(a.MultiRules) != len(b.MultiRules) {
		return false
	}
	for i := range a.Tokens {
		if a.Tokens[i] != b.Tokens[i] {
			return false
		}
	}
	for i := range a.Nodes {
		if a.Nodes[i] != b.Nodes[i] {
			return false
		}
	}
	for i := range a.States {
		if a.States[i] != b.States[i] {
			return false
		}
	}
	for i := range a.Rules {
		if a.Rules[i] != b.Rules[i] {
			return false
		}
	}
	for i := range a.MultiRules {
		if a.MultiRules[i] != b.MultiRules[i] {
			return false
		}
	}
	return true
}

// H_Places: a directive means the same before and after the definition of the type.
//
//zz:bounds 144 combinations of directives, any of them before the definitions (in reverse order) and the others after
func H_Places() {
	all := combos()
	i := sym.Choice("combo", len(all))
	c := all[i]
	n := len(c.directives())
	first := sym.Choice("first", 1<<n)
	if first == 0 {
		return
	}
	a, e := langdef.ParseString("", c.text(0))
	sym.Assert(e == nil, "directives after")
	b, e := langdef.ParseString("", c.text(first))
	sym.Assert(e == nil, "directives before")
	if !equal(a, b) {
		sym.Fail("the place of a directive: " + c.text(first))
	}
}

// H_Literals: which literals a type may have.
//
//zz:bounds one literal of 1..3 (thorough 4) bytes over {a,A,+,1} for one type, caseless or not, of letters and signs, and another one of digits: it is right exactly if a type matches all of it (a caseless one in upper case only); then it is matched in the text, by a caseless type in any case, and other words are not
func H_Literals() {
	caseless := sym.Choice("caseless", 2) == 1
	lit := sym.StringOf("lit", sym.IntRange("n", 1, sym.N(3, 4)), "aA+1")
	desc := "$w = /[aA+]+/; $d = /[0-9]+/; g = '" + lit + "';"
	if caseless {
		desc = "!caseless $w; " + desc
	}
	g, e := langdef.ParseString("", desc)
	word, num, upper := true, true, true
	for i := 0; i < len(lit); i++ {
		word = word && lit[i] != '1'
		num = num && lit[i] == '1'
		upper = upper && lit[i] != 'a'
	}
	ok := num || word && (!caseless || upper)
	sym.Assert((e == nil) == ok, "a literal needs a type")
	if !ok {
		return
	}
	p, e := parser.New(g)
	sym.Assert(e == nil, "parser")
	text := sym.StringOf("text", len(lit), "aA+1")
	_, e = p.ParseString(context.Background(), "", text, parser.Hooks{}, parser.WithFullSource())
	same := text == lit
	if caseless && word {
		same = strings.ToUpper(text) == lit
	}
	sym.Assert((e == nil) == same, "a literal matches its text only")
}
