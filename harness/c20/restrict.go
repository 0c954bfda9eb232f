package c20

import (
	"context"
	"errors"
	"strings"

	"github.com/ava12/llx"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	"github.com/ava12/llx/source"
)

// nested: p is (...), q is [...], r is <...>, x, y and z are letters; y is within the node w.
const nested = "$b=/[\\[\\]()<>]/; $l=/[xyz]/; $s=/ /; !side $s; g={i}; i=p|q|r|x|w|z; p='(',{i},')'; q='[',{i},']'; r='<',{i},'>'; x='x'; w=y,['z']; y='y'; z='z'; "

// open nodes of a text, the outermost first.
type frame struct {
	node string
	end  byte
}

type rule struct {
	nodes, allow, forbid string
	codes                []int
}

func restriction(cs []command) (r rule) {
	for _, c := range cs {
		var l *string
		var other string
		switch c.name {
		case "node":
			l = &r.nodes
		case "allow-in":
			l, other = &r.allow, r.forbid
		case "forbid-in":
			l, other = &r.forbid, r.allow
		default:
			r.codes = append(r.codes, common.UnknownCommandError)
			continue
		}
		if len(c.args) == 0 {
			r.codes = append(r.codes, common.NumberOfArgumentsError)
		}
		for _, a := range c.args {
			if hasWord(*l, a) || hasWord(other, a) {
				r.codes = append(r.codes, common.InvalidArgumentError)
			}
			*l += " " + a
		}
	}
	if r.nodes == "" || r.forbid == "" {
		r.codes = append(r.codes, common.MissingCommandError)
	}
	return
}

// ok tells if a node may be opened within the others, the innermost is the last one.
func (r *rule) ok(node string, open []string) bool {
	if !hasWord(r.nodes, node) {
		return true
	}
	for i := len(open) - 1; i >= 0; i-- {
		if hasWord(r.allow, open[i]) {
			return true
		}
		if hasWord(r.forbid, open[i]) {
			return false
		}
	}
	return true
}

// verdict gives the place of the error that ends the parse, -1 if there is none;
// by tells that the layer is to blame.
func (r *rule) verdict(text string) (at int, by bool) {
	open := []string{"g"}
	var ends []byte
	enter := func(names ...string) bool {
		for _, n := range names {
			if !r.ok(n, open) {
				return false
			}
			open = append(open, n)
		}
		return true
	}
	for i := 0; i < len(text); i++ {
		c := text[i]
		if c == ' ' {
			continue
		}
		if k := strings.IndexByte("([<", c); k >= 0 {
			if !enter("i", "pqr"[k:k+1]) {
				return i, true
			}
			ends = append(ends, ")]>"[k])
			continue
		}
		if strings.IndexByte(")]>", c) >= 0 {
			if len(ends) == 0 || ends[len(ends)-1] != c {
				return i, false
			}
			ends = ends[:len(ends)-1]
			open = open[:len(open)-2]
			continue
		}
		l := len(open)
		ok := true
		switch c {
		case 'x':
			ok = enter("i", "x")
		case 'z':
			ok = enter("i", "z")
		case 'y':
			ok = enter("i", "w", "y")
			// z belongs to the node w
			j := i + 1
			for j < len(text) && text[j] == ' ' {
				j++
			}
			if ok && j < len(text) && text[j] == 'z' {
				i = j
			}
		}
		if !ok {
			return i, true
		}
		open = open[:l]
	}
	if len(ends) > 0 {
		return len(text), false
	}
	return -1, false
}

// texts checks a configured layer on a text.
func texts(p *parser.Parser, r *rule, text string) {
	q := source.NewQueue().Append(source.New("name", []byte(text)))
	_, e := p.Parse(context.Background(), q, parser.Hooks{}, parser.WithFullSource())
	at, by := r.verdict(text)
	if at < 0 {
		sym.Assert(e == nil, "allowed text is parsed")
		return
	}
	var le *llx.Error
	sym.Assert(errors.As(e, &le), "forbidden or wrong text is rejected")
	sym.Assert((le.Code == common.WrongTokenError) == by, "the layer rejects what is forbidden only")
	sym.Assert(at == len(text) || le.SourceName == "name" && le.Line == 1 && le.Col == at+1, "location of the error")
}

var restrictCommands = []command{
	{"node", []string{"x"}},
	{"node", []string{"y", "p"}},
	{"node", []string{"x", "x"}},
	{"node", nil},
	{"forbid-in", []string{"p"}},
	{"forbid-in", []string{"q", "g"}},
	{"forbid-in", []string{"p", "p"}},
	{"forbid-in", nil},
	{"allow-in", []string{"q"}},
	{"allow-in", []string{"r", "i"}},
	{"allow-in", nil},
	{"node-in", []string{"x"}},
}

// H_Restrict: settings and the effect of the restrict layer.
//
//zz:bounds any 0..4 of 12 commands in any order (wrong ones included); text of 0..3 bytes over {(,),[,],x,y} when the settings are right
func H_Restrict() {
	var cs []command
	n := sym.Choice("commands", 5)
	for i := 0; i < n; i++ {
		cs = append(cs, restrictCommands[sym.Choice("command", len(restrictCommands))])
	}
	r := restriction(cs)
	g, e := langdef.ParseString("", nested+define("restrict", cs))
	sym.Assert(e == nil, "grammar")
	p, e := parser.New(g)
	if len(r.codes) > 0 {
		reject(e, r.codes)
		return
	}
	sym.Assert(e == nil, "right settings are accepted")
	texts(p, &r, sym.StringOf("text", sym.Choice("n", sym.N(3, 4)), "()[]xy"))
}

var rules = [][]command{
	{{"node", []string{"x"}}, {"forbid-in", []string{"p"}}, {"allow-in", []string{"q"}}},
	{{"node", []string{"x", "y"}}, {"forbid-in", []string{"g"}}, {"allow-in", []string{"q", "r"}}},
	{{"node", []string{"p"}}, {"forbid-in", []string{"p"}}},
	{{"node", []string{"p", "q"}}, {"forbid-in", []string{"p", "r"}}, {"allow-in", []string{"q"}}},
	{{"node", []string{"y"}}, {"forbid-in", []string{"w"}}, {"allow-in", []string{"p"}}},
	{{"node", []string{"w"}}, {"forbid-in", []string{"p"}}, {"allow-in", []string{"i"}}},
	{{"node", []string{"x"}}, {"forbid-in", []string{"x", "q"}}},
	{{"node", []string{"z"}}, {"forbid-in", []string{"p", "w"}}},
}

var ruleParsers []*parser.Parser

func Setup_Nested() {
	ruleParsers = nil
	for _, cs := range rules {
		g, e := langdef.ParseString("", nested+define("restrict", cs))
		if e != nil {
			panic(e)
		}
		p, e := parser.New(g)
		if e != nil {
			panic(e)
		}
		ruleParsers = append(ruleParsers, p)
	}
}

// H_Nested: restricted nodes at any depth.
//
//zz:bounds 8 settings; text of 0..5 (thorough 7) bytes over {(,),[,],<,>,x,y,z,space}
func H_Nested() {
	i := sym.Choice("rule", len(rules))
	r := restriction(rules[i])
	texts(ruleParsers[i], &r, sym.StringOf("text", sym.Choice("n", sym.N(6, 8)), "()[]<>xyz "))
}
