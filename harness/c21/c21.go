// Package c21: the indent layer.
package c21

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/ava12/llx"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/parser/layers/common"
	_ "github.com/ava12/llx/parser/layers/convert"
	_ "github.com/ava12/llx/parser/layers/indent"
	"github.com/ava12/llx/source"
)

type tok struct {
	name, text string
	pos        int // -1 if none
}

// flavour is a way to split spaces into tokens.
type flavour struct {
	grammar string
	long    bool // runs of spaces are tokens
	joint   bool // line feeds and spaces are tokens of the same type
	conv    bool // - stands for two spaces
}

var flavours = []flavour{
	{"!side $sp $c; $sp=/[ \\t\\n]+/; g={$in|$de|$w}; @indent space(sp) on-indent(in) on-dedent(de);", true, true, false},
	{"!side $sp $c $nl; $sp=/[ \\t]/; $nl=/\\n/; g={$in|$de|$w}; @indent on-dedent(de) space(nl, sp) on-indent(in);", false, false, false},
	{"!side $sp $c; $sp=/[ \\t]+/; $nl=/\\n/; g={$in|$de|$w|$nl}; @indent on-indent(in) space(nl, sp) on-dedent(de);", true, false, false},
	{"!side $c $sp; $sp=/[ \\t\\n]/; g={$in|$de|$w}; @indent space(sp) on-indent(in) on-dedent(de);", false, true, false},
	{"!side $sp $c; $sp=/[ \\t\\n]+|-/; g={$in|$de|$w}; @convert input-type(sp) convert('-', '  '); @indent space(sp) on-indent(in) on-dedent(de);", true, true, true},
	{"!side $sp $c; $sp=/[ \\t\\n]+|-/; g={$in|$de|$w}; @convert input-type(sp) convert('-', ''); @indent space(sp) on-indent(in) on-dedent(de);", true, true, true},
}

const head = "!extern $in $de; $w=/[a-b]+/; $c=/#/; "

var parsers []*parser.Parser

func Setup() {
	parsers = nil
	for _, f := range flavours {
		g, e := langdef.ParseString("", head+f.grammar)
		if e != nil {
			panic(e)
		}
		p, e := parser.New(g)
		if e != nil {
			panic(e)
		}
		parsers = append(parsers, p)
	}
}

// split is the lexer (and the converter).
func (f *flavour) split(s string, dash string) (l []tok) {
	for p := 0; p < len(s); {
		e := p + 1
		t := tok{name: "sp", pos: p}
		switch s[p] {
		case '#':
			t.name = "c"
		case 'a', 'b':
			t.name = "w"
			for e < len(s) && (s[e] == 'a' || s[e] == 'b') {
				e++
			}
		case '-':
		default:
			if s[p] == '\n' && !f.joint {
				t.name = "nl"
			} else if f.long {
				for e < len(s) && (s[e] == ' ' || s[e] == '\t' || s[e] == '\n' && f.joint) {
					e++
				}
			}
		}
		t.text = s[p:e]
		p = e
		if t.text == "-" {
			t.text, t.pos = dash, -1
		}
		if t.text != "" {
			l = append(l, t)
		}
	}
	return
}

func blank(t tok) bool { return t.name == "sp" || t.name == "nl" }

// model gives what the layer must emit; places are those an error may be
// reported at, nil if there is no error.
func model(l []tok) (out []tok, places []int) {
	var stack []string // indentations of open blocks
	cur := ""
	for i, first := 0, true; ; first = false {
		var seg []tok
		for i < len(l) && l[i].name != "w" {
			seg = append(seg, l[i])
			i++
		}
		// place for new tokens and the last line break
		start, brk := -1, -1
		if first {
			start = 0
		}
		for j, t := range seg {
			if blank(t) && strings.Contains(t.text, "\n") {
				if start < 0 {
					start = j
				}
				brk = j
			}
		}
		run := len(seg)
		for run > 0 && blank(seg[run-1]) {
			run--
		}
		if start >= 0 && start < run {
			start = run
		}

		n := 0 // closed blocks
		opened := false
		if i == len(l) {
			n = len(stack)
			if start < 0 {
				start = len(seg)
			}
		} else if start >= 0 {
			ind := ""
			line := seg
			wrong := false
			if brk >= 0 {
				ind = seg[brk].text[strings.LastIndexByte(seg[brk].text, '\n')+1:]
				line = seg[brk+1:]
			}
			for _, t := range line {
				wrong = wrong || !blank(t)
				ind += t.text
			}
			if !wrong && ind != cur {
				if strings.HasPrefix(ind, cur) {
					stack = append(stack, cur)
					cur = ind
					opened = true
				} else {
					wrong = true
					for j, x := range stack {
						if x == ind {
							n = len(stack) - j
							stack = stack[:j]
							cur = ind
							wrong = false
							break
						}
					}
				}
			}
			if wrong {
				for _, t := range append(seg, l[i]) {
					places = append(places, t.pos)
				}
				return
			}
		} else {
			start = len(seg)
		}

		out = append(out, seg[:start]...)
		if opened {
			out = append(out, tok{"in", "", -1})
		}
		for ; n > 0; n-- {
			out = append(out, tok{"de", "", -1})
		}
		out = append(out, seg[start:]...)
		if i == len(l) {
			return
		}
		out = append(out, l[i])
		i++
	}
}

func try(fi int, text string) {
	sym.Observe("text", text)
	dash := ""
	if fi == 4 {
		dash = "  "
	}
	want, places := model(flavours[fi].split(text, dash))
	p := parsers[fi]
	var got []tok
	hs := parser.Hooks{Tokens: parser.TokenHooks{parser.AnyToken: func(_ context.Context, t *parser.Token, _ *parser.TokenContext) (bool, []*parser.Token, error) {
		x := tok{t.TypeName(), t.Text(), -1}
		if t.Source() != nil {
			x.pos = t.Pos().Pos()
		}
		if x.name != "sp" || x.text != "" {
			got = append(got, x)
		}
		return true, nil, nil
	}}}
	buf := append(make([]byte, 0, len(text)+4), text...)
	buf = append(buf, "!!!!"...)
	src := buf[:len(text)]
	q := source.NewQueue().Append(source.New("name", src))
	_, e := p.Parse(context.Background(), q, hs, parser.WithFullSource())
	sym.Assert(string(buf) == text+"!!!!", "source text is not altered")
	if places == nil {
		if e != nil {
			sym.Fail("valid indentation: " + e.Error())
		}
		sym.Assert(len(got) == len(want), "number of tokens")
	} else {
		var le *llx.Error
		sym.Assert(errors.As(e, &le) && le.Code == common.WrongTokenError && !strings.Contains(le.Error(), "%!"), "wrong indentation is reported")
		found := false
		for _, at := range places {
			if at < 0 {
				found = found || le.Line == 0
				continue
			}
			line, col := 1, 1
			for i := 0; i < at; i++ {
				col++
				if text[i] == '\n' {
					line, col = line+1, 1
				}
			}
			found = found || le.Line == line && le.Col == col
		}
		sym.Assert(found, "error is located at the indentation")
		sym.Assert(len(got) >= len(want), "tokens before the error")
	}
	for i, t := range want {
		if got[i] != t {
			sym.Fail(fmt.Sprint("emitted tokens: ", i, " ", got[i].name, " instead of ", t.name))
		}
	}
}

// H_Text: arbitrary text.
//
//zz:bounds 6 ways to split spaces into tokens (one or two types, single or long, significant line feeds, tokens changed by a convert layer); text of 0..6 (thorough 8) bytes over {a,#,space,tab,LF}, and - for the last two
func H_Text() {
	i := sym.Choice("flavour", len(flavours))
	abc := "a# \t\n"
	if flavours[i].conv {
		abc = "a#- \n"
	}
	try(i, sym.StringOf("text", sym.Choice("n", sym.N(7, 9)), abc))
}

// H_Lines: lines.
//
//zz:bounds 1..3 (thorough 4) lines of 0..2 (thorough 3) spaces or tabs followed by one of: word, word and comment, comment, comment and word, nothing; with or without the last line feed; 4 ways to split spaces
func H_Lines() {
	fi := sym.Choice("flavour", 4)
	var b strings.Builder
	n := 1 + sym.Choice("lines", sym.N(3, 4))
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte('\n')
		}
		b.WriteString(sym.StringOf("indent", sym.Choice("width", sym.N(3, 4)), " \t"))
		b.WriteString([]string{"a", "b #", "#", "#a", ""}[sym.Choice("line", sym.N(4, 5))])
	}
	if sym.Bool("end") {
		b.WriteByte('\n')
	}
	try(fi, b.String())
}

// H_Deep: blocks.
//
//zz:bounds 2..6 (thorough 7) lines with one word each, indented with 0..3 (thorough 4) spaces; all spaces in one token or one by one
func H_Deep() {
	fi := sym.Choice("flavour", 2)
	var b strings.Builder
	n := 2 + sym.Choice("lines", sym.N(5, 6))
	for i := 0; i < n; i++ {
		b.WriteString("    "[:sym.Choice("width", sym.N(4, 5))])
		b.WriteString("a\n")
	}
	try(fi, b.String())
}

var commands = []struct {
	text string
	code int // what is wrong with the command itself
	kind int
}{
	{"space(sp)", 0, 0},
	{"space(sp, nl)", 0, 0},
	{"space(sp, no)", common.UnknownTokenTypeError, 0},
	{"space()", common.NumberOfArgumentsError, 0},
	{"space('')", common.UnknownTokenTypeError, 0},
	{"on-indent(in)", 0, 1},
	{"on-indent(in, de)", common.NumberOfArgumentsError, 1},
	{"on-indent(no)", common.UnknownTokenTypeError, 1},
	{"on-indent('')", common.UnknownTokenTypeError, 1},
	{"on-dedent(de)", 0, 2},
	{"on-dedent()", common.NumberOfArgumentsError, 2},
	{"on-dedent('-end-of-input-')", common.UnknownTokenTypeError, 2},
	{"dedent(de)", common.UnknownCommandError, 3},
	{"Space(sp)", common.UnknownCommandError, 3},
}

// H_Settings: each command is used once, and nothing else.
//
//zz:bounds any 0..4 of 14 commands (wrong numbers of arguments, unknown types and commands included)
func H_Settings() {
	var codes []int
	var used [4]int
	text := head + "!side $sp $c; $sp=/[ \\t]/; $nl=/\\n/; g={$w}; @indent"
	n := sym.Choice("commands", 5)
	for i := 0; i < n; i++ {
		c := commands[sym.Choice("command", len(commands))]
		text += " " + c.text
		if c.code != 0 {
			codes = append(codes, c.code)
		}
		used[c.kind]++
	}
	for _, u := range used[:3] {
		if u == 0 {
			codes = append(codes, common.MissingCommandError)
		} else if u > 1 {
			codes = append(codes, common.CommandAlreadyUsedError)
		}
	}
	g, e := langdef.ParseString("", text+";")
	sym.Assert(e == nil, "grammar")
	_, e = parser.New(g)
	if len(codes) == 0 {
		sym.Assert(e == nil, "right settings are accepted")
		return
	}
	sym.Assert(e != nil, "wrong settings are reported")
	var le *llx.Error
	sym.Assert(errors.As(e, &le) && !strings.Contains(le.Error(), "%!"), "llx error")
	for _, c := range codes {
		if c == le.Code {
			return
		}
	}
	sym.Fail(fmt.Sprint("error code for wrong settings: ", le.Code))
}
