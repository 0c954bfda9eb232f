// Package c28: every error tells its kind and the place of its cause.
//
//zz:exactquote
//zz:exactints
package c28

import (
	"context"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/parser"
	"github.com/ava12/llx/source"
)

const (
	text = `!side $sp; !extern $x; !error $er; $sp = /[ \n]/; $t = /[abé]+/; $d = /[0-9]/; $er = /"/; g = {h}; h = $t, $d;`
)

var p *parser.Parser

func Setup() {
	g, e := langdef.ParseString("", text)
	if e != nil {
		panic(e)
	}
	p, e = parser.New(g)
	if e != nil {
		panic(e)
	}
}

// told: the rest of the message names the place.
func told(rest, name string, line, col int) bool {
	i := strings.Index(rest, name)
	if i < 0 {
		return false
	}
	rest = rest[i+len(name):]
	s := strconv.Itoa(line)
	i = strings.Index(rest, s)
	return i >= 0 && strings.Contains(rest[i+len(s):], strconv.Itoa(col))
}

// checkNew checks an error made of a message and a place.
func checkNew(le *llx.Error, code int, msg, name string, line, col int) {
	sym.Assert(le.Code == code && le.SourceName == name && le.Line == line && le.Col == col, "fields of an error")
	var e error = le
	sym.Assert(e.Error() == le.Message, "text of an error is its message")
	sym.Assert(strings.HasPrefix(le.Message, msg), "message of an error")
	if name == "" && line == 0 && col == 0 {
		sym.Assert(le.Message == msg, "no place is told when none is known")
	} else if name != "" && line != 0 && col != 0 {
		sym.Assert(told(le.Message[len(msg):], name, line, col), "the place is told")
	}
}

type pos struct {
	name      string
	line, col int
}

func (p pos) SourceName() string  { return p.name }
func (p pos) LineCol() (int, int) { return p.line, p.col }

// H_New: making an error.
//
//zz:bounds any name of 0..2 bytes, line and column in 0..12, message of 0..2 letters over {a,%,d,v}, 0..2 parameters (numbers or strings), also names like format verbs
func H_New() {
	name := sym.String("name", sym.Choice("len", 3))
	line, col := sym.Choice("line", 13), sym.Choice("col", 13)
	msg := sym.StringOf("msg", sym.Choice("size", 3), "a%dv")
	checkNew(llx.NewError(7, msg, name, line, col), 7, msg, name, line, col)
	at := pos{name, line, col}
	checkNew(llx.FormatErrorPos(at, 102, msg), 102, msg, name, line, col)
	checkNew(llx.FormatError(3, msg), 3, msg, "", 0, 0)
	if col > 1 || line > 1 {
		return
	}
	n, s := sym.Concrete(sym.IntRange("n", -3, 12)), sym.StringOf("s", 2, "a%d")
	checkNew(llx.FormatErrorPos(at, 5, "x %d: %s", n, s), 5, "x "+strconv.Itoa(n)+": "+s, name, line, col)
	checkNew(llx.FormatError(6, "%s", s), 6, s, "", 0, 0)
	name = names[sym.Choice("file", len(names))]
	checkNew(llx.FormatErrorPos(pos{name, line, col}, 5, "%s-%d", s, n), 5, s+"-"+strconv.Itoa(n), name, line, col)
}

var names = []string{"100%", "a%20b", "%d", "%s%", "%[1]d", "%%", "x"}

// fault is what is wrong with an input.
type fault struct {
	code      int
	name      string
	line, col int
	text      string // the message tells it
}

type src struct{ name, text string }

// first finds the first fault of an input.
func first(ss []src, full bool) *fault {
	digit := false
	for _, s := range ss {
		line, col := 1, 1
		for i := 0; i < len(s.text); {
			r, n := utf8.DecodeRuneInString(s.text[i:])
			f := &fault{0, s.name, line, col, s.text[i : i+n]}
			from := i
			i += n
			col++
			switch {
			case r == '\n':
				line++
				col = 1
			case r == ' ':
			case !digit && !full && r != 'a' && r != 'b' && r != 'é':
				// the root node is over
				return nil
			case r == '"':
				f.code = lexer.BadTokenError
				return f
			case r == 'a' || r == 'b' || r == 'é':
				for i < len(s.text) {
					r, n = utf8.DecodeRuneInString(s.text[i:])
					if r != 'a' && r != 'b' && r != 'é' {
						break
					}
					i += n
					col++
				}
				if digit {
					f.code, f.text = parser.UnexpectedTokenError, "t"
					if i-from <= 10 && from+7 > i {
						f.text = s.text[from:i]
					}
					return f
				}
				digit = true
			case r >= '0' && r <= '9':
				if !digit {
					f.code, f.text = parser.RemainingSourceError, "d"
					return f
				}
				digit = false
			default:
				f.code = lexer.WrongCharError
				return f
			}
		}
	}
	if digit {
		return &fault{parser.UnexpectedEoiError, "", 0, 0, "d"}
	}
	return nil
}

func class(code int) string {
	switch {
	case code >= llx.LangDefErrors && code < llx.LangDefErrors+99:
		return "description"
	case code >= llx.LexicalErrors && code < llx.LexicalErrors+99:
		return "lexical"
	case code >= llx.SyntaxErrors && code < llx.SyntaxErrors+99:
		return "syntax"
	case code >= llx.ParserErrors && code < llx.ParserErrors+99:
		return "parser"
	case code >= llx.LayerErrors && code < llx.LayerErrors+99:
		return "layer"
	}
	return ""
}

func check(e error, f *fault) {
	if f == nil {
		sym.Assert(e == nil, "a right input is parsed")
		return
	}
	var le *llx.Error
	if !errors.As(e, &le) || le == nil {
		sym.Fail("a wrong input is reported")
	}
	sym.Assert(le.Code == f.code, "kind of an error")
	sym.Assert(le.SourceName == f.name && le.Line == f.line && le.Col == f.col, "place of an error")
	sym.Assert(le.Message != "" && e.Error() == le.Message, "message of an error")
	if le.Line != 0 && le.SourceName != "" {
		at := strings.Index(le.Message, " in "+le.SourceName)
		sym.Assert(told(le.Message, le.SourceName, le.Line, le.Col) && at > 0, "message tells the place")
	}
	sym.Assert(strings.Contains(le.Message, f.text), "message tells the token")
}

func full() ([]parser.ParseOption, bool) {
	if sym.Choice("full", 2) == 1 {
		return []parser.ParseOption{parser.WithFullSource()}, true
	}
	return nil, false
}

// H_Parse: any text in one or more sources.
//
//zz:bounds a grammar of words and digits; 1..3 sources with or without names, having 0..3, 0..1 and 0..1 (thorough 0..4, 0..1, 0..2) symbols over {a,1,space,line break,",#,é}
func H_Parse() {
	opts, all := full()
	max := []int{sym.N(4, 5), 2, sym.N(2, 3)}
	q := source.NewQueue()
	var ss []src
	names := sym.Choice("names", 2)
	n := sym.Choice("sources", 3)
	for i := 0; i <= n; i++ {
		k := sym.Choice(fmt.Sprint("len", i), max[i])
		t := strings.ReplaceAll(sym.StringOf(fmt.Sprint("s", i), k, "a1 \n\"#e"), "e", "é")
		s := src{"", t}
		if names == 1 {
			s.name = []string{"one", "two", "three"}[i]
		}
		ss = append(ss, s)
		q.Append(source.New(s.name, []byte(t)))
	}
	_, e := p.Parse(context.Background(), q, parser.Hooks{}, opts...)
	check(e, first(ss, all))
}

// H_Long: long and strange tokens in messages.
//
//zz:bounds a wrong word of 1..14 symbols over {a,é} or a wrong byte of any value, in the second line
func H_Long() {
	var t string
	if sym.Choice("what", 2) == 0 {
		for n := sym.Choice("n", 14); n >= 0; n-- {
			t += "a"
		}
		if k := sym.Choice("k", len(t)+1); k < len(t) {
			t = t[:k] + "é" + t[k+1:]
		}
	} else {
		t = sym.String("b", 1)
		sym.Assume(sym.And(sym.Or(t[0] < '0', t[0] > '9'), sym.And(t[0] != 'a', sym.And(t[0] != 'b', sym.And(t[0] != ' ', t[0] != '\n')))))
		if t[0] >= utf8.RuneSelf {
			_, e := p.ParseString(context.Background(), "name", "a1 \n a"+t+"1", parser.Hooks{})
			le, is := e.(*llx.Error)
			sym.Assert(is && le.Code == lexer.WrongCharError && le.SourceName == "name" && le.Line == 2 && le.Col == 3, "wrong byte is reported")
			return
		}
	}
	ss := []src{{"name", "a1a\n " + t + " 1"}}
	_, e := p.ParseString(context.Background(), "name", ss[0].text, parser.Hooks{})
	check(e, first(ss, false))
	sym.Assert(utf8.ValidString(e.Error()), "message is readable")
}

// H_Desc: a description with a hole filled in.
//
//zz:bounds eight places of a description with 0..3 symbols over {a,$,;,=,",',/,!,@,(,},-,|,comma,\,line break}
func H_Desc() {
	parts := []string{
		"!side ", "$sp", ";\n$sp = /[ ]/; ", "$a = ", "/a/", "; $b = /\\d/;\n\ng = ", "[$a | $b]", ", {h}; h = 'a'",
	}
	k := sym.Choice("at", len(parts))
	hole := sym.StringOf("h", sym.Choice("len", sym.N(3, 4)), "a$;=\"'/!@(}-|,\\\n")
	t := ""
	for i, s := range parts {
		if i == k {
			t += hole
		}
		if i != k || sym.Choice("drop", 2) == 0 {
			t += s
		}
	}
	t += ";\n"
	_, e := langdef.ParseString("desc", t)
	if e == nil {
		return
	}
	var le *llx.Error
	if !errors.As(e, &le) || le == nil {
		sym.Fail("an error of other kind")
	}
	c := class(le.Code)
	sym.Assert(c == "description" || c == "lexical", "class of an error")
	sym.Assert(le.Message != "" && e.Error() == le.Message, "message of an error")
	if le.Line == 0 {
		sym.Assert(le.Col == 0 && le.SourceName == "", "no place")
		return
	}
	lines := strings.Split(t, "\n")
	sym.Assert(le.SourceName == "desc" && le.Line >= 1 && le.Line <= len(lines) && le.Col >= 1 && le.Col <= len(lines[le.Line-1])+1, "place of an error is in the text")
	sym.Assert(told(le.Message, "desc", le.Line, le.Col), "message tells the place")
}

// H_Lexemes: a wrong lexeme is reported where it is, whatever it looks like.
//
//zz:bounds a right description of several lines, one of 29 lexemes put in front of any of its lexemes or instead of it, with or without a line break before it: if the rest cannot follow, the place of the error is not before the change, and a broken lexeme is reported exactly there
func H_Lexemes() {
	right := []string{"!side", "$sp", ";", "$sp", "=", "/[ ]/", ";", "$a", "=", "/a/", "/b?/", ";", "@", "l", "c", "(", "x", ",", "'y'", ")", ";", "g", "=", "$a", ",", "[", "'a'", "|", "h", "]", ",", "{", "$a", "}", ";", "h", "=", "(", "'ab'", ")", ";"}
	other := []string{"'a'", "'", "\"\"", "\"a\"", "\"\\n\"", "\"\\\\a\"", "\"\\x61\"", "\"\\u0061b\"", "\"\\q\"", "\"\\x6\"", "\"\\ud800\"", "/a/", "/(/", "$", "$a", "$-", "a", "-", "!", "!side", "@", ";", ",", "(", "]", "=", "|", "\x80", "é"}
	k := sym.Choice("at", len(right))
	x := other[sym.Choice("lexeme", len(other))]
	sep := []string{" ", "\n"}[sym.Choice("sep", 2)]
	instead := sym.Choice("instead", 2) == 1
	t := ""
	line, col := 1, 1
	for i, s := range right {
		if i == k {
			t += sep
			line, col = 1+strings.Count(t, "\n"), len(t)-strings.LastIndex(t, "\n")
			t += x
			if instead {
				continue
			}
		}
		if i > 0 && right[i-1] == ";" {
			t += "\n"
		} else if i > 0 {
			t += " "
		}
		t += s
	}
	_, e := langdef.ParseString("desc", t)
	switch x {
	case "\"\\q\"", "\"\\x6\"", "\"\\ud800\"", "\x80", "é":
		le, is := e.(*llx.Error)
		sym.Assert(is && le != nil && le.SourceName == "desc" && le.Line == line && le.Col == col, "a broken lexeme is reported")
	}
	if e == nil {
		return
	}
	var le *llx.Error
	if !errors.As(e, &le) || le == nil {
		sym.Fail("an error of other kind")
	}
	if le.Line == 0 {
		switch le.Code {
		case langdef.UndefinedTokenError, langdef.UnknownNodeError, langdef.UnusedNodeError, langdef.UnresolvedError, langdef.RecursionError, langdef.ReassignedGroupError, langdef.UnresolvedTokenTypesError, langdef.UnknownLiteralError:
		default:
			sym.Fail(fmt.Sprint("an error without a place: ", le.Code, " ", le.Message))
		}
		return
	}
	lines := strings.Split(t, "\n")
	sym.Assert(le.SourceName == "desc" && le.Line <= len(lines) && le.Col >= 1 && le.Col <= len(lines[le.Line-1])+1, "place of an error is in the text")
	sym.Assert(told(le.Message, "desc", le.Line, le.Col), "message tells the place")
	before := le.Line < line || le.Line == line && le.Col < col
	if le.Code != langdef.WrongRegexpError && before {
		sym.Fail(fmt.Sprint("reported too early: ", le.Message, " instead of ", line, ":", col))
	}
}
