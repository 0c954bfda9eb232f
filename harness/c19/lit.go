package c19

import (
	"context"
	"errors"
	"strings"
	"unicode/utf8"

	"github.com/ava12/llx"
	"github.com/ava12/llx/grammar"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/parser"
)

func hexVal(s string) (v int, ok bool) {
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c >= '0' && c <= '9':
			v = v*16 + int(c-'0')
		case c >= 'a' && c <= 'f':
			v = v*16 + int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			v = v*16 + int(c-'A') + 10
		default:
			return 0, false
		}
	}
	return v, true
}

// decode gives the text of a double-quoted literal or the error code.
func decode(s string) (string, int) {
	var r []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			r = append(r, s[i])
			continue
		}
		i++
		n := 0
		switch s[i] {
		case 'n':
			r = append(r, '\n')
		case 'r':
			r = append(r, '\r')
		case 't':
			r = append(r, '\t')
		case '\\', '"':
			r = append(r, s[i])
		case 'x':
			n = 2
		case 'u':
			n = 4
		case 'U':
			n = 8
		default:
			return "", langdef.InvalidEscapeError
		}
		if n == 0 {
			continue
		}
		if i+n >= len(s) {
			return "", langdef.InvalidEscapeError
		}
		v, ok := hexVal(s[i+1 : i+n+1])
		if !ok {
			return "", langdef.InvalidEscapeError
		}
		i += n
		if n == 2 {
			r = append(r, byte(v))
		} else if v >= 0xd800 && v <= 0xdfff || v > 0x10ffff {
			return "", langdef.InvalidRuneError
		} else {
			r = utf8.AppendRune(r, rune(v))
		}
	}
	return string(r), 0
}

func literal(quoted, want string, code int) {
	g, e := langdef.ParseString("name", `$a=/.*/; g=$a, `+quoted+`;`)
	if code != 0 {
		var le *llx.Error
		sym.Assert(errors.As(e, &le) && le.Code == code && le.SourceName == "name" && le.Line == 1 && le.Col == 16, "wrong escape is reported")
		return
	}
	if e != nil {
		sym.Fail("literal is accepted: " + e.Error())
	}
	sym.Assert(len(g.Tokens) == 2 && g.Tokens[1].Name == want && g.Tokens[1].Flags == grammar.LiteralToken, "text of a literal")
}

// H_Single: single-quoted literals are verbatim.
//
//zz:bounds any 0..3 (thorough 4) ASCII bytes except for the quote and NUL, and one two-byte symbol
func H_Single() {
	b := sym.Bytes("text", sym.Choice("n", sym.N(4, 5)))
	for _, c := range b {
		sym.Assume(c != '\'' && c < 128)
	}
	s := string(b)
	if sym.Bool("wide") {
		s += "\u0416"
	}
	literal("'"+s+"'", s, 0)
}

// H_Double: double-quoted literals.
//
//zz:bounds any 0..3 (thorough 4) ASCII bytes with no bare quote
func H_Double() {
	n := sym.Choice("n", sym.N(4, 5))
	b := sym.Bytes("text", n)
	esc := false
	for _, c := range b {
		sym.Assume(c < 128 && (c != '"' || esc) && (c != '\n' || !esc))
		esc = c == '\\' && !esc
	}
	sym.Assume(!esc)
	s := string(b)
	w, code := decode(s)
	literal(`"`+s+`"`, w, code)
}

// H_Code: escapes by code.
//
//zz:bounds \x, \u, \U with any digits where up to 3 (thorough 5) are arbitrary bytes of {0,1,7,8,9,a,D,f,G,space,\,n} and the rest any of a few fixed values
func H_Code() {
	forms := []struct{ pre, post string }{
		{`a\x`, ""}, {`\x`, "b"}, {`\u`, ""}, {`\u0`, ""}, {`\ud`, "0"}, {`\U0000`, ""}, {`\U00`, "00"}, {`\U0010`, ""}, {`\U`, "0041"}, {`\`, ""}, {`\uD7f`, ``}, {`\x8`, `\x80`},
	}
	f := forms[sym.Choice("form", len(forms))]
	n := sym.Choice("n", sym.N(4, 6))
	x := sym.StringOf("digits", n, "01789aDfG \\n")
	esc := false
	s := f.pre + x + f.post
	for i := range len(s) {
		esc = s[i] == '\\' && !esc
	}
	sym.Assume(!esc)
	w, code := decode(s)
	literal(`"`+s+`"`, w, code)
}

// H_Match: a literal matches its own text only.
//
//zz:bounds 12 literals and texts of up to 3 arbitrary bytes (quick: over {\,n,x,4,1,LF,",A,C3,A9,80})
func H_Match() {
	lits := []struct{ quoted, text string }{
		{`'\n'`, `\n`}, {`"\n"`, "\n"}, {`"\\n"`, `\n`}, {`'\x41'`, `\x41`}, {`"\x41"`, "A"}, {`"\""`, `"`}, {`'"'`, `"`}, {`"é"`, "é"}, {`"\xC3\xa9"`, "é"}, {`"\u00e9"`, "é"}, {`"\U000000E9"`, "é"}, {`"\x80"`, "\x80"},
	}
	l := lits[sym.Choice("literal", len(lits))]
	p := matcher(l.quoted)
	var text string
	n := sym.Choice("n", 5)
	if sym.Thorough() && n < 4 {
		text = sym.String("text", n)
	} else {
		text = sym.StringOf("text", n, "\\nx41\n\"A\xc3\xa9\x80")
	}
	_, e := p.ParseString(context.Background(), "name", text, parser.Hooks{}, parser.WithFullSource())
	sym.Assert((e == nil) == (text == l.text), "a literal matches its text only")
}

var matchers map[string]*parser.Parser

func matcher(q string) *parser.Parser {
	return matchers[q]
}

func Setup_Match() {
	matchers = map[string]*parser.Parser{}
	for _, q := range strings.Fields(`'\n' "\n" "\\n" '\x41' "\x41" "\"" '"' "é" "\xC3\xa9" "\u00e9" "\U000000E9" "\x80"`) {
		g, e := langdef.ParseString("", "$a=/.*/; g="+q+";")
		if e != nil {
			panic(e)
		}
		p, e := parser.New(g)
		if e != nil {
			panic(e)
		}
		matchers[q] = p
	}
}
