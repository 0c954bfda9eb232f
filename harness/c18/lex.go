package c18

import (
	"strings"
	"unicode/utf8"

	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/langdef"
	"github.com/ava12/llx/lexer"
)

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }

func digit(c byte) bool { return c >= '0' && c <= '9' }

func hex(c byte) int {
	switch {
	case digit(c):
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// name gives the end of the name that starts at p, p if there is none.
func name(s string, p int) int {
	if p >= len(s) || !letter(s[p]) {
		return p
	}
	for p < len(s) && (letter(s[p]) || digit(s[p]) || s[p] == '-') {
		p++
	}
	return p
}

// scan splits a description into lexemes. A broken lexeme (kind x) is the last one.
func scan(s string) (l []lex) {
	for p := 0; ; {
		for p < len(s) && (s[p] == ' ' || s[p] == '\t' || s[p] == '\n' || s[p] == '\f' || s[p] == '\r' || s[p] == '#') {
			if s[p] == '#' {
				for p < len(s) && s[p] != '\n' {
					p++
				}
			} else {
				p++
			}
		}
		if p == len(s) {
			return
		}
		x := one(s, p)
		x.pos = p
		l = append(l, x)
		if x.kind == 'x' {
			return
		}
		p += len(x.text)
	}
}

func one(s string, p int) lex {
	bad := lex{kind: 'x', code: lexer.BadTokenError}
	n := name(s, p)
	switch c := s[p]; {
	case n > p:
		return lex{kind: 'n', text: s[p:n]}
	case strings.IndexByte("(){}[]=|,;@", c) >= 0:
		return lex{kind: 'o', text: s[p : p+1]}
	case c == '$':
		if p+1 < len(s) && s[p+1] == '$' {
			if n = name(s, p+2); n > p+2 {
				return lex{kind: 'T', text: s[p:n]}
			}
		}
		return lex{kind: 'k', text: s[p:name(s, p+1)]}
	case c == '!':
		for n = p + 1; n < len(s) && s[n] >= 'a' && s[n] <= 'z'; n++ {
		}
		if n == p+1 {
			return bad
		}
		return lex{kind: 'd', text: s[p:n]}
	case c == '\'':
		for n = p + 1; n < len(s) && s[n] != '\''; n++ {
		}
		if n >= len(s) {
			return bad
		}
		return lex{kind: 's', text: s[p : n+1], val: s[p+1 : n]}
	case c == '/':
		for n = p + 1; n < len(s) && s[n] != '/'; n++ {
			if s[n] == '\\' {
				n++
			}
		}
		if n >= len(s) || n == p+1 {
			return bad
		}
		return lex{kind: 'r', text: s[p : n+1]}
	case c == '"':
		code := 0
		var val []byte
		for n = p + 1; n < len(s) && s[n] != '"'; n++ {
			if s[n] != '\\' {
				val = append(val, s[n])
				continue
			}
			n++
			if n == len(s) || s[n] == '\n' {
				return bad
			}
			if code != 0 {
				continue
			}
			digits := 0
			switch s[n] {
			case '\\', '"':
				val = append(val, s[n])
			case 'n':
				val = append(val, '\n')
			case 'r':
				val = append(val, '\r')
			case 't':
				val = append(val, '\t')
			case 'x':
				digits = 2
			case 'u':
				digits = 4
			case 'U':
				digits = 8
			default:
				code = langdef.InvalidEscapeError
			}
			if digits == 0 {
				continue
			}
			v := 0
			for i := 1; i <= digits; i++ {
				if n+i >= len(s) || hex(s[n+i]) < 0 {
					code = langdef.InvalidEscapeError
					break
				}
				v = v*16 + hex(s[n+i])
			}
			if code != 0 {
				continue
			}
			n += digits
			if digits == 2 {
				val = append(val, byte(v))
			} else if v > 0x10ffff || v >= 0xd800 && v <= 0xdfff {
				code = langdef.InvalidRuneError
			} else {
				val = utf8.AppendRune(val, rune(v))
			}
		}
		if n >= len(s) {
			return bad
		}
		if code != 0 {
			return lex{kind: 'x', code: code}
		}
		return lex{kind: 's', text: s[p : n+1], val: string(val)}
	}
	return lex{kind: 'x', code: lexer.WrongCharError}
}

var frames = [][2]string{
	{"", "$t=/[a-z]/;g=$t;"},
	{"$t=/[a-z]/;", "g=$t;"},
	{"$t=/[a-z]/;g=", ";"},
	{"$t=/[a-z]/;g=$t", ""},
	{"$t=", ";g=$t;"},
	{"$$x=/[a-z]/;$t=x", ";g=$t;"},
	{"$t=/./;!literal ", ";g=$t;"},
	{"$t=/./;@a g(", ");g=$t;"},
	{"$t=/./;g='a'|\"", "\";"},
}

// H_Bytes: descriptions with arbitrary text in the middle.
//
//zz:bounds 9 descriptions with 0..4 (thorough 5) bytes in the middle over {a,g,$,',",\,/,!,comma,;,=,(,),|,],[,space,LF,#,-,.,x,4,NUL}
func H_Bytes() {
	n := sym.Choice("n", sym.N(5, 6))
	f := frames[sym.Choice("frame", len(frames))]
	x := sym.StringOf("text", n, "ag$'\"\\/!,;=()|][ \n#-.x4\x00")
	text := f[0] + x + f[1]
	judge(text, meaning(scan(text)))
}

// H_Escape: double-quoted literals.
//
//zz:bounds double-quoted literal of 1..4 (thorough 6) bytes over {\,x,u,",n,4,8,a,G} and of \x, \u, \U and all digits where 3 are arbitrary out of {0,1,4,8,D,d,f,F,g,"}
func H_Escape() {
	var x string
	if sym.Bool("long") {
		i := sym.Choice("escape", 5)
		pre := []string{`\x`, `\u`, `\uD`, `\U00`, `\U0000d`}[i]
		post := []string{"", "1", "", "0fa", ""}[i]
		x = pre + sym.StringOf("digits", 3, "0148Ddf8Fg\"") + post
	} else {
		x = sym.StringOf("text", 1+sym.Choice("n", sym.N(4, 6)), "\\xu\"n48aG")
	}
	text := "$t=/(?s:.*)/;g=\"" + x + "\";"
	judge(text, meaning(scan(text)))
}
