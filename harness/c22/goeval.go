package c22

import (
	"strconv"
	"strings"

	"github.com/ava12/llx/grammar"
)

// A reader of the part of Go a generated file may use: the value it declares,
// or the reason why it is not valid.

type goTok struct {
	kind byte // i, n, s, or the operator; 0 is the end
	text string
}

type goReader struct {
	toks  []goTok
	i     int
	fails string
	str   bool // mentions type string
	imp   string
}

var keywords = map[string]bool{
	"break": true, "case": true, "chan": true, "const": true, "continue": true, "default": true, "defer": true, "else": true,
	"fallthrough": true, "for": true, "func": true, "go": true, "goto": true, "if": true, "import": true, "interface": true,
	"map": true, "package": true, "range": true, "return": true, "select": true, "struct": true, "switch": true, "type": true, "var": true,
}

func isLetter(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

func (r *goReader) fail(msg string) {
	if r.fails == "" {
		r.fails = msg
	}
	r.i = len(r.toks) - 1
}

// scan splits a text into tokens, semicolons included.
func scan(s string) (toks []goTok, ok bool) {
	last := byte(';')
	add := func(k byte, t string) {
		toks = append(toks, goTok{k, t})
		last = k
	}
	newline := func() {
		if last == 'i' || last == 'n' || last == 's' || last == ')' || last == ']' || last == '}' {
			add(';', "")
		}
	}
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\n':
			newline()
			i++
		case c == ' ' || c == '\t' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case c == '/' && i+1 < len(s) && s[i+1] == '*':
			j := strings.Index(s[i+2:], "*/")
			if j < 0 {
				return toks, false
			}
			if strings.IndexByte(s[i:i+2+j], '\n') >= 0 {
				newline()
			}
			i += j + 4
		case isLetter(c):
			j := i
			for i < len(s) && (isLetter(s[i]) || isDigit(s[i])) {
				i++
			}
			k := byte('i')
			if keywords[s[j:i]] {
				k = 'k'
			}
			add(k, s[j:i])
		case isDigit(c):
			j := i
			for i < len(s) && (isLetter(s[i]) || isDigit(s[i])) {
				i++
			}
			add('n', s[j:i])
		case c == '"':
			text, n := stringLit(s[i:])
			if n == 0 {
				return toks, false
			}
			add('s', text)
			i += n
		case c == '`':
			j := strings.IndexByte(s[i+1:], '`')
			if j < 0 {
				return toks, false
			}
			add('s', strings.ReplaceAll(s[i+1:i+1+j], "\r", ""))
			i += j + 2
		default:
			add(c, "")
			i++
		}
	}
	newline()
	add(0, "")
	return toks, true
}

func hexDigit(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// stringLit reads an interpreted string literal; n is 0 for a malformed one.
func stringLit(s string) (text string, n int) {
	var b []byte
	for i := 1; i < len(s); {
		c := s[i]
		i++
		switch {
		case c == '"':
			return string(b), i
		case c == '\n':
			return "", 0
		case c != '\\':
			b = append(b, c)
		default:
			if i >= len(s) {
				return "", 0
			}
			c = s[i]
			i++
			digits := 0
			switch c {
			case 'a':
				b = append(b, 7)
			case 'b':
				b = append(b, 8)
			case 'f':
				b = append(b, 12)
			case 'n':
				b = append(b, 10)
			case 'r':
				b = append(b, 13)
			case 't':
				b = append(b, 9)
			case 'v':
				b = append(b, 11)
			case '\\', '"':
				b = append(b, c)
			case 'x':
				digits = 2
			case 'u':
				digits = 4
			case 'U':
				digits = 8
			case '0', '1', '2', '3':
				if i+2 > len(s) {
					return "", 0
				}
				b = append(b, (c-'0')<<6|(s[i]-'0')<<3|(s[i+1]-'0'))
				i += 2
			default:
				return "", 0
			}
			if digits > 0 {
				if i+digits > len(s) {
					return "", 0
				}
				v := 0
				for _, d := range []byte(s[i : i+digits]) {
					h := hexDigit(d)
					if h < 0 {
						return "", 0
					}
					v = v<<4 | h
				}
				i += digits
				if digits == 2 {
					b = append(b, byte(v))
				} else {
					if v > 0x10FFFF || v >= 0xD800 && v < 0xE000 {
						return "", 0
					}
					b = append(b, string(rune(v))...)
				}
			}
		}
	}
	return "", 0
}

func (r *goReader) kind() byte { return r.toks[r.i].kind }

func (r *goReader) eat(k byte) bool {
	if r.kind() == k {
		r.i++
		return true
	}
	return false
}

func (r *goReader) need(k byte) {
	if !r.eat(k) {
		r.fail("syntax error: no " + string(rune(k)) + " after token " + strconv.Itoa(r.i))
	}
}

func (r *goReader) word(k byte) string {
	t := r.toks[r.i]
	if t.kind != k {
		r.fail("syntax error: no name or string after token " + strconv.Itoa(r.i))
		return ""
	}
	r.i++
	return t.text
}

func (r *goReader) keyword(w string) bool {
	if t := r.toks[r.i]; t.kind == 'k' && t.text == w {
		r.i++
		return true
	}
	return false
}

// typeName is pkg.Name of the grammar package.
func (r *goReader) typeName(name string) {
	if r.word('i') != r.imp {
		r.fail("unknown package")
	}
	r.need('.')
	if r.word('i') != name {
		r.fail("wrong type")
	}
}

func (r *goReader) int() (v int) {
	neg := r.eat('-')
	t := r.word('n')
	u, e := strconv.ParseUint(t, 0, 64)
	if e != nil || len(t) > 1 && t[0] == '0' && isDigit(t[1]) {
		r.fail("number")
	}
	v = int(u)
	if v < 0 && !(neg && v == -v) {
		r.fail("number does not fit")
	}
	if neg {
		v = -v
	}
	return v
}

func (r *goReader) bits() grammar.BitSet {
	if r.kind() == '-' {
		r.fail("negative bit set")
	}
	u, e := strconv.ParseUint(r.word('n'), 0, 64)
	if e != nil {
		r.fail("number")
	}
	return u
}

// fields reads the body of a struct literal.
func (r *goReader) fields(names []string, field func(i int)) {
	r.need('{')
	if r.eat('}') {
		return
	}
	keyed := r.kind() == 'i' && r.toks[r.i+1].kind == ':'
	var seen [16]bool
	for n := 0; r.fails == ""; n++ {
		f := n
		if keyed {
			name := r.word('i')
			r.need(':')
			for f = 0; f < len(names) && names[f] != name; f++ {
			}
			if f < len(names) && seen[f] {
				r.fail("duplicate field")
			}
		}
		if f >= len(names) {
			r.fail("unknown field")
			return
		}
		seen[f] = true
		field(f)
		if r.eat(',') {
			if !r.eat('}') {
				continue
			}
		} else {
			r.need('}')
		}
		if !keyed && n+1 != len(names) {
			r.fail("too few values")
		}
		return
	}
}

// list reads a slice literal or nil.
func (r *goReader) list(name string, item func()) {
	if t := r.toks[r.i]; t.kind == 'i' && t.text == "nil" {
		r.i++
		return
	}
	r.need('[')
	r.need(']')
	if name == "string" {
		r.str = true
		if r.word('i') != "string" {
			r.fail("wrong type")
		}
	} else {
		r.typeName(name)
	}
	r.need('{')
	for r.fails == "" && !r.eat('}') {
		if name != "string" && r.kind() == 'i' {
			r.typeName(name)
		}
		item()
		if !r.eat(',') {
			r.need('}')
			return
		}
	}
}

var (
	grammarFields = []string{"Tokens", "Layers", "Nodes", "States", "MultiRules", "Rules"}
	tokenFields   = []string{"Name", "Re", "Group", "Flags"}
	layerFields   = []string{"Type", "Commands"}
	commandFields = []string{"Command", "Arguments"}
	nodeFields    = []string{"Name", "FirstState"}
	stateFields   = []string{"TokenTypes", "LowMultiRule", "HighMultiRule", "LowRule", "HighRule"}
	multiFields   = []string{"Token", "LowRule", "HighRule"}
	ruleFields    = []string{"Token", "State", "Node"}
)

func (r *goReader) grammar(g *grammar.Grammar) {
	r.fields(grammarFields, func(i int) {
		switch i {
		case 0:
			r.list("Token", func() {
				var t grammar.Token
				r.fields(tokenFields, func(i int) {
					switch i {
					case 0:
						t.Name = r.word('s')
					case 1:
						t.Re = r.word('s')
					case 2:
						t.Group = r.int()
					case 3:
						t.Flags = grammar.TokenFlags(r.int())
					}
				})
				g.Tokens = append(g.Tokens, t)
			})
		case 1:
			r.list("Layer", func() {
				var l grammar.Layer
				r.fields(layerFields, func(i int) {
					if i == 0 {
						l.Type = r.word('s')
						return
					}
					r.list("LayerCommand", func() {
						var c grammar.LayerCommand
						r.fields(commandFields, func(i int) {
							if i == 0 {
								c.Command = r.word('s')
								return
							}
							r.list("string", func() { c.Arguments = append(c.Arguments, r.word('s')) })
						})
						l.Commands = append(l.Commands, c)
					})
				})
				g.Layers = append(g.Layers, l)
			})
		case 2:
			r.list("Node", func() {
				var n grammar.Node
				r.fields(nodeFields, func(i int) {
					if i == 0 {
						n.Name = r.word('s')
					} else {
						n.FirstState = r.int()
					}
				})
				g.Nodes = append(g.Nodes, n)
			})
		case 3:
			r.list("State", func() {
				var s grammar.State
				r.fields(stateFields, func(i int) {
					switch i {
					case 0:
						s.TokenTypes = r.bits()
					case 1:
						s.LowMultiRule = r.int()
					case 2:
						s.HighMultiRule = r.int()
					case 3:
						s.LowRule = r.int()
					case 4:
						s.HighRule = r.int()
					}
				})
				g.States = append(g.States, s)
			})
		case 4:
			r.list("MultiRule", func() {
				var m grammar.MultiRule
				r.fields(multiFields, func(i int) {
					switch i {
					case 0:
						m.Token = r.int()
					case 1:
						m.LowRule = r.int()
					case 2:
						m.HighRule = r.int()
					}
				})
				g.MultiRules = append(g.MultiRules, m)
			})
		case 5:
			r.list("Rule", func() {
				var m grammar.Rule
				r.fields(ruleFields, func(i int) {
					switch i {
					case 0:
						m.Token = r.int()
					case 1:
						m.State = r.int()
					case 2:
						m.Node = r.int()
					}
				})
				g.Rules = append(g.Rules, m)
			})
		}
	})
}

// evalGo gives the package, the variable, and its value.
func evalGo(text string) (pkg, name string, g *grammar.Grammar, fails string) {
	toks, ok := scan(text)
	if !ok {
		return "", "", nil, "a string or comment is not closed"
	}
	r := &goReader{toks: toks}
	if !r.keyword("package") {
		return "", "", nil, "no package clause"
	}
	pkg = r.word('i')
	if pkg == "_" {
		r.fail("invalid package name")
	}
	r.need(';')
	for r.keyword("import") {
		one := func() {
			r.imp = "grammar"
			if r.kind() == 'i' {
				r.imp = r.word('i')
			}
			if r.word('s') != "github.com/ava12/llx/grammar" {
				r.fail("unknown import")
			}
		}
		if r.eat('(') {
			for r.fails == "" && !r.eat(')') {
				one()
				r.eat(';')
			}
		} else {
			one()
		}
		r.need(';')
	}
	if !r.keyword("var") {
		r.fail("no variable")
	}
	name = r.word('i')
	if r.eat('*') {
		r.typeName("Grammar")
	}
	r.need('=')
	r.need('&')
	r.typeName("Grammar")
	g = &grammar.Grammar{}
	r.grammar(g)
	r.need(';')
	if r.kind() != 0 {
		r.fail("extra text after the variable")
	}
	switch {
	case r.fails != "":
	case name == r.imp:
		r.fails = "the variable has the name of an import"
	case name == "init":
		r.fails = "cannot declare init"
	case name == "main" && pkg == "main":
		r.fails = "cannot declare main"
	case name == "string" && r.str:
		r.fails = "string is not a type"
	}
	return pkg, name, g, r.fails
}
