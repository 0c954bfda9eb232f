// Package c18: the grammar compiler.
package c18

import (
	"regexp"
	"strings"

	"github.com/ava12/llx/grammar"
	"github.com/ava12/llx/langdef"
)

// lex is a lexeme of a description: n(ame), s(tring), d(irective),
// T(emplate name), k (token name), r(egexp), o(perator), x (broken).
type lex struct {
	kind byte
	text string
	val  string // value of a string
	pos  int
	code int // what is wrong with a broken lexeme
}

// failure is something wrong with a description; at is the lexeme, -1 if no
// lexeme is to blame.
type failure struct{ code, at int }

type tokDef struct {
	name, re        string
	group           int
	flags           grammar.TokenFlags
	defined, listed bool
}

// expr is the right-hand side of a node.
type expr struct {
	op  byte // t(oken), l(iteral), n(ode), $, s(equence), | , (, [, {
	s   string
	sub []*expr
}

type node struct {
	name string
	e    *expr
}

// ref is what a description means.
type ref struct {
	lx       []lex
	p        int
	fails    []failure
	syntax   int // place of the syntax error, -1 if none
	toks     []*tokDef
	lits     []string
	reserved map[string]bool
	white    bool // literals are restricted
	types    bool // literal types are restricted
	tpl      map[string]string
	layers   []grammar.Layer
	nodes    []node
	groups   int
	eoi      bool     // $ is used in nodes
	used     []string // node names in order of appearance
}

type stop struct{}

func (r *ref) fail(code, at int) { r.fails = append(r.fails, failure{code, at}) }

func (r *ref) bad() {
	r.syntax = r.p
	code := langdef.UnexpectedTokenError
	if r.p >= len(r.lx) {
		code = langdef.UnexpectedEofError
	} else if r.lx[r.p].kind == 'x' {
		code = r.lx[r.p].code
	}
	r.fail(code, r.p)
	panic(stop{})
}

func (r *ref) peek() lex {
	if r.p < len(r.lx) {
		return r.lx[r.p]
	}
	return lex{}
}

func (r *ref) is(op string) bool { l := r.peek(); return l.kind == 'o' && l.text == op }

func (r *ref) take(kinds string) lex {
	l := r.peek()
	if l.kind == 0 || strings.IndexByte(kinds, l.kind) < 0 {
		r.bad()
	}
	r.p++
	return l
}

func (r *ref) op(ops ...string) string {
	for _, o := range ops {
		if r.is(o) {
			r.p++
			return o
		}
	}
	r.bad()
	return ""
}

func (r *ref) tok(name string) *tokDef {
	for _, t := range r.toks {
		if t.name == name {
			return t
		}
	}
	return nil
}

func (r *ref) mention(name string) *tokDef {
	t := r.tok(name)
	if t == nil {
		t = &tokDef{name: name}
		r.toks = append(r.toks, t)
	}
	return t
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// meaning reads a description.
func meaning(lx []lex) (r *ref) {
	r = &ref{lx: lx, syntax: -1, reserved: map[string]bool{}, tpl: map[string]string{}}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(stop); !ok {
				panic(p)
			}
		}
	}()
	for {
		l := r.peek()
		at := r.p
		switch {
		case l.kind == 'd':
			r.p++
			r.directive(l.text, at)
		case l.kind == 'T':
			r.p++
			name := l.text[2:]
			if _, dup := r.tpl[name]; dup {
				r.fail(langdef.TemplateDefinedError, at)
			}
			re, ok := r.body()
			if ok {
				r.tpl[name] = re
			}
		case l.kind == 'k':
			r.p++
			name := l.text[1:]
			if t := r.tok(name); name == "" || t != nil && t.defined {
				r.fail(langdef.TokenDefinedError, at)
			}
			re, ok := r.body()
			if ok && name != "" {
				t := r.mention(name)
				t.re, t.defined = re, true
				// defined types go in order of their definitions
				for i, x := range r.toks {
					if x == t {
						r.toks = append(r.toks[:i:i], r.toks[i+1:]...)
						break
					}
				}
				r.toks = append(r.toks, t)
			}
		case r.is("@"):
			r.layer()
		case l.kind == 'n':
			r.section()
			return
		default:
			r.bad()
		}
	}
}

func (r *ref) directive(name string, at int) {
	kinds := "k"
	switch name {
	case "!side", "!error", "!extern", "!caseless", "!group":
	case "!reserved":
		kinds = "s"
	case "!literal":
		kinds = "sk"
	default:
		r.fail(langdef.UnknownDirectiveError, at)
		panic(stop{})
	}
	start := r.p
	for !r.is(";") {
		r.take(kinds)
	}
	args := r.lx[start:r.p]
	r.p++
	if name == "!group" {
		r.groups++
	}
	for i, a := range args {
		if a.kind == 's' {
			if !has(r.lits, a.val) {
				r.lits = append(r.lits, a.val)
			}
			if name == "!reserved" {
				r.reserved[a.val] = true
			} else {
				r.white = true
			}
			continue
		}
		if a.text == "$" {
			if name == "!extern" {
				r.fail(langdef.TokenDefinedError, start+i)
			} else {
				r.fail(langdef.UndefinedTokenError, -1)
			}
			continue
		}
		t := r.mention(a.text[1:])
		switch name {
		case "!side":
			t.flags |= grammar.SideToken
		case "!error":
			t.flags |= grammar.ErrorToken
		case "!extern":
			t.flags |= grammar.ExternalToken
		case "!caseless":
			t.flags |= grammar.CaselessToken
		case "!group":
			if t.group != 0 {
				r.fail(langdef.ReassignedGroupError, -1)
			}
			t.group = r.groups
		case "!literal":
			r.types, t.listed = true, true
		}
	}
}

// body is a list of regular expressions and templates.
func (r *ref) body() (string, bool) {
	r.op("=")
	start := r.p
	r.take("nr")
	for r.peek().kind == 'n' || r.peek().kind == 'r' {
		r.p++
	}
	re, ok := "", true
	for i, l := range r.lx[start:r.p] {
		if l.kind == 'r' {
			re += l.text[1 : len(l.text)-1]
			continue
		}
		x, known := r.tpl[l.text]
		if !known {
			r.fail(langdef.UnknownTemplateError, start+i)
			ok = false
		}
		re += x
	}
	if ok {
		if _, e := regexp.Compile(re); e != nil {
			r.fail(langdef.WrongRegexpError, start)
			ok = false
		}
	}
	r.op(";")
	return re, ok
}

func (r *ref) layer() {
	r.op("@")
	l := grammar.Layer{Type: r.take("n").text}
	for !r.is(";") {
		c := grammar.LayerCommand{Command: r.take("n").text}
		r.op("(")
		if !r.is(")") {
			for {
				a := r.take("ns")
				if a.kind == 's' {
					a.text = a.val
				}
				c.Arguments = append(c.Arguments, a.text)
				if r.op(",", ")") == ")" {
					break
				}
			}
		} else {
			r.p++
		}
		l.Commands = append(l.Commands, c)
	}
	r.p++
	r.layers = append(r.layers, l)
}

// section is the list of nodes.
func (r *ref) section() {
	for _, t := range r.toks {
		if !t.defined && t.flags&grammar.ExternalToken == 0 {
			r.fail(langdef.UndefinedTokenError, -1)
		}
		if r.types && !t.listed {
			t.flags |= grammar.NoLiteralsToken
		}
	}
	for r.p < len(r.lx) {
		if r.is("@") {
			r.layer()
			continue
		}
		l := r.take("n")
		for _, n := range r.nodes {
			if n.name == l.text {
				r.fail(langdef.NodeDefinedError, r.p-1)
			}
		}
		if !has(r.used, l.text) {
			r.used = append(r.used, l.text)
		}
		r.op("=")
		e := r.seq()
		r.op(";")
		r.nodes = append(r.nodes, node{l.text, e})
	}
	r.links()
}

func (r *ref) seq() *expr {
	e := &expr{op: 's'}
	for {
		e.sub = append(e.sub, r.alts())
		if !r.is(",") {
			return e
		}
		r.p++
	}
}

func (r *ref) alts() *expr {
	e := &expr{op: '|'}
	for {
		e.sub = append(e.sub, r.variant())
		if !r.is("|") {
			return e
		}
		r.p++
	}
}

func (r *ref) variant() *expr {
	l, at := r.peek(), r.p
	switch l.kind {
	case 'n':
		r.p++
		if !has(r.used, l.text) {
			r.used = append(r.used, l.text)
		}
		return &expr{op: 'n', s: l.text}
	case 'k':
		r.p++
		if l.text == "$" {
			r.eoi = true
			return &expr{op: '$'}
		}
		t := r.tok(l.text[1:])
		if t == nil || !t.defined && t.flags&grammar.ExternalToken == 0 {
			r.fail(langdef.UnknownTokenError, at)
		} else if t.flags&(grammar.SideToken|grammar.ErrorToken) != 0 {
			r.fail(langdef.WrongTokenError, at)
		}
		return &expr{op: 't', s: l.text[1:]}
	case 's':
		r.p++
		if !has(r.lits, l.val) {
			if r.white {
				r.fail(langdef.UnknownLiteralError, -1)
			}
			r.lits = append(r.lits, l.val)
		}
		return &expr{op: 'l', s: l.val}
	case 'o':
		for i := 0; i < 3; i++ {
			if l.text == "([{"[i:i+1] {
				r.p++
				e := &expr{op: l.text[0], sub: []*expr{r.seq()}}
				r.op(")]}"[i : i+1])
				return e
			}
		}
	}
	r.bad()
	return nil
}

// literalTypes are the token types a literal may come as.
func (r *ref) literalTypes(lit string) (l []string) {
	for _, t := range r.toks {
		if !t.defined || t.flags&grammar.NoLiteralsToken != 0 {
			continue
		}
		if t.flags&grammar.CaselessToken != 0 && strings.ToUpper(lit) != lit {
			continue
		}
		if regexp.MustCompile("(?s:"+t.re+")").FindString(lit) == lit {
			l = append(l, t.name)
		}
	}
	return
}

// links looks at what the nodes use.
func (r *ref) links() {
	for _, l := range r.lits {
		if len(r.literalTypes(l)) == 0 {
			r.fail(langdef.UnresolvedTokenTypesError, -1)
		}
	}
	def := map[string]*expr{}
	for _, n := range r.nodes {
		if def[n.name] == nil {
			def[n.name] = n.e
		}
	}
	for _, n := range r.used {
		if def[n] == nil {
			r.fail(langdef.UnknownNodeError, -1)
			return
		}
	}

	reached := []string{r.nodes[0].name}
	for i := 0; i < len(reached); i++ {
		nodesOf(def[reached[i]], &reached)
	}
	if len(reached) < len(r.used) {
		r.fail(langdef.UnusedNodeError, -1)
	}

	// nodes that begin with something
	live := map[string]bool{}
	for ch := true; ch; {
		ch = false
		for _, n := range r.used {
			if !live[n] && starts(def[n], live) {
				live[n], ch = true, true
			}
		}
	}
	for _, n := range r.used {
		if !live[n] {
			r.fail(langdef.UnresolvedError, -1)
			break
		}
	}

	// nodes that may begin with themselves
	for _, n := range r.used {
		var seen []string
		firstNodes(def[n], &seen)
		for i := 0; i < len(seen); i++ {
			firstNodes(def[seen[i]], &seen)
		}
		if has(seen, n) {
			r.fail(langdef.RecursionError, -1)
			break
		}
	}
}

func nodesOf(e *expr, l *[]string) {
	if e.op == 'n' && !has(*l, e.s) {
		*l = append(*l, e.s)
	}
	for _, x := range e.sub {
		nodesOf(x, l)
	}
}

// optional expressions may be left out; a node always counts as something.
func optional(e *expr) bool {
	switch e.op {
	case '[', '{':
		return true
	case '|':
		for _, x := range e.sub {
			if optional(x) {
				return true
			}
		}
		return false
	case 's', '(':
		for _, x := range e.sub {
			if !optional(x) {
				return false
			}
		}
		return true
	}
	return false
}

func starts(e *expr, live map[string]bool) bool {
	switch e.op {
	case 'n':
		return live[e.s]
	case 't', 'l', '$':
		return true
	}
	for _, x := range e.sub {
		if starts(x, live) {
			return true
		}
		if e.op == 's' && !optional(x) {
			break
		}
	}
	return false
}

func firstNodes(e *expr, l *[]string) {
	if e.op == 'n' && !has(*l, e.s) {
		*l = append(*l, e.s)
	}
	for _, x := range e.sub {
		firstNodes(x, l)
		if e.op == 's' && !optional(x) {
			break
		}
	}
}
