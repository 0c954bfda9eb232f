package zzc24

import (
	"math"
	"strconv"
)

// The reference: a recursive descent reader of inputs and an evaluator that
// makes operations strictly in order.

type node struct {
	kind string // num, var, call, op, neg, paren, assign, func
	val  float64
	name string
	op   byte
	args []*node
	pars []string
	bad  bool // number out of range
}

type reader struct {
	s   string
	p   int
	eoi bool // something was expected at the end of input
	bad bool // a number is out of range or an argument is repeated
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isLetter(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

func (r *reader) space() {
	for r.p < len(r.s) && (r.s[r.p] == ' ' || r.s[r.p] == '\n' || r.s[r.p] == '\t' || r.s[r.p] == '\r' || r.s[r.p] == '\f') {
		r.p++
	}
}

func (r *reader) at(c byte) bool {
	r.space()
	return r.p < len(r.s) && r.s[r.p] == c
}

func (r *reader) end() bool {
	r.space()
	return r.p >= len(r.s)
}

// need skips a required symbol.
func (r *reader) need(c byte) bool {
	if r.at(c) {
		r.p++
		return true
	}
	r.eoi = r.eoi || r.end()
	return false
}

func (r *reader) digits() bool {
	from := r.p
	for r.p < len(r.s) && isDigit(r.s[r.p]) {
		r.p++
	}
	return r.p > from
}

func (r *reader) number() *node {
	from := r.p
	if r.p < len(r.s) && r.s[r.p] == '-' {
		r.p++
	}
	if !r.digits() {
		r.p = from
		return nil
	}
	end := r.p
	if r.p < len(r.s) && r.s[r.p] == '.' {
		r.p++
		if r.digits() {
			end = r.p
		} else {
			r.p = end
		}
	}
	if r.p < len(r.s) && (r.s[r.p] == 'e' || r.s[r.p] == 'E') {
		r.p++
		if r.p < len(r.s) && r.s[r.p] == '-' {
			r.p++
		}
		if r.digits() {
			end = r.p
		}
	}
	r.p = end
	v, e := strconv.ParseFloat(r.s[from:end], 64)
	r.bad = r.bad || e != nil
	return &node{kind: "num", val: v, bad: e != nil}
}

func (r *reader) name() string {
	r.space()
	from := r.p
	if r.p < len(r.s) && isLetter(r.s[r.p]) {
		r.p++
		for r.p < len(r.s) && (isLetter(r.s[r.p]) || isDigit(r.s[r.p]) || r.s[r.p] == '_') {
			r.p++
		}
	}
	return r.s[from:r.p]
}

func (r *reader) value() *node {
	if r.end() {
		r.eoi = true
		return nil
	}
	if n := r.number(); n != nil {
		return n
	}
	if r.at('(') {
		r.p++
		n := r.expr()
		if n == nil || !r.need(')') {
			return nil
		}
		return &node{kind: "paren", args: []*node{n}}
	}
	name := r.name()
	if name == "" {
		return nil
	}
	if !r.at('(') {
		return &node{kind: "var", name: name}
	}
	r.p++
	n := &node{kind: "call", name: name}
	if r.at(')') {
		r.p++
		return n
	}
	for {
		a := r.expr()
		if a == nil {
			return nil
		}
		n.args = append(n.args, a)
		if r.at(',') {
			r.p++
		} else if r.need(')') {
			return n
		} else {
			return nil
		}
	}
}

func (r *reader) pow() *node {
	n := r.value()
	if n == nil || !r.at('^') {
		return n
	}
	r.p++
	x := r.pow()
	if x == nil {
		return nil
	}
	return &node{kind: "op", op: '^', args: []*node{n, x}}
}

func (r *reader) pro() *node {
	n := r.pow()
	for n != nil && (r.at('*') || r.at('/')) {
		op := r.s[r.p]
		r.p++
		x := r.pow()
		if x == nil {
			return nil
		}
		n = &node{kind: "op", op: op, args: []*node{n, x}}
	}
	return n
}

func (r *reader) expr() *node {
	neg := false
	if r.at('-') && !(r.p+1 < len(r.s) && isDigit(r.s[r.p+1])) {
		r.p++
		neg = true
	}
	n := r.pro()
	if n != nil && neg {
		n = &node{kind: "neg", args: []*node{n}}
	}
	for n != nil && (r.at('+') || r.at('-')) {
		op := r.s[r.p]
		r.p++
		x := r.pro()
		if x == nil {
			return nil
		}
		n = &node{kind: "op", op: op, args: []*node{n, x}}
	}
	return n
}

func (r *reader) assign() *node {
	name := r.name()
	if name == "" || !r.need('=') {
		return nil
	}
	n := r.expr()
	if n == nil {
		return nil
	}
	return &node{kind: "assign", name: name, args: []*node{n}}
}

func (r *reader) function() *node {
	n := &node{kind: "func", name: r.name()}
	if n.name == "" || !r.at('(') {
		return nil
	}
	r.p++
	for first := true; !first || !r.at(')'); first = false {
		p := r.name()
		if p == "" {
			r.eoi = r.eoi || r.end()
			return nil
		}
		for _, q := range n.pars {
			r.bad = r.bad || p == q
		}
		n.pars = append(n.pars, p)
		if !r.at(',') {
			break
		}
		r.p++
	}
	if !r.need(')') {
		return nil
	}
	if !r.at('=') {
		return nil // a call
	}
	r.p++
	b := r.expr()
	if b == nil {
		return nil
	}
	n.args = []*node{b}
	return n
}

// read gives the meaning of a text, or nil and whether the text is unfinished,
// and whether the beginning of the text is wrong for another reason.
func read(s string) (stmt *node, eoi, bad bool) {
	for _, f := range []func(*reader) *node{(*reader).function, (*reader).assign, (*reader).expr} {
		r := &reader{s: s}
		n := f(r)
		if n != nil && r.end() {
			return n, false, r.bad
		}
		bad = bad || r.bad
		eoi = eoi || n == nil && r.eoi
	}
	return nil, eoi, bad
}

type fun struct {
	pars []string
	body *node
}

type scope struct {
	caller *scope
	fn     *fun
	args   map[string]float64
}

// ref is the state of a calculator. The known findings are told apart by
// their effect: with fold constants of a chain come before the rest, with
// noFunc the name "func" is dropped from definitions.
type ref struct {
	vars         [2]map[string]float64
	funcs        map[string]*fun
	unspecified  bool
	recursive    bool
	fold, noFunc bool
}

func newRef(fold, noFunc bool) *ref {
	return &ref{vars: [2]map[string]float64{{}, {}}, funcs: map[string]*fun{}, fold: fold, noFunc: noFunc}
}

func hasBad(n *node) bool {
	for _, a := range n.args {
		if hasBad(a) {
			return true
		}
	}
	return n.bad
}

func (r *ref) run(n *node, zero int) (float64, bool) {
	if hasBad(n) {
		return 0, false
	}
	switch n.kind {
	case "assign":
		v, ok := r.eval(n.args[0], nil, zero)
		if ok {
			r.vars[zero][n.name] = v
		}
		return v, ok
	case "func":
		names := append([]string{n.name}, n.pars...)
		if r.noFunc {
			k := 0
			for _, s := range names {
				if s != "func" {
					names[k] = s
					k++
				}
			}
			names = names[:k]
			if k == 0 {
				names = []string{""}
			}
		}
		pars := names[1:]
		for i, p := range pars {
			for _, q := range pars[:i] {
				if p == q {
					return 0, false
				}
			}
		}
		r.funcs[names[0]] = &fun{pars, n.args[0]}
		return 0, true
	}
	return r.eval(n, nil, zero)
}

// constant tells that a value has no names.
func constant(n *node) bool {
	for _, a := range n.args {
		if !constant(a) {
			return false
		}
	}
	return n.kind != "var" && n.kind != "call"
}

// folded gives the value of a chain of one precedence, constants first.
func (r *ref) folded(n *node, sc *scope, zero int) (float64, bool) {
	sum := n.kind == "neg" || n.op == '+' || n.op == '-'
	var ops []byte
	var vals []*node
	for n.kind == "op" && (n.op == '+' || n.op == '-') == sum && n.op != '^' {
		ops = append(ops, n.op)
		vals = append(vals, n.args[1])
		n = n.args[0]
	}
	v := 1.0
	first := byte('*')
	if sum {
		v, first = 0, '+'
		if n.kind == "neg" {
			n, first = n.args[0], '-'
		}
	}
	ops = append(ops, first)
	vals = append(vals, n)
	for pass := 0; pass < 2; pass++ {
		for i := len(ops) - 1; i >= 0; i-- {
			if constant(vals[i]) != (pass == 0) {
				continue
			}
			x, ok := r.eval(vals[i], sc, zero)
			if !ok {
				return 0, false
			}
			v = apply(ops[i], v, x)
		}
	}
	return v, true
}

func apply(op byte, a, b float64) float64 {
	switch op {
	case '+':
		return a + b
	case '-':
		return a - b
	case '*':
		return a * b
	case '/':
		return a / b
	}
	return math.Pow(a, b)
}

func (r *ref) eval(n *node, sc *scope, zero int) (float64, bool) {
	if r.fold && (n.kind == "neg" || n.kind == "op" && n.op != '^') {
		return r.folded(n, sc, zero)
	}
	switch n.kind {
	case "num":
		return n.val, true
	case "var":
		if sc != nil {
			if v, ok := sc.args[n.name]; ok {
				return v, true
			}
			for c := sc.caller; c != nil; c = c.caller {
				if _, ok := c.args[n.name]; ok {
					r.unspecified = true
				}
			}
		}
		v, ok := r.vars[zero][n.name]
		return v, ok
	case "paren":
		return r.eval(n.args[0], sc, zero)
	case "neg":
		v, ok := r.eval(n.args[0], sc, zero)
		if zero == 0 {
			return 0 - v, ok
		}
		return -v, ok
	case "call":
		f := r.funcs[n.name]
		if f == nil || len(f.pars) != len(n.args) {
			return 0, false
		}
		ns := &scope{sc, f, map[string]float64{}}
		for i, a := range n.args {
			v, ok := r.eval(a, sc, zero)
			if !ok {
				return 0, false
			}
			ns.args[f.pars[i]] = v
		}
		for c := sc; c != nil; c = c.caller {
			if c.fn == f {
				r.recursive = true
				return 0, false // there are no conditions, so it never ends
			}
		}
		return r.eval(f.body, ns, zero)
	}
	a, ok := r.eval(n.args[0], sc, zero)
	if !ok {
		return 0, false
	}
	b, ok := r.eval(n.args[1], sc, zero)
	if !ok {
		return 0, false
	}
	return apply(n.op, a, b), true
}
