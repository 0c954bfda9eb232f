// Package zzgram is the reference meaning of grammar descriptions.
package zzgram

import (
	"strings"

	sym "github.com/ava12/llx/internal/zzverif/zzsym"
)

// Reference meaning of the grammar description language: an expression tree, its
// text, its language as a condition over a symbolic token string, and the
// documented limits of the parser (where its lookahead does not suffice).

type Op int

const (
	Tok Op = iota // one-letter literal
	Ref           // node
	Seq
	Alt
	Opt
	Rep
)

type Expr struct {
	Op   Op
	C    byte   // Tok
	Name string // Ref
	Sub  []*Expr
}

func T(c byte) *Expr                { return &Expr{Op: Tok, C: c} }
func R(n string) *Expr              { return &Expr{Op: Ref, Name: n} }
func S(x ...*Expr) *Expr            { return &Expr{Op: Seq, Sub: x} }
func A(x ...*Expr) *Expr            { return &Expr{Op: Alt, Sub: x} }
func O(x ...*Expr) *Expr            { return &Expr{Op: Opt, Sub: []*Expr{one(x)}} }
func M(x ...*Expr) *Expr            { return &Expr{Op: Rep, Sub: []*Expr{one(x)}} }
func (e *Expr) is(op Op) bool       { return e.Op == op }
func (g *Gram) Body(n string) *Expr { return g.Def[n] }

func one(x []*Expr) *Expr {
	if len(x) == 1 {
		return x[0]
	}
	return S(x...)
}

// Gram is a grammar: nodes in order, the first one is the root.
type Gram struct {
	Names []string
	Def   map[string]*Expr
	first map[string]string
	null  map[string]bool
	foll  map[string]string
}

// NewGram makes a grammar of name, body pairs.
func NewGram(root *Expr, rest ...any) *Gram {
	g := &Gram{Names: []string{"g"}, Def: map[string]*Expr{"g": root}}
	for i := 0; i < len(rest); i += 2 {
		n := rest[i].(string)
		g.Names = append(g.Names, n)
		g.Def[n] = rest[i+1].(*Expr)
	}
	g.analyse()
	return g
}

// Text is the body in the description language.
func (e *Expr) Text() string {
	switch e.Op {
	case Tok:
		if e.C == '$' {
			return "$"
		}
		if e.C == '0' {
			return "$d"
		}
		return "'" + string(rune(e.C)) + "'"
	case Ref:
		return e.Name
	case Opt:
		return "[" + e.Sub[0].list() + "]"
	case Rep:
		return "{" + e.Sub[0].list() + "}"
	}
	return "(" + e.list() + ")"
}

// list is the text of a comma-separated list.
func (e *Expr) list() string {
	sep := ""
	switch e.Op {
	case Seq:
		sep = ", "
	case Alt:
		sep = " | "
	default:
		return e.Text()
	}
	var b strings.Builder
	for i, x := range e.Sub {
		if i > 0 {
			b.WriteString(sep)
		}
		if e.Op == Seq && x.Op == Alt {
			b.WriteString(x.list()) // the pipe binds tighter than the comma
		} else {
			b.WriteString(x.Text())
		}
	}
	return b.String()
}

// Text is the description of the whole grammar.
func (g *Gram) Text(tokens string) string {
	s := tokens
	for _, n := range g.Names {
		s += n + " = " + g.Def[n].list() + "; "
	}
	return s
}

func union(a, b string) string {
	for i := 0; i < len(b); i++ {
		if strings.IndexByte(a, b[i]) < 0 {
			a += b[i : i+1]
		}
	}
	return a
}

func meet(a, b string) bool {
	for i := 0; i < len(b); i++ {
		if strings.IndexByte(a, b[i]) >= 0 {
			return true
		}
	}
	return false
}

// fn gives nullability and first set.
func (g *Gram) fn(e *Expr) (bool, string) {
	switch e.Op {
	case Tok:
		return false, string(rune(e.C))
	case Ref:
		return g.null[e.Name], g.first[e.Name]
	case Opt, Rep:
		_, f := g.fn(e.Sub[0])
		return true, f
	case Alt:
		n, f := false, ""
		for _, x := range e.Sub {
			xn, xf := g.fn(x)
			n = n || xn
			f = union(f, xf)
		}
		return n, f
	}
	f := ""
	for _, x := range e.Sub {
		xn, xf := g.fn(x)
		f = union(f, xf)
		if !xn {
			return false, f
		}
	}
	return true, f
}

func (g *Gram) analyse() {
	g.first, g.null, g.foll = map[string]string{}, map[string]bool{}, map[string]string{}
	for ch := true; ch; {
		ch = false
		for _, n := range g.Names {
			nl, f := g.fn(g.Def[n])
			if nl != g.null[n] || len(f) != len(g.first[n]) {
				g.null[n], g.first[n], ch = nl, f, true
			}
		}
	}
	for ch := true; ch; {
		ch = false
		for _, n := range g.Names {
			g.follow(g.Def[n], g.foll[n], &ch)
		}
	}
}

// follow spreads what may come after e to the nodes it uses.
func (g *Gram) follow(e *Expr, after string, ch *bool) {
	switch e.Op {
	case Ref:
		u := union(g.foll[e.Name], after)
		if len(u) != len(g.foll[e.Name]) {
			g.foll[e.Name], *ch = u, true
		}
	case Opt:
		g.follow(e.Sub[0], after, ch)
	case Rep:
		_, f := g.fn(e.Sub[0])
		g.follow(e.Sub[0], union(after, f), ch)
	case Alt:
		for _, x := range e.Sub {
			g.follow(x, after, ch)
		}
	case Seq:
		for i := len(e.Sub) - 1; i >= 0; i-- {
			g.follow(e.Sub[i], after, ch)
			n, f := g.fn(e.Sub[i])
			if n {
				after = union(after, f)
			} else {
				after = f
			}
		}
	}
}

// Covered tells whether the documented lookahead suffices and the grammar is
// free of the shapes listed as limits: nodes that may be empty (other than the
// root), optional or repeated endings of a nested list or node that what follows
// could continue, and repeats sharing their place with something else
// (known finding "repeat-shares-state").
func (g *Gram) Covered() bool {
	for i, n := range g.Names {
		if i > 0 && (g.null[n] || !g.tail(g.Def[n], g.foll[n])) {
			return false
		}
		if !g.greedy(g.Def[n], g.foll[n], i == 0) {
			return false
		}
		if Shares(g.Def[n]) {
			return false
		}
	}
	return true
}

// tail: no complete match of e may be continued by a token that may follow it
// (subset construction over the positions of e; nodes count as single symbols,
// so they must be told apart by their first tokens).
func (g *Gram) tail(e *Expr, after string) bool {
	a := &auto{}
	_, first, last := a.build(e)
	final := map[int]bool{}
	for _, p := range last {
		final[p] = true
	}
	var seen [][]int
	work := [][]int{nil}
	for len(work) > 0 {
		st := work[0]
		work = work[1:]
		next := first
		fin := false
		if st != nil {
			next = nil
			for _, p := range st {
				next = addAll(next, a.foll[p])
				fin = fin || final[p]
			}
		}
		groups := map[string][]int{}
		var names []string
		firsts := ""
		for _, p := range next {
			n := a.sym[p].Text()
			if groups[n] == nil {
				_, f := g.fn(a.sym[p])
				if meet(firsts, f) {
					return false
				}
				firsts = union(firsts, f)
				names = append(names, n)
			}
			groups[n] = append(groups[n], p)
		}
		if fin && meet(firsts, after) {
			return false
		}
	names:
		for _, n := range names {
			for _, o := range seen {
				if same(o, groups[n]) {
					continue names
				}
			}
			seen = append(seen, groups[n])
			work = append(work, groups[n])
		}
	}
	return true
}

type auto struct {
	sym  []*Expr
	foll [][]int
}

func (a *auto) build(e *Expr) (null bool, first, last []int) {
	switch e.Op {
	case Tok, Ref:
		a.sym = append(a.sym, e)
		a.foll = append(a.foll, nil)
		p := []int{len(a.sym) - 1}
		return false, p, p
	case Opt, Rep:
		_, first, last = a.build(e.Sub[0])
		if e.Op == Rep {
			a.link(last, first)
		}
		return true, first, last
	case Alt:
		for _, x := range e.Sub {
			n, f, l := a.build(x)
			null = null || n
			first = addAll(first, f)
			last = addAll(last, l)
		}
		return
	}
	null = true
	for _, x := range e.Sub {
		n, f, l := a.build(x)
		a.link(last, f)
		if null {
			first = addAll(first, f)
		}
		if n {
			last = addAll(last, l)
		} else {
			last = l
			null = false
		}
	}
	return
}

func (a *auto) link(from, to []int) {
	for _, p := range from {
		a.foll[p] = addAll(a.foll[p], to)
	}
}

// addAll keeps the result sorted.
func addAll(a, b []int) []int {
	r := append([]int(nil), a...)
	for _, x := range b {
		i := 0
		for i < len(r) && r[i] < x {
			i++
		}
		if i < len(r) && r[i] == x {
			continue
		}
		r = append(r[:i], append([]int{x}, r[i:]...)...)
	}
	return r
}

func same(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (g *Gram) all(e *Expr, seen map[string]bool) string {
	switch e.Op {
	case Tok:
		return string(rune(e.C))
	case Ref:
		if seen[e.Name] {
			return ""
		}
		seen[e.Name] = true
		return g.all(g.Def[e.Name], seen)
	}
	s := ""
	for _, x := range e.Sub {
		s = union(s, g.all(x, seen))
	}
	return s
}

// greedy: an item that may be left out, with nothing mandatory after it in its
// list, is taken whenever its first token fits: what follows the list must not
// start with such a token.
func (g *Gram) greedy(e *Expr, after string, top bool) bool {
	switch e.Op {
	case Tok, Ref:
		return true
	case Opt:
		return g.greedy(e.Sub[0], after, false)
	case Rep:
		_, f := g.fn(e.Sub[0])
		return g.greedy(e.Sub[0], union(after, f), false)
	case Alt:
		for _, x := range e.Sub {
			n, f := g.fn(x)
			if n && meet(f, after) {
				return false
			}
			if !g.greedy(x, after, false) {
				return false
			}
		}
		return true
	}
	nullRest, rest := true, ""
	aft := after
	for i := len(e.Sub) - 1; i >= 0; i-- {
		n, f := g.fn(e.Sub[i])
		if n && nullRest && !top && meet(union(f, rest), after) {
			return false
		}
		if !g.greedy(e.Sub[i], aft, false) {
			return false
		}
		if n {
			aft = union(aft, f)
			rest = union(rest, f)
		} else {
			aft, nullRest = f, false
		}
	}
	return true
}

// Shares finds a repeat that starts at a place where something else may start too
// (an alternative, the outside of an optional or repeated list).
func Shares(e *Expr) bool { return shares(e, false, false, false) }

func shares(e *Expr, other, self, exits bool) bool {
	switch e.Op {
	case Tok, Ref:
		return false
	case Alt:
		o := other || len(e.Sub) > 1 && !self
		for _, x := range e.Sub {
			if shares(x, o, self, exits) {
				return true
			}
		}
		return false
	case Opt:
		if e.Sub[0].is(Seq) {
			return sharesSeq(e.Sub[0], true)
		}
		return shares(e.Sub[0], other, self, true)
	case Rep:
		if other {
			return true
		}
		if e.Sub[0].is(Seq) {
			return sharesSeq(e.Sub[0], false)
		}
		return shares(e.Sub[0], false, true, true)
	}
	return sharesSeq(e, other || self || exits)
}

func sharesSeq(e *Expr, other bool) bool {
	for i, x := range e.Sub {
		if shares(x, i == 0 && other, false, false) {
			return true
		}
	}
	return false
}

// Word is a string of symbols: tokens (symbolic letters) or nodes.
type Word struct {
	C    []byte
	Node []string // nil, or node name where the symbol is a node
}

// Derives is the condition that the whole word is derived from e; nodes of the
// grammar are expanded if g is not nil, else they match node symbols.
func Derives(g *Gram, e *Expr, w Word) bool {
	in := make([]bool, len(w.C)+1)
	in[0] = true
	out, _ := match(g, e, w, in, 0)
	return out[len(w.C)]
}

// Prefix tells at which positions a match of e starting at 0 may end.
func Prefix(g *Gram, e *Expr, w Word) []bool {
	in := make([]bool, len(w.C)+1)
	in[0] = true
	out, _ := match(g, e, w, in, 0)
	return out
}

func match(g *Gram, e *Expr, w Word, in []bool, lo int) ([]bool, int) {
	n := len(w.C)
	out := make([]bool, n+1)
	if lo > n {
		return out, lo
	}
	switch e.Op {
	case Tok:
		if e.C == '$' { // end of input
			out[n] = in[n]
			return out, lo
		}
		for i := lo; i < n; i++ {
			if w.Node != nil && w.Node[i] != "" {
				continue
			}
			c := w.C[i]
			m := c == e.C
			if e.C == '0' {
				m = sym.And(c >= '0', c <= '9')
			}
			out[i+1] = sym.And(in[i], m)
		}
		return out, lo + 1
	case Ref:
		if g != nil {
			return match(g, g.Def[e.Name], w, in, lo)
		}
		for i := lo; i < n; i++ {
			if w.Node != nil && w.Node[i] == e.Name {
				out[i+1] = in[i]
			}
		}
		return out, lo + 1
	case Seq:
		cur, l := in, lo
		for _, x := range e.Sub {
			cur, l = match(g, x, w, cur, l)
		}
		return cur, l
	case Alt:
		ml := n + 1
		for _, x := range e.Sub {
			o, l := match(g, x, w, in, lo)
			ml = min(ml, l)
			or(out, o)
		}
		return out, ml
	case Opt:
		o, _ := match(g, e.Sub[0], w, in, lo)
		or(out, in)
		or(out, o)
		return out, lo
	}
	or(out, in)
	cur, l := in, lo
	for k := 0; k <= n && l <= n; k++ {
		cur, l = match(g, e.Sub[0], w, cur, l)
		or(out, cur)
	}
	return out, lo
}

func or(a, b []bool) {
	for i := range a {
		a[i] = sym.Or(a[i], b[i])
	}
}

// Used tells whether every node is used, starting from the root, and none is left-recursive.
func (g *Gram) Used() bool {
	seen := map[string]bool{}
	g.all(R(g.Names[0]), seen)
	for _, n := range g.Names {
		if !seen[n] {
			return false
		}
	}
	for _, n := range g.Names {
		if g.left(g.Def[n], n, map[string]bool{}) {
			return false
		}
	}
	return true
}

func (g *Gram) left(e *Expr, n string, seen map[string]bool) bool {
	switch e.Op {
	case Tok:
		return false
	case Ref:
		if e.Name == n {
			return true
		}
		if seen[e.Name] {
			return false
		}
		seen[e.Name] = true
		return g.left(g.Def[e.Name], n, seen)
	}
	for _, x := range e.Sub {
		if g.left(x, n, seen) {
			return true
		}
		if xn, _ := g.fn(x); e.Op == Seq && !xn {
			break
		}
	}
	return false
}

// Inline expands the nodes of a non-recursive grammar.
func (g *Gram) Inline(e *Expr) *Expr {
	if e.Op == Ref {
		return g.Inline(g.Def[e.Name])
	}
	c := &Expr{Op: e.Op, C: e.C}
	for _, x := range e.Sub {
		c.Sub = append(c.Sub, g.Inline(x))
	}
	return c
}

// Recursive tells whether some node uses itself.
func (g *Gram) Recursive() bool {
	for _, n := range g.Names {
		seen := map[string]bool{}
		if g.uses(g.Def[n], n, seen) {
			return true
		}
	}
	return false
}

func (g *Gram) uses(e *Expr, n string, seen map[string]bool) bool {
	if e.Op == Ref {
		if e.Name == n {
			return true
		}
		if seen[e.Name] {
			return false
		}
		seen[e.Name] = true
		return g.uses(g.Def[e.Name], n, seen)
	}
	for _, x := range e.Sub {
		if g.uses(x, n, seen) {
			return true
		}
	}
	return false
}

// Viable gives for each k <= len(c) whether c[:k] begins some text of e, and
// whether c[:k] is a text of e (e without nodes).
func Viable(e *Expr, c []byte) (pre, acc []bool) {
	a := &auto{}
	null, first, last := a.build(e)
	cur := make([]bool, len(a.sym))
	pre, acc = []bool{true}, []bool{null}
	for i, b := range c {
		from := make([]bool, len(a.sym))
		if i == 0 {
			for _, p := range first {
				from[p] = true
			}
		} else {
			for p, f := range a.foll {
				for _, t := range f {
					from[t] = sym.Or(from[t], cur[p])
				}
			}
		}
		any, fin := false, false
		for p := range cur {
			m := b == a.sym[p].C
			if a.sym[p].C == '0' {
				m = sym.And(b >= '0', b <= '9')
			}
			cur[p] = sym.And(from[p], m)
			any = sym.Or(any, cur[p])
		}
		for _, p := range last {
			fin = sym.Or(fin, cur[p])
		}
		pre = append(pre, any)
		acc = append(acc, fin)
	}
	return
}

// Nodes makes references of the capital letters of e.
func Nodes(e *Expr) *Expr {
	if e.Op == Tok && e.C >= 'A' && e.C <= 'Z' {
		return R(string(rune(e.C + 32)))
	}
	c := &Expr{Op: e.Op, C: e.C, Name: e.Name}
	for _, x := range e.Sub {
		c.Sub = append(c.Sub, Nodes(x))
	}
	return c
}
