package zzgram

// Enumeration of small expressions for the grammar checks.

var wraps = []func(*Expr) *Expr{
	func(e *Expr) *Expr { return e },
	func(e *Expr) *Expr { return O(e) },
	func(e *Expr) *Expr { return M(e) },
}

// Shapes gives all expressions of exactly k tokens built from sequences,
// alternatives, options and repeats (at most one of the latter directly around
// anything), with token letters left as 'a'; nested plain sequences and plain
// alternatives are not repeated in their flattened form.
func Shapes(k int) []*Expr {
	var r []*Expr
	for _, b := range bare(k) {
		for _, w := range wraps {
			r = append(r, w(b))
		}
	}
	return r
}

func bare(k int) []*Expr {
	if k == 1 {
		return []*Expr{T('a')}
	}
	var r []*Expr
	for _, op := range []Op{Seq, Alt} {
		parts(k, op, nil, &r)
	}
	return r
}

// parts splits k tokens over the items of a list.
func parts(k int, op Op, pre []*Expr, r *[]*Expr) {
	if k == 0 {
		if len(pre) > 1 {
			*r = append(*r, &Expr{Op: op, Sub: append([]*Expr(nil), pre...)})
		}
		return
	}
	for i := 1; i <= k; i++ {
		if i == k && len(pre) == 0 {
			break
		}
		for _, x := range Shapes(i) {
			if x.Op == op {
				continue
			}
			parts(k-i, op, append(pre[:len(pre):len(pre)], x), r)
		}
	}
}

// Label copies e with the letters of ls put on its tokens in order.
func Label(e *Expr, ls string) *Expr {
	c, _ := label(e, ls)
	return c
}

func label(e *Expr, ls string) (*Expr, string) {
	if e.Op == Tok {
		return T(ls[0]), ls[1:]
	}
	c := &Expr{Op: e.Op, C: e.C, Name: e.Name}
	for _, x := range e.Sub {
		var y *Expr
		y, ls = label(x, ls)
		c.Sub = append(c.Sub, y)
	}
	return c, ls
}

// Labels gives the labelings of k tokens, equal up to renaming only once.
func Labels(k int) []string {
	var r []string
	var rec func(p string, top byte)
	rec = func(p string, top byte) {
		if len(p) == k {
			r = append(r, p)
			return
		}
		for c := byte('a'); c <= top; c++ {
			t := top
			if c == top {
				t++
			}
			rec(p+string(rune(c)), t)
		}
	}
	rec("", 'a')
	return r
}

// Rand is a small deterministic generator.
type Rand uint64

func (r *Rand) N(n int) int {
	*r = *r*6364136223846793005 + 1442695040888963407
	return int(uint64(*r)>>33) % n
}

// Random gives an expression of k tokens with the given letters.
func Random(r *Rand, k int, letters string) *Expr {
	e := random(r, k, letters, Tok)
	return wraps[max(0, r.N(5)-2)](e)
}

func random(r *Rand, k int, letters string, not Op) *Expr {
	if k == 1 {
		return T(letters[r.N(len(letters))])
	}
	op := Seq
	if not == Seq || not != Alt && r.N(5) < 2 {
		op = Alt
	}
	e := &Expr{Op: op}
	for left := k; left > 0; {
		n := 1 + r.N(left)
		if n == k {
			n = k - 1
		}
		w := max(0, r.N(5)-2)
		no := op
		if w > 0 {
			no = Tok
		}
		e.Sub = append(e.Sub, wraps[w](random(r, n, letters, no)))
		left -= n
	}
	return e
}

// RandomNodes gives a grammar of 2..3 nodes over the letters a, b, c, in one case of four a recursive one.
func RandomNodes(r *Rand) *Gram {
	switch r.N(4) {
	case 0:
		return NewGram(Nodes(Random(r, 1+r.N(3), "HHab")), "h", Random(r, 1+r.N(3), "aabc"))
	case 1:
		return NewGram(Nodes(Random(r, 2+r.N(2), "HIIa")), "h", Random(r, 1+r.N(2), "aabc"), "i", Random(r, 1+r.N(2), "aabc"))
	case 2:
		return NewGram(Nodes(Random(r, 1+r.N(2), "Ha")), "h", Nodes(Random(r, 2+r.N(2), "IIabb")), "i", Random(r, 1+r.N(2), "aabc"))
	}
	return NewGram(Nodes(Random(r, 1+r.N(2), "Ha")), "h", Nodes(A(S(T("abc"[r.N(3)]), Random(r, 1+r.N(3), "HHIIabb")), Random(r, 1, "ab"))),
		"i", Nodes(S(T("abc"[r.N(3)]), Random(r, 1+r.N(3), "HHaabc"))))
}

// RandomCycle gives a grammar of 3..5 nodes that refer to one another in cycles:
// a node begins with a letter of its own or with another node, never itself again.
func RandomCycle(r *Rand) *Gram {
	names := "hikl"[:2+r.N(3)]
	order := []byte(names) // a node begins with a later one only
	for i := range order {
		j := r.N(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	some := func() *Expr {
		if n := r.N(len(names) + 1); n < len(names) {
			return R(names[n : n+1])
		}
		return R("g")
	}
	def := map[string]*Expr{}
	for i, n := range order {
		own := T("abcd"[i])
		var alts []*Expr
		switch r.N(4) {
		case 0:
			alts = append(alts, own)
		case 1:
			alts = append(alts, S(own, some()))
		case 2:
			alts = append(alts, S(own, O(some()), T('x')))
		default:
			alts = append(alts, S(own, A(some(), T('x'))))
		}
		if i+1 < len(order) {
			next := i + 1 + r.N(2)*r.N(len(order)-i-1)
			ref := R(string(order[next : next+1]))
			switch r.N(4) {
			case 0:
				alts = append(alts, S(ref, T('x')))
			default:
				alts = append(alts, ref)
			}
		}
		if r.N(2) == 0 {
			alts[0], alts[len(alts)-1] = alts[len(alts)-1], alts[0]
		}
		if len(alts) == 1 {
			def[string(n)] = alts[0]
		} else {
			def[string(n)] = A(alts...)
		}
	}
	var rest []any
	for _, n := range names {
		rest = append(rest, string(n), def[string(n)])
	}
	first := R(string(order[0:1]))
	if r.N(3) == 0 {
		return NewGram(S(T('x'), first), rest...)
	}
	return NewGram(first, rest...)
}
