package main

// Symbolic terms: hash-consed bit-vector and boolean expressions with local
// simplification, evaluation under a model, SMT-LIB printing, and a per-term
// truth table for conditions over a single narrow variable.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota // k; w==0: boolean
	OpVar
	OpNot // bool
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpShl
	OpLshr
	OpAshr
	OpZext
	OpSext
	OpTrunc
)

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem", OpSDiv: "bvsdiv",
	OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
}

// Term is a symbolic expression; w is the bit width, 0 for booleans.
type Term struct {
	op      Op
	w       uint8
	id      int32
	k       uint64 // constant, or variable index
	a, b, c *Term
	supp    []int32 // sorted variable indexes; nil when too many
	many    bool
	tt      *[4]uint64
}

type termKey struct {
	op      Op
	w       uint8
	k       uint64
	a, b, c int32
}

type symVar struct {
	name string
	w    uint8
	term *Term
}

// TermCtx owns terms of one worker.
type TermCtx struct {
	tab    map[termKey]*Term
	nextID int32
	vars   []symVar
	varIdx map[string]int
	tTrue  *Term
	tFalse *Term
	dag    int64
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, varIdx: map[string]int{}}
	c.tTrue = c.intern(OpConst, 0, 1, nil, nil, nil)
	c.tFalse = c.intern(OpConst, 0, 0, nil, nil, nil)
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

const maxSupp = 24

func (c *TermCtx) intern(op Op, w uint8, k uint64, a, b, d *Term) *Term {
	key := termKey{op, w, k, tid(a), tid(b), tid(d)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{op: op, w: w, k: k, a: a, b: b, c: d, id: c.nextID}
	c.nextID++
	if op == OpVar {
		t.supp = []int32{int32(k)}
	} else {
		for _, x := range [3]*Term{a, b, d} {
			if x == nil {
				continue
			}
			if x.many {
				t.many = true
				break
			}
			t.supp = mergeSupp(t.supp, x.supp)
		}
		if len(t.supp) > maxSupp {
			t.many = true
		}
		if t.many {
			t.supp = nil
		}
	}
	c.tab[key] = t
	return t
}

func mergeSupp(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a
		}
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			r = append(r, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *TermCtx) Const(v uint64, w uint8) *Term {
	return c.intern(OpConst, w, v&mask(w), nil, nil, nil)
}

func (c *TermCtx) Var(name string, w uint8) *Term {
	if i, ok := c.varIdx[name]; ok {
		v := c.vars[i]
		if v.w != w {
			panic(fmt.Sprintf("variable %s reused with another width", name))
		}
		return v.term
	}
	i := len(c.vars)
	t := c.intern(OpVar, w, uint64(i), nil, nil, nil)
	c.vars = append(c.vars, symVar{name, w, t})
	c.varIdx[name] = i
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.k == 0)
	case OpNot:
		return a.a
	case OpUlt:
		return c.cmp(OpUle, a.b, a.a)
	case OpUle:
		return c.cmp(OpUlt, a.b, a.a)
	case OpSlt:
		return c.cmp(OpSle, a.b, a.a)
	case OpSle:
		return c.cmp(OpSlt, a.b, a.a)
	}
	return c.intern(OpNot, 0, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return c.tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(OpAnd, 0, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isConst() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a.op == OpNot && a.a == b || b.op == OpNot && b.a == a {
		return c.tTrue
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(OpOr, 0, 0, a, b, nil)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.k == b.k)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
	} else if b.isConst() {
		switch a.op {
		case OpZext:
			if b.k&^mask(a.a.w) != 0 {
				return c.tFalse
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpSext:
			if uint64(sext(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return c.tFalse
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(b.k-a.b.k, a.w))
			}
		case OpIte:
			if a.b.isConst() && a.c.isConst() {
				e1, e2 := a.b.k == b.k, a.c.k == b.k
				switch {
				case e1 && e2:
					return c.tTrue
				case e1:
					return a.a
				case e2:
					return c.Not(a.a)
				default:
					return c.tFalse
				}
			}
			if a.b.isConst() {
				if a.b.k == b.k {
					return c.Or(a.a, c.Eq(a.c, b))
				}
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
			if a.c.isConst() {
				if a.c.k == b.k {
					return c.Or(c.Not(a.a), c.Eq(a.b, b))
				}
				return c.And(a.a, c.Eq(a.b, b))
			}
		}
	} else {
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OpAdd && b.op == OpAdd && a.b.isConst() && b.b.isConst() {
			if a.b == b.b {
				return c.Eq(a.a, b.a)
			}
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.intern(OpEq, 0, 0, a, b, nil)
}

// urange gives unsigned bounds of a term.
func urange(t *Term, d int) (lo, hi uint64) {
	switch t.op {
	case OpConst:
		return t.k, t.k
	case OpZext:
		return urange(t.a, d)
	case OpIte:
		if d > 0 {
			l1, h1 := urange(t.b, d-1)
			l2, h2 := urange(t.c, d-1)
			return min(l1, l2), max(h1, h2)
		}
	case OpAdd:
		if d > 0 {
			l1, h1 := urange(t.a, d-1)
			l2, h2 := urange(t.b, d-1)
			if s, cr := bits.Add64(h1, h2, 0); cr == 0 && s <= mask(t.w) {
				return l1 + l2, s
			}
		}
	case OpSub:
		if d > 0 {
			l1, h1 := urange(t.a, d-1)
			l2, h2 := urange(t.b, d-1)
			if l1 >= h2 {
				return l1 - h2, h1 - l2
			}
		}
	case OpBAnd:
		if t.b.isConst() {
			return 0, t.b.k
		}
	case OpLshr:
		if t.b.isConst() && t.b.k < 64 && d > 0 {
			l, h := urange(t.a, d-1)
			return l >> t.b.k, h >> t.b.k
		}
	case OpURem:
		if t.b.isConst() && t.b.k > 0 {
			return 0, t.b.k - 1
		}
	}
	return 0, mask(t.w)
}

// srange gives signed bounds.
func srange(t *Term, d int) (lo, hi int64) {
	full := func() (int64, int64) {
		if t.w >= 64 {
			return -1 << 63, 1<<63 - 1
		}
		return -1 << (t.w - 1), 1<<(t.w-1) - 1
	}
	switch t.op {
	case OpConst:
		v := sext(t.k, t.w)
		return v, v
	case OpSext:
		return srange(t.a, d)
	case OpIte:
		if d > 0 {
			l1, h1 := srange(t.b, d-1)
			l2, h2 := srange(t.c, d-1)
			return min(l1, l2), max(h1, h2)
		}
	case OpAdd, OpSub:
		if d > 0 {
			l1, h1 := srange(t.a, d-1)
			l2, h2 := srange(t.b, d-1)
			if t.op == OpSub {
				l2, h2 = -h2, -l2
			}
			const lim = int64(1) << 61
			if l1 > -lim && h1 < lim && l2 > -lim && h2 < lim {
				fl, fh := full()
				if l1+l2 >= fl && h1+h2 <= fh {
					return l1 + l2, h1 + h2
				}
			}
		}
	}
	l, h := urange(t, d)
	if h <= mask(t.w)>>1 {
		return int64(l), int64(h)
	}
	return full()
}

func (c *TermCtx) cmp(op Op, a, b *Term) *Term {
	if a == b {
		return c.Bool(op == OpUle || op == OpSle)
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OpUlt:
			return c.Bool(a.k < b.k)
		case OpUle:
			return c.Bool(a.k <= b.k)
		case OpSlt:
			return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
		case OpSle:
			return c.Bool(sext(a.k, a.w) <= sext(b.k, b.w))
		}
	}
	if op == OpUlt || op == OpUle {
		l1, h1 := urange(a, 4)
		l2, h2 := urange(b, 4)
		if h1 < l2 || op == OpUle && h1 <= l2 {
			return c.tTrue
		}
		if l1 > h2 || op == OpUlt && l1 >= h2 {
			return c.tFalse
		}
		if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
			return c.cmp(op, a.a, b.a)
		}
		if a.op == OpZext && b.isConst() && b.k <= mask(a.a.w) {
			return c.cmp(op, a.a, c.Const(b.k, a.a.w))
		}
		if b.op == OpZext && a.isConst() && a.k <= mask(b.a.w) {
			return c.cmp(op, c.Const(a.k, b.a.w), b.a)
		}
	} else {
		l1, h1 := srange(a, 4)
		l2, h2 := srange(b, 4)
		if h1 < l2 || op == OpSle && h1 <= l2 {
			return c.tTrue
		}
		if l1 > h2 || op == OpSlt && l1 >= h2 {
			return c.tFalse
		}
		if l1 >= 0 && l2 >= 0 {
			return c.cmp(op-2, a, b)
		}
		// (x + k1) cmp k2 without overflow
		if a.op == OpAdd && a.b.isConst() && b.isConst() && a.a.w == b.w {
			k1, k2 := sext(a.b.k, a.w), sext(b.k, b.w)
			xl, xh := srange(a.a, 4)
			const lim = int64(1) << 60
			if xl > -lim && xh < lim && k1 > -lim && k1 < lim && k2 > -lim && k2 < lim && a.w == 64 {
				return c.cmp(op, a.a, c.Const(uint64(k2-k1), a.w))
			}
		}
		if b.op == OpAdd && b.b.isConst() && a.isConst() && b.a.w == a.w {
			k1, k2 := sext(b.b.k, b.w), sext(a.k, a.w)
			xl, xh := srange(b.a, 4)
			const lim = int64(1) << 60
			if xl > -lim && xh < lim && k1 > -lim && k1 < lim && k2 > -lim && k2 < lim && b.w == 64 {
				return c.cmp(op, c.Const(uint64(k2-k1), b.w), b.a)
			}
		}
	}
	return c.intern(op, 0, 0, a, b, nil)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isConst() {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isConst() && b.isConst() {
			if a.k != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if a.isConst() {
			if a.k != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if b.isConst() {
			if b.k != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
	}
	return c.intern(OpIte, a.w, 0, cond, a, b)
}

func evalBin(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (x + y) & m
	case OpSub:
		return (x - y) & m
	case OpMul:
		return (x * y) & m
	case OpUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OpURem:
		if y == 0 {
			return x
		}
		return x % y
	case OpSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx >= 0 {
				return m
			}
			return 1
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OpSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	case OpBXor:
		return x ^ y
	case OpShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OpLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OpAshr:
		sx := sext(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & m
	}
	panic("evalBin")
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		return c.Const(evalBin(op, w, a.k, b.k), w)
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	}
	if b.isConst() {
		switch op {
		case OpAdd:
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isConst() {
				return c.Bin(OpAdd, a.a, c.Const(a.b.k+b.k, w))
			}
		case OpSub:
			return c.Bin(OpAdd, a, c.Const(-b.k, w))
		case OpMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		case OpBAnd:
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			if _, h := urange(a, 4); b.k&(b.k+1) == 0 && h <= b.k {
				return a
			}
		case OpBOr, OpBXor:
			if b.k == 0 {
				return a
			}
			if op == OpBOr && b.k == mask(w) {
				return b
			}
		case OpShl, OpLshr:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(0, w)
			}
			if op == OpLshr {
				if _, h := urange(a, 4); h>>b.k == 0 {
					return c.Const(0, w)
				}
			}
		case OpAshr:
			if b.k == 0 {
				return a
			}
			if l, h := srange(a, 4); b.k < 63 {
				if l>>b.k == h>>b.k {
					return c.Const(uint64(l>>b.k), w)
				}
			}
		case OpUDiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpLshr, a, c.Const(uint64(bits.TrailingZeros64(b.k)), w))
			}
		case OpURem:
			if b.k != 0 && b.k&(b.k-1) == 0 {
				return c.Bin(OpBAnd, a, c.Const(b.k-1, w))
			}
		case OpSDiv:
			if l, _ := srange(a, 4); l >= 0 && sext(b.k, w) > 0 {
				return c.Bin(OpUDiv, a, b)
			}
		case OpSRem:
			if l, _ := srange(a, 4); l >= 0 && sext(b.k, w) > 0 {
				return c.Bin(OpURem, a, b)
			}
		}
		if a.op == OpIte && a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
	} else if a == b {
		switch op {
		case OpSub, OpBXor:
			return c.Const(0, w)
		case OpBAnd, OpBOr:
			return a
		}
	}
	if a.isConst() && a.k == 0 {
		switch op {
		case OpShl, OpLshr, OpAshr:
			return a
		}
	}
	return c.intern(op, w, 0, a, b, nil)
}

func (c *TermCtx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	return c.intern(OpZext, w, 0, a, nil, nil)
}

func (c *TermCtx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(uint64(sext(a.k, a.w)), w)
	}
	if a.op == OpSext {
		return c.Sext(a.a, w)
	}
	if a.op == OpZext {
		return c.Zext(a.a, w)
	}
	return c.intern(OpSext, w, 0, a, nil, nil)
}

func (c *TermCtx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(a.k, w)
	}
	if a.op == OpZext || a.op == OpSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OpZext {
			return c.Zext(a.a, w)
		}
		return c.Sext(a.a, w)
	}
	if a.op == OpTrunc {
		return c.Trunc(a.a, w)
	}
	if a.op == OpAdd || a.op == OpBAnd || a.op == OpBOr || a.op == OpBXor || a.op == OpSub {
		return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	if a.op == OpIte {
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	}
	return c.intern(OpTrunc, w, 0, a, nil, nil)
}

// Model maps variable index to value.
type Model struct {
	vals  []uint64
	cache map[*Term]uint64
}

func newModel() *Model { return &Model{cache: map[*Term]uint64{}} }

func (m *Model) get(i int) uint64 {
	if i < len(m.vals) {
		return m.vals[i]
	}
	return 0
}

func (m *Model) set(i int, v uint64) {
	for len(m.vals) <= i {
		m.vals = append(m.vals, 0)
	}
	m.vals[i] = v
}

func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		return m.get(int(t.k))
	}
	if v, ok := m.cache[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OpNot:
		r = 1 - m.Eval(t.a)
	case OpAnd:
		r = m.Eval(t.a) & m.Eval(t.b)
	case OpOr:
		r = m.Eval(t.a) | m.Eval(t.b)
	case OpEq:
		r = b2u(m.Eval(t.a) == m.Eval(t.b))
	case OpUlt:
		r = b2u(m.Eval(t.a) < m.Eval(t.b))
	case OpUle:
		r = b2u(m.Eval(t.a) <= m.Eval(t.b))
	case OpSlt:
		r = b2u(sext(m.Eval(t.a), t.a.w) < sext(m.Eval(t.b), t.b.w))
	case OpSle:
		r = b2u(sext(m.Eval(t.a), t.a.w) <= sext(m.Eval(t.b), t.b.w))
	case OpIte:
		if m.Eval(t.a) != 0 {
			r = m.Eval(t.b)
		} else {
			r = m.Eval(t.c)
		}
	case OpZext:
		r = m.Eval(t.a)
	case OpSext:
		r = uint64(sext(m.Eval(t.a), t.a.w)) & mask(t.w)
	case OpTrunc:
		r = m.Eval(t.a) & mask(t.w)
	default:
		r = evalBin(t.op, t.w, m.Eval(t.a), m.Eval(t.b))
	}
	m.cache[t] = r
	return r
}

// truthTable returns the set of values of the only variable (≤8 bits) in a
// boolean term for which the term holds, or nil.
func (c *TermCtx) truthTable(t *Term) (int, *[4]uint64) {
	if t.many || len(t.supp) != 1 {
		return 0, nil
	}
	v := int(t.supp[0])
	w := c.vars[v].w
	if w > 8 {
		return 0, nil
	}
	if t.tt == nil {
		tt := new([4]uint64)
		n := 1
		if w > 0 {
			n = 1 << w
		} else {
			n = 2
		}
		for i := 0; i < n; i++ {
			m := Model{cache: map[*Term]uint64{}}
			m.set(v, uint64(i))
			if m.Eval(t) != 0 {
				tt[i>>6] |= 1 << (uint(i) & 63)
			}
		}
		t.tt = tt
	}
	return v, t.tt
}

func (c *TermCtx) fullSet(v int) [4]uint64 {
	w := c.vars[v].w
	if w == 0 {
		return [4]uint64{3}
	}
	n := 1 << w
	var s [4]uint64
	for i := 0; i < n; i++ {
		s[i>>6] |= 1 << (uint(i) & 63)
	}
	return s
}

func smtName(i int) string { return fmt.Sprintf("v%d", i) }

func smtConst(t *Term) string {
	if t.w == 0 {
		if t.k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
}

func smtRef(t *Term) string {
	switch t.op {
	case OpConst:
		return smtConst(t)
	case OpVar:
		return smtName(int(t.k))
	}
	return fmt.Sprintf("t%d", t.id)
}

func smtSort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtBody(t *Term) string {
	switch t.op {
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, smtRef(t.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opSMT[t.op])
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(smtRef(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
