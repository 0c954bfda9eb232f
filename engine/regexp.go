package main

// Model of regexp matching over symbolic text: leftmost-first backtracking
// over the program Go's regexp/syntax compiles from the pattern. Concrete
// text is matched by the real regexp package.

import (
	"regexp"
	"regexp/syntax"
	"strings"
	"unicode"
)

type reData struct {
	expr string
	re   *regexp.Regexp
	prog *syntax.Prog
	ncap int
	anch bool
	long bool // leftmost-longest
	conc map[string][]int
}

func compileRe(expr string) (*reData, error) {
	re, e := regexp.Compile(expr)
	if e != nil {
		return nil, e
	}
	p, e := syntax.Parse(expr, syntax.Perl)
	if e != nil {
		return nil, e
	}
	nc := p.MaxCap()
	prog, e := syntax.Compile(p.Simplify())
	if e != nil {
		return nil, e
	}
	d := &reData{expr: expr, re: re, prog: prog, ncap: nc, conc: map[string][]int{}}
	d.anch = prog.StartCond()&syntax.EmptyBeginText != 0
	return d, nil
}

func (m *Machine) reOf(v Value) *reData {
	return (*m.ptr(v)).(*Native).v.(*reData)
}

func initRegexp() {
	mkRe := func(m *Machine, d *reData) Value {
		c := new(Value)
		*c = native(d)
		return c
	}
	intrinsics["regexp.Compile"] = func(m *Machine, fr *frame, a []Value) Value {
		d, e := compileRe(m.concStr(a[0]))
		if e != nil {
			return Tuple{(*Value)(nil), m.errIface(e.Error())}
		}
		return Tuple{mkRe(m, d), Iface{}}
	}
	intrinsics["regexp.MustCompile"] = func(m *Machine, fr *frame, a []Value) Value {
		s := m.concStr(a[0])
		d, e := compileRe(s)
		if e != nil {
			panic(targetPanic{Iface{m.rtErrT, "regexp: Compile(" + s + "): " + e.Error()}})
		}
		return mkRe(m, d)
	}
	intrinsics["regexp.QuoteMeta"] = func(m *Machine, fr *frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			return regexp.QuoteMeta(s)
		}
		var r []Value
		for _, b := range strBytes(a[0]) {
			if t, ok := b.(*Term); ok {
				c := m.tc.tFalse
				for _, x := range []byte(`\.+*?()|[]{}^$`) {
					c = m.tc.Or(c, m.tc.Eq(t, m.tc.Const(uint64(x), 8)))
				}
				if m.branch(c) {
					r = append(r, mk('\\'))
				}
			} else if strings.IndexByte(`\.+*?()|[]{}^$`, byte(b.(int64))) >= 0 {
				r = append(r, mk('\\'))
			}
			r = append(r, b)
		}
		return mkStr(r)
	}
	idx := func(match []int) Value {
		if match == nil {
			return Slice{}
		}
		r := make([]Value, len(match))
		for i, x := range match {
			r[i] = mk(int64(x))
		}
		return sliceOf(r)
	}
	pre := "(*regexp.Regexp)."
	intrinsics[pre+"FindSubmatchIndex"] = func(m *Machine, fr *frame, a []Value) Value {
		return idx(m.reMatch(m.reOf(a[0]), a[1].(Slice).vals()))
	}
	intrinsics[pre+"FindStringSubmatchIndex"] = func(m *Machine, fr *frame, a []Value) Value {
		return idx(m.reMatch(m.reOf(a[0]), strBytes(a[1])))
	}
	intrinsics[pre+"FindIndex"] = func(m *Machine, fr *frame, a []Value) Value {
		r := m.reMatch(m.reOf(a[0]), a[1].(Slice).vals())
		if r != nil {
			r = r[:2]
		}
		return idx(r)
	}
	intrinsics[pre+"FindStringIndex"] = func(m *Machine, fr *frame, a []Value) Value {
		r := m.reMatch(m.reOf(a[0]), strBytes(a[1]))
		if r != nil {
			r = r[:2]
		}
		return idx(r)
	}
	intrinsics[pre+"MatchString"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.reMatch(m.reOf(a[0]), strBytes(a[1])) != nil
	}
	intrinsics[pre+"Match"] = func(m *Machine, fr *frame, a []Value) Value {
		return m.reMatch(m.reOf(a[0]), a[1].(Slice).vals()) != nil
	}
	intrinsics[pre+"FindString"] = func(m *Machine, fr *frame, a []Value) Value {
		r := m.reMatch(m.reOf(a[0]), strBytes(a[1]))
		if r == nil {
			return ""
		}
		return strSub(a[1], r[0], r[1])
	}
	intrinsics[pre+"FindStringSubmatch"] = func(m *Machine, fr *frame, a []Value) Value {
		r := m.reMatch(m.reOf(a[0]), strBytes(a[1]))
		if r == nil {
			return Slice{}
		}
		var s []Value
		for i := 0; i < len(r); i += 2 {
			if r[i] < 0 {
				s = append(s, "")
			} else {
				s = append(s, strSub(a[1], r[i], r[i+1]))
			}
		}
		return sliceOf(s)
	}
	intrinsics[pre+"FindSubmatch"] = func(m *Machine, fr *frame, a []Value) Value {
		sl := a[1].(Slice)
		r := m.reMatch(m.reOf(a[0]), sl.vals())
		if r == nil {
			return Slice{}
		}
		var s []Value
		for i := 0; i < len(r); i += 2 {
			if r[i] < 0 {
				s = append(s, Slice{})
			} else {
				s = append(s, Slice{sl.a, sl.off + r[i], r[i+1] - r[i], r[i+1] - r[i]})
			}
		}
		return sliceOf(s)
	}
	intrinsics[pre+"Longest"] = func(m *Machine, fr *frame, a []Value) Value {
		d := m.reOf(a[0])
		re := regexp.MustCompile(d.expr)
		re.Longest()
		m.write(m.ptr(a[0]), native(&reData{expr: d.expr, re: re, prog: d.prog, ncap: d.ncap, anch: d.anch, long: true, conc: map[string][]int{}}))
		return nil
	}
	intrinsics[pre+"SubexpNames"] = func(m *Machine, fr *frame, a []Value) Value {
		var r []Value
		for _, s := range m.reOf(a[0]).re.SubexpNames() {
			r = append(r, s)
		}
		return sliceOf(r)
	}
	intrinsics[pre+"SubexpIndex"] = func(m *Machine, fr *frame, a []Value) Value {
		return mk(int64(m.reOf(a[0]).re.SubexpIndex(m.concStr(a[1]))))
	}
	bytesOf := func(v Value) []Value {
		if s, ok := v.(Slice); ok {
			return s.vals()
		}
		return strBytes(v)
	}
	part := func(v Value, i, j int) Value {
		if s, ok := v.(Slice); ok {
			if i < 0 {
				return Slice{}
			}
			return Slice{s.a, s.off + i, j - i, j - i}
		}
		if i < 0 {
			return ""
		}
		return strSub(v, i, j)
	}
	all := func(one func(src Value, match []int) Value) intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			n := int(a[2].(int64))
			b := bytesOf(a[1])
			if n < 0 {
				n = len(b) + 1
			}
			ms := m.reAll(m.reOf(a[0]), b, n)
			if ms == nil {
				return Slice{}
			}
			var r []Value
			for _, x := range ms {
				r = append(r, one(a[1], x))
			}
			return sliceOf(r)
		}
	}
	whole := all(func(src Value, x []int) Value { return part(src, x[0], x[1]) })
	groups := all(func(src Value, x []int) Value {
		var r []Value
		for i := 0; i < len(x); i += 2 {
			r = append(r, part(src, x[i], x[i+1]))
		}
		return sliceOf(r)
	})
	span := all(func(src Value, x []int) Value { return idx(x[:2]) })
	spans := all(func(src Value, x []int) Value { return idx(x) })
	intrinsics[pre+"FindAllString"], intrinsics[pre+"FindAll"] = whole, whole
	intrinsics[pre+"FindAllStringSubmatch"], intrinsics[pre+"FindAllSubmatch"] = groups, groups
	intrinsics[pre+"FindAllStringIndex"], intrinsics[pre+"FindAllIndex"] = span, span
	intrinsics[pre+"FindAllStringSubmatchIndex"], intrinsics[pre+"FindAllSubmatchIndex"] = spans, spans
	repl := func(with func(m *Machine, fr *frame, d *reData, src, arg Value, match []int) []Value) intrinsic {
		return func(m *Machine, fr *frame, a []Value) Value {
			d := m.reOf(a[0])
			b := bytesOf(a[1])
			r := []Value{}
			last := 0
			for _, x := range m.reAll(d, b, len(b)+1) {
				r = append(r, b[last:x[0]]...)
				r = append(r, with(m, fr, d, a[1], a[2], x)...)
				last = x[1]
			}
			r = append(r, b[last:]...)
			if _, ok := a[1].(Slice); ok {
				return sliceOf(r)
			}
			return mkStr(r)
		}
	}
	lit := repl(func(m *Machine, fr *frame, d *reData, src, arg Value, x []int) []Value { return bytesOf(arg) })
	intrinsics[pre+"ReplaceAllLiteralString"], intrinsics[pre+"ReplaceAllLiteral"] = lit, lit
	expand := repl(func(m *Machine, fr *frame, d *reData, src, arg Value, x []int) []Value {
		tpl := m.concStr(mkStr(bytesOf(arg)))
		b := bytesOf(src)
		var r []Value
		// each group is expanded as a private marker, then replaced by its text
		const base = 0xE000
		fake := []rune{}
		loc := []int{}
		pos := 0
		for i := 0; i < len(x); i += 2 {
			if x[i] < 0 {
				loc = append(loc, -1, -1)
				continue
			}
			fake = append(fake, rune(base+i/2))
			loc = append(loc, pos, pos+3)
			pos += 3
		}
		for _, c := range string(d.re.ExpandString(nil, tpl, string(fake), loc)) {
			if i := 2 * (int(c) - base); i >= 0 && i < len(x) {
				r = append(r, b[x[i]:x[i+1]]...)
				continue
			}
			for _, y := range []byte(string(c)) {
				r = append(r, mk(int64(y)))
			}
		}
		return r
	})
	intrinsics[pre+"ReplaceAllString"], intrinsics[pre+"ReplaceAll"] = expand, expand
	call := repl(func(m *Machine, fr *frame, d *reData, src, arg Value, x []int) []Value {
		return bytesOf(m.callVal(arg, []Value{part(src, x[0], x[1])}, fr))
	})
	intrinsics[pre+"ReplaceAllStringFunc"], intrinsics[pre+"ReplaceAllFunc"] = call, call
	intrinsics[pre+"Split"] = func(m *Machine, fr *frame, a []Value) Value {
		d, n := m.reOf(a[0]), int(a[2].(int64))
		if n == 0 {
			return Slice{}
		}
		b := strBytes(a[1])
		if len(d.expr) > 0 && len(b) == 0 {
			return sliceOf([]Value{""})
		}
		var r []Value
		beg, end := 0, 0
		for _, x := range m.reAll(d, b, len(b)+1) {
			if n > 0 && len(r) == n-1 {
				break
			}
			end = x[0]
			if x[1] != 0 {
				r = append(r, strSub(a[1], beg, end))
			}
			beg = x[1]
		}
		if end != len(b) {
			r = append(r, strSub(a[1], beg, len(b)))
		}
		return sliceOf(r)
	}
	intrinsics[pre+"String"] = func(m *Machine, fr *frame, a []Value) Value { return m.reOf(a[0]).expr }
	intrinsics[pre+"NumSubexp"] = func(m *Machine, fr *frame, a []Value) Value { return mk(int64(m.reOf(a[0]).ncap)) }
}

// reAll lists the successive matches, as regexp.allMatches does.
func (m *Machine) reAll(d *reData, b []Value, n int) [][]int {
	var r [][]int
	for pos, prev := 0, -1; len(r) < n && pos <= len(b); {
		x := m.reMatchAt(d, b, pos)
		if len(x) == 0 {
			break
		}
		accept := true
		if x[1] == pos {
			if x[0] == prev {
				accept = false
			}
			if pos < len(b) {
				_, w := m.decodeBytes(b, pos)
				pos += w
			} else {
				pos++
			}
		} else {
			pos = x[1]
		}
		prev = x[1]
		if accept {
			r = append(r, x)
		}
	}
	return r
}

type reRun struct {
	m       *Machine
	d       *reData
	b       []Value
	runes   []Value
	width   []int
	visited []bool
	cap     []int
	best    []int // longest match so far, in leftmost-longest mode
}

func (m *Machine) reMatch(d *reData, b []Value) []int { return m.reMatchAt(d, b, 0) }

// reMatchAt finds the first match starting at or after position from.
func (m *Machine) reMatchAt(d *reData, b []Value, from int) []int {
	conc := from == 0
	for _, x := range b {
		if _, ok := x.(int64); !ok {
			conc = false
			break
		}
	}
	if conc {
		buf := make([]byte, len(b))
		for i, x := range b {
			buf[i] = byte(x.(int64))
		}
		if r, ok := d.conc[string(buf)]; ok {
			return r
		}
		r := d.re.FindSubmatchIndex(buf)
		if len(d.conc) < 4096 {
			d.conc[string(buf)] = r
		}
		return r
	}
	r := &reRun{m: m, d: d, b: b, runes: make([]Value, len(b)), width: make([]int, len(b))}
	r.visited = make([]bool, len(d.prog.Inst)*(len(b)+1))
	for start := from; start <= len(b); start++ {
		if d.anch && start > 0 {
			break
		}
		r.cap = make([]int, 2*(d.ncap+1))
		for i := range r.cap {
			r.cap[i] = -1
		}
		r.cap[0] = start
		if r.try(d.prog.Start, start) {
			return r.cap
		}
		if r.best != nil {
			return r.best
		}
		if start < len(b) {
			// starting positions are rune boundaries
			_, w := r.rune(start)
			start += w - 1
		}
	}
	return nil
}

func (r *reRun) rune(i int) (Value, int) {
	if r.width[i] == 0 {
		r.runes[i], r.width[i] = r.m.decodeBytes(r.b, i)
	}
	return r.runes[i], r.width[i]
}

func (r *reRun) try(pc, pos int) bool {
	for {
		k := pc*(len(r.b)+1) + pos
		if r.visited[k] {
			return false
		}
		r.visited[k] = true
		in := &r.d.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return false
		case syntax.InstAlt:
			if r.try(int(in.Out), pos) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstAltMatch:
			if r.try(int(in.Out), pos) {
				return true
			}
			pc = int(in.Arg)
		case syntax.InstCapture:
			if int(in.Arg) < len(r.cap) {
				old := r.cap[in.Arg]
				r.cap[in.Arg] = pos
				if r.try(int(in.Out), pos) {
					return true
				}
				r.cap[in.Arg] = old
				return false
			}
			pc = int(in.Out)
		case syntax.InstNop:
			pc = int(in.Out)
		case syntax.InstEmptyWidth:
			if !r.empty(syntax.EmptyOp(in.Arg), pos) {
				return false
			}
			pc = int(in.Out)
		case syntax.InstMatch:
			r.cap[1] = pos
			if r.d.long {
				if r.best == nil || pos > r.best[1] {
					r.best = append([]int{}, r.cap...)
				}
				return false
			}
			return true
		default:
			if pos >= len(r.b) {
				return false
			}
			if !r.matchInst(in, pos) {
				return false
			}
			_, w := r.rune(pos)
			pc, pos = int(in.Out), pos+w
		}
	}
}

func (r *reRun) matchInst(in *syntax.Inst, pos int) bool {
	m := r.m
	// single ASCII byte classes need no full decoding
	rn, _ := r.rune(pos)
	if x, ok := rn.(int64); ok {
		switch in.Op {
		case syntax.InstRuneAny:
			return true
		case syntax.InstRuneAnyNotNL:
			return x != '\n'
		}
		return in.MatchRune(rune(x))
	}
	t := rn.(*Term)
	tc := m.tc
	rng := func(lo, hi rune) *Term {
		return tc.And(tc.cmp(OpUle, tc.Const(uint64(lo), 32), t), tc.cmp(OpUle, t, tc.Const(uint64(hi), 32)))
	}
	switch in.Op {
	case syntax.InstRuneAny:
		return true
	case syntax.InstRuneAnyNotNL:
		return m.branch(tc.Not(tc.Eq(t, tc.Const('\n', 32))))
	}
	c := tc.tFalse
	if len(in.Rune) == 1 {
		r0 := in.Rune[0]
		c = rng(r0, r0)
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			for f := unicode.SimpleFold(r0); f != r0; f = unicode.SimpleFold(f) {
				c = tc.Or(c, rng(f, f))
			}
		}
	} else {
		_, hi := urange(t, 4)
		for i := 0; i+1 < len(in.Rune); i += 2 {
			if uint64(in.Rune[i]) > hi {
				break
			}
			c = tc.Or(c, rng(in.Rune[i], in.Rune[i+1]))
		}
	}
	return m.branch(c)
}

func (r *reRun) isByte(i int, c byte) bool {
	return r.m.byteEq(r.b[i], mk(int64(c)))
}

func (r *reRun) isWord(i int) bool {
	if i < 0 || i >= len(r.b) {
		return false
	}
	switch x := r.b[i].(type) {
	case int64:
		return syntax.IsWordChar(rune(x)) && x < 0x80
	case *Term:
		tc := r.m.tc
		rg := func(lo, hi byte) *Term {
			return tc.And(tc.cmp(OpUle, tc.Const(uint64(lo), 8), x), tc.cmp(OpUle, x, tc.Const(uint64(hi), 8)))
		}
		return r.m.branch(tc.Or(tc.Or(rg('a', 'z'), rg('A', 'Z')), tc.Or(rg('0', '9'), tc.Eq(x, tc.Const('_', 8)))))
	}
	return false
}

func (r *reRun) empty(op syntax.EmptyOp, pos int) bool {
	if op&syntax.EmptyBeginText != 0 && pos != 0 {
		return false
	}
	if op&syntax.EmptyEndText != 0 && pos != len(r.b) {
		return false
	}
	if op&syntax.EmptyBeginLine != 0 && pos != 0 && !r.isByte(pos-1, '\n') {
		return false
	}
	if op&syntax.EmptyEndLine != 0 && pos != len(r.b) && !r.isByte(pos, '\n') {
		return false
	}
	if op&(syntax.EmptyWordBoundary|syntax.EmptyNoWordBoundary) != 0 {
		b := r.isWord(pos-1) != r.isWord(pos)
		if op&syntax.EmptyWordBoundary != 0 && !b || op&syntax.EmptyNoWordBoundary != 0 && b {
			return false
		}
	}
	return true
}
