// Package c01: line/column and offset conversions.
//
//zz:sched
package c01

import (
	"unicode/utf8"

	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/source"
)

// ref is the definition: 1 + line feeds before, 1 + runes since the last of them.
func refLineCol(c []byte, pos int) (int, int) {
	if pos < 0 {
		pos = 0
	}
	if pos > len(c) {
		pos = len(c)
	}
	line, start := 1, 0
	for i := 0; i < pos; i++ {
		if c[i] == '\n' {
			line++
			start = i + 1
		}
	}
	return line, utf8.RuneCount(c[start:pos]) + 1
}

func refPos(c []byte, line, col int) int {
	if line < 1 || col < 1 {
		return 0
	}
	p := 0
	for l := 1; l < line; l++ {
		for p < len(c) && c[p] != '\n' {
			p++
		}
		if p >= len(c) {
			return len(c)
		}
		p++
	}
	for k := 1; k < col; k++ {
		if p >= len(c) || c[p] == '\n' {
			break
		}
		_, n := utf8.DecodeRune(c[p:])
		p += n
	}
	return p
}

func check(s *source.Source, c []byte, pos int) {
	l, k := s.LineCol(pos)
	rl, rk := refLineCol(c, pos)
	sym.Assert(l == rl, "line of an offset")
	sym.Assert(k == rk, "column of an offset")
}

// H_LineCol_history: any content, three queries in any order on one source.
//
//zz:bounds content of 0..7 (thorough 10) bytes over {a,\n}, 3 (thorough 4) queries at any offset in [-1,len+1]
func H_LineCol_history() {
	n := sym.Choice("len", sym.N(8, 11))
	c := []byte(sym.StringOf("c", n, "a\n"))
	s := source.New("s", c)
	q := sym.N(3, 4)
	for i := 0; i < q; i++ {
		check(s, c, sym.Concrete(sym.IntRange("pos", -1, n+1)))
	}
	sym.Assert(s.Len() == n, "length")
}

// H_LineCol_utf8: content with multi-byte and broken runes.
//
//zz:bounds content of 0..5 (thorough 6) bytes over {a,\n,C3,A9,FF}, 2 queries
func H_LineCol_utf8() {
	n := sym.Choice("len", sym.N(6, 7))
	c := []byte(sym.StringOf("c", n, "a\n\xc3\xa9\xff"))
	s := source.New("s", c)
	for i := 0; i < 2; i++ {
		check(s, c, sym.Concrete(sym.IntRange("pos", -1, n+1)))
	}
}

// H_LineCol_bytes: every byte value.
//
//zz:bounds content of 0..3 (thorough 4) arbitrary bytes, any offset
func H_LineCol_bytes() {
	n := sym.Choice("len", sym.N(4, 5))
	c := sym.Bytes("c", n)
	s := source.New("s", c)
	check(s, c, sym.Concrete(sym.IntRange("pos", -1, n+1)))
}

// H_LineCol_far: offsets far outside the text.
//
//zz:bounds content of 0..4 bytes over {a,\n}, any 64-bit offset
func H_LineCol_far() {
	n := sym.Choice("len", 5)
	c := []byte(sym.StringOf("c", n, "a\n"))
	s := source.New("s", c)
	p := sym.Int("pos")
	sym.Assume(sym.Or(p < 0, p > n))
	l, k := s.LineCol(p)
	q := 0
	if p > n {
		q = n
	}
	rl, rk := refLineCol(c, q)
	sym.Assert(l == rl, "line of an outside offset")
	sym.Assert(k == rk, "column of an outside offset")
	check(s, c, sym.Concrete(sym.IntRange("pos2", 0, n)))
}

// H_LineCol_ascending: the typical history, ascending offsets with one jump back.
//
//zz:bounds content of 0..10 (thorough 14) bytes over {a,\n}, 3 queries
func H_LineCol_lines() {
	n := sym.Choice("len", sym.N(11, 15))
	// fixed place of line feeds by a bit mask keeps the state small
	m := sym.IntRange("mask", 0, 1<<uint(n)-1)
	c := make([]byte, n)
	for i := range c {
		c[i] = byte(sym.Ite(m>>uint(i)&1 == 1, '\n', 'x'))
	}
	s := source.New("s", c)
	p1 := sym.Concrete(sym.IntRange("p1", 0, n))
	p2 := sym.Concrete(sym.IntRange("p2", 0, p1))
	s.LineCol(p1)
	check(s, c, p2)
	check(s, c, p1)
}

// H_Pos: line/column to offset, including outside ones.
//
//zz:bounds content of 0..5 (thorough 6) bytes over {a,\n,C3,A9,FF}, line and column in [-1,len+3]
func H_Pos() {
	n := sym.Choice("len", sym.N(6, 7))
	c := []byte(sym.StringOf("c", n, "a\n\xc3\xa9\xff"))
	s := source.New("s", c)
	if sym.Bool("warm") {
		s.LineCol(sym.Concrete(sym.IntRange("pos", 0, n)))
	}
	l := sym.Concrete(sym.IntRange("line", -1, n+3))
	k := sym.Concrete(sym.IntRange("col", -1, n+3))
	sym.Assert(s.Pos(l, k) == refPos(c, l, k), "offset of a line and column")
}

// H_Pos_far: any line and column number.
//
//zz:bounds content of 0..4 bytes over {a,\n}, any 64-bit line or column outside the text
func H_Pos_far() {
	n := sym.Choice("len", 5)
	c := []byte(sym.StringOf("c", n, "a\n"))
	s := source.New("s", c)
	l, k := sym.Int("line"), sym.Int("col")
	switch sym.Choice("case", 4) {
	case 0:
		sym.Assume(l <= 0)
		sym.Assert(s.Pos(l, k) == 0, "line below 1")
	case 1:
		sym.Assume(k <= 0)
		sym.Assert(s.Pos(l, k) == 0, "column below 1")
	case 2:
		sym.Assume(sym.And(l > n+1, k > 0))
		sym.Assert(s.Pos(l, k) == n, "line past the end")
	case 3:
		ll := sym.Concrete(sym.IntRange("ll", 1, n+1))
		sym.Assume(k > n+1)
		sym.Assert(s.Pos(ll, k) == refPos(c, ll, n+2), "column past the end")
	}
}

// H_RoundTrip: offset -> line/column -> offset for rune starts.
//
//zz:bounds content of 0..4 runes from {a,\n,2-byte,3-byte}, every rune start
func H_RoundTrip() {
	n := sym.Choice("runes", sym.N(5, 6))
	var c []byte
	starts := []int{0}
	for i := 0; i < n; i++ {
		switch sym.Choice("r", 4) {
		case 0:
			c = append(c, 'a')
		case 1:
			c = append(c, '\n')
		case 2:
			c = append(c, "é"...)
		case 3:
			c = append(c, "€"...)
		}
		starts = append(starts, len(c))
	}
	s := source.New("s", c)
	p := starts[sym.Choice("at", len(starts))]
	l, k := s.LineCol(p)
	sym.Assert(s.Pos(l, k) == p, "offset, line/column, offset")
}

// H_PosObject: source.Pos and Queue carry consistent values.
//
//zz:bounds content of 0..4 bytes over {a,\n}, any offset inside
func H_PosObject() {
	n := sym.Choice("len", 5)
	c := []byte(sym.StringOf("c", n, "a\n"))
	s := source.New("name", c)
	p := sym.Concrete(sym.IntRange("pos", 0, n))
	o := source.NewPos(s, p)
	l, k := o.LineCol()
	rl, rk := refLineCol(c, p)
	sym.Assert(l == rl && k == rk, "line/column of a position object")
	sym.Assert(o.Pos() == p && o.Source() == s && o.SourceName() == "name", "position object fields")
	var z source.Pos
	zl, zk := z.LineCol()
	sym.Assert(zl == 0 && zk == 0 && z.Pos() == 0 && z.Source() == nil && z.SourceName() == "", "zero position")
	z = source.NewPos(nil, p)
	sym.Assert(z.Pos() == 0 && z.Source() == nil, "position without source")
	q := source.NewQueue().Append(s)
	q.Seek(p)
	o = q.SourcePos()
	l, k = o.LineCol()
	sym.Assert(o.Pos() == p && o.Source() == s && l == rl && k == rk, "position of a queue")
	p2 := sym.Concrete(sym.IntRange("pos2", -1, n+1))
	l, k = q.LineCol(p2)
	rl, rk = refLineCol(c, p2)
	sym.Assert(l == rl && k == rk, "line/column by a queue")
}

// H_Concurrent: positions of one source are asked by several goroutines.
//
//zz:bounds content of 0..4 (thorough 5) bytes over {a,\n}, one query before, then two goroutines at once, that ask for two offsets and for one offset in [0,len]; any goroutine may run whole where another one is about to use a lock or an atomic variable
func H_Concurrent() {
	n := sym.Choice("n", sym.N(5, 6))
	c := []byte(sym.StringOf("c", n, "a\n"))
	s := source.New("", c)
	if p := sym.Choice("before", n+2); p > 0 {
		check(s, c, p-1)
	}
	sym.Share(s)
	var pos, line, col [3]int
	for i := range pos {
		pos[i] = sym.Choice("pos", n+1)
	}
	ask := func(from, to int) func() {
		return func() {
			for i := from; i < to; i++ {
				line[i], col[i] = source.NewPos(s, pos[i]).LineCol()
			}
		}
	}
	sym.Schedule(ask(0, 2), ask(2, 3))
	for i := range pos {
		l, k := refLineCol(c, pos[i])
		sym.Assert(line[i] == l && col[i] == k, "line and column for one of several goroutines")
	}
}
