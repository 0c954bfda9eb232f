// Package c03: source queue.
package c03

import (
	"math"

	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/source"
)

type item struct {
	s   *source.Source
	pos int
}

// model is the list of texts with a cursor. A zero-length text is kept only
// while nothing else is queued.
type model struct {
	items []item
}

type snap struct {
	s source.QueueSnapshot
	m []item
}

type world struct {
	q    *source.Queue
	m    model
	srcs []*source.Source
	sn   []snap
}

func (w *world) add(s *source.Source, front bool) {
	if s == nil {
		return
	}
	its := w.m.items
	if len(its) > 0 && its[0].s.Len() == 0 {
		its = its[1:]
	} else if s.Len() == 0 && len(its) > 0 {
		return
	}
	if front {
		w.m.items = append([]item{{s, 0}}, its...)
	} else {
		w.m.items = append(append([]item{}, its...), item{s, 0})
	}
}

func (w *world) clamp(p int) {
	if len(w.m.items) == 0 {
		return
	}
	n := w.m.items[0].s.Len()
	p = sym.Ite(p < 0, 0, p)
	w.m.items[0].pos = sym.Ite(p > n, n, p)
}

func (w *world) check() {
	q := w.q
	if len(w.m.items) == 0 {
		sym.Assert(q.Source() == nil && q.IsEmpty() && q.Eof(), "empty queue")
		sym.Assert(q.Pos() == 0 && q.SourceName() == "", "position in an empty queue")
		c, p := q.ContentPos()
		sym.Assert(c == nil && p == 0, "content of an empty queue")
		sym.Assert(q.SourcePos().Source() == nil && q.SourcePos().Pos() == 0, "source position in an empty queue")
		l, k := q.LineCol(0)
		sym.Assert(l == 0 && k == 0, "line/column in an empty queue")
		return
	}
	it := w.m.items[0]
	sym.Assert(q.Source() == it.s, "current source")
	sym.Assert(!q.IsEmpty(), "not empty")
	sym.Assert(q.Pos() == it.pos, "current offset")
	sym.Assert(q.SourceName() == it.s.Name(), "current source name")
	c, p := q.ContentPos()
	sym.Assert(string(c) == string(it.s.Content()) && p == it.pos, "content and offset")
	sym.Assert(q.SourcePos().Source() == it.s && q.SourcePos().Pos() == it.pos, "source position")
	e := it.pos >= it.s.Len()
	sym.Assert(sym.And(sym.Implies(q.Eof(), e), sym.Implies(e, q.Eof())), "end of source")
}

var names = []string{"s0", "s1", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "s12", "s13", "s14", "s15"}

func (w *world) newSource(empty bool) *source.Source {
	n := names[len(w.srcs)]
	var c []byte
	if !empty {
		c = []byte("ab\nd")[:2+len(w.srcs)%3]
	}
	s := source.New(n, c)
	w.srcs = append(w.srcs, s)
	return s
}

func (w *world) op(full bool) {
	n := 7
	if full {
		n = 11
	}
	switch sym.Choice("op", n) {
	case 0:
		s := w.newSource(false)
		w.q.Append(s)
		w.add(s, false)
	case 1:
		s := w.newSource(false)
		w.q.Prepend(s)
		w.add(s, true)
	case 2:
		r := w.q.NextSource()
		if len(w.m.items) > 0 {
			w.m.items = append([]item{}, w.m.items[1:]...)
		}
		sym.Assert(r == (len(w.m.items) > 0), "NextSource result")
	case 3:
		v := sym.IntRange("seek", -2, 6)
		w.q.Seek(v)
		w.clamp(v)
	case 4:
		v := sym.IntRange("skip", -2, 6)
		w.q.Skip(v)
		if len(w.m.items) > 0 {
			w.clamp(w.m.items[0].pos + sym.Ite(v > 0, v, 0))
		}
	case 5:
		s := w.newSource(true)
		w.q.Append(s)
		w.add(s, false)
	case 6:
		s := w.newSource(true)
		w.q.Prepend(s)
		w.add(s, true)
	case 7:
		v := sym.IntRange("rewind", -2, 6)
		w.q.Rewind(v)
		if len(w.m.items) > 0 {
			w.clamp(w.m.items[0].pos - sym.Ite(v > 0, v, 0))
		}
	case 8:
		w.sn = append(w.sn, snap{w.q.Snapshot(), append([]item{}, w.m.items...)})
	case 9:
		if len(w.sn) > 0 {
			s := w.sn[sym.Choice("snap", len(w.sn))]
			w.q.Restore(s.s)
			w.m.items = append([]item{}, s.m...)
		}
	case 10:
		w.q.Append(nil)
		w.q.Prepend(nil)
	}
	w.check()
}

func (w *world) drain() {
	for len(w.m.items) > 0 {
		w.check()
		w.m.items = w.m.items[1:]
		sym.Assert(w.q.NextSource() == (len(w.m.items) > 0), "NextSource result")
	}
	w.check()
}

// H_Ops: any sequence of operations.
//
//zz:bounds 4 (thorough 5) operations out of 11 kinds, seek/skip/rewind by any amount in [-2,6], sources of 0, 2, 3 or 4 bytes; then everything left is read
func H_Ops() {
	w := &world{q: source.NewQueue()}
	n := sym.N(4, 5)
	for i := 0; i < n; i++ {
		w.op(true)
	}
	w.drain()
}

// H_Deep: longer histories of the operations that change the list.
//
//zz:bounds 3 appends, a seek, 4 (thorough 5) operations of append, prepend, next, seek, skip, empty append, empty prepend
func H_Deep() {
	w := &world{q: source.NewQueue()}
	for i := 0; i < 3; i++ {
		s := w.newSource(false)
		w.q.Append(s)
		w.add(s, false)
	}
	v := sym.IntRange("start", 0, 4)
	w.q.Seek(v)
	w.clamp(v)
	n := sym.N(4, 5)
	for i := 0; i < n; i++ {
		w.op(false)
	}
	w.drain()
}

// H_Move: offset arithmetic for any amount.
//
//zz:bounds one source of 0..5 bytes, 3 moves by any 64-bit amount
func H_Move() {
	n := sym.Choice("len", 6)
	s := source.New("s", []byte("abcde")[:n])
	q := source.NewQueue().Append(s)
	pos := 0
	for i := 0; i < 3; i++ {
		v := sym.IntRange("by", math.MinInt, math.MaxInt)
		switch sym.Choice("op", 3) {
		case 0:
			q.Seek(v)
			pos = v
		case 1:
			q.Skip(v)
			pos += sym.Ite(v > 0, sym.Ite(v > n, n, v), 0)
		case 2:
			q.Rewind(v)
			pos -= sym.Ite(v > 0, sym.Ite(v > n, n, v), 0)
		}
		pos = sym.Ite(pos < 0, 0, pos)
		pos = sym.Ite(pos > n, n, pos)
		sym.Assert(q.Pos() == pos, "offset")
		e := pos >= n
		sym.Assert(sym.And(sym.Implies(q.Eof(), e), sym.Implies(e, q.Eof())), "end of source")
	}
}
