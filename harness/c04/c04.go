// Package c04: the internal deque.
package c04

import (
	"github.com/ava12/llx/internal/queue"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
)

type pair struct {
	q *queue.Queue[int]
	m []int
}

func newPair() *pair { return &pair{q: queue.New[int]()} }

func (p *pair) append(v int) { p.q.Append(v); p.m = append(p.m, v) }
func (p *pair) prepend(v int) {
	p.q.Prepend(v)
	p.m = append([]int{v}, p.m...)
}
func (p *pair) first() {
	v, ok := p.q.First()
	sym.Assert(ok == (len(p.m) > 0), "First reports emptiness")
	if ok {
		sym.Assert(v == p.m[0], "First returns the first item")
		p.m = p.m[1:]
	} else {
		sym.Assert(v == 0, "First of empty queue")
	}
}
func (p *pair) last() {
	v, ok := p.q.Last()
	sym.Assert(ok == (len(p.m) > 0), "Last reports emptiness")
	if ok {
		sym.Assert(v == p.m[len(p.m)-1], "Last returns the last item")
		p.m = p.m[:len(p.m)-1]
	} else {
		sym.Assert(v == 0, "Last of empty queue")
	}
}
func (p *pair) fill(n int) {
	its := make([]int, n)
	for i := range its {
		its[i] = sym.Int("f")
	}
	p.q.Fill(its)
	p.m = append([]int(nil), its...)
	for i := range its {
		its[i] = -1 // the queue must own its storage
	}
}

func (p *pair) size() {
	sym.Assert(p.q.Len() == len(p.m), "length")
	sym.Assert(p.q.IsEmpty() == (len(p.m) == 0), "emptiness")
}

func (p *pair) full() {
	p.size()
	its := p.q.Items()
	sym.Assert(len(its) == len(p.m), "number of listed items")
	for i := range its {
		sym.Assert(its[i] == p.m[i], "listed items")
	}
	for i := range its {
		its[i] = -1 // the list is a copy
	}
	for i := -len(p.m) - 1; i <= len(p.m); i++ {
		v, ok := p.q.Peek(i)
		j := i
		if j < 0 {
			j += len(p.m)
		}
		in := j >= 0 && j < len(p.m)
		sym.Assert(ok == in, "Peek range")
		if in {
			sym.Assert(v == p.m[j], "peeked item")
		}
	}
}

// H_Free: every sequence of operations on an initially empty queue.
//
//zz:bounds 7 (thorough 8) operations of append, prepend, first, last, fill(0..2,4), clear; items arbitrary integers; full comparison with the reference sequence after the last one, size after every one
func H_Free() {
	p := newPair()
	n := sym.N(7, 8)
	for i := 0; i < n; i++ {
		switch sym.Choice("op", 6) {
		case 0:
			p.append(sym.Int("v"))
		case 1:
			p.prepend(sym.Int("v"))
		case 2:
			p.first()
		case 3:
			p.last()
		case 4:
			switch sym.Choice("fill", 3) {
			case 0:
				p.fill(1)
			case 1:
				p.fill(3)
			case 2:
				p.fill(4)
			}
		case 5:
			p.q.Clear()
			p.m = nil
		}
		p.size()
	}
	p.full()
}

// H_Phases: fill level and head position far from the initial ones, so that
// growth, wrap-around and shrinking meet in every combination.
//
//zz:bounds initial 0..9 items (New), up to 18 (thorough 34) items appended or prepended after up to 9 (thorough 17) are taken from either end, then up to 18 taken and 5 more operations
func H_Phases() {
	lim := sym.N(9, 17)
	a := sym.Choice("a", lim+1)
	its := make([]int, a)
	for i := range its {
		its[i] = sym.Int("i")
	}
	p := &pair{q: queue.New(its...), m: append([]int(nil), its...)}
	for i := range its {
		its[i] = -1
	}
	p.full()
	b := sym.Choice("b", a+1)
	front := sym.Choice("bEnd", 2) == 0
	for i := 0; i < b; i++ {
		if front {
			p.first()
		} else {
			p.last()
		}
	}
	p.size()
	c := sym.Choice("c", lim+1)
	back := sym.Choice("cEnd", 2) == 0
	for i := 0; i < c; i++ {
		if back {
			p.append(sym.Int("j"))
		} else {
			p.prepend(sym.Int("j"))
		}
	}
	p.full()
	d := sym.Choice("d", len(p.m)+1)
	front = sym.Choice("dEnd", 2) == 0
	for i := 0; i < d; i++ {
		if front {
			p.first()
		} else {
			p.last()
		}
	}
	p.full()
	e := sym.Choice("e", 5)
	back = sym.Choice("eEnd", 2) == 0
	for i := 0; i < e; i++ {
		if back {
			p.append(sym.Int("k"))
		} else {
			p.prepend(sym.Int("k"))
		}
	}
	p.full()
}

// H_Slide: a queue used as a sliding window keeps its order for many wraps.
//
//zz:bounds window of 0..8 items, 24 (thorough 40) steps of append+first or prepend+last, growth by up to 9 in between
func H_Slide() {
	p := newPair()
	w := sym.Choice("window", 9)
	for i := 0; i < w; i++ {
		p.append(sym.Int("i"))
	}
	n := sym.Choice("steps", sym.N(25, 41))
	fwd := sym.Choice("dir", 2) == 0
	for i := 0; i < n; i++ {
		if fwd {
			p.append(sym.Int("j"))
			p.first()
		} else {
			p.prepend(sym.Int("j"))
			p.last()
		}
		p.size()
	}
	p.full()
	k := sym.Choice("grow", 10)
	for i := 0; i < k; i++ {
		p.append(sym.Int("k"))
	}
	p.full()
	for len(p.m) > 0 {
		if fwd {
			p.first()
		} else {
			p.last()
		}
		p.size()
	}
	p.first()
	p.last()
	p.append(sym.Int("z"))
	p.full()
}

// H_Large: sizes next to powers of two, where the capacity changes.
//
//zz:bounds 2^k-2..2^k+2 items, k 3..9 (thorough 13), put in by Fill, New, appending or prepending, then one operation of append, prepend, first, last twice; items next to both ends arbitrary
func H_Large() {
	n := 1<<uint(3+sym.Choice("k", sym.N(7, 11))) - 2 + sym.Choice("d", 5)
	its := make([]int, n)
	for i := range its {
		its[i] = i
	}
	for i := 0; i < 2; i++ {
		its[i] = sym.Int("head")
		its[n-1-i] = sym.Int("tail")
	}
	p := &pair{q: queue.New[int](), m: append([]int(nil), its...)}
	switch sym.Choice("how", 4) {
	case 0:
		p.q.Fill(its)
	case 1:
		p.q = queue.New(its...)
	case 2:
		for _, v := range its {
			p.q.Append(v)
		}
	case 3:
		for i := n - 1; i >= 0; i-- {
			p.q.Prepend(its[i])
		}
	}
	p.size()
	for i := 0; i < 2; i++ {
		switch sym.Choice("op", 4) {
		case 0:
			p.append(sym.Int("v"))
		case 1:
			p.prepend(sym.Int("v"))
		case 2:
			p.first()
		case 3:
			p.last()
		}
		p.size()
	}
	its = p.q.Items()
	sym.Assert(len(its) == len(p.m), "number of listed items")
	for i := range its {
		sym.Assert(its[i] == p.m[i], "listed items")
	}
}

// H_Drain: a large queue shrinks without losing anything.
//
//zz:bounds 2^k-1..2^k+1 items, k 4..7 (thorough 9), any number taken from one end, then all from the other or up to 3 appended or prepended
func H_Drain() {
	n := 1<<uint(4+sym.Choice("k", sym.N(4, 6))) - 1 + sym.Choice("d", 3)
	its := make([]int, n)
	for i := range its {
		its[i] = i
	}
	p := &pair{q: queue.New(its...), m: append([]int(nil), its...)}
	take := sym.Choice("take", n+1)
	front := sym.Choice("end", 2) == 0
	for i := 0; i < take; i++ {
		if front {
			p.first()
		} else {
			p.last()
		}
		p.size()
	}
	if sym.Choice("then", 2) == 0 {
		for len(p.m) > 0 {
			if front {
				p.last()
			} else {
				p.first()
			}
			p.size()
		}
		p.first()
		p.last()
		return
	}
	back := sym.Choice("back", 2) == 0
	for i := 0; i < 3; i++ {
		if back {
			p.append(sym.Int("v"))
		} else {
			p.prepend(sym.Int("v"))
		}
	}
	its = p.q.Items()
	sym.Assert(len(its) == len(p.m), "number of listed items")
	for i := range its {
		sym.Assert(its[i] == p.m[i], "listed items")
	}
}
