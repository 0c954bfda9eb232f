// Package c05: integer sets.
package c05

import (
	"github.com/ava12/llx/internal/ints"
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
)

const span = 70

// elem is an element, arbitrary within three machine words around zero.
func elem(n string) int { return sym.IntRange(n, -span, span) }

func elems(n string, k int) []int {
	r := make([]int, k)
	for i := range r {
		r[i] = elem(n)
	}
	return r
}

func has(a []int, x int) bool {
	r := false
	for _, v := range a {
		r = sym.Or(r, v == x)
	}
	return r
}

func eq(a, b bool) bool { return sym.And(sym.Implies(a, b), sym.Implies(b, a)) }

// H_AddRemove: membership after any adds and removes.
//
//zz:bounds 3 (thorough 4) operations, elements and probe any integers in [-70,70]
func H_AddRemove() {
	s := ints.NewSet()
	x := elem("x")
	in := false
	n := sym.N(3, 4)
	for i := 0; i < n; i++ {
		v := elem("v")
		if sym.Choice("op", 2) == 0 {
			s.Add(v)
			in = sym.Or(in, x == v)
		} else {
			s.Remove(v)
			in = sym.And(in, x != v)
		}
	}
	sym.Assert(eq(s.Contains(x), in), "membership")
	s.Add()
	s.Remove()
	sym.Assert(eq(s.Contains(x), in), "membership after empty add and remove")
}

// H_Many: several elements in one call.
//
//zz:bounds NewSet with 0..1 (thorough 2), Add of 0..2, Remove of 0..1 (thorough 2) elements in [-70,70]
func H_Many() {
	k := sym.N(2, 3)
	a := elems("a", sym.Choice("na", k))
	b := elems("b", sym.Choice("nb", 3))
	c := elems("c", sym.Choice("nc", k))
	x := elem("x")
	s := ints.FromSlice(a)
	s.Add(b...)
	s.Remove(c...)
	want := sym.And(sym.Or(has(a, x), has(b, x)), !has(c, x))
	sym.Assert(eq(s.Contains(x), want), "membership")
}

// H_RemoveMany: several removals in one call, inside and outside the range of the set.
//
//zz:bounds set of 1 (thorough 2) elements in [-70,70], then one Remove of 2 elements in [-70,70], the second shifted by -256, 0 or 256; any probe in [-70,70]
func H_RemoveMany() {
	a := elems("a", sym.N(1, 2))
	c := elems("c", 2)
	c[1] += []int{0, -256, 256}[sym.Choice("shift", 3)]
	x := elem("x")
	s := ints.NewSet(a...)
	s.Remove(c...)
	sym.Assert(eq(s.Contains(x), sym.And(has(a, x), !has(c, x))), "membership after one removal of several elements")
}

// H_Far: probes of any size.
//
//zz:bounds up to 2 elements in [-70,70], any 64-bit probe
func H_Far() {
	a := elems("a", sym.Choice("na", 3))
	s := ints.NewSet(a...)
	x := sym.Int("x")
	sym.Assert(eq(s.Contains(x), has(a, x)), "membership of any integer")
}

// H_Large: elements far from zero.
//
//zz:bounds one element of {-65,-1,0,64} and one near +-4096, offset by [-70,70]
func H_Large() {
	a := []int{-65, -1, 0, 64}[sym.Choice("a", 4)]
	b := elem("b")
	switch sym.Choice("base", 2) {
	case 0:
		b += 4096
	case 1:
		b -= 4096
	}
	s := ints.NewSet(a)
	if sym.Choice("two", 2) == 0 {
		s.Add(b)
	} else {
		s = ints.NewSet(b, a)
	}
	x := sym.Int("x")
	sym.Assert(eq(s.Contains(x), sym.Or(x == a, x == b)), "membership")
	l := s.ToSlice()
	if a == b {
		sym.Assert(len(l) == 1 && l[0] == a, "listing")
	} else {
		sym.Assert(len(l) == 2 && sym.And(l[0] == sym.Ite(a < b, a, b), l[1] == sym.Ite(a < b, b, a)), "listing")
	}
}

func ops(a, b []int) {
	x := elem("x")
	ina, inb := has(a, x), has(b, x)
	s, t := ints.NewSet(a...), ints.NewSet(b...)
	var r *ints.Set
	var want bool
	fn := sym.Choice("op", 6)
	switch fn {
	case 0:
		r, want = ints.Union(s, t), sym.Or(ina, inb)
	case 1:
		r, want = ints.Intersect(s, t), sym.And(ina, inb)
	case 2:
		r, want = ints.Subtract(s, t), sym.And(ina, !inb)
	case 3:
		r, want = s.Union(t), sym.Or(ina, inb)
	case 4:
		r, want = s.Intersect(t), sym.And(ina, inb)
	case 5:
		r, want = s.Subtract(t), sym.And(ina, !inb)
	}
	sym.Assert(eq(r.Contains(x), want), "result of a set operation")
	if fn < 3 {
		sym.Assert(eq(s.Contains(x), ina), "first operand")
	} else {
		sym.Assert(eq(s.Contains(x), want), "receiver")
	}
	sym.Assert(eq(t.Contains(x), inb), "second operand")
}

// H_Ops: union, intersection, subtraction as functions and methods.
//
//zz:bounds operands of 0..1 (thorough 2) elements in [-70,70]
func H_Ops() {
	k := sym.N(2, 3)
	ops(elems("a", sym.Choice("na", k)), elems("b", sym.Choice("nb", k)))
}

// H_Independent: operands and result of an operation do not share storage.
//
//zz:bounds operands {a}, {b} with a, b from {-65,-1,0,64}, the result or an operand changed by any element in [-70,70]
func H_Independent() {
	bd := []int{-65, -1, 0, 64}
	var a, b []int
	if k := sym.Choice("a", len(bd)+1); k > 0 {
		a = bd[k-1 : k]
	}
	if k := sym.Choice("b", len(bd)+1); k > 0 {
		b = bd[k-1 : k]
	}
	x, v := elem("x"), elem("v")
	ina, inb := has(a, x), has(b, x)
	s, t := ints.NewSet(a...), ints.NewSet(b...)
	var r *ints.Set
	var want bool
	fn := sym.Choice("op", 6)
	switch fn {
	case 0:
		r, want = ints.Union(s, t), sym.Or(ina, inb)
	case 1:
		r, want = ints.Intersect(s, t), sym.And(ina, inb)
	case 2:
		r, want = ints.Subtract(s, t), sym.And(ina, !inb)
	case 3:
		r, want = s.Union(t), sym.Or(ina, inb)
	case 4:
		r, want = s.Intersect(t), sym.And(ina, inb)
	case 5:
		r, want = s.Subtract(t), sym.And(ina, !inb)
	}
	change := r
	which := sym.Choice("which", 2)
	if which == 1 {
		change = t
	}
	add := sym.Choice("add", 2) == 0
	if add {
		change.Add(v)
	} else {
		change.Remove(v)
	}
	upd := func(in bool) bool {
		if add {
			return sym.Or(in, x == v)
		}
		return sym.And(in, x != v)
	}
	if which == 0 {
		want = upd(want)
	} else {
		inb = upd(inb)
	}
	sym.Assert(eq(r.Contains(x), want), "result after a change")
	sym.Assert(eq(t.Contains(x), inb), "second operand after a change")
	if fn < 3 {
		sym.Assert(eq(s.Contains(x), ina), "first operand after a change")
	}
}

// H_Ops_pairs: operands with two elements each, one arbitrary and one at a word boundary.
//
//zz:bounds operands {a,A}, {B,C}: a arbitrary in [-70,70], A, B, C from {-65,-1,0,64} (thorough also -64, 63)
func H_Ops_pairs() {
	bd := []int{-65, -1, 0, 64}
	if sym.Thorough() {
		bd = []int{-65, -64, -1, 0, 63, 64}
	}
	ops([]int{elem("a"), bd[sym.Choice("A", len(bd))]}, []int{bd[sym.Choice("B", len(bd))], bd[sym.Choice("C", len(bd))]})
}

// H_Equal: equality and emptiness, also of sets whose storage differs.
//
//zz:bounds two sets of 0..2 and 0..1 (thorough 2) elements in [-70,70], each having had one more element added and removed
func H_Equal() {
	a := elems("a", sym.Choice("na", 3))
	b := elems("b", sym.Choice("nb", sym.N(2, 3)))
	s, t := ints.NewSet(a...), ints.NewSet(b...)
	switch sym.Choice("hist", 3) {
	case 1:
		v := elem("v")
		sym.Assume(!has(a, v))
		s.Add(v)
		s.Remove(v)
	case 2:
		s.Remove(200)
		t.Remove(-200)
	}
	same := true
	for _, v := range a {
		same = sym.And(same, has(b, v))
	}
	for _, v := range b {
		same = sym.And(same, has(a, v))
	}
	sym.Assert(eq(s.IsEqual(t), same), "equality")
	sym.Assert(eq(t.IsEqual(s), same), "equality, other way round")
	sym.Assert(s.IsEmpty() == (len(a) == 0), "emptiness")
	sym.Assert(s.IsEqual(s.Copy()), "equality with a copy")
	if len(a) > 0 {
		s.Remove(a...)
		sym.Assert(s.IsEmpty(), "emptiness after removal of all")
	}
}

// H_Copy: copies are independent.
//
//zz:bounds a set of 0..2 elements in [-70,70], one change to either
func H_Copy() {
	a := elems("a", sym.Choice("na", 3))
	x, v := elem("x"), elem("v")
	s := ints.NewSet(a...)
	c := s.Copy()
	in := has(a, x)
	sym.Assert(eq(c.Contains(x), in), "copy")
	if sym.Choice("which", 2) == 0 {
		s, c = c, s
	}
	if sym.Choice("op", 2) == 0 {
		s.Add(v)
		sym.Assert(eq(s.Contains(x), sym.Or(in, x == v)), "changed one")
	} else {
		s.Remove(v)
		sym.Assert(eq(s.Contains(x), sym.And(in, x != v)), "changed one")
	}
	sym.Assert(eq(c.Contains(x), in), "other one")
}

// H_List: listing is ascending, without duplicates, and complete.
//
//zz:bounds up to one element in [-70,70] and two of {-65,-1,0,64} (thorough: up to 2 elements in [-70,70])
func H_List() {
	a := elems("a", sym.Choice("n", sym.N(2, 3)))
	bd := []int{-65, -1, 0, 64}
	if !sym.Thorough() {
		for i := 0; i < 2; i++ {
			if k := sym.Choice("b", 5); k > 0 {
				a = append(a, bd[k-1])
			}
		}
	}
	n := len(a)
	s := ints.NewSet(a...)
	l := s.ToSlice()
	sym.Assert(len(l) <= n, "no more items than added")
	sym.Assert((len(l) == 0) == (n == 0), "empty listing")
	asc := true
	for i := 1; i < len(l); i++ {
		asc = sym.And(asc, l[i-1] < l[i])
	}
	sym.Assert(asc, "ascending without duplicates")
	x := elem("x")
	sym.Assert(eq(has(l, x), has(a, x)), "listing contains exactly the elements")
}
