// Package c12: walkers and selectors.
package c12

import (
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	zt "github.com/ava12/llx/internal/zzverif/zztree"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

type visit struct{ e, level int }

// walk is the definition: the element, then its children from left to right
// (or from right to left). flags gives the answer for the n-th element.
func walk(f *zt.Forest, root int, rtl bool, flags func(n int) int) (res []visit, stopped bool) {
	var rec func(e, level int) (stop, skipSiblings bool)
	rec = func(e, level int) (bool, bool) {
		fl := flags(len(res))
		res = append(res, visit{e, level})
		if fl&tree.WalkerStop != 0 {
			return true, true
		}
		if fl&tree.WalkerSkipChildren == 0 {
			k := f.Kids[e]
			for i := range k {
				c := k[i]
				if rtl {
					c = k[len(k)-1-i]
				}
				stop, skip := rec(c, level+1)
				if stop {
					return true, true
				}
				if skip {
					break
				}
			}
		}
		return false, fl&tree.WalkerSkipSiblings != 0
	}
	stopped, _ = rec(root, 0)
	return
}

func check(f *zt.Forest, got []tree.WalkStat, want []visit, what string) {
	sym.Assert(len(got) == len(want), what+": number of elements")
	for i := range want {
		sym.Assert(got[i].Element == f.Els[want[i].e], what+": element")
		sym.Assert(got[i].Level == want[i].level, what+": level")
	}
}

// H_Walk: any walk of any subtree, with any answers of the visitor.
//
//zz:bounds all trees of 1..5 (thorough 6) nodes and tokens, any subtree, both directions, any combination of flags at each element, by Step, by Walker.Walk and by Walk
func H_Walk() {
	f := zt.Build(1+sym.Choice("n", sym.N(5, 6)), true, "x")
	root := sym.Choice("root", len(f.Els))
	mode := []tree.WalkMode{tree.WalkLtr, tree.WalkRtl}[sym.Choice("mode", 2)]
	fl := make([]int, 0, len(f.Els))
	flags := func(n int) int {
		for len(fl) <= n {
			// stop, or none, one or both of the other two
			c := sym.Choice("flags", 5)
			fl = append(fl, []int{0, tree.WalkerSkipChildren, tree.WalkerSkipSiblings, tree.WalkerSkipChildren | tree.WalkerSkipSiblings, tree.WalkerStop}[c])
		}
		return fl[n]
	}
	want, stopped := walk(f, root, mode == tree.WalkRtl, flags)

	var got []tree.WalkStat
	w := tree.NewWalker(f.Els[root], mode)
	st := w.Step(tree.WalkerSkipChildren * sym.IntRange("first", 0, 0))
	for st.Element != nil && len(got) <= len(want) {
		got = append(got, st)
		st = w.Step(flags(len(got) - 1))
	}
	check(f, got, want, "Step")
	st = w.Step(0)
	sym.Assert(st.Element == nil && w.Next().Element == nil, "a finished walker stays finished")

	for i := 0; i < 2; i++ {
		got = nil
		visitor := func(s tree.WalkStat) tree.WalkerFlags {
			got = append(got, s)
			return flags(len(got) - 1)
		}
		if i == 0 {
			tree.Walk(f.Els[root], mode, visitor)
		} else {
			tree.NewWalker(f.Els[root], mode).Walk(visitor)
		}
		check(f, got, want, "Walk")
	}
	_ = stopped
	f.Check("tree after the walk")
}

// H_First: flags given before any element was fetched are ignored.
//
//zz:bounds all trees of 1..4 nodes and tokens, any subtree, any of the two skip flags
func H_First() {
	f := zt.Build(1+sym.Choice("n", 4), true, "x")
	root := sym.Choice("root", len(f.Els))
	want, _ := walk(f, root, false, func(int) int { return 0 })
	var got []tree.WalkStat
	w := tree.NewWalker(f.Els[root], tree.WalkLtr)
	st := w.Step([]int{tree.WalkerSkipChildren, tree.WalkerSkipSiblings, tree.WalkerSkipChildren | tree.WalkerSkipSiblings}[sym.Choice("f", 3)])
	for st.Element != nil && len(got) <= len(want) {
		got = append(got, st)
		st = w.Next()
	}
	check(f, got, want, "flags before the first element")
	sym.Assert(tree.NewWalker(nil, tree.WalkLtr).Next().Element == nil, "no root")
}

// step is one transformer: the real one is added to s, the model maps an element to elements.
func step(f *zt.Forest, s *tree.Selector, n int) func(e int) []int {
	one := func(ok func(e int) bool) func(e int) []int {
		return func(e int) []int {
			if ok(e) {
				return []int{e}
			}
			return nil
		}
	}
	named := func(name string) func(e int) bool { return func(e int) bool { return f.Name[e] == name } }
	literal := func(e int) bool { return !f.IsNode[e] && f.Name[e] == "a" }
	children := func(e int) []int { return f.Kids[e] }
	ancestors := func(e int) []int {
		var r []int
		for p := f.Parent[e]; p >= 0; p = f.Parent[p] {
			r = append(r, p)
		}
		return r
	}
	search := func(deep bool, ok func(e int) bool) func(e int) []int {
		var rec func(e int) []int
		rec = func(e int) []int {
			var r []int
			if ok(e) {
				r = append(r, e)
				if !deep {
					return r
				}
			}
			for _, k := range f.Kids[e] {
				r = append(r, rec(k)...)
			}
			return r
		}
		return rec
	}
	siblings := func(e, d int) []int {
		p := f.Parent[e]
		if p < 0 {
			return nil
		}
		var r []int
		for i := f.Index(e) + d; i >= 0 && i < len(f.Kids[p]); i += d {
			r = append(r, f.Kids[p][i])
		}
		return r
	}

	switch n {
	case 0:
		s.Filter(tree.IsA("a"))
		return one(named("a"))
	case 1:
		s.Filter(tree.IsNot(tree.IsALiteral("ta")))
		return one(func(e int) bool { return !literal(e) })
	case 2:
		s.Search(tree.IsA("a"))
		return search(false, named("a"))
	case 3:
		s.DeepSearch(tree.IsA("c", "a"))
		return search(true, named("a"))
	case 4:
		s.Extract(tree.Children)
		return children
	case 5:
		s.Extract(tree.Any(tree.NextSiblings, tree.Ancestors))
		return func(e int) []int {
			r := siblings(e, 1)
			if len(r) == 0 {
				r = ancestors(e)
			}
			return r
		}
	case 6:
		s.Extract(tree.All(tree.Ancestors, tree.Children))
		return func(e int) []int {
			var r []int
			r = append(r, ancestors(e)...)
			return append(r, children(e)...)
		}
	case 7:
		s.Extract(tree.Nth(tree.Children, 1, 0))
		return func(e int) []int {
			var r []int
			k := f.Kids[e]
			if len(k) > 1 {
				r = append(r, k[1])
			}
			if len(k) > 0 {
				r = append(r, k[0])
			}
			return r
		}
	case 8:
		s.Extract(tree.PrevSiblings)
		return func(e int) []int { return siblings(e, -1) }
	case 9:
		s.Search(tree.IsAny(tree.IsALiteral("tz", "ta"), tree.IsAll(tree.IsA("b"), tree.IsNot(tree.IsALiteral("tb")))))
		return search(false, func(e int) bool { return literal(e) || f.Name[e] == "b" && f.IsNode[e] })
	}
	s.Extract(nil)
	return nil
}

const steps = 11

func selector(f *zt.Forest, k int, inputs []int) {
	s := tree.NewSelector()
	var model []func(e int) []int
	for i := 0; i < k; i++ {
		if m := step(f, s, sym.Choice("step", steps)); m != nil {
			model = append(model, m)
		}
	}
	unique := sym.Choice("unique", 2) == 1
	if unique {
		s.Unique()
	}

	var want []int
	for _, i := range inputs {
		if i < 0 {
			continue
		}
		cur := []int{i}
		for _, m := range model {
			var next []int
			for _, e := range cur {
				next = append(next, m(e)...)
			}
			cur = next
		}
		for _, e := range cur {
			dup := false
			for _, x := range want {
				dup = dup || x == e
			}
			if !unique || !dup {
				want = append(want, e)
			}
		}
	}
	var els []tree.Element
	for _, i := range inputs {
		els = append(els, f.El(i))
	}
	for i := 0; i < 2; i++ { // a selector is reusable
		sym.Assert(f.Same(s.Apply(els...), want), "selected elements")
	}
	for i, x := range inputs {
		sym.Assert(f.Find(els[i]) == x, "input list")
	}
	f.Check("tree after the selection")
}

// H_Select: one or two transformers.
//
//zz:bounds all trees of 1..4 (thorough 5) nodes and tokens named a or b, any element, any 0..2 of 11 transformers (filters, searches, extractors, Any, All, Nth), unique or not
func H_Select() {
	f := zt.Build(1+sym.Choice("n", sym.N(4, 5)), true, "a", "b")
	selector(f, sym.Choice("k", 3), []int{sym.Choice("e", len(f.Els))})
}

// H_Chain: three transformers.
//
//zz:bounds a tree of 6 elements, any element, any 3 transformers, unique or not
func H_Chain() {
	f := &zt.Forest{}
	r := f.Add(true, "a", -1)
	x := f.Add(true, "b", r)
	f.Add(false, "a", x)
	y := f.Add(true, "a", x)
	f.Add(true, "a", y)
	f.Add(false, "b", r)
	selector(f, 3, []int{sym.Choice("e", len(f.Els))})
}

// H_Inputs: several inputs, some nil, some repeated.
//
//zz:bounds a tree of 5 elements, any 0..3 inputs of it or nil, any transformer or none, unique or not
func H_Inputs() {
	f := &zt.Forest{}
	r := f.Add(true, "b", -1)
	x := f.Add(true, "a", r)
	f.Add(false, "a", x)
	f.Add(false, "b", x)
	f.Add(false, "a", r)
	in := make([]int, sym.Choice("n", 4))
	for i := range in {
		in[i] = sym.Choice("e", len(f.Els)+1) - 1
	}
	selector(f, sym.Choice("k", 2), in)
}

// H_Filters: what the ready-made filters accept.
//
//zz:bounds an element with a name and a text of 0..2 arbitrary letters of {a,b}, up to 2 such names in a filter; filters of up to 3 parts with arbitrary answers
func H_Filters() {
	str := func(n string) string { return sym.StringOf(n, sym.Choice(n+"len", 3), "ab") }
	name, text := str("name"), str("text")
	var list []string
	for i := sym.Choice("list", 3); i > 0; i-- {
		list = append(list, str("item"))
	}
	in := func(x string) bool {
		r := false
		for _, y := range list {
			r = sym.Or(r, x == y)
		}
		return r
	}
	eq := func(a, b bool) bool { return sym.And(sym.Implies(a, b), sym.Implies(b, a)) }
	tok := tree.NewTokenElement(lexer.NewToken(1, name, []byte(text), source.NewPos(nil, 0)))
	node := tree.NewNodeElement(name, lexer.NewToken(1, "t", []byte(text), source.NewPos(nil, 0)))
	sym.Assert(eq(tree.IsA(list...)(tok), in(name)), "IsA of a token")
	sym.Assert(eq(tree.IsA(list...)(node), in(name)), "IsA of a node")
	sym.Assert(eq(tree.IsALiteral(list...)(tok), in(text)), "IsALiteral of a token")
	sym.Assert(!tree.IsALiteral(list...)(node), "IsALiteral of a node")
}

// H_Logic: combined filters.
//
//zz:bounds up to 3 filters with arbitrary answers, in IsAny, IsAll and IsNot
func H_Logic() {
	node := tree.NewNodeElement("x", nil)
	var fs []tree.Filter
	any, all := false, true
	for i := sym.Choice("n", 4); i > 0; i-- {
		b := sym.Bool("b")
		fs = append(fs, func(e tree.Element) bool {
			sym.Assert(e == tree.Element(node), "filtered element")
			return b
		})
		any, all = sym.Or(any, b), sym.And(all, b)
	}
	eq := func(a, b bool) bool { return sym.And(sym.Implies(a, b), sym.Implies(b, a)) }
	sym.Assert(eq(tree.IsAny(fs...)(node), any), "IsAny")
	sym.Assert(eq(tree.IsAll(fs...)(node), all), "IsAll")
	sym.Assert(eq(tree.IsNot(tree.IsAll(fs...))(node), !all), "IsNot")
	sym.Assert(eq(tree.IsNot(tree.IsAny(fs...))(node), !any), "IsNot")
}

// H_Kept: extractors that return parts of a list they keep are combined
// without changing the list.
//
//zz:bounds a kept list of 4 elements; up to 3 extractors returning any part of it (also an empty one), combined by All, Any, Nth (two indexes of -1..4), by two transformers, or All of All; the selector applied to two inputs twice, unique or not
func H_Kept() {
	f := &zt.Forest{}
	r := f.Add(true, "r", -1)
	for i := 0; i < 4; i++ {
		f.Add(false, "a", r)
	}
	kept := append([]tree.Element(nil), f.Els[1:5]...)
	var exs []tree.Extractor
	var parts [][]int
	for i := 1 + sym.Choice("parts", 3); i > 0; i-- {
		lo := sym.Choice("lo", 5)
		hi := lo + sym.Choice("hi", 5-lo)
		exs = append(exs, func(tree.Element) []tree.Element { return kept[lo:hi] })
		var p []int
		for k := lo; k < hi; k++ {
			p = append(p, k+1)
		}
		parts = append(parts, p)
	}
	s := tree.NewSelector()
	var one []int // from one input
	switch sym.Choice("how", 5) {
	case 0:
		s.Extract(tree.All(exs...))
		for _, p := range parts {
			one = append(one, p...)
		}
	case 1:
		s.Extract(tree.Any(exs...))
		for _, p := range parts {
			if len(p) > 0 {
				one = append(one, p...)
				break
			}
		}
	case 2:
		i, j := sym.Choice("i", 6)-1, sym.Choice("j", 6)-1
		s.Extract(tree.Nth(exs[0], i, j))
		for _, k := range []int{i, j} {
			if k >= 0 && k < len(parts[0]) {
				one = append(one, parts[0][k])
			}
		}
	case 3:
		one = []int{0}
		for i, ex := range exs {
			s.Extract(ex)
			var next []int
			for range one {
				next = append(next, parts[i]...)
			}
			one = next
		}
	case 4:
		s.Extract(tree.All(tree.All(exs...), exs[0]))
		for _, p := range parts {
			one = append(one, p...)
		}
		one = append(one, parts[0]...)
	}
	unique := sym.Choice("unique", 2) == 1
	if unique {
		s.Unique()
	}
	var want []int
	for _, e := range append(append([]int(nil), one...), one...) {
		dup := false
		for _, x := range want {
			dup = dup || x == e
		}
		if !unique || !dup {
			want = append(want, e)
		}
	}
	for i := 0; i < 2; i++ {
		res := s.Apply(f.Els[0], f.Els[2])
		sym.Assert(f.Same(res, want), "elements of kept lists")
		for k := range res {
			res[k] = nil // the result is a copy
		}
		for k := range kept {
			sym.Assert(kept[k] == f.Els[k+1], "kept list")
		}
	}
}
