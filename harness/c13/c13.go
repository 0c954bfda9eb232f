// Package c13: token navigation.
package c13

import (
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	zt "github.com/ava12/llx/internal/zzverif/zztree"
	"github.com/ava12/llx/tree"
)

func tokens(f *zt.Forest, l []int) []int {
	var r []int
	for _, i := range l {
		if !f.IsNode[i] {
			r = append(r, i)
		}
	}
	return r
}

func is(f *zt.Forest, e tree.Element, want []int, last bool) bool {
	if len(want) == 0 {
		return e == nil
	}
	i := 0
	if last {
		i = len(want) - 1
	}
	return e != nil && e == f.Els[want[i]]
}

// H_Tokens: first, last, next and previous token of any element.
//
//zz:bounds all trees of 1..5 (thorough 7) nodes and tokens, any element
func H_Tokens() {
	f := zt.Build(1+sym.Choice("n", sym.N(5, 7)), true, "x")
	i := sym.Choice("e", len(f.Els))
	all, own := f.Order(0), f.Order(i)
	at := 0
	for all[at] != i {
		at++
	}
	e := f.Els[i]
	sym.Assert(is(f, tree.FirstTokenElement(e), tokens(f, own), false), "first token")
	sym.Assert(is(f, tree.LastTokenElement(e), tokens(f, own), true), "last token")
	sym.Assert(is(f, tree.NextTokenElement(e), tokens(f, all[at+len(own):]), false), "next token")
	sym.Assert(is(f, tree.PrevTokenElement(e), tokens(f, all[:at]), true), "previous token")
	f.Check("tree after the lookups")
	sym.Assert(tree.FirstTokenElement(nil) == nil && tree.LastTokenElement(nil) == nil && tree.NextTokenElement(nil) == nil && tree.PrevTokenElement(nil) == nil, "no element")
}

// H_Lists: child, sibling and ancestor lists and lookups by index.
//
//zz:bounds all trees of 1..5 (thorough 6) nodes and tokens, any element, any index in [-1,6]
func H_Lists() {
	f := zt.Build(1+sym.Choice("n", sym.N(5, 6)), true, "x")
	i := sym.Choice("e", len(f.Els))
	e := f.Els[i]
	sym.Assert(f.Same(tree.Children(e), f.Kids[i]), "children")

	var up []int
	for p := f.Parent[i]; p >= 0; p = f.Parent[p] {
		up = append(up, p)
	}
	sym.Assert(f.Same(tree.Ancestors(e), up), "ancestors")

	var prev, next []int
	if p := f.Parent[i]; p >= 0 {
		at := f.Index(i)
		for k := at - 1; k >= 0; k-- {
			prev = append(prev, f.Kids[p][k])
		}
		next = f.Kids[p][at+1:]
	}
	sym.Assert(f.Same(tree.PrevSiblings(e), prev), "previous siblings")
	sym.Assert(f.Same(tree.NextSiblings(e), next), "next siblings")

	sym.Assert(tree.Children(nil) == nil && tree.Ancestors(nil) == nil && tree.PrevSiblings(nil) == nil && tree.NextSiblings(nil) == nil, "lists of no element")

	k := sym.IntRange("k", -1, 6)
	for _, x := range []struct {
		ex   tree.Extractor
		want []int
	}{{tree.Children, f.Kids[i]}, {tree.Ancestors, up}, {tree.PrevSiblings, prev}, {tree.NextSiblings, next}} {
		got := tree.Nth(x.ex, k)(e)
		if k >= 0 && k < len(x.want) {
			sym.Assert(f.Same(got, x.want[k:k+1]), "element with an index")
		} else {
			sym.Assert(len(got) == 0, "index outside the list")
		}
	}
}

// H_Chain: elements joined as siblings without a parent are in document order, too.
//
//zz:bounds all lists of 1..3 (thorough 4) trees of 1..4 (thorough 5) nodes and tokens in all, any element
func H_Chain() {
	f := zt.Build(2+sym.Choice("n", sym.N(4, 5)), true, "x")
	roots := f.Kids[0]
	if len(roots) == 0 || len(roots) > sym.N(3, 4) {
		return
	}
	for _, r := range roots {
		tree.Detach(f.Els[r])
	}
	for i := 1; i < len(roots); i++ {
		tree.AppendSibling(f.Els[roots[i-1]], f.Els[roots[i]])
	}
	i := 1 + sym.Choice("e", len(f.Els)-1)
	all, own := f.Order(0)[1:], f.Order(i)
	at := 0
	for all[at] != i {
		at++
	}
	e := f.Els[i]
	sym.Assert(is(f, tree.FirstTokenElement(e), tokens(f, own), false), "first token")
	sym.Assert(is(f, tree.LastTokenElement(e), tokens(f, own), true), "last token")
	sym.Assert(is(f, tree.NextTokenElement(e), tokens(f, all[at+len(own):]), false), "next token")
	sym.Assert(is(f, tree.PrevTokenElement(e), tokens(f, all[:at]), true), "previous token")
	p := f.Parent[i]
	k := f.Index(i)
	sym.Assert(f.Same(tree.NextSiblings(e), f.Kids[p][k+1:]), "next siblings")
	var prev []int
	for k--; k >= 0; k-- {
		prev = append(prev, f.Kids[p][k])
	}
	sym.Assert(f.Same(tree.PrevSiblings(e), prev), "previous siblings")
	var up []int
	for ; p > 0; p = f.Parent[p] {
		up = append(up, p)
	}
	sym.Assert(f.Same(tree.Ancestors(e), up), "ancestors")
}
