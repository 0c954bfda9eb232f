// Package c11: tree edits.
package c11

import (
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	zt "github.com/ava12/llx/internal/zzverif/zztree"
	"github.com/ava12/llx/tree"
)

// pick is an element of the forest or nil (-1).
func pick(f *zt.Forest, n string) int { return sym.Choice(n, len(f.Els)+1) - 1 }

// edit makes any one edit, on the real tree and on the model.
func edit(f *zt.Forest) {
	switch sym.Choice("op", 7) {
	case 0:
		a := pick(f, "a")
		tree.Detach(f.El(a))
		if a >= 0 {
			f.Remove(a)
		}
		f.Check("Detach")

	case 1:
		p, c := sym.Choice("p", len(f.Els)), pick(f, "c")
		sym.Assume(f.IsNode[p])
		f.Els[p].(tree.NodeElement).RemoveChild(f.El(c))
		if c >= 0 && f.Parent[c] == p {
			f.Remove(c)
		}
		f.Check("RemoveChild")

	case 2:
		// AddChild is given an element that is in no tree
		p, c, before := sym.Choice("p", len(f.Els)), pick(f, "c"), pick(f, "before")
		sym.Assume(f.IsNode[p] && (c < 0 || f.Parent[c] < 0 && !f.Under(p, c)))
		f.Els[p].(tree.NodeElement).AddChild(f.El(c), f.El(before))
		if c >= 0 {
			if before < 0 {
				f.Insert(p, len(f.Kids[p]), c)
			} else if f.Parent[before] == p {
				f.Insert(p, f.Index(before), c)
			}
		}
		f.Check("AddChild")

	case 3:
		p, c := pick(f, "p"), pick(f, "c")
		sym.Assume(p < 0 || f.IsNode[p] && (c < 0 || !f.Under(p, c)))
		if p < 0 {
			tree.AppendChild(nil, f.El(c))
		} else {
			tree.AppendChild(f.Els[p].(tree.NodeElement), f.El(c))
			if c >= 0 {
				f.Remove(c)
				f.Insert(p, len(f.Kids[p]), c)
			}
		}
		f.Check("AppendChild")

	case 4, 5:
		after := sym.Choice("after", 2)
		a, el := pick(f, "a"), pick(f, "el")
		// siblings need a parent; an element is not moved into itself
		sym.Assume(a < 0 || el < 0 || a == el || f.Parent[a] >= 0 && !f.Under(a, el))
		if after == 1 {
			tree.AppendSibling(f.El(a), f.El(el))
		} else {
			tree.PrependSibling(f.El(a), f.El(el))
		}
		if a >= 0 && el >= 0 && a != el {
			f.Remove(el)
			f.Insert(f.Parent[a], f.Index(a)+after, el)
		}
		f.Check("AppendSibling, PrependSibling")

	case 6:
		old, n := pick(f, "old"), pick(f, "n")
		sym.Assume(old < 0 || n < 0 || old == n || !f.Under(old, n))
		if old < 0 {
			sym.Assume(n < 0 || f.Parent[n] < 0)
		}
		tree.Replace(f.El(old), f.El(n))
		switch {
		case old < 0 || old == n:
		case n < 0:
			f.Remove(old)
		case f.Parent[old] < 0: // a root has no place that another element could take
		default:
			p := f.Parent[old]
			f.Remove(n)
			i := f.Index(old)
			f.Remove(old)
			f.Insert(p, i, n)
		}
		f.Check("Replace")
	}
}

// H_Edit: any edit of any forest. The links of a forest are determined by its
// child lists, so one edit from every forest covers longer sequences as well.
//
//zz:bounds all forests of 1..5 (thorough 6) nodes and tokens in document order, any edit with any elements of it
func H_Edit() {
	f := zt.Build(1+sym.Choice("n", sym.N(5, 6)), false, "x")
	f.Check("building")
	edit(f)
}

// H_Sequence: several edits.
//
//zz:bounds all forests of 3 elements, any 2 (thorough 3) edits
func H_Sequence() {
	f := zt.Build(3, false, "x")
	for i := sym.N(2, 3); i > 0; i-- {
		edit(f)
	}
}

// H_Loose: sibling edits of elements without a parent.
//
//zz:bounds 2 (thorough 3) elements put around one that has no parent
func H_Loose() {
	f := &zt.Forest{}
	order := []int{f.Add(true, "x", -1)}
	for i := sym.N(2, 3); i > 0; i-- {
		at := sym.Choice("at", len(order))
		after := sym.Choice("after", 2)
		e := f.Add(sym.Choice("kind", 2) == 0, "x", -1)
		if after == 1 {
			tree.AppendSibling(f.Els[order[at]], f.Els[e])
		} else {
			tree.PrependSibling(f.Els[order[at]], f.Els[e])
		}
		var r []int
		r = append(r, order[:at+after]...)
		r = append(r, e)
		order = append(r, order[at+after:]...)
		for j, x := range order {
			prev, next := -1, -1
			if j > 0 {
				prev = order[j-1]
			}
			if j+1 < len(order) {
				next = order[j+1]
			}
			el := f.Els[x]
			sym.Assert(el.Parent() == nil, "no parent")
			sym.Assert(f.Find(el.Prev()) == prev && (prev >= 0) == (el.Prev() != nil), "previous link without a parent")
			sym.Assert(f.Find(el.Next()) == next && (next >= 0) == (el.Next() != nil), "next link without a parent")
		}
	}
}
