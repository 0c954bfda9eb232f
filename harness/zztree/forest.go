// Package zztree is the reference model of syntax trees: an ordered child list per node.
package zztree

import (
	sym "github.com/ava12/llx/internal/zzverif/zzsym"
	"github.com/ava12/llx/lexer"
	"github.com/ava12/llx/source"
	"github.com/ava12/llx/tree"
)

// Forest is a list of elements with their model.
type Forest struct {
	Els    []tree.Element
	IsNode []bool
	Name   []string
	Parent []int   // -1 for a root
	Kids   [][]int // ordered
}

func tok(name, text string) *lexer.Token {
	return lexer.NewToken(0, name, []byte(text), source.NewPos(nil, 0))
}

// Add appends a new element, the last child of parent (if there is one).
func (f *Forest) Add(node bool, name string, parent int) int {
	i := len(f.Els)
	var e tree.Element
	if node {
		e = tree.NewNodeElement(name, tok(name, ""))
	} else {
		e = tree.NewTokenElement(tok(name, "t"+name))
	}
	f.Els = append(f.Els, e)
	f.IsNode = append(f.IsNode, node)
	f.Name = append(f.Name, name)
	f.Parent = append(f.Parent, parent)
	f.Kids = append(f.Kids, nil)
	if parent >= 0 {
		f.Kids[parent] = append(f.Kids[parent], i)
		f.Els[parent].(tree.NodeElement).AddChild(e, nil)
	}
	return i
}

// Build makes any forest of n elements in document order; names are chosen
// among the given ones. If single is set there is one root.
func Build(n int, single bool, names ...string) *Forest {
	f := &Forest{}
	for i := 0; i < n; i++ {
		parent := -1
		if i > 0 {
			// the new element goes below one of the nodes on the way from the last one to its root
			var ups []int
			for p := i - 1; p >= 0; p = f.Parent[p] {
				if f.IsNode[p] {
					ups = append(ups, p)
				}
			}
			c := len(ups)
			if !single {
				c++
			}
			k := sym.Choice("parent", c)
			if k < len(ups) {
				parent = ups[k]
			}
		}
		node := i == 0 && single && n > 1 || sym.Choice("kind", 2) == 0
		name := names[0]
		if len(names) > 1 {
			name = names[sym.Choice("name", len(names))]
		}
		f.Add(node, name, parent)
	}
	return f
}

// Under tells whether e is a or below it.
func (f *Forest) Under(e, a int) bool {
	for ; e >= 0; e = f.Parent[e] {
		if e == a {
			return true
		}
	}
	return false
}

// Index is the place of e in the list of its parent.
func (f *Forest) Index(e int) int {
	for i, k := range f.Kids[f.Parent[e]] {
		if k == e {
			return i
		}
	}
	return -1
}

// Remove takes e from its parent.
func (f *Forest) Remove(e int) {
	p := f.Parent[e]
	if p < 0 {
		return
	}
	i := f.Index(e)
	var r []int
	r = append(r, f.Kids[p][:i]...)
	f.Kids[p] = append(r, f.Kids[p][i+1:]...)
	f.Parent[e] = -1
}

// Insert puts e, which has no parent, at place i of the list of p.
func (f *Forest) Insert(p, i, e int) {
	var r []int
	r = append(r, f.Kids[p][:i]...)
	r = append(r, e)
	f.Kids[p] = append(r, f.Kids[p][i:]...)
	f.Parent[e] = p
}

// El is the element i, nil for -1.
func (f *Forest) El(i int) tree.Element {
	if i < 0 {
		return nil
	}
	return f.Els[i]
}

func same(a, b tree.Element) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a == b
}

// Check compares every link of every element with the model.
func (f *Forest) Check(what string) {
	for i, e := range f.Els {
		p, prev, next := f.Parent[i], -1, -1
		if p >= 0 {
			k := f.Index(i)
			if k > 0 {
				prev = f.Kids[p][k-1]
			}
			if k+1 < len(f.Kids[p]) {
				next = f.Kids[p][k+1]
			}
		}
		pe := e.Parent()
		if p < 0 {
			sym.Assert(pe == nil, what+": parent of a root")
		} else {
			sym.Assert(pe != nil && tree.Element(pe) == f.Els[p], what+": parent link")
		}
		sym.Assert(same(e.Prev(), f.El(prev)), what+": previous link")
		sym.Assert(same(e.Next(), f.El(next)), what+": next link")
		if f.IsNode[i] {
			first, last := -1, -1
			if l := len(f.Kids[i]); l > 0 {
				first, last = f.Kids[i][0], f.Kids[i][l-1]
			}
			ne := e.(tree.NodeElement)
			sym.Assert(same(ne.FirstChild(), f.El(first)), what+": first child link")
			sym.Assert(same(ne.LastChild(), f.El(last)), what+": last child link")
		}
	}
}

// Find is the number of an element, -1 if it is nil or unknown.
func (f *Forest) Find(e tree.Element) int {
	for i, x := range f.Els {
		if same(x, e) {
			return i
		}
	}
	return -1
}

// Order lists e and everything below it in document order.
func (f *Forest) Order(e int) []int {
	r := []int{e}
	for _, k := range f.Kids[e] {
		r = append(r, f.Order(k)...)
	}
	return r
}

// Same compares a list of elements with a list of numbers.
func (f *Forest) Same(a []tree.Element, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] == nil || a[i] != f.Els[b[i]] {
			return false
		}
	}
	return true
}
