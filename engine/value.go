package main

// Runtime values of the symbolic machine.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: int64 (all concrete integers, sign- or zero-extended by
// type), bool, float64, string, *SymStr, *Term, *Value (pointer), *SymPtr,
// *DataPtr, *StructV, *ArrayV, Slice, *MapV, Iface, *Closure, Tuple, *Native.
type Value any

type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type Slice struct {
	a             *ArrayV
	off, len, cap int
}
type Tuple []Value
type SymStr struct{ b []Value }
type Iface struct {
	t *RT
	v Value
}
type Closure struct {
	fn     *Func
	env    []Value
	native func(m *Machine, args []Value) Value
}
type Native struct{ v any }

// SymPtr is the address of a scalar element at a symbolic index; only loads
// are compiled to see it.
type SymPtr struct {
	a   *ArrayV
	off int
	n   int
	idx *Term
}

// DataPtr is the result of unsafe.SliceData / unsafe.StringData.
type DataPtr struct{ v Value }

type mapEntry struct {
	k, v Value
	live bool
}
type MapV struct {
	idx    map[any]int
	ents   []mapEntry
	n      int
	sym    int
	frozen bool
}

// RT is a canonical runtime type.
type RT struct {
	t     types.Type
	id    int
	meths map[string]*ssa.Function
	impl  map[*types.Interface]bool
	comp  int8
}

var intTab [1 << 14]Value

func init() {
	for i := range intTab {
		intTab[i] = int64(i - 1024)
	}
}

func mk(v int64) Value {
	if v >= -1024 && v < 1<<14-1024 {
		return intTab[v+1024]
	}
	return v
}

type kind uint8

const (
	kOther kind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kUnsafe
	kTuple
	kChan
)

type tinfo struct {
	k      kind
	w      uint8
	signed bool
}

func infoOf(t types.Type) tinfo {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tinfo{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tinfo{kInt, 64, true}
		case types.Int8:
			return tinfo{kInt, 8, true}
		case types.Int16:
			return tinfo{kInt, 16, true}
		case types.Int32, types.UntypedRune:
			return tinfo{kInt, 32, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tinfo{kInt, 64, false}
		case types.Uint8:
			return tinfo{kInt, 8, false}
		case types.Uint16:
			return tinfo{kInt, 16, false}
		case types.Uint32:
			return tinfo{kInt, 32, false}
		case types.Float32:
			return tinfo{kFloat, 32, true}
		case types.Float64, types.UntypedFloat:
			return tinfo{kFloat, 64, true}
		case types.String, types.UntypedString:
			return tinfo{k: kString}
		case types.UnsafePointer:
			return tinfo{k: kUnsafe}
		case types.UntypedNil:
			return tinfo{k: kPtr}
		}
	case *types.Pointer:
		return tinfo{k: kPtr}
	case *types.Struct:
		return tinfo{k: kStruct}
	case *types.Array:
		return tinfo{k: kArray}
	case *types.Slice:
		return tinfo{k: kSlice}
	case *types.Map:
		return tinfo{k: kMap}
	case *types.Interface:
		return tinfo{k: kIface}
	case *types.Signature:
		return tinfo{k: kFunc}
	case *types.Tuple:
		return tinfo{k: kTuple}
	case *types.Chan:
		return tinfo{k: kChan}
	}
	return tinfo{}
}

func (ti tinfo) norm(v int64) int64 {
	if ti.w == 64 {
		return v
	}
	if ti.signed {
		sh := 64 - ti.w
		return v << sh >> sh
	}
	return int64(uint64(v) & mask(ti.w))
}

// zeroFn returns a maker of zero values of t.
func (m *Machine) zeroFn(t types.Type) func() Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := u.NumFields()
		fs := make([]func() Value, n)
		for i := 0; i < n; i++ {
			fs[i] = m.zeroFn(u.Field(i).Type())
		}
		return func() Value {
			s := &StructV{f: make([]Value, n)}
			for i, f := range fs {
				s.f[i] = f()
			}
			return s
		}
	case *types.Array:
		n := int(u.Len())
		f := m.zeroFn(u.Elem())
		return func() Value {
			a := &ArrayV{e: make([]Value, n)}
			for i := range a.e {
				a.e[i] = f()
			}
			return a
		}
	case *types.Tuple:
		n := u.Len()
		fs := make([]func() Value, n)
		for i := 0; i < n; i++ {
			fs[i] = m.zeroFn(u.At(i).Type())
		}
		return func() Value {
			s := make(Tuple, n)
			for i, f := range fs {
				s[i] = f()
			}
			return s
		}
	}
	v := m.zeroScalar(t)
	return func() Value { return v }
}

func (m *Machine) zeroScalar(t types.Type) Value {
	switch infoOf(t).k {
	case kBool:
		return false
	case kInt:
		return mk(0)
	case kFloat:
		return float64(0)
	case kString:
		return ""
	case kPtr, kUnsafe:
		return (*Value)(nil)
	case kSlice:
		return Slice{}
	case kMap:
		return (*MapV)(nil)
	case kIface:
		return Iface{}
	case kFunc:
		return (*Closure)(nil)
	case kChan:
		return (*Native)(nil)
	}
	panic(unsupported{"zero value of " + t.String()})
}

func (m *Machine) zero(t types.Type) Value { return m.zeroFn(t)() }

// copyVal copies aggregates so that the result is independent storage.
func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			n.f[i] = copyVal(e)
		}
		return n
	case *ArrayV:
		n := &ArrayV{e: make([]Value, len(x.e))}
		for i, e := range x.e {
			n.e[i] = copyVal(e)
		}
		return n
	}
	return v
}

// ---- strings

func strLen(v Value) int {
	switch x := v.(type) {
	case string:
		return len(x)
	case *SymStr:
		return len(x.b)
	}
	panic(unsupported{fmt.Sprintf("strLen of %T", v)})
}

func strAt(v Value, i int) Value {
	switch x := v.(type) {
	case string:
		return mk(int64(x[i]))
	case *SymStr:
		return x.b[i]
	}
	panic("strAt")
}

func strSub(v Value, lo, hi int) Value {
	switch x := v.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return mkStr(x.b[lo:hi])
	}
	panic("strSub")
}

// mkStr makes a string value from byte values.
func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			n := make([]Value, len(b))
			copy(n, b)
			return &SymStr{n}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.(int64))
	}
	return string(r)
}

func strBytes(v Value) []Value {
	switch x := v.(type) {
	case string:
		r := make([]Value, len(x))
		for i := 0; i < len(x); i++ {
			r[i] = mk(int64(x[i]))
		}
		return r
	case *SymStr:
		return x.b
	}
	panic(unsupported{fmt.Sprintf("strBytes of %T", v)})
}

func strConcat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	p, q := strBytes(a), strBytes(b)
	r := make([]Value, 0, len(p)+len(q))
	r = append(r, p...)
	r = append(r, q...)
	return mkStr(r)
}

func (m *Machine) byteTerm(v Value) *Term {
	switch x := v.(type) {
	case int64:
		return m.tc.Const(uint64(x), 8)
	case *Term:
		return x
	}
	panic(unsupported{fmt.Sprintf("byteTerm of %T", v)})
}

func (m *Machine) strEq(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x == y
	}
	if strLen(a) != strLen(b) {
		return false
	}
	return m.bytesEq(strBytes(a), strBytes(b))
}

func (m *Machine) bytesEq(p, q []Value) Value {
	if len(p) != len(q) {
		return false
	}
	r := m.tc.tTrue
	for i := range p {
		r = m.tc.And(r, m.tc.Eq(m.byteTerm(p[i]), m.byteTerm(q[i])))
		if r == m.tc.tFalse {
			return false
		}
	}
	return m.unbool(r)
}

func (m *Machine) unbool(t *Term) Value {
	if t.isConst() {
		return t.k != 0
	}
	return t
}

// strLess is a < b (or a <= b).
func (m *Machine) strLess(a, b Value, orEq bool) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		if orEq {
			return x <= y
		}
		return x < y
	}
	p, q := strBytes(a), strBytes(b)
	n := min(len(p), len(q))
	var r *Term
	if orEq {
		r = m.tc.Bool(len(p) <= len(q))
	} else {
		r = m.tc.Bool(len(p) < len(q))
	}
	for i := n - 1; i >= 0; i-- {
		s, t := m.byteTerm(p[i]), m.byteTerm(q[i])
		r = m.tc.Or(m.tc.cmp(OpUlt, s, t), m.tc.And(m.tc.Eq(s, t), r))
	}
	return m.unbool(r)
}

// ---- maps

type ifaceKey struct {
	t int
	k any
}

// mapKey gives a comparable Go key for a concrete value.
func mapKey(v Value) (any, bool) {
	switch x := v.(type) {
	case int64, bool, string, float64, *Value, *MapV, *Native:
		return x, true
	case *Term, *SymStr:
		return nil, false
	case Iface:
		if x.t == nil {
			return ifaceKey{-1, nil}, true
		}
		k, ok := mapKey(x.v)
		return ifaceKey{x.t.id, k}, ok
	case *StructV:
		return compKey(x.f)
	case *ArrayV:
		return compKey(x.e)
	}
	panic(unsupported{fmt.Sprintf("map key %T", v)})
}

func compKey(f []Value) (any, bool) {
	var sb strings.Builder
	for _, x := range f {
		k, ok := mapKey(x)
		if !ok {
			return nil, false
		}
		switch y := k.(type) {
		case string:
			sb.WriteString(strconv.Quote(y))
		default:
			fmt.Fprintf(&sb, "%T:%v", y, y)
		}
		sb.WriteByte('|')
	}
	return sb.String(), true
}

func newMap() *MapV { return &MapV{idx: map[any]int{}} }

func (m *Machine) mapFind(mv *MapV, k Value) int {
	if m.par != nil && mv != nil && mv.frozen {
		m.touch(mv, false)
	}
	if mv == nil || mv.n == 0 {
		return -1
	}
	ck, ok := mapKey(k)
	if ok {
		if i, f := mv.idx[ck]; f {
			return i
		}
		if mv.sym == 0 {
			return -1
		}
	}
	for i := range mv.ents {
		e := &mv.ents[i]
		if !e.live {
			continue
		}
		if ok {
			if _, c := mapKey(e.k); c {
				continue
			}
		}
		if m.truth(m.eq(k, e.k)) {
			return i
		}
	}
	return -1
}

func (m *Machine) mapSet(mv *MapV, k, v Value) {
	if mv == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if i := m.mapFind(mv, k); i >= 0 {
		if mv.frozen {
			m.frozenWrite(mv, "map entry")
		}
		old := mv.ents[i].v
		mv.ents[i].v = v
		m.undo(func() { mv.ents[i].v = old })
		return
	}
	if mv.frozen {
		m.frozenWrite(mv, "map insert")
	}
	ck, ok := mapKey(k)
	i := len(mv.ents)
	mv.ents = append(mv.ents, mapEntry{k, v, true})
	mv.n++
	if ok {
		mv.idx[ck] = i
	} else {
		mv.sym++
	}
	m.undo(func() {
		mv.ents = mv.ents[:i]
		mv.n--
		if ok {
			delete(mv.idx, ck)
		} else {
			mv.sym--
		}
	})
}

func (m *Machine) mapDelete(mv *MapV, k Value) {
	i := m.mapFind(mv, k)
	if i < 0 {
		return
	}
	if mv.frozen {
		m.frozenWrite(mv, "map delete")
	}
	e := &mv.ents[i]
	ck, ok := mapKey(e.k)
	e.live = false
	mv.n--
	if ok {
		delete(mv.idx, ck)
	} else {
		mv.sym--
	}
	m.undo(func() {
		mv.ents[i].live = true
		mv.n++
		if ok {
			mv.idx[ck] = i
		} else {
			mv.sym++
		}
	})
}

type MapIter struct {
	mv    *MapV
	order []int
	pos   int
}

type StrIter struct {
	s   Value
	pos int
}

// eq compares two values of one static type.
func (m *Machine) eq(a, b Value) Value {
	switch x := a.(type) {
	case int64:
		if y, ok := b.(int64); ok {
			return x == y
		}
		y := b.(*Term)
		return m.unbool(m.tc.Eq(m.tc.Const(uint64(x), y.w), y))
	case *Term:
		if x.w == 0 {
			y := m.boolTerm(b)
			return m.unbool(m.tc.Eq(x, y))
		}
		if y, ok := b.(int64); ok {
			return m.unbool(m.tc.Eq(x, m.tc.Const(uint64(y), x.w)))
		}
		return m.unbool(m.tc.Eq(x, b.(*Term)))
	case bool:
		if y, ok := b.(bool); ok {
			return x == y
		}
		return m.unbool(m.tc.Eq(m.tc.Bool(x), b.(*Term)))
	case float64:
		return x == b.(float64)
	case string, *SymStr:
		return m.strEq(a, b)
	case *Value:
		y, ok := b.(*Value)
		return ok && x == y
	case *DataPtr:
		return false
	case *MapV:
		return x == b.(*MapV)
	case *Closure:
		return x == b.(*Closure)
	case *Native:
		y, ok := b.(*Native)
		return ok && x == y
	case Slice:
		y := b.(Slice)
		return x.a == nil && y.a == nil
	case Iface:
		y := b.(Iface)
		if x.t != y.t {
			return false
		}
		if x.t == nil {
			return true
		}
		if !m.comparable(x.t) {
			m.rtPanic("comparing uncomparable type " + x.t.t.String())
		}
		return m.eq(x.v, y.v)
	case *StructV:
		y := b.(*StructV)
		return m.eqAll(x.f, y.f)
	case *ArrayV:
		y := b.(*ArrayV)
		return m.eqAll(x.e, y.e)
	}
	panic(unsupported{fmt.Sprintf("eq of %T", a)})
}

func (m *Machine) eqAll(a, b []Value) Value {
	r := m.tc.tTrue
	for i := range a {
		switch e := m.eq(a[i], b[i]).(type) {
		case bool:
			if !e {
				return false
			}
		case *Term:
			r = m.tc.And(r, e)
		}
	}
	return m.unbool(r)
}

func (m *Machine) comparable(t *RT) bool {
	if t.comp == 0 {
		if types.Comparable(t.t) {
			t.comp = 1
		} else {
			t.comp = -1
		}
	}
	return t.comp > 0
}

func (m *Machine) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return m.tc.Bool(x)
	case *Term:
		return x
	}
	panic(unsupported{fmt.Sprintf("boolTerm of %T", v)})
}
