package main

// Modelled functions: the harness API and the parts of the standard library
// that are not plain Go or that would only add noise.

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeObj interface {
	callMethod(m *Machine, name string, args []Value) Value
}

func findIntrinsic(m *Machine, fn *ssa.Function, name string) intrinsic {
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == m.symPkg && fn.Signature.Recv() == nil {
		if f, ok := symAPI[fn.Name()]; ok {
			return f
		}
		if fn.Name() != "init" {
			return func(m *Machine, fr *frame, args []Value) Value { panic(unsupported{"sym." + fn.Name()}) }
		}
	}
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "sync/atomic.") {
		return atomicIntrinsic(m, fn, name)
	}
	if o := fn.Origin(); o != nil && o != fn {
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
		if strings.HasPrefix(o.String(), "(*sync/atomic.") {
			return atomicIntrinsic(m, fn, o.String())
		}
	}
	return nil
}

func (m *Machine) vname(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsupported{"symbolic input name"})
	}
	n := m.p.names[s]
	m.p.names[s] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (m *Machine) inPath() {
	if m.p == nil {
		panic(unsupported{"symbolic input in setup"})
	}
}

var symAPI map[string]intrinsic

func bitsFor(n uint64) uint8 {
	w := uint8(1)
	for w < 64 && n>>w != 0 {
		w++
	}
	return w
}

func (m *Machine) intRange(name string, lo, hi int64) Value {
	if lo > hi {
		panic(pathEnd{"assume"})
	}
	if lo == hi {
		m.p.in = append(m.p.in, inputRec{name, lo, "i"})
		return mk(lo)
	}
	span := uint64(hi - lo)
	w := bitsFor(span)
	v := m.tc.Var(fmt.Sprintf("%s:%d", name, w), w)
	if span != mask(w) {
		m.assumeQuiet(m.tc.cmp(OpUle, v, m.tc.Const(span, w)))
	}
	t := m.tc.Bin(OpAdd, m.tc.Zext(v, 64), m.tc.Const(uint64(lo), 64))
	m.p.in = append(m.p.in, inputRec{name, t, "i"})
	return t
}

// assumeQuiet adds a constraint on a fresh variable: always satisfiable.
func (m *Machine) assumeQuiet(t *Term) {
	if t.isConst() {
		return
	}
	if _, ok := m.p.known[t]; ok {
		return
	}
	m.addPC(t)
}

func init() {
	symAPI = map[string]intrinsic{
		"IntRange": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			return m.intRange(m.vname(a[0]), m.concInt(a[1]), m.concInt(a[2]))
		},
		"Int": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			n := m.vname(a[0])
			t := m.tc.Var(n+":64", 64)
			m.p.in = append(m.p.in, inputRec{n, t, "i"})
			return t
		},
		"Choice": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			v := m.intRange(m.vname(a[0]), 0, m.concInt(a[1])-1)
			return mk(m.concInt(v))
		},
		"Byte": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			n := m.vname(a[0])
			t := m.tc.Var(n+":b", 8)
			m.p.in = append(m.p.in, inputRec{n, t, "u"})
			return t
		},
		"Bool": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			n := m.vname(a[0])
			t := m.tc.Var(n+":?", 0)
			m.p.in = append(m.p.in, inputRec{n, t, "i"})
			return t
		},
		"Bytes": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			return sliceOf(m.symBytes(m.vname(a[0]), int(m.concInt(a[1])), ""))
		},
		"String": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			return mkStr(m.symBytes(m.vname(a[0]), int(m.concInt(a[1])), ""))
		},
		"StringOf": func(m *Machine, fr *frame, a []Value) Value {
			m.inPath()
			return mkStr(m.symBytes(m.vname(a[0]), int(m.concInt(a[1])), a[2].(string)))
		},
		"Assume": func(m *Machine, fr *frame, a []Value) Value { m.assume(a[0]); return nil },
		"Assert": func(m *Machine, fr *frame, a []Value) Value {
			s, ok := a[1].(string)
			if !ok {
				s = "(message)"
			}
			m.assert(a[0], s)
			return nil
		},
		"Fail": func(m *Machine, fr *frame, a []Value) Value {
			s, ok := a[0].(string)
			if !ok {
				s = "(message)"
			}
			m.assert(false, s)
			return nil
		},
		"And": func(m *Machine, fr *frame, a []Value) Value {
			return m.unbool(m.tc.And(m.boolTerm(a[0]), m.boolTerm(a[1])))
		},
		"Or": func(m *Machine, fr *frame, a []Value) Value {
			return m.unbool(m.tc.Or(m.boolTerm(a[0]), m.boolTerm(a[1])))
		},
		"Implies": func(m *Machine, fr *frame, a []Value) Value {
			return m.unbool(m.tc.Or(m.tc.Not(m.boolTerm(a[0])), m.boolTerm(a[1])))
		},
		"Ite": func(m *Machine, fr *frame, a []Value) Value {
			c := m.boolTerm(a[0])
			return m.unint(m.tc.Ite(c, m.term(a[1], 64), m.term(a[2], 64)), tinfo{kInt, 64, true})
		},
		"Concrete": func(m *Machine, fr *frame, a []Value) Value { return mk(m.concInt(a[0])) },
		"Observe": func(m *Machine, fr *frame, a []Value) Value {
			if m.p != nil {
				m.p.obs = append(m.p.obs, obsRec{a[0].(string), a[1].(Iface).v})
			}
			return nil
		},
		"Reach": func(m *Machine, fr *frame, a []Value) Value {
			if m.p != nil {
				m.p.reach[a[0].(string)] = true
			}
			return nil
		},
		"Thorough": func(m *Machine, fr *frame, a []Value) Value { return thoroughTier },
		"N": func(m *Machine, fr *frame, a []Value) Value {
			if thoroughTier {
				return a[1]
			}
			return a[0]
		},
		"Freeze": func(m *Machine, fr *frame, a []Value) Value {
			if m.p != nil {
				m.freeze(a[0])
			}
			return nil
		},
		"Share": func(m *Machine, fr *frame, a []Value) Value {
			if m.p != nil {
				m.freeze(a[0])
			}
			return nil
		},
		"Parallel": func(m *Machine, fr *frame, a []Value) Value {
			if m.p != nil {
				m.freezeGlobals()
			}
			for _, f := range a[0].(Slice).vals() {
				m.callVal(f, nil, fr)
			}
			return nil
		},
		"Schedule": func(m *Machine, fr *frame, a []Value) Value {
			m.schedule(a[0].(Slice).vals(), fr)
			return nil
		},
		"CheckFrozen": func(m *Machine, fr *frame, a []Value) Value { return nil },
		"Symbolic":    func(m *Machine, fr *frame, a []Value) Value { return true },
		"Debug": func(m *Machine, fr *frame, a []Value) Value {
			fmt.Fprintf(os.Stderr, "DEBUG %v %v\n", a[0], dump(a[1]))
			return nil
		},
	}
}

func dump(v Value) string {
	switch x := v.(type) {
	case Iface:
		return dump(x.v)
	case *SymStr:
		return fmt.Sprintf("sym(%d)", len(x.b))
	case *Term:
		return fmt.Sprintf("term w%d %s", x.w, smtRef(x))
	case Slice:
		var s []string
		for _, e := range x.vals() {
			s = append(s, dump(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case *StructV:
		var s []string
		for _, e := range x.f {
			s = append(s, dump(e))
		}
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprintf("%T:%v", v, v)
}

func (m *Machine) symBytes(name string, n int, alphabet string) []Value {
	r := make([]Value, n)
	for i := range r {
		vn := fmt.Sprintf("%s[%d]", name, i)
		t := m.tc.Var(vn+":b", 8)
		m.p.in = append(m.p.in, inputRec{vn, t, "u"})
		if alphabet != "" {
			c := m.tc.tFalse
			for j := 0; j < len(alphabet); j++ {
				c = m.tc.Or(c, m.tc.Eq(t, m.tc.Const(uint64(alphabet[j]), 8)))
			}
			m.assumeQuiet(c)
		}
		r[i] = t
	}
	return r
}

// ---- freezing

func (m *Machine) freeze(v Value) {
	if m.frozen == nil {
		m.frozen = map[*Value]struct{}{}
	}
	seen := map[any]bool{}
	m.freezeVal(v, seen)
}

// freezeGlobals freezes the package variables of the code under test.
func (m *Machine) freezeGlobals() {
	if m.frozen == nil {
		m.frozen = map[*Value]struct{}{}
	}
	seen := map[any]bool{}
	for _, p := range m.prog.AllPackages() {
		path := p.Pkg.Path()
		if !strings.HasPrefix(path, m.repoPfx) || strings.Contains(path, "/zzverif") || skipInit[path] {
			continue
		}
		if !m.inited[p] {
			continue
		}
		for _, mem := range p.Members {
			if g, ok := mem.(*ssa.Global); ok {
				m.freezeCell(m.global(g), seen)
			}
		}
	}
}

func (m *Machine) freezeCell(p *Value, seen map[any]bool) {
	if _, ok := m.frozen[p]; ok {
		return
	}
	m.frozen[p] = struct{}{}
	m.freezeVal(*p, seen)
}

func (m *Machine) freezeVal(v Value, seen map[any]bool) {
	switch x := v.(type) {
	case *Value:
		if x != nil {
			m.freezeCell(x, seen)
		}
	case *StructV:
		for i := range x.f {
			m.freezeCell(&x.f[i], seen)
		}
	case *ArrayV:
		for i := range x.e {
			m.freezeCell(&x.e[i], seen)
		}
	case Slice:
		if x.a == nil {
			return
		}
		// spare capacity is part of shared storage as well
		for i := x.off; i < x.off+x.cap; i++ {
			m.freezeCell(&x.a.e[i], seen)
		}
	case *MapV:
		if x != nil && !seen[x] {
			seen[x] = true
			x.frozen = true
			m.undo(func() { x.frozen = false })
			for i := range x.ents {
				m.freezeVal(x.ents[i].k, seen)
				m.freezeVal(x.ents[i].v, seen)
			}
		}
	case Iface:
		m.freezeVal(x.v, seen)
	case *Closure:
		if x != nil && !seen[x] {
			seen[x] = true
			for _, e := range x.env {
				m.freezeVal(e, seen)
			}
		}
	}
}

func (m *Machine) checkFrozen(p *Value, v Value) {
	same := false
	func() {
		defer func() { recover() }()
		switch (*p).(type) {
		case Slice:
			a, b := (*p).(Slice), v.(Slice)
			same = a == b
		case *Closure, *Value, *MapV, string, int64, bool, *Term, Iface:
			same = *p == v
		}
	}()
	if same {
		return
	}
	m.frozenWrite(p, fmt.Sprintf("%s -> %s", dump(*p), dump(v)))
}

func (m *Machine) frozenWrite(key any, what string) {
	if m.wlocks > 0 {
		m.touch(key, true)
		return
	}
	m.report("shared-write", "shared state modified", nil)
	_ = what
	panic(pathEnd{"violation"})
}

// ---- map order

func (m *Machine) mapIter(s *MapV) Value {
	it := &MapIter{mv: s}
	if s == nil {
		return it
	}
	if m.par != nil && s.frozen {
		m.touch(s, false)
	}
	for i := range s.ents {
		if s.ents[i].live {
			it.order = append(it.order, i)
		}
	}
	if m.p != nil && m.ex.h.mapOrder && len(it.order) > 1 && m.mapDevs < m.ex.h.mapDevs {
		n := len(it.order)
		if n <= 3 {
			// all permutations
			dev := 0
			for i := 0; i < n-1; i++ {
				j := i + m.choose(n-i)
				it.order[i], it.order[j] = it.order[j], it.order[i]
				if j > i {
					dev = 1
				}
			}
			m.mapDevs += dev
		} else {
			// rotations and reversals
			k := m.choose(2 * n)
			if k > 0 {
				m.mapDevs++
			}
			o := append([]int(nil), it.order...)
			for i := range o {
				if k < n {
					it.order[i] = o[(i+k)%n]
				} else {
					it.order[i] = o[((k-n)-i+2*n)%n]
				}
			}
		}
	}
	return it
}

// ---- standard library

func native(v any) Value { return &Native{v} }

func (m *Machine) errIface(msg Value) Value {
	if m.errStrT == nil {
		p := m.prog.ImportedPackage("errors")
		m.errStrT = m.rt(types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type()))
	}
	c := new(Value)
	*c = &StructV{f: []Value{msg}}
	return Iface{m.errStrT, c}
}

var intrinsics map[string]intrinsic

// syncMap is the contents of a sync.Map; its writes are synchronised.
func (m *Machine) syncMap(v Value) *MapV {
	p := m.ptr(v)
	mv := m.syncMaps[p]
	if mv == nil {
		if m.syncMaps == nil {
			m.syncMaps = map[*Value]*MapV{}
		}
		mv = newMap()
		m.syncMaps[p] = mv
	}
	return mv
}

func (m *Machine) syncMapGet(p, k Value, miss func(), def ...Value) Value {
	mv := m.syncMap(p)
	if i := m.mapFind(mv, k); i >= 0 {
		return Tuple{mv.ents[i].v, true}
	}
	if miss != nil {
		miss()
		return Tuple{def[0], false}
	}
	return Tuple{Iface{}, false}
}

// verbs lists the verbs of a format, in order.
func verbs(f string) []byte {
	var r []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		for i++; i < len(f) && strings.IndexByte("+-# 0123456789.*", f[i]) >= 0; i++ {
		}
		if i < len(f) && f[i] != '%' {
			r = append(r, f[i])
		}
	}
	return r
}

// errTree visits an error and everything it wraps, until f accepts one.
func (m *Machine) errTree(fr *frame, x Iface, f func(Iface) bool) bool {
	for i := 0; i < 20 && x.t != nil; i++ {
		if f(x) {
			return true
		}
		fn := m.methodByName(x.t, "Unwrap")
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
			return false
		}
		switch n := m.call(m.getFunc(fn), []Value{x.v}, nil, fr).(type) {
		case Iface:
			x = n
		case Slice:
			for _, e := range n.vals() {
				if m.errTree(fr, e.(Iface), f) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

func nop(m *Machine, fr *frame, a []Value) Value { return nil }

func init() {
	intrinsics = map[string]intrinsic{
		"(*sync.Once).Do": func(m *Machine, fr *frame, a []Value) Value {
			// field 0 of Once is its "done" flag holder; keep our own flag in a cell replaced on first use
			p := m.ptr(a[0])
			s := (*p).(*StructV)
			key := &s.f[len(s.f)-1]
			if n, ok := (*key).(*Native); ok && n != nil && n.v == "done" {
				return nil
			}
			m.wlocks++
			m.callVal(a[1], nil, fr)
			m.write(key, native("done"))
			m.wlocks--
			return nil
		},
		"(*sync.Map).Load": func(m *Machine, fr *frame, a []Value) Value {
			return m.syncMapGet(a[0], a[1], nil)
		},
		"(*sync.Map).Store": func(m *Machine, fr *frame, a []Value) Value {
			m.mapSet(m.syncMap(a[0]), a[1], a[2])
			return nil
		},
		"(*sync.Map).LoadOrStore": func(m *Machine, fr *frame, a []Value) Value {
			return m.syncMapGet(a[0], a[1], func() { m.mapSet(m.syncMap(a[0]), a[1], a[2]) }, a[2])
		},
		"(*sync.Map).Delete": func(m *Machine, fr *frame, a []Value) Value {
			m.mapDelete(m.syncMap(a[0]), a[1])
			return nil
		},
		"(*sync.Map).LoadAndDelete": func(m *Machine, fr *frame, a []Value) Value {
			r := m.syncMapGet(a[0], a[1], nil)
			m.mapDelete(m.syncMap(a[0]), a[1])
			return r
		},
		"(*sync.Map).Range": func(m *Machine, fr *frame, a []Value) Value {
			mv := m.syncMap(a[0])
			for i := 0; i < len(mv.ents); i++ {
				if e := mv.ents[i]; e.live && !m.truth(m.callVal(a[1], []Value{e.k, e.v}, fr)) {
					break
				}
			}
			return nil
		},
		"maps.clone": func(m *Machine, fr *frame, a []Value) Value {
			i := a[0].(Iface)
			mv, ok := i.v.(*MapV)
			if !ok || mv == nil {
				return i
			}
			n := newMap()
			for k := range mv.ents {
				if e := &mv.ents[k]; e.live {
					m.mapSet(n, e.k, e.v)
				}
			}
			return Iface{i.t, n}
		},
		// a pool gives back what was put last
		"(*sync.Pool).Get": func(m *Machine, fr *frame, a []Value) Value {
			p := m.ptr(a[0])
			if l := m.pools[p]; len(l) > 0 {
				m.pools[p] = l[: len(l)-1 : len(l)-1]
				m.undo(func() { m.pools[p] = l })
				return l[len(l)-1]
			}
			s := (*p).(*StructV)
			c := s.f[len(s.f)-1].(*Closure)
			if c == nil {
				return Iface{}
			}
			return m.callVal(c, nil, fr)
		},
		"(*sync.Pool).Put": func(m *Machine, fr *frame, a []Value) Value {
			p := m.ptr(a[0])
			if m.pools == nil {
				m.pools = map[*Value][]Value{}
			}
			l := m.pools[p]
			m.pools[p] = append(l[:len(l):len(l)], a[1])
			m.undo(func() { m.pools[p] = l })
			return nil
		},
		"fmt.Sprintf": func(m *Machine, fr *frame, a []Value) Value {
			return m.sprintf(fr, a[0], a[1].(Slice).vals())
		},
		"fmt.Errorf": func(m *Machine, fr *frame, a []Value) Value {
			args := a[1].(Slice).vals()
			msg := m.sprintf(fr, a[0], args)
			if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
				if p := m.prog.ImportedPackage("fmt"); p != nil {
					var w []Value
					for i, v := range verbs(f) {
						if v == 'w' && i < len(args) {
							w = append(w, args[i])
						}
					}
					if o := p.Pkg.Scope().Lookup("wrapError"); o != nil && len(w) == 1 {
						c := new(Value)
						*c = &StructV{f: []Value{msg, w[0]}}
						return Iface{m.rt(types.NewPointer(o.Type())), c}
					}
					if o := p.Pkg.Scope().Lookup("wrapErrors"); o != nil && len(w) > 1 {
						c := new(Value)
						*c = &StructV{f: []Value{msg, sliceOf(w)}}
						return Iface{m.rt(types.NewPointer(o.Type())), c}
					}
				}
			}
			return m.errIface(msg)
		},
		"fmt.Sprint": func(m *Machine, fr *frame, a []Value) Value {
			return m.sprint(fr, a[0].(Slice).vals())
		},
		"fmt.Println": func(m *Machine, fr *frame, a []Value) Value { return Tuple{mk(0), Iface{}} },
		"fmt.Printf":  func(m *Machine, fr *frame, a []Value) Value { return Tuple{mk(0), Iface{}} },
		"fmt.Print":   func(m *Machine, fr *frame, a []Value) Value { return Tuple{mk(0), Iface{}} },
		"fmt.Fprintf": func(m *Machine, fr *frame, a []Value) Value {
			return m.writeTo(fr, a[0], m.sprintf(fr, a[1], a[2].(Slice).vals()))
		},
		"fmt.Fprint": func(m *Machine, fr *frame, a []Value) Value {
			return m.writeTo(fr, a[0], m.sprint(fr, a[1].(Slice).vals()))
		},
		"fmt.Fprintln": func(m *Machine, fr *frame, a []Value) Value {
			var r Value = ""
			for i, v := range a[1].(Slice).vals() {
				if i > 0 {
					r = strConcat(r, " ")
				}
				r = strConcat(r, m.fmtArg(fr, 'v', "%v", v))
			}
			return m.writeTo(fr, a[0], strConcat(r, "\n"))
		},
		"strconv.Quote": func(m *Machine, fr *frame, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return strconv.Quote(s)
			}
			return m.quote(fr, a[0])
		},
		"strconv.ParseFloat": func(m *Machine, fr *frame, a []Value) Value {
			s := m.concStr(a[0])
			v, e := strconv.ParseFloat(s, int(m.concInt(a[1])))
			if e != nil {
				return Tuple{v, m.errIface(e.Error())}
			}
			return Tuple{v, Iface{}}
		},
		"strings.ToUpper":              func(m *Machine, fr *frame, a []Value) Value { return m.caseMap(fr, a[0], true) },
		"strings.ToLower":              func(m *Machine, fr *frame, a []Value) Value { return m.caseMap(fr, a[0], false) },
		"(*strings.Builder).copyCheck": nop,
		"(*strings.Builder).String": func(m *Machine, fr *frame, a []Value) Value {
			s := (*m.ptr(a[0])).(*StructV)
			return mkStr(s.f[1].(Slice).vals())
		},
		"unicode/utf8.DecodeRune": func(m *Machine, fr *frame, a []Value) Value {
			s := a[0].(Slice)
			if s.len == 0 {
				return Tuple{mk(0xFFFD), mk(0)}
			}
			r, n := m.decodeBytes(s.vals(), 0)
			return Tuple{r, mk(int64(n))}
		},
		"unicode/utf8.DecodeRuneInString": func(m *Machine, fr *frame, a []Value) Value {
			if strLen(a[0]) == 0 {
				return Tuple{mk(0xFFFD), mk(0)}
			}
			r, n := m.decodeRune(a[0], 0)
			return Tuple{r, mk(int64(n))}
		},
		"unicode/utf8.RuneCountInString": func(m *Machine, fr *frame, a []Value) Value {
			c := 0
			for i := 0; i < strLen(a[0]); c++ {
				_, n := m.decodeRune(a[0], i)
				i += n
			}
			return mk(int64(c))
		},
		"unicode/utf8.RuneCount": func(m *Machine, fr *frame, a []Value) Value {
			c := 0
			vs := a[0].(Slice).vals()
			for i := 0; i < len(vs); c++ {
				_, n := m.decodeBytes(vs, i)
				i += n
			}
			return mk(int64(c))
		},
		"internal/bytealg.IndexByte": func(m *Machine, fr *frame, a []Value) Value {
			return m.indexByte(a[0].(Slice).vals(), a[1])
		},
		"internal/bytealg.IndexByteString": func(m *Machine, fr *frame, a []Value) Value {
			return m.indexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.LastIndexByte": func(m *Machine, fr *frame, a []Value) Value {
			return m.lastIndexByte(a[0].(Slice).vals(), a[1])
		},
		"internal/bytealg.LastIndexByteString": func(m *Machine, fr *frame, a []Value) Value {
			return m.lastIndexByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Count": func(m *Machine, fr *frame, a []Value) Value {
			return m.countByte(a[0].(Slice).vals(), a[1])
		},
		"internal/bytealg.CountString": func(m *Machine, fr *frame, a []Value) Value {
			return m.countByte(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Equal": func(m *Machine, fr *frame, a []Value) Value {
			return m.bytesEq(a[0].(Slice).vals(), a[1].(Slice).vals())
		},
		"bytes.Equal": func(m *Machine, fr *frame, a []Value) Value {
			return m.bytesEq(a[0].(Slice).vals(), a[1].(Slice).vals())
		},
		"internal/bytealg.Compare": func(m *Machine, fr *frame, a []Value) Value {
			return m.compareBytes(mkStr(a[0].(Slice).vals()), mkStr(a[1].(Slice).vals()))
		},
		"internal/bytealg.CompareString": func(m *Machine, fr *frame, a []Value) Value { return m.compareBytes(a[0], a[1]) },
		"strings.Compare":                func(m *Machine, fr *frame, a []Value) Value { return m.compareBytes(a[0], a[1]) },
		"cmp.Compare[string]":            func(m *Machine, fr *frame, a []Value) Value { return m.compareBytes(a[0], a[1]) },
		"internal/bytealg.IndexString":   func(m *Machine, fr *frame, a []Value) Value { return m.indexSub(strBytes(a[0]), strBytes(a[1])) },
		"internal/bytealg.Index": func(m *Machine, fr *frame, a []Value) Value {
			return m.indexSub(a[0].(Slice).vals(), a[1].(Slice).vals())
		},
		"strings.Index": func(m *Machine, fr *frame, a []Value) Value { return m.indexSub(strBytes(a[0]), strBytes(a[1])) },
		"bytes.Index": func(m *Machine, fr *frame, a []Value) Value {
			return m.indexSub(a[0].(Slice).vals(), a[1].(Slice).vals())
		},
		"internal/bytealg.MakeNoZero": func(m *Machine, fr *frame, a []Value) Value {
			n := int(m.concInt(a[0]))
			e := make([]Value, n)
			for i := range e {
				e[i] = mk(0)
			}
			return sliceOf(e)
		},
		"internal/stringslite.Clone": func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"strings.Clone":              func(m *Machine, fr *frame, a []Value) Value { return a[0] },
		"internal/reflectlite.Swapper": func(m *Machine, fr *frame, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			return &Closure{native: func(m *Machine, b []Value) Value {
				i, j := int(m.concInt(b[0])), int(m.concInt(b[1]))
				x, y := copyVal(s.a.e[s.off+i]), copyVal(s.a.e[s.off+j])
				m.store(&s.a.e[s.off+i], y)
				m.store(&s.a.e[s.off+j], x)
				return nil
			}}
		},
		"internal/reflectlite.ValueOf": func(m *Machine, fr *frame, a []Value) Value { return native(a[0]) },
		"(internal/reflectlite.Value).Len": func(m *Machine, fr *frame, a []Value) Value {
			return mk(int64(a[0].(*Native).v.(Iface).v.(Slice).len))
		},
		"errors.Is": func(m *Machine, fr *frame, a []Value) Value {
			y := a[1].(Iface)
			if x := a[0].(Iface); x.t == nil || y.t == nil {
				return x.t == y.t
			}
			return m.errTree(fr, a[0].(Iface), func(x Iface) bool {
				if m.truth(m.eq(x, y)) {
					return true
				}
				if fn := m.methodByName(x.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
					return m.truth(m.call(m.getFunc(fn), []Value{x.v, y}, nil, fr))
				}
				return false
			})
		},
		"errors.As": func(m *Machine, fr *frame, a []Value) Value {
			tgt := a[1].(Iface)
			tt := tgt.t.t.Underlying().(*types.Pointer).Elem()
			return m.errTree(fr, a[0].(Iface), func(x Iface) bool {
				if it, ok := tt.Underlying().(*types.Interface); ok {
					if m.implements(x.t, it) {
						m.store(m.ptr(tgt.v), x)
						return true
					}
				} else if m.rt(tt) == x.t {
					m.store(m.ptr(tgt.v), x.v)
					return true
				}
				if fn := m.methodByName(x.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
					return m.truth(m.call(m.getFunc(fn), []Value{x.v, tgt}, nil, fr))
				}
				return false
			})
		},
		"reflect.DeepEqual": func(m *Machine, fr *frame, a []Value) Value {
			return m.deepEq(a[0], a[1], 0)
		},
		"(*os.File).Write":              func(m *Machine, fr *frame, a []Value) Value { return Tuple{mk(int64(a[1].(Slice).len)), Iface{}} },
		"flag.PrintDefaults":            nop,
		"(*flag.FlagSet).PrintDefaults": nop,
		"math.Pow":                      func(m *Machine, fr *frame, a []Value) Value { return math.Pow(a[0].(float64), a[1].(float64)) },
		"math.Float64bits":              func(m *Machine, fr *frame, a []Value) Value { return mk(int64(math.Float64bits(a[0].(float64)))) },
		"math.Float64frombits":          func(m *Machine, fr *frame, a []Value) Value { return math.Float64frombits(uint64(a[0].(int64))) },
		"runtime.GC":                    nop,
		"runtime.KeepAlive":             nop,
		"os.Getenv":                     func(m *Machine, fr *frame, a []Value) Value { return "" },
		"internal/race.Acquire":         nop,
	}
	initRegexp()
}

// deepEq is reflect.DeepEqual on values without cycles.
func (m *Machine) deepEq(x, y Value, depth int) bool {
	if depth > 200 {
		panic(unsupported{"deep comparison of cyclic values"})
	}
	switch a := x.(type) {
	case Iface:
		b := y.(Iface)
		return a.t == b.t && (a.t == nil || m.deepEq(a.v, b.v, depth+1))
	case *StructV:
		b := y.(*StructV)
		for i := range a.f {
			if !m.deepEq(a.f[i], b.f[i], depth+1) {
				return false
			}
		}
		return true
	case Slice:
		b := y.(Slice)
		if (a.a == nil) != (b.a == nil) || a.len != b.len {
			return false
		}
		for i, e := range a.vals() {
			if !m.deepEq(e, b.vals()[i], depth+1) {
				return false
			}
		}
		return true
	case *MapV:
		b := y.(*MapV)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		for i := range a.ents {
			if e := a.ents[i]; e.live {
				j := m.mapFind(b, e.k)
				if j < 0 || !m.deepEq(e.v, b.ents[j].v, depth+1) {
					return false
				}
			}
		}
		return true
	case *Value:
		b, ok := y.(*Value)
		if !ok {
			break
		}
		return a == b || a != nil && b != nil && m.deepEq(*a, *b, depth+1)
	case *Closure:
		b, ok := y.(*Closure)
		return ok && a == nil && b == nil
	case int64, string, *SymStr, *Term, bool, float64:
		return m.truth(m.eq(x, y))
	}
	panic(unsupported{fmt.Sprintf("reflect.DeepEqual of %T", x)})
}

// quote runs strconv's own quoting code over symbolic text.
func (m *Machine) quote(fr *frame, v Value) Value {
	p := m.prog.ImportedPackage("strconv")
	m.initPkg(p)
	return m.call(m.getFunc(p.Func("quoteWith")), []Value{v, mk('"'), false, false}, nil, fr)
}

func (m *Machine) methodByName(t *RT, name string) *ssa.Function {
	if t == nil {
		return nil
	}
	ms := m.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (m *Machine) concStr(v Value) string {
	switch x := v.(type) {
	case string:
		return x
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			b[i] = byte(m.concInt(c))
		}
		return string(b)
	}
	panic(unsupported{fmt.Sprintf("concStr %T", v)})
}

func (m *Machine) writeTo(fr *frame, w Value, s Value) Value {
	iv := w.(Iface)
	if n, ok := iv.v.(*Native); ok && n != nil {
		if o, ok := n.v.(nativeObj); ok {
			return o.callMethod(m, "Write", []Value{sliceOf(append([]Value(nil), strBytes(s)...))})
		}
	}
	fn := m.methodByName(iv.t, "Write")
	if fn == nil {
		panic(unsupported{"Fprintf to unknown writer"})
	}
	return m.call(m.getFunc(fn), []Value{iv.v, sliceOf(append([]Value(nil), strBytes(s)...))}, nil, fr)
}

// caseMap: symbolic bytes that may be out of ASCII are made concrete.
func (m *Machine) caseMap(fr *frame, v Value, up bool) Value {
	conv := strings.ToLower
	lo, hi, d := byte('A'), byte('Z'), uint64(32)
	if up {
		conv = strings.ToUpper
		lo, hi, d = 'a', 'z', uint64(0x100-32)
	}
	if s, ok := v.(string); ok {
		return conv(s)
	}
	bs := strBytes(v)
	for _, b := range bs {
		if x, ok := b.(*Term); ok && !m.branch(m.tc.cmp(OpUlt, x, m.tc.Const(0x80, 8))) {
			return conv(m.concStr(v))
		}
	}
	var r []Value
	var wide []byte // run of non-ASCII bytes
	flush := func() {
		for _, c := range []byte(conv(string(wide))) {
			r = append(r, mk(int64(c)))
		}
		wide = nil
	}
	for _, b := range bs {
		switch x := b.(type) {
		case int64:
			if x >= 0x80 {
				wide = append(wide, byte(x))
				continue
			}
			flush()
			if byte(x) >= lo && byte(x) <= hi {
				x = (x + int64(d)) & 0xff
			}
			r = append(r, mk(x))
		case *Term:
			flush()
			in := m.tc.cmp(OpUle, m.tc.Bin(OpSub, x, m.tc.Const(uint64(lo), 8)), m.tc.Const(uint64(hi-lo), 8))
			r = append(r, m.unint(m.tc.Ite(in, m.tc.Bin(OpAdd, x, m.tc.Const(d, 8)), x), tinfo{kInt, 8, false}))
		}
	}
	flush()
	return mkStr(r)
}

func (m *Machine) byteEq(a, b Value) bool {
	x, ok1 := a.(int64)
	y, ok2 := b.(int64)
	if ok1 && ok2 {
		return x == y
	}
	return m.truth(m.unbool(m.tc.Eq(m.byteTerm(a), m.byteTerm(b))))
}

func (m *Machine) indexByte(vs []Value, c Value) Value {
	for i, v := range vs {
		if m.byteEq(v, c) {
			return mk(int64(i))
		}
	}
	return mk(-1)
}

func (m *Machine) lastIndexByte(vs []Value, c Value) Value {
	for i := len(vs) - 1; i >= 0; i-- {
		if m.byteEq(vs[i], c) {
			return mk(int64(i))
		}
	}
	return mk(-1)
}

func (m *Machine) countByte(vs []Value, c Value) Value {
	n := 0
	for _, v := range vs {
		if m.byteEq(v, c) {
			n++
		}
	}
	return mk(int64(n))
}

func (m *Machine) indexSub(vs, sub []Value) Value {
	for i := 0; i+len(sub) <= len(vs); i++ {
		if m.truth(m.bytesEq(vs[i:i+len(sub)], sub)) {
			return mk(int64(i))
		}
	}
	return mk(-1)
}

func (m *Machine) compareBytes(a, b Value) Value {
	if m.truth(m.strEq(a, b)) {
		return mk(0)
	}
	if m.truth(m.strLess(a, b, false)) {
		return mk(-1)
	}
	return mk(1)
}

func (m *Machine) decodeRune(s Value, i int) (Value, int) {
	if x, ok := s.(string); ok {
		for j, r := range x[i:] {
			if j == 0 {
				n := 1
				for k := range x[i:] {
					if k > 0 {
						return mk(int64(r)), k
					}
				}
				n = len(x) - i
				return mk(int64(r)), n
			}
		}
	}
	return m.decodeBytes(s.(*SymStr).b, i)
}

// decodeBytes decodes one UTF-8 sequence, forking on the class of each byte.
func (m *Machine) decodeBytes(b []Value, i int) (Value, int) {
	tc := m.tc
	conc := true
	for j := i; j < len(b) && j < i+4; j++ {
		if _, ok := b[j].(int64); !ok {
			conc = false
		}
	}
	if conc {
		var buf []byte
		for j := i; j < len(b) && j < i+4; j++ {
			buf = append(buf, byte(b[j].(int64)))
		}
		for k, r := range string(buf) {
			_ = k
			n := 0
			for q := range string(buf) {
				if q > 0 {
					n = q
					break
				}
			}
			if n == 0 {
				n = len(buf)
			}
			return mk(int64(r)), n
		}
	}
	bt := func(j int) *Term { return m.byteTerm(b[j]) }
	in := func(t *Term, lo, hi uint64) bool {
		return m.truth(m.unbool(tc.And(tc.cmp(OpUle, tc.Const(lo, 8), t), tc.cmp(OpUle, t, tc.Const(hi, 8)))))
	}
	z := func(t *Term, msk uint64, sh uint64) *Term {
		return tc.Bin(OpShl, tc.Zext(tc.Bin(OpBAnd, t, tc.Const(msk, 8)), 32), tc.Const(sh, 32))
	}
	out := func(ts ...*Term) Value {
		r := ts[0]
		for _, t := range ts[1:] {
			r = tc.Bin(OpBOr, r, t)
		}
		return m.unint(r, tinfo{kInt, 32, true})
	}
	bad := mk(0xFFFD)
	b0 := bt(i)
	if in(b0, 0, 0x7f) {
		return out(tc.Zext(b0, 32)), 1
	}
	n := len(b) - i
	if in(b0, 0xc2, 0xdf) {
		if n < 2 || !in(bt(i+1), 0x80, 0xbf) {
			return bad, 1
		}
		return out(z(b0, 0x1f, 6), z(bt(i+1), 0x3f, 0)), 2
	}
	if in(b0, 0xe0, 0xef) {
		if n < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(b0, 0xe0, 0xe0) {
			lo = 0xa0
		} else if in(b0, 0xed, 0xed) {
			hi = 0x9f
		}
		if !in(bt(i+1), lo, hi) || n < 3 || !in(bt(i+2), 0x80, 0xbf) {
			return bad, 1
		}
		return out(z(b0, 0xf, 12), z(bt(i+1), 0x3f, 6), z(bt(i+2), 0x3f, 0)), 3
	}
	if in(b0, 0xf0, 0xf4) {
		if n < 2 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xbf)
		if in(b0, 0xf0, 0xf0) {
			lo = 0x90
		} else if in(b0, 0xf4, 0xf4) {
			hi = 0x8f
		}
		if !in(bt(i+1), lo, hi) || n < 3 || !in(bt(i+2), 0x80, 0xbf) || n < 4 || !in(bt(i+3), 0x80, 0xbf) {
			return bad, 1
		}
		return out(z(b0, 7, 18), z(bt(i+1), 0x3f, 12), z(bt(i+2), 0x3f, 6), z(bt(i+3), 0x3f, 0)), 4
	}
	return bad, 1
}

const opaque = "\u2039symbolic\u203a"

// sprintf renders format verbs; symbolic text under %s and %v is kept exact,
// other symbolic values become an opaque marker.
func (m *Machine) sprintf(fr *frame, f Value, args []Value) Value {
	fs, ok := f.(string)
	if !ok {
		return opaque
	}
	var r Value = ""
	ai := 0
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			r = strConcat(r, fs[i:])
			break
		}
		r = strConcat(r, fs[i:i+j])
		i += j
		k := i + 1
		for k < len(fs) && strings.IndexByte("+-# 0123456789.*", fs[k]) >= 0 {
			k++
		}
		if k >= len(fs) {
			r = strConcat(r, fs[i:])
			break
		}
		verb := fs[k]
		spec := fs[i : k+1]
		i = k + 1
		if verb == '%' {
			r = strConcat(r, "%")
			continue
		}
		if ai >= len(args) {
			r = strConcat(r, "%!"+string(verb)+"(MISSING)")
			continue
		}
		r = strConcat(r, m.fmtArg(fr, verb, spec, args[ai]))
		ai++
	}
	if ai < len(args) {
		r = strConcat(r, "%!(EXTRA)")
	}
	return r
}

func (m *Machine) fmtArg(fr *frame, verb byte, spec string, arg Value) Value {
	iv, ok := arg.(Iface)
	if !ok {
		return opaque
	}
	if iv.t == nil {
		return "<nil>"
	}
	if verb == 'T' {
		return types.TypeString(iv.t.t, func(p *types.Package) string { return p.Name() })
	}
	if verb == 'w' {
		verb, spec = 'v', "%v"
	}
	if verb == 's' || verb == 'v' || verb == 'q' {
		for _, name := range []string{"Error", "String"} {
			if fn := m.methodByName(iv.t, name); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
				if p, isP := iv.v.(*Value); isP && p == nil {
					return "<nil>"
				}
				s := m.call(m.getFunc(fn), []Value{iv.v}, nil, fr)
				if verb == 'q' {
					if cs, ok := s.(string); ok {
						return fmt.Sprintf(spec, cs)
					}
					return opaque
				}
				return s
			}
		}
	}
	ti := infoOf(iv.t.t)
	val := iv.v
	if t, is := val.(*Term); is && exactInts {
		if ti.k == kInt {
			val = m.concretize(t)
		} else if ti.k == kBool {
			val = m.truth(t)
		}
	}
	switch x := val.(type) {
	case string:
		return fmt.Sprintf(spec, x)
	case *SymStr:
		if spec == "%s" || spec == "%v" {
			return x
		}
		if spec == "%q" && exactQuote {
			return m.quote(fr, x)
		}
		if spec == "%q" {
			return strConcat(strConcat("\"", x), "\"")
		}
		return opaque
	case int64:
		if ti.k == kInt {
			if ti.signed {
				if verb == 'c' {
					return fmt.Sprintf(spec, rune(x))
				}
				return fmt.Sprintf(spec, x)
			}
			return fmt.Sprintf(spec, uint64(x))
		}
	case bool:
		return fmt.Sprintf(spec, x)
	case float64:
		return fmt.Sprintf(spec, x)
	case Slice:
		st, ok := iv.t.t.Underlying().(*types.Slice)
		if !ok || strings.Contains(spec, "#") {
			break
		}
		et := st.Elem()
		if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && verb != 'v' && verb != 'd' {
			return m.fmtArg(fr, verb, spec, Iface{m.rt(types.Typ[types.String]), mkStr(x.vals())})
		}
		var r Value = "["
		for i, e := range x.vals() {
			if i > 0 {
				r = strConcat(r, " ")
			}
			if _, ok := e.(Iface); !ok {
				e = Iface{m.rt(et), e}
			}
			r = strConcat(r, m.fmtArg(fr, verb, spec, e))
		}
		return strConcat(r, "]")
	}
	return opaque
}

// atomicIntrinsic models atomics as plain accesses (single thread of control).
func atomicIntrinsic(m *Machine, fn *ssa.Function, name string) intrinsic {
	f := atomicOp(fn, name)
	if f == nil {
		return nil
	}
	return func(m *Machine, fr *frame, a []Value) Value {
		m.schedPoint(fr)
		return f(m, fr, a)
	}
}

func atomicOp(fn *ssa.Function, name string) intrinsic {
	base := name[strings.LastIndexByte(name, '.')+1:]
	cell := func(m *Machine, v Value) *Value {
		p := m.ptr(v)
		if s, ok := (*p).(*StructV); ok { // atomic.Int32 etc: value is the last field
			return &s.f[len(s.f)-1]
		}
		return p
	}
	isPtr := strings.Contains(name, "atomic.Pointer")
	_ = isPtr
	isBool := strings.Contains(name, "atomic.Bool")
	var rti tinfo
	if fn.Signature.Results().Len() > 0 {
		rti = infoOf(fn.Signature.Results().At(0).Type())
	}
	conv := func(v Value) Value {
		if isBool {
			if n, ok := v.(int64); ok {
				return n != 0
			}
		}
		return v
	}
	unconv := func(v Value) Value {
		if isBool {
			if b, ok := v.(bool); ok {
				if b {
					return mk(1)
				}
				return mk(0)
			}
		}
		return v
	}
	switch {
	case strings.HasPrefix(base, "Load"):
		return func(m *Machine, fr *frame, a []Value) Value { return conv(*cell(m, a[0])) }
	case strings.HasPrefix(base, "Store"):
		return func(m *Machine, fr *frame, a []Value) Value { m.syncWrite(cell(m, a[0]), unconv(a[1])); return nil }
	case strings.HasPrefix(base, "Add"):
		return func(m *Machine, fr *frame, a []Value) Value {
			c := cell(m, a[0])
			v := mk(rti.norm((*c).(int64) + a[1].(int64)))
			m.syncWrite(c, v)
			return v
		}
	case strings.HasPrefix(base, "Swap"):
		return func(m *Machine, fr *frame, a []Value) Value {
			c := cell(m, a[0])
			o := *c
			m.syncWrite(c, unconv(a[1]))
			return conv(o)
		}
	case strings.HasPrefix(base, "CompareAndSwap"):
		return func(m *Machine, fr *frame, a []Value) Value {
			c := cell(m, a[0])
			if m.truth(m.eq(*c, unconv(a[1]))) {
				m.syncWrite(c, unconv(a[2]))
				return true
			}
			return false
		}
	}
	return nil
}

// sprint is fmt.Sprint: a space between operands when neither is a string.
func (m *Machine) sprint(fr *frame, args []Value) Value {
	var r Value = ""
	str := true
	for i, v := range args {
		isStr := false
		if f, is := v.(Iface); is && f.t != nil {
			b, is := f.t.t.Underlying().(*types.Basic)
			isStr = is && b.Kind() == types.String
		}
		if i > 0 && !isStr && !str {
			r = strConcat(r, " ")
		}
		str = isStr
		r = strConcat(r, m.fmtArg(fr, 'v', "%v", v))
	}
	return r
}
