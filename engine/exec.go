package main

// Compilation of SSA functions to closures and their execution.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type unsupported struct{ msg string }
type targetPanic struct{ v Value }
type pathEnd struct{ why string }

type trailEnt struct {
	p   *Value
	old Value
	fn  func()
}

// Machine is one symbolic executor with its own heap.
type Machine struct {
	prog     *ssa.Program
	repoPfx  string
	symPkg   string
	tc       *TermCtx
	sol      *Solver
	funcs    map[*ssa.Function]*Func
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	rts      typeutil.Map
	rtList   []*RT
	trail    []trailEnt
	trailOn  bool
	frozen   map[*Value]struct{}
	wlocks   int // write locks held
	held     []lockRec
	mutexes  map[*Value]int // -1 for locked, number of readers
	par      *threads
	mapDevs  int // map traversals in an order of choice so far
	pools    map[*Value][]Value
	syncMaps map[*Value]*MapV
	depth    int
	steps    int64
	limit    int64
	certTime time.Duration
	ex       *explorer
	p        *path
	growC    map[growKey]int
	sizes    types.Sizes
	intrUse  map[string]int64
	rtErrT   *RT
	errStrT  *RT
	noWrite  bool
	curHook  func()
	regPool  [][]Value
}

type Func struct {
	fn      *ssa.Function
	name    string
	blocks  []*block
	nregs   int
	np      int
	nfv     int
	hasDef  bool
	recover *block
	intr    intrinsic
	ready   bool
	repo    bool
	ninstr  int
	calls   int64
	pkgInit *ssa.Package
}

type block struct {
	phis  []int
	edges [][]operand
	ins   []func(fr *frame)
	term  func(fr *frame) *block
	n     int64
	hit   bool
	pos   token.Pos // of the first instruction that has one
}

type frame struct {
	m      *Machine
	f      *Func
	regs   []Value
	pred   int
	result Value
	caller *frame
	defers []deferred
	panicV *targetPanic
	tmp    []Value
}

type deferred struct {
	fn   Value
	args []Value
	f    *Func
	bi   func() // builtin
}

type operand struct {
	idx int
	c   Value
}

func (o operand) get(fr *frame) Value {
	if o.idx >= 0 {
		return fr.regs[o.idx]
	}
	return o.c
}

type intrinsic func(m *Machine, fr *frame, args []Value) Value

func newMachine(prog *ssa.Program, repoPfx, symPkg string) *Machine {
	m := &Machine{prog: prog, repoPfx: repoPfx, symPkg: symPkg, tc: newTermCtx(),
		funcs: map[*ssa.Function]*Func{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		growC: map[growKey]int{}, sizes: types.SizesFor("gc", "amd64"), intrUse: map[string]int64{}, limit: 1 << 62}
	if rp := prog.ImportedPackage("runtime"); rp != nil {
		if o := rp.Pkg.Scope().Lookup("errorString"); o != nil {
			m.rtErrT = m.rt(o.Type())
		}
	}
	return m
}

func (m *Machine) rt(t types.Type) *RT {
	if r := m.rts.At(t); r != nil {
		return r.(*RT)
	}
	r := &RT{t: t, id: len(m.rtList), meths: map[string]*ssa.Function{}, impl: map[*types.Interface]bool{}}
	m.rtList = append(m.rtList, r)
	m.rts.Set(t, r)
	return r
}

func (m *Machine) undo(f func()) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{fn: f})
	}
}

func (m *Machine) rollback() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		e := &m.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			*e.p = e.old
		}
		*e = trailEnt{}
	}
	m.trail = m.trail[:0]
}

func (m *Machine) write(p *Value, v Value) {
	if m.frozen != nil {
		if _, f := m.frozen[p]; f {
			m.checkFrozen(p, v)
		}
	}
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{p: p, old: *p})
	}
	*p = v
}

// syncWrite is a write that is safe between threads.
func (m *Machine) syncWrite(p *Value, v Value) {
	m.wlocks++
	m.write(p, v)
	m.wlocks--
}

func (m *Machine) store(p *Value, v Value) {
	switch x := v.(type) {
	case *StructV:
		if d, ok := (*p).(*StructV); ok && len(d.f) == len(x.f) {
			for i := range x.f {
				m.store(&d.f[i], x.f[i])
			}
			return
		}
		m.write(p, copyVal(v))
	case *ArrayV:
		if d, ok := (*p).(*ArrayV); ok && len(d.e) == len(x.e) {
			for i := range x.e {
				m.store(&d.e[i], x.e[i])
			}
			return
		}
		m.write(p, copyVal(v))
	default:
		m.write(p, v)
	}
}

func (m *Machine) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(unsupported{fmt.Sprintf("dereference of %T", v)})
	}
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{Iface{m.rtErrT, msg}})
}

// ---- functions

func (m *Machine) getFunc(fn *ssa.Function) *Func {
	if f, ok := m.funcs[fn]; ok {
		return f
	}
	f := &Func{fn: fn, name: fn.String()}
	m.funcs[fn] = f
	pk := fn.Pkg
	if pk == nil && fn.Origin() != nil {
		pk = fn.Origin().Pkg
	}
	if pk == nil && fn.Parent() != nil {
		pk = fn.Parent().Pkg
	}
	if pk != nil {
		f.repo = strings.HasPrefix(pk.Pkg.Path(), m.repoPfx)
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		f.repo = strings.HasPrefix(fn.Object().Pkg().Path(), m.repoPfx)
	}
	return f
}

func (m *Machine) call(f *Func, args []Value, env []Value, caller *frame) Value {
	if !f.ready {
		m.prepare(f)
	}
	if f.intr != nil {
		m.intrUse[f.name]++
		return f.intr(m, caller, args)
	}
	regs := m.allocRegs(f.nregs)
	copy(regs, args)
	copy(regs[f.np:], env)
	return m.exec(f, regs, caller)
}

func (m *Machine) allocRegs(n int) []Value {
	if k := len(m.regPool); k > 0 {
		r := m.regPool[k-1]
		if cap(r) >= n {
			m.regPool = m.regPool[:k-1]
			return r[:n]
		}
	}
	c := n
	if c < 64 {
		c = 64
	}
	return make([]Value, n, c)
}

func (m *Machine) exec(f *Func, regs []Value, caller *frame) Value {
	f.calls++
	m.depth++
	if m.depth > 3000 {
		panic(pathEnd{"stack"})
	}
	fr := frame{m: m, f: f, regs: regs, caller: caller}
	if f.hasDef {
		m.runDef(&fr)
	} else {
		m.run(&fr, f.blocks[0])
	}
	m.depth--
	clear(regs)
	if len(m.regPool) < 256 {
		m.regPool = append(m.regPool, regs)
	}
	return fr.result
}

func (m *Machine) run(fr *frame, b *block) {
	for b != nil {
		if len(b.phis) > 0 {
			es := b.edges[fr.pred]
			if len(b.phis) == 1 {
				fr.regs[b.phis[0]] = es[0].get(fr)
			} else {
				if cap(fr.tmp) < len(es) {
					fr.tmp = make([]Value, len(es))
				}
				t := fr.tmp[:len(es)]
				for i, o := range es {
					t[i] = o.get(fr)
				}
				for i, r := range b.phis {
					fr.regs[r] = t[i]
				}
			}
		}
		for _, in := range b.ins {
			in(fr)
		}
		m.steps += b.n
		b.hit = true
		if m.steps > m.limit {
			panic(pathEnd{"steps"})
		}
		b = b.term(fr)
	}
}

func (m *Machine) runDef(fr *frame) {
	depth := m.depth
	done := false
	func() {
		defer func() {
			if done {
				return
			}
			p := recover()
			tp, ok := p.(targetPanic)
			if !ok {
				panic(p)
			}
			m.depth = depth
			fr.panicV = &tp
			m.runDefers(fr)
			if fr.panicV != nil {
				panic(*fr.panicV)
			}
		}()
		m.run(fr, fr.f.blocks[0])
		done = true
	}()
	if !done {
		if fr.f.recover != nil {
			fr.pred = 0
			m.run(fr, fr.f.recover)
		} else {
			res := fr.f.fn.Signature.Results()
			switch res.Len() {
			case 0:
			case 1:
				fr.result = m.zero(res.At(0).Type())
			default:
				fr.result = m.zero(res)
			}
		}
	}
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		m.runOneDefer(fr, d)
	}
}

func (m *Machine) runOneDefer(fr *frame, d deferred) {
	ok := false
	defer func() {
		if !ok {
			p := recover()
			tp, is := p.(targetPanic)
			if !is {
				panic(p)
			}
			fr.panicV = &tp
			m.runDefers(fr)
			if fr.panicV != nil {
				panic(*fr.panicV)
			}
		}
	}()
	if d.bi != nil {
		d.bi()
	} else {
		m.callVal(d.fn, d.args, fr)
	}
	ok = true
}

func (m *Machine) callVal(fv Value, args []Value, caller *frame) Value {
	c := fv.(*Closure)
	if c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.native != nil {
		return c.native(m, args)
	}
	return m.call(c.fn, args, c.env, caller)
}

func (m *Machine) method(t *RT, meth *types.Func) *ssa.Function {
	key := meth.Name()
	if !meth.Exported() {
		key = meth.Pkg().Path() + "." + key
	}
	if f, ok := t.meths[key]; ok {
		return f
	}
	f := m.prog.LookupMethod(t.t, meth.Pkg(), meth.Name())
	t.meths[key] = f
	return f
}

func (m *Machine) global(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(Value)
	m.globals[g] = p
	*p = m.zero(g.Type().(*types.Pointer).Elem())
	if g.String() == "os.Args" {
		*p = sliceOf([]Value{"cmd"})
	}
	return p
}

// initPkg runs the initialiser of a package once, outside any path.
func (m *Machine) initPkg(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	fn := p.Func("init")
	if fn == nil {
		return
	}
	on, fz, lim, st := m.trailOn, m.frozen, m.limit, m.steps
	m.trailOn, m.frozen, m.limit = false, nil, 1<<62
	defer func() { m.trailOn, m.frozen, m.limit, m.steps = on, fz, lim, st }()
	m.call(m.getFunc(fn), nil, nil, nil)
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/poll": true, "time": true,
	"internal/godebug": true, "reflect": true, "internal/cpu": true, "internal/runtime/sys": true, "internal/bytealg": true,
	"testing": true, "log": true, "net": true, "encoding/json": true}

type growKey struct {
	oldCap, newLen, size int
	ptr                  bool
}

func hasPtr(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.String || u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Array:
		return u.Len() > 0 && hasPtr(u.Elem())
	}
	return true
}

func (m *Machine) growCap(oldCap, newLen int, elem types.Type) int {
	k := growKey{oldCap, newLen, int(m.sizes.Sizeof(elem)), hasPtr(elem)}
	if c, ok := m.growC[k]; ok {
		return c
	}
	var et reflect.Type
	if k.ptr && k.size%8 == 0 {
		et = reflect.ArrayOf(k.size/8, reflect.TypeOf((*byte)(nil)))
	} else {
		et = reflect.ArrayOf(k.size, reflect.TypeOf(byte(0)))
	}
	st := reflect.SliceOf(et)
	s := reflect.MakeSlice(st, oldCap, oldCap)
	add := reflect.MakeSlice(st, newLen-oldCap, newLen-oldCap)
	c := reflect.AppendSlice(s, add).Cap()
	m.growC[k] = c
	return c
}

func (m *Machine) appendVals(s Slice, vals []Value, elem types.Type) Slice {
	n := len(vals)
	if n == 0 {
		return s
	}
	if s.len+n <= s.cap {
		for i, v := range vals {
			m.store(&s.a.e[s.off+s.len+i], v)
		}
		return Slice{s.a, s.off, s.len + n, s.cap}
	}
	nc := m.growCap(s.cap, s.len+n, elem)
	a := &ArrayV{e: make([]Value, nc)}
	for i := 0; i < s.len; i++ {
		a.e[i] = copyVal(s.a.e[s.off+i])
	}
	for i, v := range vals {
		a.e[s.len+i] = copyVal(v)
	}
	if nc > s.len+n {
		z := m.zeroFn(elem)
		for i := s.len + n; i < nc; i++ {
			a.e[i] = z()
		}
	}
	return Slice{a, 0, s.len + n, nc}
}

func (s Slice) vals() []Value {
	if s.a == nil {
		return nil
	}
	return s.a.e[s.off : s.off+s.len]
}

func sliceOf(vals []Value) Slice {
	return Slice{&ArrayV{vals}, 0, len(vals), len(vals)}
}

// ---- compilation

func isExtern(fn *ssa.Function) bool { return len(fn.Blocks) == 0 }

func (m *Machine) prepare(f *Func) {
	f.ready = true
	if in := findIntrinsic(m, f.fn, f.name); in != nil {
		f.intr = in
		return
	}
	if isExtern(f.fn) {
		name := f.name
		f.intr = func(m *Machine, fr *frame, args []Value) Value {
			panic(unsupported{"external function " + name})
		}
		f.ready = true
		return
	}
	f.ready = true
	c := &compiler{m: m, f: f, regOf: map[ssa.Value]int{}}
	c.compile()
}

type compiler struct {
	m     *Machine
	f     *Func
	regOf map[ssa.Value]int
	n     int
	blk   []*block
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.regOf[v]; ok {
		return r
	}
	r := c.n
	c.n++
	c.regOf[v] = r
	return r
}

func (m *Machine) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return m.zero(t)
	}
	ti := infoOf(t)
	switch ti.k {
	case kBool:
		return constant.BoolVal(k.Value)
	case kInt:
		v := constant.ToInt(k.Value)
		if ti.signed {
			i, _ := constant.Int64Val(v)
			return mk(i)
		}
		u, _ := constant.Uint64Val(v)
		return mk(int64(u))
	case kFloat:
		f, _ := constant.Float64Val(k.Value)
		if ti.w == 32 {
			f = float64(float32(f))
		}
		return f
	case kString:
		if k.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(k.Value)
			return string(rune(i))
		}
		return constant.StringVal(k.Value)
	}
	panic(unsupported{"constant of type " + t.String()})
}

func (c *compiler) op(v ssa.Value) operand {
	switch x := v.(type) {
	case *ssa.Const:
		return operand{-1, c.m.constVal(x)}
	case *ssa.Global:
		if x.Pkg != nil && x.Pkg != c.f.fn.Pkg {
			c.m.lazyInit(x.Pkg)
		} else if x.Pkg != nil && !c.f.repo {
			c.m.lazyInit(x.Pkg)
		}
		return operand{-1, c.m.global(x)}
	case *ssa.Function:
		return operand{-1, &Closure{fn: c.m.getFunc(x)}}
	case *ssa.Builtin:
		return operand{-1, nil}
	}
	return operand{c.reg(v), nil}
}

func (m *Machine) lazyInit(p *ssa.Package) {
	if strings.HasPrefix(p.Pkg.Path(), m.repoPfx) {
		return
	}
	m.initPkg(p)
}

func (c *compiler) compile() {
	fn := c.f.fn
	f := c.f
	for _, p := range fn.Params {
		c.reg(p)
	}
	f.np = len(fn.Params)
	for _, p := range fn.FreeVars {
		c.reg(p)
	}
	f.nfv = len(fn.FreeVars)
	c.blk = make([]*block, len(fn.Blocks))
	for i := range c.blk {
		c.blk[i] = &block{}
	}
	f.blocks = c.blk
	if fn.Recover != nil {
		f.recover = c.blk[fn.Recover.Index]
	}
	for i, b := range fn.Blocks {
		nb := c.blk[i]
		for range b.Preds {
			nb.edges = append(nb.edges, nil)
		}
		for _, in := range b.Instrs {
			f.ninstr++
			nb.n++
			if nb.pos == token.NoPos {
				nb.pos = in.Pos()
			}
			switch x := in.(type) {
			case *ssa.Phi:
				nb.phis = append(nb.phis, c.reg(x))
				for j, e := range x.Edges {
					nb.edges[j] = append(nb.edges[j], c.op(e))
				}
			case *ssa.Jump:
				t := c.blk[b.Succs[0].Index]
				pi := predIndex(b, 0)
				nb.term = func(fr *frame) *block { fr.pred = pi; return t }
			case *ssa.If:
				o := c.op(x.Cond)
				t, e := c.blk[b.Succs[0].Index], c.blk[b.Succs[1].Index]
				pt, pe := predIndex(b, 0), predIndex(b, 1)
				nb.term = func(fr *frame) *block {
					v := o.get(fr)
					bv, ok := v.(bool)
					if !ok {
						bv = fr.m.branch(v.(*Term))
					}
					if bv {
						fr.pred = pt
						return t
					}
					fr.pred = pe
					return e
				}
			case *ssa.Return:
				ops := c.ops(x.Results)
				switch len(ops) {
				case 0:
					nb.term = func(fr *frame) *block { return nil }
				case 1:
					o := ops[0]
					nb.term = func(fr *frame) *block { fr.result = o.get(fr); return nil }
				default:
					nb.term = func(fr *frame) *block {
						t := make(Tuple, len(ops))
						for i, o := range ops {
							t[i] = o.get(fr)
						}
						fr.result = t
						return nil
					}
				}
			case *ssa.Panic:
				o := c.op(x.X)
				nb.term = func(fr *frame) *block { panic(targetPanic{o.get(fr)}) }
			case *ssa.DebugRef:
			case *ssa.RunDefers:
				nb.ins = append(nb.ins, func(fr *frame) { fr.m.runDefers(fr) })
			default:
				if g := c.instr(in); g != nil {
					nb.ins = append(nb.ins, g)
				}
			}
		}
	}
	f.nregs = c.n
}

func predIndex(b *ssa.BasicBlock, succ int) int {
	s := b.Succs[succ]
	k := 0
	for i := 0; i < succ; i++ {
		if b.Succs[i] == s {
			k++
		}
	}
	for i, p := range s.Preds {
		if p == b {
			if k == 0 {
				return i
			}
			k--
		}
	}
	panic("predIndex")
}

func (c *compiler) ops(vs []ssa.Value) []operand {
	r := make([]operand, len(vs))
	for i, v := range vs {
		r[i] = c.op(v)
	}
	return r
}

func unsupIns(msg string) func(fr *frame) {
	return func(fr *frame) { panic(unsupported{msg}) }
}

func (c *compiler) instr(in ssa.Instruction) func(fr *frame) {
	m := c.m
	switch x := in.(type) {
	case *ssa.Alloc:
		r := c.reg(x)
		z := m.zeroFn(x.Type().Underlying().(*types.Pointer).Elem())
		return func(fr *frame) { p := new(Value); *p = z(); fr.regs[r] = p }
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		switch infoOf(x.Val.Type()).k {
		case kStruct, kArray:
			return func(fr *frame) { fr.m.store(fr.m.ptr(a.get(fr)), v.get(fr)) }
		}
		return func(fr *frame) {
			p := fr.m.ptr(a.get(fr))
			fr.m.write(p, v.get(fr))
		}
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.BinOp:
		r := c.reg(x)
		a, b := c.op(x.X), c.op(x.Y)
		f := m.binop(x.Op, x.X.Type(), x.Y.Type())
		return func(fr *frame) { fr.regs[r] = f(fr.m, a.get(fr), b.get(fr)) }
	case *ssa.ChangeType:
		r, a := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[r] = a.get(fr) }
	case *ssa.ChangeInterface:
		r, a := c.reg(x), c.op(x.X)
		return func(fr *frame) { fr.regs[r] = a.get(fr) }
	case *ssa.MakeInterface:
		r, a := c.reg(x), c.op(x.X)
		t := m.rt(x.X.Type())
		return func(fr *frame) { fr.regs[r] = Iface{t, a.get(fr)} }
	case *ssa.Extract:
		r, a, i := c.reg(x), c.op(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[r] = a.get(fr).(Tuple)[i] }
	case *ssa.Field:
		r, a, i := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) { fr.regs[r] = a.get(fr).(*StructV).f[i] }
	case *ssa.FieldAddr:
		r, a, i := c.reg(x), c.op(x.X), x.Field
		return func(fr *frame) {
			p := fr.m.ptr(a.get(fr))
			s, ok := (*p).(*StructV)
			if !ok {
				panic(unsupported{fmt.Sprintf("field of %T in %s", *p, fr.f.name)})
			}
			fr.regs[r] = &s.f[i]
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Index:
		r, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
		iti := infoOf(x.Index.Type())
		return func(fr *frame) {
			switch s := a.get(fr).(type) {
			case *ArrayV:
				fr.regs[r] = fr.m.loadIdx(s.e, fr.m.idx64(i.get(fr), iti))
			default:
				fr.regs[r] = fr.m.strIndex(s, fr.m.idx64(i.get(fr), iti))
			}
		}
	case *ssa.Lookup:
		r, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
		if infoOf(x.X.Type()).k == kString {
			iti := infoOf(x.Index.Type())
			return func(fr *frame) { fr.regs[r] = fr.m.strIndex(a.get(fr), fr.m.idx64(i.get(fr), iti)) }
		}
		z := m.zeroFn(x.X.Type().Underlying().(*types.Map).Elem())
		ok := x.CommaOk
		return func(fr *frame) {
			mv := a.get(fr).(*MapV)
			k := fr.m.mapFind(mv, i.get(fr))
			var v Value
			if k >= 0 {
				v = mv.ents[k].v
			} else {
				v = z()
			}
			if ok {
				fr.regs[r] = Tuple{v, k >= 0}
			} else {
				fr.regs[r] = v
			}
		}
	case *ssa.MapUpdate:
		a, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		return func(fr *frame) { fr.m.mapSet(a.get(fr).(*MapV), k.get(fr), v.get(fr)) }
	case *ssa.MakeMap:
		r := c.reg(x)
		return func(fr *frame) { fr.regs[r] = newMap() }
	case *ssa.MakeSlice:
		r, l, cp := c.reg(x), c.op(x.Len), c.op(x.Cap)
		z := m.zeroFn(x.Type().Underlying().(*types.Slice).Elem())
		return func(fr *frame) {
			ln, cn := fr.m.concInt(l.get(fr)), fr.m.concInt(cp.get(fr))
			if ln < 0 || ln > 1<<40 {
				fr.m.rtPanic("makeslice: len out of range")
			}
			if cn < ln || cn > 1<<40 {
				fr.m.rtPanic("makeslice: cap out of range")
			}
			if cn > 1<<22 {
				panic(unsupported{"huge make"})
			}
			a := &ArrayV{e: make([]Value, cn)}
			for i := range a.e {
				a.e[i] = z()
			}
			fr.regs[r] = Slice{a, 0, int(ln), int(cn)}
		}
	case *ssa.MakeClosure:
		r, bs := c.reg(x), c.ops(x.Bindings)
		f := m.getFunc(x.Fn.(*ssa.Function))
		return func(fr *frame) {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = b.get(fr)
			}
			fr.regs[r] = &Closure{fn: f, env: env}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		r, a := c.reg(x), c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			s := a.get(fr).(Slice)
			if s.len < n {
				fr.m.rtPanic("cannot convert slice to array pointer: length mismatch")
			}
			if s.a == nil {
				fr.regs[r] = (*Value)(nil)
				return
			}
			p := new(Value)
			*p = &ArrayV{e: s.a.e[s.off : s.off+n : s.off+n]}
			fr.regs[r] = p
		}
	case *ssa.Convert:
		r, a := c.reg(x), c.op(x.X)
		f := m.convert(x.X.Type(), x.Type())
		return func(fr *frame) { fr.regs[r] = f(fr.m, a.get(fr)) }
	case *ssa.MultiConvert:
		return unsupIns("MultiConvert")
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Range:
		r, a := c.reg(x), c.op(x.X)
		return func(fr *frame) {
			switch s := a.get(fr).(type) {
			case *MapV:
				fr.regs[r] = fr.m.mapIter(s)
			default:
				fr.regs[r] = &StrIter{s: s}
			}
		}
	case *ssa.Next:
		r, a := c.reg(x), c.op(x.Iter)
		return func(fr *frame) {
			switch it := a.get(fr).(type) {
			case *StrIter:
				if it.pos >= strLen(it.s) {
					fr.regs[r] = Tuple{false, mk(0), mk(0)}
					return
				}
				rn, n := fr.m.decodeRune(it.s, it.pos)
				fr.regs[r] = Tuple{true, mk(int64(it.pos)), rn}
				it.pos += n
			case *MapIter:
				for it.pos < len(it.order) {
					e := &it.mv.ents[it.order[it.pos]]
					it.pos++
					if e.live {
						fr.regs[r] = Tuple{true, e.k, e.v}
						return
					}
				}
				fr.regs[r] = Tuple{false, nil, nil}
			}
		}
	case *ssa.Call:
		r := c.reg(x)
		g := c.callee(&x.Call)
		return func(fr *frame) { fr.regs[r] = g(fr) }
	case *ssa.Defer:
		c.f.hasDef = true
		return c.deferIns(x)
	case *ssa.Go:
		return unsupIns("go statement")
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return unsupIns("channel operation")
	}
	return unsupIns(fmt.Sprintf("instruction %T", in))
}

func (c *compiler) unop(x *ssa.UnOp) func(fr *frame) {
	r, a := c.reg(x), c.op(x.X)
	switch x.Op {
	case token.MUL:
		agg := false
		ti := infoOf(x.Type())
		switch ti.k {
		case kStruct, kArray:
			agg = true
		}
		return func(fr *frame) {
			v := a.get(fr)
			p, ok := v.(*Value)
			if !ok {
				if sp, is := v.(*SymPtr); is {
					fr.regs[r] = fr.m.iteRead(sp.a.e[sp.off:sp.off+sp.n], sp.idx, ti)
					return
				}
				if dp, is := v.(*DataPtr); is {
					if s, is := dp.v.(Slice); is && s.len > 0 {
						fr.regs[r] = s.a.e[s.off]
						return
					}
				}
				panic(unsupported{fmt.Sprintf("load from %T", v)})
			}
			if p == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if fr.m.par != nil && len(fr.m.par.acc) > 0 {
				fr.m.touch(p, false)
			}
			if agg {
				fr.regs[r] = copyVal(*p)
			} else {
				fr.regs[r] = *p
			}
		}
	case token.NOT:
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case bool:
				fr.regs[r] = !v
			case *Term:
				fr.regs[r] = fr.m.unbool(fr.m.tc.Not(v))
			}
		}
	case token.SUB, token.XOR:
		ti := infoOf(x.X.Type())
		sub := x.Op == token.SUB
		return func(fr *frame) {
			switch v := a.get(fr).(type) {
			case int64:
				if sub {
					fr.regs[r] = mk(ti.norm(-v))
				} else {
					fr.regs[r] = mk(ti.norm(^v))
				}
			case float64:
				fr.regs[r] = -v
			case *Term:
				tc := fr.m.tc
				if sub {
					fr.regs[r] = fr.m.unint(tc.Bin(OpSub, tc.Const(0, v.w), v), ti)
				} else {
					fr.regs[r] = fr.m.unint(tc.Bin(OpBXor, v, tc.Const(^uint64(0), v.w)), ti)
				}
			}
		}
	}
	return unsupIns("unary " + x.Op.String())
}

// unint turns constant terms back to concrete values.
func (m *Machine) unint(t *Term, ti tinfo) Value {
	if t.isConst() {
		if ti.signed {
			return mk(sext(t.k, t.w))
		}
		return mk(int64(t.k))
	}
	return t
}

func (m *Machine) term(v Value, w uint8) *Term {
	switch x := v.(type) {
	case int64:
		return m.tc.Const(uint64(x), w)
	case *Term:
		return x
	}
	panic(unsupported{fmt.Sprintf("term of %T", v)})
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) func(fr *frame) {
	r, a, i := c.reg(x), c.op(x.X), c.op(x.Index)
	isSlice := infoOf(x.X.Type()).k == kSlice
	iti := infoOf(x.Index.Type())
	loadOnly := false
	if refs := x.Referrers(); refs != nil && len(*refs) > 0 {
		var et types.Type
		if isSlice {
			et = x.X.Type().Underlying().(*types.Slice).Elem()
		} else {
			et = x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Elem()
		}
		k := infoOf(et).k
		loadOnly = k == kInt || k == kBool
		for _, u := range *refs {
			if o, ok := u.(*ssa.UnOp); !ok || o.Op != token.MUL {
				if _, ok := u.(*ssa.DebugRef); !ok {
					loadOnly = false
				}
			}
		}
	}
	return func(fr *frame) {
		m := fr.m
		var arr *ArrayV
		off, n := 0, 0
		switch s := a.get(fr).(type) {
		case Slice:
			arr, off, n = s.a, s.off, s.len
		case *Value:
			arr = (*m.ptr(s)).(*ArrayV)
			n = len(arr.e)
		default:
			panic(unsupported{fmt.Sprintf("index of %T", s)})
		}
		iv := m.idx64(i.get(fr), iti)
		k, ok := iv.(int64)
		if !ok {
			t := iv.(*Term)
			m.boundsCheck(t, n)
			if loadOnly && n <= 512 {
				fr.regs[r] = &SymPtr{arr, off, n, t}
				return
			}
			k = m.concretize(t)
		}
		if k < 0 || k >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		fr.regs[r] = &arr.e[off+int(k)]
	}
}

// boundsCheck panics in the target when 0 <= t < n does not hold.
func (m *Machine) boundsCheck(t *Term, n int) {
	if !m.branch(m.tc.cmp(OpUlt, t, m.tc.Const(uint64(n), t.w))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

// iteRead reads e[idx] (idx is known to be in range) as a chain of ites.
func (m *Machine) iteRead(e []Value, idx *Term, ti tinfo) Value {
	lo, hi := urange(idx, 4)
	if hi >= uint64(len(e)) {
		hi = uint64(len(e) - 1)
	}
	conv := func(v Value) *Term {
		if ti.k == kBool {
			return m.boolTerm(v)
		}
		return m.fix(v, ti)
	}
	r := conv(e[hi])
	last := r
	for i := int(hi) - 1; i >= int(lo); i-- {
		t := conv(e[i])
		if t == last {
			continue
		}
		r = m.tc.Ite(m.tc.cmp(OpUle, idx, m.tc.Const(uint64(i), idx.w)), t, r)
		last = t
	}
	if ti.k == kBool {
		return m.unbool(r)
	}
	return m.unint(r, ti)
}

// idx64 extends a symbolic index to 64 bits.
func (m *Machine) idx64(v Value, ti tinfo) Value {
	t, ok := v.(*Term)
	if !ok {
		return v
	}
	t = m.fix(t, ti)
	if ti.signed {
		return m.unint(m.tc.Sext(t, 64), tinfo{kInt, 64, true})
	}
	return m.unint(m.tc.Zext(t, 64), tinfo{kInt, 64, true})
}

func (m *Machine) loadIdx(e []Value, iv Value) Value {
	k, ok := iv.(int64)
	if !ok {
		t := iv.(*Term)
		m.boundsCheck(t, len(e))
		k = m.concretize(t)
	}
	if k < 0 || k >= int64(len(e)) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, len(e)))
	}
	return e[k]
}

func (m *Machine) strIndex(s Value, iv Value) Value {
	n := strLen(s)
	k, ok := iv.(int64)
	if !ok {
		t := iv.(*Term)
		m.boundsCheck(t, n)
		if n <= 512 {
			return m.iteRead(strBytes(s), t, tinfo{kInt, 8, false})
		}
		k = m.concretize(t)
	}
	if k < 0 || k >= int64(n) {
		m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
	}
	return strAt(s, int(k))
}

func (m *Machine) concInt(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return m.concretize(x)
	}
	panic(unsupported{fmt.Sprintf("concInt of %T", v)})
}

// truth decides a boolean value on this path.
func (m *Machine) truth(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	return m.branch(v.(*Term))
}

func (c *compiler) slice(x *ssa.Slice) func(fr *frame) {
	r, a := c.reg(x), c.op(x.X)
	opt := func(v ssa.Value) (operand, bool) {
		if v == nil {
			return operand{}, false
		}
		return c.op(v), true
	}
	tiOf := func(v ssa.Value) tinfo {
		if v == nil {
			return tinfo{}
		}
		return infoOf(v.Type())
	}
	tLo, tHi, tMx := tiOf(x.Low), tiOf(x.High), tiOf(x.Max)
	lo, hasLo := opt(x.Low)
	hi, hasHi := opt(x.High)
	mx, hasMax := opt(x.Max)
	return func(fr *frame) {
		m := fr.m
		v := a.get(fr)
		var l, h, cp, ln int
		var arr *ArrayV
		off := 0
		isStr := false
		switch s := v.(type) {
		case Slice:
			arr, off, ln, cp = s.a, s.off, s.len, s.cap
		case *Value:
			arr = (*m.ptr(s)).(*ArrayV)
			ln, cp = len(arr.e), len(arr.e)
		case string, *SymStr:
			isStr = true
			ln = strLen(s)
			cp = ln
		default:
			panic(unsupported{fmt.Sprintf("slice of %T", v)})
		}
		h = ln
		get := func(o operand, ti tinfo, bound int) int {
			iv := m.idx64(o.get(fr), ti)
			k, ok := iv.(int64)
			if !ok {
				t := iv.(*Term)
				if !m.branch(m.tc.cmp(OpUle, t, m.tc.Const(uint64(bound), 64))) {
					m.rtPanic(fmt.Sprintf("slice bounds out of range with capacity %d", bound))
				}
				k = m.concretize(t)
			}
			if k < 0 || k > int64(bound) {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", k, bound))
			}
			return int(k)
		}
		c3 := cp
		if hasMax {
			c3 = get(mx, tMx, cp)
		}
		if hasHi {
			h = get(hi, tHi, c3)
		}
		if hasLo {
			l = get(lo, tLo, h)
		}
		if isStr {
			fr.regs[r] = strSub(v, l, h)
			return
		}
		if arr == nil {
			fr.regs[r] = Slice{}
			return
		}
		fr.regs[r] = Slice{arr, off + l, h - l, c3 - l}
	}
}

func (m *Machine) implements(t *RT, it *types.Interface) bool {
	if b, ok := t.impl[it]; ok {
		return b
	}
	b := types.Implements(t.t, it)
	t.impl[it] = b
	return b
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(fr *frame) {
	m := c.m
	r, a := c.reg(x), c.op(x.X)
	commaOk := x.CommaOk
	z := m.zeroFn(x.AssertedType)
	at := x.AssertedType.String()
	if it, ok := x.AssertedType.Underlying().(*types.Interface); ok {
		return func(fr *frame) {
			v := a.get(fr).(Iface)
			ok := v.t != nil && fr.m.implements(v.t, it)
			if commaOk {
				if ok {
					fr.regs[r] = Tuple{v, true}
				} else {
					fr.regs[r] = Tuple{Iface{}, false}
				}
				return
			}
			if !ok {
				fr.m.rtPanic("interface conversion: missing method for " + at)
			}
			fr.regs[r] = v
		}
	}
	t := m.rt(x.AssertedType)
	return func(fr *frame) {
		v := a.get(fr).(Iface)
		if commaOk {
			if v.t == t {
				fr.regs[r] = Tuple{v.v, true}
			} else {
				fr.regs[r] = Tuple{z(), false}
			}
			return
		}
		if v.t != t {
			fr.m.rtPanic("interface conversion: interface is not " + at)
		}
		fr.regs[r] = v.v
	}
}

func (c *compiler) callee(cc *ssa.CallCommon) func(fr *frame) Value {
	m := c.m
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		var lastT *RT
		var lastF *Func
		return func(fr *frame) Value {
			iv := recv.get(fr).(Iface)
			if iv.t == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			if n, ok := iv.v.(*Native); ok && n != nil {
				if im, ok := n.v.(nativeObj); ok {
					av := make([]Value, len(args))
					for i, o := range args {
						av[i] = o.get(fr)
					}
					return im.callMethod(fr.m, meth.Name(), av)
				}
			}
			if iv.t != lastT {
				fn := fr.m.method(iv.t, meth)
				if fn == nil {
					panic(unsupported{"method " + meth.Name() + " of " + iv.t.t.String()})
				}
				lastT, lastF = iv.t, fr.m.getFunc(fn)
			}
			f := lastF
			if !f.ready {
				fr.m.prepare(f)
			}
			if f.intr != nil {
				av := make([]Value, len(args)+1)
				av[0] = iv.v
				for i, o := range args {
					av[i+1] = o.get(fr)
				}
				fr.m.intrUse[f.name]++
				return f.intr(fr.m, fr, av)
			}
			regs := fr.m.allocRegs(f.nregs)
			regs[0] = iv.v
			for i, o := range args {
				regs[i+1] = o.get(fr)
			}
			return fr.m.exec(f, regs, fr)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Builtin:
		return c.builtin(v, cc, args)
	case *ssa.Function:
		f := m.getFunc(v)
		if v.Pkg != nil && v == v.Pkg.Func("init") {
			pk, repo := v.Pkg, f.repo
			return func(fr *frame) Value {
				if repo {
					fr.m.initPkg(pk)
				}
				return nil
			}
		}
		return func(fr *frame) Value {
			if !f.ready {
				fr.m.prepare(f)
			}
			if f.intr != nil {
				av := make([]Value, len(args))
				for i, o := range args {
					av[i] = o.get(fr)
				}
				fr.m.intrUse[f.name]++
				return f.intr(fr.m, fr, av)
			}
			regs := fr.m.allocRegs(f.nregs)
			for i, o := range args {
				regs[i] = o.get(fr)
			}
			return fr.m.exec(f, regs, fr)
		}
	}
	fv := c.op(cc.Value)
	return func(fr *frame) Value {
		av := make([]Value, len(args))
		for i, o := range args {
			av[i] = o.get(fr)
		}
		return fr.m.callVal(fv.get(fr), av, fr)
	}
}

func (c *compiler) deferIns(x *ssa.Defer) func(fr *frame) {
	m := c.m
	cc := &x.Call
	args := c.ops(cc.Args)
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		return func(fr *frame) {
			iv := recv.get(fr).(Iface)
			if iv.t == nil {
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			}
			av := []Value{iv.v}
			for _, o := range args {
				av = append(av, o.get(fr))
			}
			fr.defers = append(fr.defers, deferred{fn: &Closure{fn: fr.m.getFunc(fr.m.method(iv.t, meth))}, args: av})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		g := c.builtin(b, cc, args)
		return func(fr *frame) { fr.defers = append(fr.defers, deferred{bi: func() { g(fr) }}) }
	}
	var fv operand
	if f, ok := cc.Value.(*ssa.Function); ok {
		fv = operand{-1, &Closure{fn: m.getFunc(f)}}
	} else {
		fv = c.op(cc.Value)
	}
	return func(fr *frame) {
		av := make([]Value, len(args))
		for i, o := range args {
			av[i] = o.get(fr)
		}
		fr.defers = append(fr.defers, deferred{fn: fv.get(fr), args: av})
	}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []operand) func(fr *frame) Value {
	switch b.Name() {
	case "len":
		return func(fr *frame) Value {
			switch x := args[0].get(fr).(type) {
			case Slice:
				return mk(int64(x.len))
			case string:
				return mk(int64(len(x)))
			case *SymStr:
				return mk(int64(len(x.b)))
			case *MapV:
				if x == nil {
					return mk(0)
				}
				return mk(int64(x.n))
			case *ArrayV:
				return mk(int64(len(x.e)))
			case *Value:
				return mk(int64(len((*x).(*ArrayV).e)))
			}
			panic(unsupported{"len"})
		}
	case "cap":
		return func(fr *frame) Value {
			switch x := args[0].get(fr).(type) {
			case Slice:
				return mk(int64(x.cap))
			case *ArrayV:
				return mk(int64(len(x.e)))
			}
			panic(unsupported{"cap"})
		}
	case "append":
		st, ok := cc.Args[0].Type().Underlying().(*types.Slice)
		if !ok {
			return func(fr *frame) Value { panic(unsupported{"append to type parameter"}) }
		}
		elem := st.Elem()
		return func(fr *frame) Value {
			s := args[0].get(fr).(Slice)
			switch y := args[1].get(fr).(type) {
			case Slice:
				vs := y.vals()
				if len(vs) > 0 && y.a == s.a {
					vs = append([]Value(nil), vs...)
				}
				return fr.m.appendVals(s, vs, elem)
			case string, *SymStr:
				return fr.m.appendVals(s, strBytes(y), elem)
			}
			panic(unsupported{"append"})
		}
	case "copy":
		return func(fr *frame) Value {
			d := args[0].get(fr).(Slice)
			var vs []Value
			switch y := args[1].get(fr).(type) {
			case Slice:
				vs = y.vals()
				if y.a == d.a {
					vs = append([]Value(nil), vs...)
					for i := range vs {
						vs[i] = copyVal(vs[i])
					}
				}
			default:
				vs = strBytes(y)
			}
			n := min(d.len, len(vs))
			for i := 0; i < n; i++ {
				fr.m.store(&d.a.e[d.off+i], vs[i])
			}
			return mk(int64(n))
		}
	case "delete":
		return func(fr *frame) Value {
			mv := args[0].get(fr).(*MapV)
			if mv != nil {
				fr.m.mapDelete(mv, args[1].get(fr))
			}
			return nil
		}
	case "clear":
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Map:
			return func(fr *frame) Value {
				mv := args[0].get(fr).(*MapV)
				if mv != nil {
					for i := range mv.ents {
						if mv.ents[i].live {
							fr.m.mapDelete(mv, mv.ents[i].k)
						}
					}
				}
				return nil
			}
		case *types.Slice:
			z := c.m.zeroFn(u.Elem())
			return func(fr *frame) Value {
				s := args[0].get(fr).(Slice)
				for i := 0; i < s.len; i++ {
					fr.m.store(&s.a.e[s.off+i], z())
				}
				return nil
			}
		}
	case "panic":
		return func(fr *frame) Value { panic(targetPanic{args[0].get(fr)}) }
	case "recover":
		return func(fr *frame) Value {
			if fr.caller != nil && fr.caller.panicV != nil {
				v := fr.caller.panicV.v
				fr.caller.panicV = nil
				return v
			}
			return Iface{}
		}
	case "min", "max":
		f := c.m.binop(token.LSS, cc.Args[0].Type(), cc.Args[0].Type())
		isMin := b.Name() == "min"
		return func(fr *frame) Value {
			r := args[0].get(fr)
			for _, o := range args[1:] {
				v := o.get(fr)
				var lt bool
				if isMin {
					lt = fr.m.truth(f(fr.m, v, r))
				} else {
					lt = fr.m.truth(f(fr.m, r, v))
				}
				if lt {
					r = v
				}
			}
			return r
		}
	case "print", "println":
		return func(fr *frame) Value { return nil }
	case "ssa:wrapnilchk":
		return func(fr *frame) Value {
			v := args[0].get(fr)
			if p, ok := v.(*Value); ok && p == nil {
				fr.m.rtPanic("value method called using nil pointer")
			}
			return v
		}
	case "SliceData", "StringData":
		return func(fr *frame) Value { return &DataPtr{args[0].get(fr)} }
	case "String", "Slice":
		isStr := b.Name() == "String"
		return func(fr *frame) Value {
			p := args[0].get(fr)
			n := int(fr.m.concInt(args[1].get(fr)))
			dp, ok := p.(*DataPtr)
			if !ok {
				if vp, is := p.(*Value); is && vp == nil {
					if isStr {
						return ""
					}
					return Slice{}
				}
				if vp, is := p.(*Value); is {
					// elements of an array are adjacent cells
					cells := unsafe.Slice(vp, n)
					if isStr {
						return mkStr(append([]Value(nil), cells...))
					}
					return Slice{&ArrayV{e: cells}, 0, n, n}
				}
				panic(unsupported{fmt.Sprintf("unsafe.String of %T", p)})
			}
			switch s := dp.v.(type) {
			case Slice:
				if isStr {
					return mkStr(s.a2(n))
				}
				return Slice{s.a, s.off, n, n}
			default:
				if isStr {
					return strSub(s, 0, n)
				}
				return sliceOf(append([]Value(nil), strBytes(strSub(s, 0, n))...))
			}
		}
	}
	name := b.Name()
	return func(fr *frame) Value { panic(unsupported{"builtin " + name}) }
}

func (s Slice) a2(n int) []Value {
	if s.a == nil || n == 0 {
		return nil
	}
	return s.a.e[s.off : s.off+n]
}

// ---- operators

func (m *Machine) binop(op token.Token, xt, yt types.Type) func(m *Machine, a, b Value) Value {
	ti := infoOf(xt)
	switch op {
	case token.EQL:
		if ti.k == kInt {
			return func(m *Machine, a, b Value) Value {
				if x, ok := a.(int64); ok {
					if y, ok := b.(int64); ok {
						return x == y
					}
				}
				return m.unbool(m.tc.Eq(m.fix(a, ti), m.fix(b, ti)))
			}
		}
		return func(m *Machine, a, b Value) Value { return m.eq2(a, b) }
	case token.NEQ:
		if ti.k == kInt {
			return func(m *Machine, a, b Value) Value {
				if x, ok := a.(int64); ok {
					if y, ok := b.(int64); ok {
						return x != y
					}
				}
				return m.unbool(m.tc.Not(m.tc.Eq(m.fix(a, ti), m.fix(b, ti))))
			}
		}
		return func(m *Machine, a, b Value) Value {
			switch r := m.eq2(a, b).(type) {
			case bool:
				return !r
			case *Term:
				return m.unbool(m.tc.Not(r))
			}
			panic("neq")
		}
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return m.ordop(op, ti)
	}
	switch ti.k {
	case kString:
		if op == token.ADD {
			return func(m *Machine, a, b Value) Value { return strConcat(a, b) }
		}
	case kFloat:
		return func(m *Machine, a, b Value) Value {
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if !ok1 || !ok2 {
				panic(unsupported{"symbolic float"})
			}
			var r float64
			switch op {
			case token.ADD:
				r = x + y
			case token.SUB:
				r = x - y
			case token.MUL:
				r = x * y
			case token.QUO:
				r = x / y
			}
			if ti.w == 32 {
				r = float64(float32(r))
			}
			return r
		}
	case kBool:
		return func(m *Machine, a, b Value) Value {
			x, y := m.boolTerm(a), m.boolTerm(b)
			if op == token.AND || op == token.LAND {
				return m.unbool(m.tc.And(x, y))
			}
			return m.unbool(m.tc.Or(x, y))
		}
	case kInt:
		return m.intop(op, ti, infoOf(yt))
	}
	return func(m *Machine, a, b Value) Value { panic(unsupported{"binop " + op.String() + " on " + xt.String()}) }
}

// fix makes a term of the exact width of the type (table reads may be wider).
func (m *Machine) fix(v Value, ti tinfo) *Term {
	switch x := v.(type) {
	case int64:
		return m.tc.Const(uint64(x), ti.w)
	case *Term:
		if x.w > ti.w {
			return m.tc.Trunc(x, ti.w)
		}
		return x
	}
	panic(unsupported{fmt.Sprintf("fix of %T", v)})
}

func (m *Machine) eq2(a, b Value) Value {
	// untyped nil against interface etc. is already converted by ssa
	return m.eq(a, b)
}

func (m *Machine) ordop(op token.Token, ti tinfo) func(m *Machine, a, b Value) Value {
	switch ti.k {
	case kString:
		return func(m *Machine, a, b Value) Value {
			switch op {
			case token.LSS:
				return m.strLess(a, b, false)
			case token.LEQ:
				return m.strLess(a, b, true)
			case token.GTR:
				return m.strLess(b, a, false)
			default:
				return m.strLess(b, a, true)
			}
		}
	case kFloat:
		return func(m *Machine, a, b Value) Value {
			x, y := a.(float64), b.(float64)
			switch op {
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			default:
				return x >= y
			}
		}
	}
	lt, le := OpUlt, OpUle
	if ti.signed {
		lt, le = OpSlt, OpSle
	}
	return func(m *Machine, a, b Value) Value {
		x, ok1 := a.(int64)
		y, ok2 := b.(int64)
		if ok1 && ok2 {
			if ti.signed || x >= 0 && y >= 0 {
				switch op {
				case token.LSS:
					return x < y
				case token.LEQ:
					return x <= y
				case token.GTR:
					return x > y
				default:
					return x >= y
				}
			}
			switch op {
			case token.LSS:
				return uint64(x) < uint64(y)
			case token.LEQ:
				return uint64(x) <= uint64(y)
			case token.GTR:
				return uint64(x) > uint64(y)
			default:
				return uint64(x) >= uint64(y)
			}
		}
		s, t := m.fix(a, ti), m.fix(b, ti)
		switch op {
		case token.LSS:
			return m.unbool(m.tc.cmp(lt, s, t))
		case token.LEQ:
			return m.unbool(m.tc.cmp(le, s, t))
		case token.GTR:
			return m.unbool(m.tc.cmp(lt, t, s))
		default:
			return m.unbool(m.tc.cmp(le, t, s))
		}
	}
}

func (m *Machine) intop(op token.Token, ti, yi tinfo) func(m *Machine, a, b Value) Value {
	if op == token.SHL || op == token.SHR {
		return func(m *Machine, a, b Value) Value {
			if y, ok := b.(int64); ok {
				if yi.signed && y < 0 {
					m.rtPanic("negative shift amount")
				}
				uy := uint64(y)
				if x, ok := a.(int64); ok {
					if op == token.SHL {
						if uy >= 64 {
							return mk(0)
						}
						return mk(ti.norm(x << uy))
					}
					if ti.signed {
						if uy > 63 {
							uy = 63
						}
						return mk(x >> uy)
					}
					if uy >= 64 {
						return mk(0)
					}
					return mk(int64(uint64(x) >> uy))
				}
				if uy > 64 {
					uy = 64
				}
				return m.shiftTerm(op, ti, m.fix(a, ti), m.tc.Const(uy, ti.w), uy >= uint64(ti.w))
			}
			yt := m.fix(b, yi)
			if yi.signed && !m.branch(m.tc.cmp(OpSle, m.tc.Const(0, yt.w), yt)) {
				m.rtPanic("negative shift amount")
			}
			x := m.fix(a, ti)
			if yt.w > ti.w {
				if !m.branch(m.tc.cmp(OpUlt, yt, m.tc.Const(uint64(ti.w), yt.w))) {
					return m.shiftTerm(op, ti, x, m.tc.Const(uint64(ti.w), ti.w), true)
				}
				yt = m.tc.Trunc(yt, ti.w)
			} else if yt.w < ti.w {
				yt = m.tc.Zext(yt, ti.w)
			}
			return m.shiftTerm(op, ti, x, yt, false)
		}
	}
	return func(m *Machine, a, b Value) Value {
		x, ok1 := a.(int64)
		y, ok2 := b.(int64)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return mk(ti.norm(x + y))
			case token.SUB:
				return mk(ti.norm(x - y))
			case token.MUL:
				return mk(ti.norm(x * y))
			case token.AND:
				return mk(ti.norm(x & y))
			case token.OR:
				return mk(ti.norm(x | y))
			case token.XOR:
				return mk(ti.norm(x ^ y))
			case token.AND_NOT:
				return mk(ti.norm(x &^ y))
			case token.QUO, token.REM:
				if y == 0 {
					m.rtPanic("integer divide by zero")
				}
				if ti.signed {
					if y == -1 {
						if op == token.QUO {
							return mk(ti.norm(-x))
						}
						return mk(0)
					}
					if op == token.QUO {
						return mk(ti.norm(x / y))
					}
					return mk(x % y)
				}
				if op == token.QUO {
					return mk(int64(uint64(x) / uint64(y)))
				}
				return mk(int64(uint64(x) % uint64(y)))
			}
		}
		s, t := m.fix(a, ti), m.fix(b, ti)
		tc := m.tc
		var r *Term
		switch op {
		case token.ADD:
			r = tc.Bin(OpAdd, s, t)
		case token.SUB:
			r = tc.Bin(OpSub, s, t)
		case token.MUL:
			r = tc.Bin(OpMul, s, t)
		case token.AND:
			r = tc.Bin(OpBAnd, s, t)
		case token.OR:
			r = tc.Bin(OpBOr, s, t)
		case token.XOR:
			r = tc.Bin(OpBXor, s, t)
		case token.AND_NOT:
			r = tc.Bin(OpBAnd, s, tc.Bin(OpBXor, t, tc.Const(^uint64(0), t.w)))
		case token.QUO, token.REM:
			if m.branch(tc.Eq(t, tc.Const(0, t.w))) {
				m.rtPanic("integer divide by zero")
			}
			switch {
			case ti.signed && op == token.QUO:
				r = tc.Bin(OpSDiv, s, t)
			case ti.signed:
				r = tc.Bin(OpSRem, s, t)
			case op == token.QUO:
				r = tc.Bin(OpUDiv, s, t)
			default:
				r = tc.Bin(OpURem, s, t)
			}
		default:
			panic(unsupported{"intop " + op.String()})
		}
		return m.unint(r, ti)
	}
}

func (m *Machine) shiftTerm(op token.Token, ti tinfo, x, y *Term, over bool) Value {
	if over {
		if op == token.SHR && ti.signed {
			return m.unint(m.tc.Bin(OpAshr, x, m.tc.Const(uint64(ti.w-1), ti.w)), ti)
		}
		return mk(0)
	}
	o := OpShl
	if op == token.SHR {
		o = OpLshr
		if ti.signed {
			o = OpAshr
		}
	}
	return m.unint(m.tc.Bin(o, x, y), ti)
}

func (m *Machine) convert(from, to types.Type) func(m *Machine, v Value) Value {
	fi, ti := infoOf(from), infoOf(to)
	switch {
	case ti.k == kInt && fi.k == kInt:
		return func(m *Machine, v Value) Value {
			switch x := v.(type) {
			case int64:
				return mk(ti.norm(x))
			case *Term:
				x = m.fix(x, fi)
				if ti.w <= fi.w {
					return m.unint(m.tc.Trunc(x, ti.w), ti)
				}
				if fi.signed {
					return m.unint(m.tc.Sext(x, ti.w), ti)
				}
				return m.unint(m.tc.Zext(x, ti.w), ti)
			}
			panic(unsupported{fmt.Sprintf("convert %T", v)})
		}
	case ti.k == kFloat && fi.k == kFloat:
		return func(m *Machine, v Value) Value {
			if ti.w == 32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
	case ti.k == kFloat && fi.k == kInt:
		return func(m *Machine, v Value) Value {
			x := m.concInt(v)
			if fi.signed {
				return float64(x)
			}
			return float64(uint64(x))
		}
	case ti.k == kInt && fi.k == kFloat:
		return func(m *Machine, v Value) Value {
			x := v.(float64)
			if ti.signed {
				return mk(ti.norm(int64(x)))
			}
			if x >= math.MaxInt64 {
				return mk(ti.norm(int64(uint64(x))))
			}
			return mk(ti.norm(int64(x)))
		}
	case ti.k == kString && fi.k == kInt:
		return func(m *Machine, v Value) Value { return m.runeToStr(v) }
	case ti.k == kString && fi.k == kString:
		return func(m *Machine, v Value) Value { return v }
	case ti.k == kString && fi.k == kSlice:
		ei := infoOf(from.Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			return func(m *Machine, v Value) Value { return mkStr(v.(Slice).vals()) }
		}
		return func(m *Machine, v Value) Value {
			var r Value = ""
			for _, x := range v.(Slice).vals() {
				r = strConcat(r, m.runeToStr(x))
			}
			return r
		}
	case ti.k == kSlice && fi.k == kString:
		ei := infoOf(to.Underlying().(*types.Slice).Elem())
		if ei.w == 8 {
			return func(m *Machine, v Value) Value {
				return sliceOf(append(make([]Value, 0, strLen(v)), strBytes(v)...))
			}
		}
		return func(m *Machine, v Value) Value {
			var r []Value
			for i := 0; i < strLen(v); {
				rn, n := m.decodeRune(v, i)
				r = append(r, rn)
				i += n
			}
			return sliceOf(r)
		}
	case ti.k == kUnsafe || fi.k == kUnsafe:
		return func(m *Machine, v Value) Value { return v }
	case ti.k == fi.k:
		return func(m *Machine, v Value) Value { return v }
	}
	return func(m *Machine, v Value) Value {
		panic(unsupported{"conversion " + from.String() + " -> " + to.String()})
	}
}

// runeToStr encodes a rune as UTF-8.
func (m *Machine) runeToStr(v Value) Value {
	switch x := v.(type) {
	case int64:
		if x < 0 || x > 0x10ffff {
			return "\uFFFD"
		}
		return string(rune(x))
	case *Term:
		tc := m.tc
		w := x.w
		k := func(n uint64) *Term { return tc.Const(n, w) }
		b := func(t *Term) Value { return m.unint(tc.Trunc(t, 8), tinfo{kInt, 8, false}) }
		bits := func(sh, msk, or uint64) Value {
			t := x
			if sh > 0 {
				t = tc.Bin(OpLshr, x, k(sh))
			}
			return b(tc.Bin(OpBOr, tc.Bin(OpBAnd, t, k(msk)), k(or)))
		}
		if m.branch(tc.cmp(OpUlt, x, k(0x80))) {
			return mkStr([]Value{b(x)})
		}
		if w <= 8 || m.branch(tc.cmp(OpUlt, x, k(0x800))) {
			return mkStr([]Value{bits(6, 0x1f, 0xc0), bits(0, 0x3f, 0x80)})
		}
		if m.branch(tc.cmp(OpUlt, tc.Bin(OpSub, x, k(0xd800)), k(0x800))) {
			return "\uFFFD"
		}
		if w <= 16 || m.branch(tc.cmp(OpUlt, x, k(0x10000))) {
			return mkStr([]Value{bits(12, 0xf, 0xe0), bits(6, 0x3f, 0x80), bits(0, 0x3f, 0x80)})
		}
		if m.branch(tc.cmp(OpUle, x, k(0x10ffff))) {
			return mkStr([]Value{bits(18, 7, 0xf0), bits(12, 0x3f, 0x80), bits(6, 0x3f, 0x80), bits(0, 0x3f, 0x80)})
		}
		return "\uFFFD"
	}
	panic(unsupported{fmt.Sprintf("runeToStr %T", v)})
}
