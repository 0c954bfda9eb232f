package main

// Exploration of all feasible paths of a harness: decision prefixes,
// feasibility through the solver, assertions, concretisation.

import (
	"fmt"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// decision is one recorded branching outcome.
type decision struct {
	val    int64 // candidate value of a concretisation / chosen alternative
	taken  bool
	forced bool
	choice bool
}

type inputRec struct {
	name string
	v    Value
	kind string
}

type obsRec struct {
	name string
	v    Value
}

type path struct {
	pc    []*Term
	dec   []decision
	pos   int // replay position
	pre   int // length of replayed prefix
	known map[*Term]bool
	dom   map[int][4]uint64
	rel   map[int]bool
	conc  map[*Term]int64
	model *Model
	mok   int // number of pc terms the model is known to satisfy
	in    []inputRec
	obs   []obsRec
	names map[string]int
	reach map[string]bool
	unk   bool // an unknown solver answer was treated as feasible
	froz  []frozRoot
	lits  []*Term // branch outcomes taken as forced, certified by the solver at the end
}

type frozRoot struct {
	name string
	v    Value
}

type violation struct {
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Inputs   map[string]any    `json:"inputs"`
	Obs      map[string]string `json:"-"`
	Stack    string            `json:"-"`
	Conf     string            `json:"confirmation,omitempty"`
	MapOrder bool              `json:"map_order,omitempty"`
}

type sample struct {
	harness string
	inputs  map[string]any
	obs     []string
	partial bool // observation contains an opaque value
}

type stats struct {
	paths, completed, pruned, unsup, unconf int64
	branches, decisions, forks              int64
	asserts, assertsSym, assertUnk          int64
	steps                                   int64
	domHits, modelHits                      int64
	certified, certFail                     int64
}

type explorer struct {
	h         *harness
	mu        sync.Mutex
	cond      *sync.Cond
	work      [][]decision
	active    int
	stop      atomic.Bool
	timedOut  atomic.Bool
	deadline  time.Time
	st        stats
	viol      []*violation
	known     knownList
	violKeys  map[string]bool
	knownViol []*violation
	maxViol   int
	unsup     map[string]int64
	reach     map[string]int64
	samples   []sample
	sampleN   int
	nsample   int64
	rng       uint64
	maxDepth  int
	t0        time.Time
}

func newExplorer(h *harness) *explorer {
	x := &explorer{h: h, violKeys: map[string]bool{}, unsup: map[string]int64{}, reach: map[string]int64{}, maxViol: 3, rng: 88172645463325252}
	x.cond = sync.NewCond(&x.mu)
	x.work = [][]decision{{}}
	return x
}

func (x *explorer) push(d []decision) {
	x.mu.Lock()
	x.work = append(x.work, d)
	x.mu.Unlock()
	x.cond.Signal()
}

func (x *explorer) pop() ([]decision, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop.Load() {
			return nil, false
		}
		if n := len(x.work); n > 0 {
			d := x.work[n-1]
			x.work[n-1] = nil
			x.work = x.work[:n-1]
			x.active++
			return d, true
		}
		if x.active == 0 {
			x.cond.Broadcast()
			return nil, false
		}
		x.cond.Wait()
	}
}

func (x *explorer) done() {
	x.mu.Lock()
	x.active--
	if x.active == 0 && len(x.work) == 0 {
		x.cond.Broadcast()
	}
	x.mu.Unlock()
}

func (x *explorer) halt() {
	x.stop.Store(true)
	x.mu.Lock()
	x.cond.Broadcast()
	x.mu.Unlock()
}

// runPath executes the harness once along a decision prefix.
func (m *Machine) runPath(x *explorer, prefix []decision, entry *Func) {
	p := &path{dec: append([]decision(nil), prefix...), pre: len(prefix), known: map[*Term]bool{}, dom: map[int][4]uint64{},
		rel: map[int]bool{}, conc: map[*Term]int64{}, names: map[string]int{}, reach: map[string]bool{}}
	m.p = p
	m.ex = x
	m.steps = 0
	m.limit = x.h.stepLimit
	m.depth = 0
	m.frozen = nil
	m.wlocks, m.mapDevs = 0, 0
	m.held, m.par = nil, nil
	m.trailOn = true
	outcome := "ok"
	var why string
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch e := r.(type) {
				case targetPanic:
					outcome = "panic"
					why = m.panicText(e.v)
				case pathEnd:
					outcome = e.why
				case unsupported:
					outcome = "unsupported"
					why = e.msg
				default:
					outcome = "unsupported"
					why = fmt.Sprintf("engine: %v", r)
					if debugEngine {
						why += "\n" + string(debug.Stack())
					}
				}
			}
		}()
		m.call(entry, nil, nil, nil)
	}()
	atomic.AddInt64(&x.st.paths, 1)
	atomic.AddInt64(&x.st.steps, m.steps)
	switch outcome {
	case "ok":
		atomic.AddInt64(&x.st.completed, 1)
		m.certify()
		x.mu.Lock()
		for k := range p.reach {
			x.reach[k]++
		}
		x.nsample++
		n := x.nsample
		take := len(x.samples) < x.sampleN/2
		if !take && x.sampleN > 0 {
			x.rng ^= x.rng << 13
			x.rng ^= x.rng >> 7
			x.rng ^= x.rng << 17
			take = x.rng%uint64(n) < uint64(x.sampleN)/2
		}
		x.mu.Unlock()
		if take {
			if s, ok := m.makeSample(); ok {
				x.mu.Lock()
				if len(x.samples) < x.sampleN {
					x.samples = append(x.samples, s)
				} else {
					i := x.sampleN/2 + int(x.rng>>20)%(x.sampleN-x.sampleN/2)
					x.samples[i] = s
				}
				x.mu.Unlock()
			}
		}
	case "assume":
		atomic.AddInt64(&x.st.pruned, 1)
	case "infeasible":
		atomic.AddInt64(&x.st.pruned, 1)
	case "violation":
	case "panic":
		m.report("panic", why, nil)
	case "steps", "stack":
		m.report("nontermination", fmt.Sprintf("no end after %d steps (%s limit)", m.steps, outcome), nil)
	case "unsupported":
		atomic.AddInt64(&x.st.unsup, 1)
		x.mu.Lock()
		x.unsup[why]++
		x.mu.Unlock()
	}
	m.rollback()
	m.trailOn = false
	m.frozen = nil
	m.p = nil
}

func (m *Machine) panicText(v Value) string {
	iv, ok := v.(Iface)
	if !ok {
		return fmt.Sprint(v)
	}
	if iv.t == nil {
		return "nil"
	}
	s := ""
	switch y := iv.v.(type) {
	case string:
		s = y
	case *SymStr:
		s = "(symbolic)"
	case int64:
		s = fmt.Sprint(y)
	}
	return iv.t.t.String() + ": " + s
}

// ---- solver access

// getModel returns a model of the path condition.
func (m *Machine) getModel() *Model {
	p := m.p
	if p.model != nil {
		ok := true
		for ; p.mok < len(p.pc); p.mok++ {
			if p.model.Eval(p.pc[p.mok]) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return p.model
		}
		p.model = nil
	}
	r, mod := m.sol.Check(p.pc, nil)
	switch r {
	case Sat:
		p.model = mod
		p.mok = len(p.pc)
		return mod
	case Unsat:
		panic(pathEnd{"infeasible"})
	}
	p.unk = true
	return nil
}

func (m *Machine) addPC(t *Term) {
	p := m.p
	if t.isConst() {
		return
	}
	p.known[t] = true
	p.known[m.tc.Not(t)] = false
	p.pc = append(p.pc, t)
	if v, tt := m.tc.truthTable(t); tt != nil {
		d := m.domOf(v)
		for i := range d {
			d[i] &= tt[i]
		}
		p.dom[v] = d
	} else if t.many {
		p.rel[-1] = true
	} else {
		for _, v := range t.supp {
			p.rel[int(v)] = true
		}
	}
}

func (m *Machine) domOf(v int) [4]uint64 {
	if d, ok := m.p.dom[v]; ok {
		return d
	}
	return m.tc.fullSet(v)
}

// feasible tells which outcomes of t are possible.
func (m *Machine) feasible(t *Term) (yes, no bool) {
	p := m.p
	x := m.ex
	if v, tt := m.tc.truthTable(t); tt != nil {
		d := m.domOf(v)
		var y, n bool
		for i := range d {
			if d[i]&tt[i] != 0 {
				y = true
			}
			if d[i]&^tt[i] != 0 {
				n = true
			}
		}
		if !y || !n || !p.rel[v] && !p.rel[-1] {
			atomic.AddInt64(&x.st.domHits, 1)
			if y || n {
				return y, n
			}
			panic(pathEnd{"infeasible"})
		}
	}
	mod := m.getModel()
	if mod == nil {
		return true, true
	}
	atomic.AddInt64(&x.st.modelHits, 1)
	val := mod.Eval(t) != 0
	other := t
	if val {
		other = m.tc.Not(t)
	}
	r, _ := m.sol.Check(p.pc, other)
	o := r != Unsat
	if r == Unknown {
		p.unk = true
	}
	if val {
		return true, o
	}
	return o, true
}

// branch decides a symbolic condition on the current path.
func (m *Machine) branch(t *Term) bool {
	if t.isConst() {
		return t.k != 0
	}
	p := m.p
	if p == nil {
		panic(unsupported{"symbolic branch outside a path"})
	}
	if v, ok := p.known[t]; ok {
		return v
	}
	x := m.ex
	atomic.AddInt64(&x.st.branches, 1)
	if p.pos < p.pre {
		d := p.dec[p.pos]
		p.pos++
		m.take(t, d)
		return d.taken
	}
	if x.stop.Load() {
		panic(pathEnd{"stopped"})
	}
	if time.Now().After(x.deadline) {
		x.timedOut.Store(true)
		x.halt()
		panic(pathEnd{"stopped"})
	}
	yes, no := m.feasible(t)
	d := decision{}
	switch {
	case yes && no:
		alt := append(append(make([]decision, 0, len(p.dec)+1), p.dec...), decision{taken: false})
		x.push(alt)
		atomic.AddInt64(&x.st.forks, 1)
		d.taken = true
	case yes:
		d.taken, d.forced = true, true
	case no:
		d.taken, d.forced = false, true
	default:
		panic(pathEnd{"infeasible"})
	}
	p.dec = append(p.dec, d)
	p.pos = len(p.dec)
	p.pre = len(p.dec)
	m.take(t, d)
	return d.taken
}

func (m *Machine) take(t *Term, d decision) {
	c := t
	if !d.taken {
		c = m.tc.Not(t)
	}
	if t.isConst() {
		return
	}
	if d.forced {
		m.p.known[t] = d.taken
		m.p.known[m.tc.Not(t)] = !d.taken
		m.p.lits = append(m.p.lits, c)
		return
	}
	m.addPC(c)
}

// certify asks the solver whether the path condition really implies every
// branch outcome and assertion that was taken as forced on the path, however
// that was found out (solver, value set, replayed prefix). A path whose
// conjunction is refuted would mean that part of the input space was skipped.
// The share of time spent here is bounded; the counts are part of the evidence.
func (m *Machine) certify() {
	p := m.p
	x := m.ex
	if len(p.lits) == 0 && len(p.pc) == 0 {
		return
	}
	if m.certTime > 2*time.Second && m.certTime > time.Since(x.t0)*3/10 {
		return
	}
	t0 := time.Now()
	r := m.sol.CheckImplied(p.pc, p.lits)
	m.certTime += time.Since(t0)
	switch r {
	case Unsat:
		atomic.AddInt64(&x.st.certified, 1)
	case Sat:
		atomic.AddInt64(&x.st.certFail, 1)
	}
}

// concretize forks on the possible values of t.
func (m *Machine) concretize(t *Term) int64 {
	if t.isConst() {
		return sext(t.k, t.w)
	}
	p := m.p
	x := m.ex
	if v, ok := p.conc[t]; ok {
		return v
	}
	for n := 0; ; n++ {
		if n > 4096 {
			panic(unsupported{"too many values to concretise"})
		}
		var v int64
		if p.pos < p.pre {
			d := p.dec[p.pos]
			p.pos++
			v = d.val
			m.take(m.tc.Eq(t, m.tc.Const(uint64(v), t.w)), d)
			if d.taken {
				p.conc[t] = v
				return v
			}
			continue
		}
		if x.stop.Load() {
			panic(pathEnd{"stopped"})
		}
		got := false
		if !t.many && len(t.supp) == 1 && !p.rel[int(t.supp[0])] && !p.rel[-1] && m.tc.vars[t.supp[0]].w <= 8 {
			vi := int(t.supp[0])
			d := m.domOf(vi)
			for i := 0; i < 256; i++ {
				if d[i>>6]&(1<<(uint(i)&63)) != 0 {
					mod := newModel()
					mod.set(vi, uint64(i))
					v = sext(mod.Eval(t), t.w)
					got = true
					break
				}
			}
		}
		if !got {
			mod := m.getModel()
			if mod == nil {
				panic(unsupported{"no model for concretisation"})
			}
			v = sext(mod.Eval(t), t.w)
		}
		c := m.tc.Eq(t, m.tc.Const(uint64(v), t.w))
		d := decision{val: v, taken: true}
		if c.isConst() {
			if c.k == 0 {
				panic("concretize")
			}
		}
		yes, no := true, false
		if kv, ok := p.known[c]; ok && !kv {
			panic(unsupported{"concretize: inconsistent model"})
		} else if !ok && !c.isConst() {
			yes, no = m.feasible(c)
		}
		if !yes {
			panic(unsupported{"concretize: value not feasible"})
		}
		if no {
			alt := append(append(make([]decision, 0, len(p.dec)+1), p.dec...), decision{val: v, taken: false})
			x.push(alt)
			atomic.AddInt64(&x.st.forks, 1)
		} else {
			d.forced = true
		}
		p.dec = append(p.dec, d)
		p.pos = len(p.dec)
		p.pre = len(p.dec)
		m.take(c, d)
		p.conc[t] = v
		return v
	}
}

// choose forks over n alternatives that are not inputs (map iteration order).
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	p := m.p
	if p == nil {
		return 0
	}
	if p.pos < p.pre {
		d := p.dec[p.pos]
		p.pos++
		return int(d.val)
	}
	for i := n - 1; i > 0; i-- {
		alt := append(append(make([]decision, 0, len(p.dec)+1), p.dec...), decision{val: int64(i), choice: true})
		m.ex.push(alt)
	}
	atomic.AddInt64(&m.ex.st.forks, int64(n-1))
	p.dec = append(p.dec, decision{val: 0, choice: true})
	p.pos = len(p.dec)
	p.pre = len(p.dec)
	return 0
}

func (m *Machine) assume(v Value) {
	switch c := v.(type) {
	case bool:
		if !c {
			panic(pathEnd{"assume"})
		}
	case *Term:
		p := m.p
		if kv, ok := p.known[c]; ok {
			if !kv {
				panic(pathEnd{"assume"})
			}
			return
		}
		if p.pos < p.pre {
			d := p.dec[p.pos]
			p.pos++
			m.take(c, d)
			return
		}
		yes, no := m.feasible(c)
		if !yes {
			panic(pathEnd{"assume"})
		}
		d := decision{taken: true, forced: !no}
		p.dec = append(p.dec, d)
		p.pos = len(p.dec)
		p.pre = len(p.dec)
		m.take(c, d)
	}
}

func (m *Machine) assert(v Value, msg string) {
	x := m.ex
	p := m.p
	atomic.AddInt64(&x.st.asserts, 1)
	switch c := v.(type) {
	case bool:
		if !c {
			m.report("assert", msg, nil)
			panic(pathEnd{"violation"})
		}
	case *Term:
		if kv, ok := p.known[c]; ok {
			if !kv {
				m.report("assert", msg, nil)
				panic(pathEnd{"violation"})
			}
			return
		}
		if p.pos < p.pre { // already decided on this prefix
			d := p.dec[p.pos]
			p.pos++
			m.take(c, d)
			return
		}
		atomic.AddInt64(&x.st.assertsSym, 1)
		r, mod := m.sol.Check(p.pc, m.tc.Not(c))
		d := decision{taken: true, forced: true}
		switch r {
		case Sat:
			m.report("assert", msg, mod)
			r2, _ := m.sol.Check(p.pc, c)
			if r2 == Unsat {
				panic(pathEnd{"violation"})
			}
			d.forced = false
		case Unknown:
			atomic.AddInt64(&x.st.assertUnk, 1)
			d.forced = false
		}
		p.dec = append(p.dec, d)
		p.pos = len(p.dec)
		p.pre = len(p.dec)
		m.take(c, d)
	}
}

// inputs evaluates the recorded inputs under a model.
func (m *Machine) inputs(mod *Model) map[string]any {
	r := map[string]any{}
	for _, in := range m.p.in {
		switch y := in.v.(type) {
		case int64:
			r[in.name] = y
		case bool:
			if y {
				r[in.name] = int64(1)
			} else {
				r[in.name] = int64(0)
			}
		case *Term:
			if y.w == 0 {
				r[in.name] = int64(mod.Eval(y))
			} else if in.kind == "u" {
				r[in.name] = int64(mod.Eval(y))
			} else {
				r[in.name] = sext(mod.Eval(y), y.w)
			}
		}
	}
	return r
}

func (m *Machine) report(kind, msg string, mod *Model) {
	x := m.ex
	if mod == nil {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(pathEnd); !ok {
					panic(r)
				}
			}
		}()
		mod = m.getModel()
		if mod == nil {
			atomic.AddInt64(&x.st.assertUnk, 1)
			return
		}
	}
	key := kind + "|" + msg
	x.mu.Lock()
	defer x.mu.Unlock()
	v := &violation{Harness: x.h.name, Kind: kind, Msg: msg, Inputs: m.inputs(mod), MapOrder: x.h.mapOrder}
	if w := x.known.match(v); w != "" { // listed findings take no room
		if !x.violKeys[w] {
			x.violKeys[w] = true
			x.knownViol = append(x.knownViol, v)
		}
		return
	}
	n := 0
	for _, v := range x.viol {
		if v.Kind+"|"+v.Msg == key {
			n++
		}
	}
	if n >= 8 || len(x.viol) >= 64 {
		return
	}
	x.viol = append(x.viol, v)
	if len(x.viol) >= 24 {
		x.stop.Store(true)
		x.cond.Broadcast()
	}
}

// makeSample renders the observations of a finished path under a model.
func (m *Machine) makeSample() (s sample, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(pathEnd); !is {
				panic(r)
			}
			ok = false
		}
	}()
	mod := m.getModel()
	if mod == nil {
		return s, false
	}
	s.harness = m.ex.h.name
	s.inputs = m.inputs(mod)
	for _, o := range m.p.obs {
		s.obs = append(s.obs, o.name+"="+m.render(o.v, mod))
	}
	return s, true
}

func (m *Machine) render(v Value, mod *Model) string {
	switch y := v.(type) {
	case int64:
		return fmt.Sprint(y)
	case bool:
		return fmt.Sprint(y)
	case string:
		return fmt.Sprintf("%q", y)
	case *SymStr:
		b := make([]byte, len(y.b))
		for i, c := range y.b {
			switch z := c.(type) {
			case int64:
				b[i] = byte(z)
			case *Term:
				b[i] = byte(mod.Eval(z))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case *Term:
		if y.w == 0 {
			return fmt.Sprint(mod.Eval(y) != 0)
		}
		return fmt.Sprint(sext(mod.Eval(y), y.w))
	}
	return fmt.Sprintf("?%T", v)
}

func sortedKeys[V any](mp map[string]V) []string {
	r := make([]string, 0, len(mp))
	for k := range mp {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func inputsText(in map[string]any) string {
	var sb strings.Builder
	for i, k := range sortedKeys(in) {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%v", k, in[k])
	}
	return sb.String()
}
