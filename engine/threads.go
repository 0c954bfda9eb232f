package main

// Threads of a harness: functions given to Schedule run whole, one inside
// another at points where the running one is about to synchronise. Which one
// starts where is an input of the path. Locks are tracked, so that a lock
// nobody can take and data accessed without a common lock are found as well.

type lockRec struct {
	mu   *Value
	excl bool
}

type accRec struct {
	thread int
	locks  []lockRec
}

type threads struct {
	pending []Value
	cur, n  int
	acc     map[any][]accRec // writes to memory shared by threads, under locks
	fr      *frame
}

func (m *Machine) schedule(fs []Value, fr *frame) {
	m.inPath()
	m.freezeGlobals()
	old := m.par
	m.par = &threads{pending: fs, acc: map[any][]accRec{}, fr: fr}
	for len(m.par.pending) > 0 {
		m.startThread(int(m.concInt(m.intRange(m.vname("zzstart"), 0, int64(len(m.par.pending)-1)))))
	}
	m.par = old
}

func (m *Machine) startThread(i int) {
	p := m.par
	f := p.pending[i]
	p.pending = append(append([]Value(nil), p.pending[:i]...), p.pending[i+1:]...)
	cur := p.cur
	p.n++
	p.cur = p.n
	m.callVal(f, nil, p.fr)
	p.cur = cur
}

// schedPoint is where another thread may run; those that hold locks go on.
func (m *Machine) schedPoint(fr *frame) {
	if fr != nil && !fr.f.repo {
		return // replays have no such points in libraries
	}
	for m.par != nil && len(m.held) == 0 && m.wlocks == 0 && len(m.par.pending) > 0 {
		k := int(m.concInt(m.intRange(m.vname("zzsched"), 0, int64(len(m.par.pending)))))
		if k == 0 {
			return
		}
		m.startThread(k - 1)
	}
}

// touch looks for an earlier write of another thread under other locks, and records this one.
func (m *Machine) touch(key any, write bool) {
	p := m.par
	if p == nil || p.cur == 0 || write && len(m.held) == 0 {
		return // internals of sync
	}
	for _, r := range p.acc[key] {
		if r.thread == p.cur {
			continue
		}
		common := false
		for _, a := range r.locks {
			for _, b := range m.held {
				common = common || a.mu == b.mu && a.excl
			}
		}
		if !common && !(m.wlocks > 0 && len(m.held) == 0) {
			m.report("shared-write", "shared state modified", nil)
			panic(pathEnd{"violation"})
		}
	}
	if write {
		p.acc[key] = append(p.acc[key], accRec{p.cur, append([]lockRec(nil), m.held...)})
	}
}

func (m *Machine) lockState(v Value) *Value {
	p := m.ptr(v)
	if m.mutexes == nil {
		m.mutexes = map[*Value]int{}
	}
	return p
}

func (m *Machine) setLock(p *Value, n int) {
	old := m.mutexes[p]
	m.mutexes[p] = n
	m.undo(func() { m.mutexes[p] = old })
}

func (m *Machine) stuck(kind, msg string) {
	if m.p == nil {
		panic(unsupported{msg})
	}
	m.report(kind, msg, nil)
	panic(pathEnd{"violation"})
}

func (m *Machine) acquire(fr *frame, v Value, excl, try bool) bool {
	if !try {
		m.schedPoint(fr)
	}
	p := m.lockState(v)
	n := m.mutexes[p]
	if n < 0 || excl && n > 0 {
		if try {
			return false
		}
		m.stuck("deadlock", "a lock is never released")
	}
	if excl {
		m.setLock(p, -1)
		m.wlocks++
	} else {
		m.setLock(p, n+1)
	}
	m.held = append(m.held[:len(m.held):len(m.held)], lockRec{p, excl})
	return true
}

func (m *Machine) release(v Value, excl bool) {
	p := m.lockState(v)
	n := m.mutexes[p]
	if excl && n >= 0 || !excl && n <= 0 {
		m.stuck("fatal", "unlock of an unlocked mutex")
	}
	if excl {
		m.setLock(p, 0)
		m.wlocks--
	} else {
		m.setLock(p, n-1)
	}
	for i := len(m.held) - 1; i >= 0; i-- {
		if h := m.held[i]; h.mu == p && h.excl == excl {
			m.held = append(append([]lockRec(nil), m.held[:i]...), m.held[i+1:]...)
			break
		}
	}
}

func lockOp(op string) intrinsic {
	return func(m *Machine, fr *frame, a []Value) Value {
		switch op {
		case "Lock":
			m.acquire(fr, a[0], true, false)
		case "RLock":
			m.acquire(fr, a[0], false, false)
		case "TryLock":
			return m.acquire(fr, a[0], true, true)
		case "TryRLock":
			return m.acquire(fr, a[0], false, true)
		case "Unlock":
			m.release(a[0], true)
		case "RUnlock":
			m.release(a[0], false)
		}
		return nil
	}
}

func init() {
	for _, op := range []string{"Lock", "Unlock", "TryLock"} {
		intrinsics["(*sync.Mutex)."+op] = lockOp(op)
		intrinsics["(*sync.RWMutex)."+op] = lockOp(op)
	}
	for _, op := range []string{"RLock", "RUnlock", "TryRLock"} {
		intrinsics["(*sync.RWMutex)."+op] = lockOp(op)
	}
	for _, op := range []string{"Load", "Store", "LoadOrStore", "Delete", "LoadAndDelete", "Range"} {
		f := intrinsics["(*sync.Map)."+op]
		intrinsics["(*sync.Map)."+op] = func(m *Machine, fr *frame, a []Value) Value {
			m.schedPoint(fr)
			return f(m, fr, a)
		}
	}
}
