package main

// Incremental SMT solver process (z3 -in) with one assertion level per path
// constraint.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Solver struct {
	c        *TermCtx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inC      io.WriteCloser
	out      *bufio.Reader
	declVars int
	defined  map[int32]bool
	stack    []*Term
	broken   error

	Queries int64
	Sat     int64
	Unsat   int64
	Unknown int64
	Time    time.Duration
	MaxTime time.Duration
}

var solverBin = "z3"
var solverTimeoutMs = 20000

func newSolver(c *TermCtx) (*Solver, error) {
	s := &Solver{c: c, defined: map[int32]bool{}}
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	s.cmd.Stderr = os.Stderr
	var e error
	s.inC, e = s.cmd.StdinPipe()
	if e != nil {
		return nil, e
	}
	outC, e := s.cmd.StdoutPipe()
	if e != nil {
		return nil, e
	}
	if e = s.cmd.Start(); e != nil {
		return nil, e
	}
	s.in = bufio.NewWriterSize(s.inC, 1<<16)
	s.out = bufio.NewReaderSize(outC, 1<<16)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n(set-option :produce-models true)\n", solverTimeoutMs)
	return s, nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.op == OpVar || s.defined[t.id] {
		if t.op == OpVar {
			s.declare()
		}
		return
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s.define(x)
		}
	}
	s.defined[t.id] = true
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, smtSort(t.w), smtBody(t))
}

func (s *Solver) declare() {
	for s.declVars < len(s.c.vars) {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", smtName(s.declVars), smtSort(s.c.vars[s.declVars].w))
		s.declVars++
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", smtRef(t))
		s.stack = append(s.stack, t)
	}
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check decides pc ∧ extra (extra may be nil); on Sat returns a model.
func (s *Solver) Check(pc []*Term, extra *Term) (Result, *Model) {
	if s.broken != nil {
		return Unknown, nil
	}
	t0 := time.Now()
	s.sync(pc)
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", smtRef(extra))
	}
	s.declare()
	fmt.Fprintf(s.in, "(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	res := Unknown
	var m *Model
	switch line {
	case "sat":
		res = Sat
		m = s.model()
		s.Sat++
		if s.broken != nil {
			res = Unknown
		}
	case "unsat":
		res = Unsat
		s.Unsat++
	default:
		s.Unknown++
		if strings.Contains(line, "error") || line == "" {
			s.broken = fmt.Errorf("solver: %s", line)
			fmt.Fprintln(os.Stderr, s.broken)
		}
	}
	if extra != nil {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	s.Queries++
	d := time.Since(t0)
	s.Time += d
	if d > s.MaxTime {
		s.MaxTime = d
	}
	return res, m
}

// CheckImplied decides pc ∧ ¬(lits), Unsat meaning that pc implies all lits;
// without lits it answers Unsat when pc is satisfiable.
func (s *Solver) CheckImplied(pc []*Term, lits []*Term) Result {
	if s.broken != nil {
		return Unknown
	}
	t0 := time.Now()
	s.sync(pc)
	if len(lits) > 0 {
		for _, l := range lits {
			s.define(l)
		}
		s.declare()
		s.in.WriteString("(push 1)\n(assert (not (and true")
		for _, l := range lits {
			s.in.WriteByte(' ')
			s.in.WriteString(smtRef(l))
		}
		s.in.WriteString(")))\n")
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.Sat++
	case "unsat":
		res = Unsat
		s.Unsat++
	default:
		s.Unknown++
		if strings.Contains(line, "error") || line == "" {
			s.broken = fmt.Errorf("solver: %s", line)
			fmt.Fprintln(os.Stderr, s.broken)
		}
	}
	if len(lits) > 0 {
		s.in.WriteString("(pop 1)\n")
	} else if res == Sat {
		res = Unsat
	} else if res == Unsat {
		res = Sat
	}
	s.Queries++
	d := time.Since(t0)
	s.Time += d
	s.MaxTime = max(s.MaxTime, d)
	return res
}

func (s *Solver) readLine() string {
	l, e := s.out.ReadString('\n')
	if e != nil {
		s.broken = e
		return ""
	}
	return strings.TrimSpace(l)
}

func (s *Solver) model() *Model {
	m := newModel()
	n := len(s.c.vars)
	if n == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for i := 0; i < n; i++ {
		sb.WriteString(smtName(i))
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	depth := 0
	var txt strings.Builder
	for {
		l := s.readLine()
		if s.broken != nil {
			return m
		}
		txt.WriteString(l)
		txt.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			break
		}
	}
	f := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(txt.String()))
	for i := 0; i+1 < len(f); {
		if !strings.HasPrefix(f[i], "v") {
			s.broken = fmt.Errorf("bad model: %s", txt.String())
			fmt.Fprintln(os.Stderr, s.broken)
			return m
		}
		idx, _ := strconv.Atoi(f[i][1:])
		v := f[i+1]
		var u uint64
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			u, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_": // (_ bv5 8)
			u, _ = strconv.ParseUint(f[i+2][2:], 10, 64)
			m.set(idx, u)
			i += 4
			continue
		}
		m.set(idx, u)
		i += 2
	}
	return m
}
