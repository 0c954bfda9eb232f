// Command gosym decides properties of a Go code base by symbolic execution of
// its SSA form with an SMT solver.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	gopath "path"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var thoroughTier bool
var debugEngine bool

type harness struct {
	name      string
	setup     string
	stepLimit int64
	mapOrder  bool
	mapDevs   int // map traversals per path in an order of choice
	budget    float64
	doc       string
	bounds    string
	fn        *ssa.Function
	setupFn   *ssa.Function
	x         *explorer
	wall      time.Duration
	validated int
	mismatch  []string
	prunedNat int
}

type check struct {
	id           string
	repo         string
	verif        string
	modPath      string
	symPkg       string
	pkgPath      string
	pkgDir       string
	pkgSetup     bool
	known        knownList
	overlay      map[string][]byte
	overlayFiles map[string]string
	sched        bool // replays use zzsync
	harnesses    []*harness
	tmp          string
	prog         *ssa.Program
	pkg          *ssa.Package
	machines     []*Machine
	race         *nativeRunner
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(2)
}

var dirRe = regexp.MustCompile(`(?m)^//zz:dir (\S+)`)

// copyRe: a program of the repository is copied as an importable package with
// some of its imports replaced by stand-ins: dir, new dir, name, old=new ...
var copyRe = regexp.MustCompile(`(?m)^//zz:copymain (\S+) (\S+) (\S+)((?: \S+=\S+)*)`)
var quoteRe = regexp.MustCompile(`(?m)^//zz:exactquote`)

// freshRe: the code under test keeps state in package variables, so every
// native run needs a process of its own.
var freshRe = regexp.MustCompile(`(?m)^//zz:fresh`)

// schedRe: harnesses run threads in any order.
var schedRe = regexp.MustCompile(`(?m)^//zz:sched`)
var exactQuote bool

// exactInts: numbers, runes and flags in messages take every value.
var intsRe = regexp.MustCompile(`(?m)^//zz:exactints`)
var exactInts bool

func (c *check) copyMain(src, dst, name string, repl map[string]string) {
	sd, dd := filepath.Join(c.repo, src), filepath.Join(c.repo, dst)
	td := filepath.Join(c.tmp, "copy", name)
	if e := os.MkdirAll(td, 0o755); e != nil {
		fatal("%v", e)
	}
	put := func(fn string, b []byte) {
		p := filepath.Join(dd, fn)
		t := filepath.Join(td, fn)
		if e := os.WriteFile(t, b, 0o644); e != nil {
			fatal("%v", e)
		}
		c.overlay[p] = b
		c.overlayFiles[p] = t
	}
	files, _ := filepath.Glob(filepath.Join(sd, "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, e := os.ReadFile(f)
		if e != nil {
			fatal("%v", e)
		}
		fset := token.NewFileSet()
		af, e := parser.ParseFile(fset, f, b, parser.ImportsOnly)
		if e != nil {
			fatal("%v", e)
		}
		type edit struct {
			from, to int
			text     string
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		eds := []edit{{off(af.Name.Pos()), off(af.Name.End()), name}}
		for _, im := range af.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if n, ok := repl[p]; ok {
				alias := ""
				if im.Name == nil {
					alias = gopath.Base(p) + " "
				}
				eds = append(eds, edit{off(im.Path.Pos()), off(im.Path.End()), alias + strconv.Quote(c.modPath+"/"+n)})
			}
		}
		for i := len(eds) - 1; i >= 0; i-- {
			b = append(b[:eds[i].from:eds[i].from], append([]byte(eds[i].text), b[eds[i].to:]...)...)
		}
		put(filepath.Base(f), b)
	}
	put("zz_main.go", []byte("package "+name+"\n\n// Main runs the program.\nfunc Main() { main() }\n"))
}

func (c *check) addOverlayDir(src, dst string) {
	ents, e := os.ReadDir(src)
	if e != nil {
		fatal("%v", e)
	}
	for _, en := range ents {
		if !strings.HasSuffix(en.Name(), ".go") {
			continue
		}
		b, e := os.ReadFile(filepath.Join(src, en.Name()))
		if e != nil {
			fatal("%v", e)
		}
		p := filepath.Join(dst, en.Name())
		c.overlay[p] = b
		c.overlayFiles[p] = filepath.Join(src, en.Name())
	}
}

func (c *check) load() {
	c.overlay = map[string][]byte{}
	c.overlayFiles = map[string]string{}
	gm, e := os.ReadFile(filepath.Join(c.repo, "go.mod"))
	if e != nil {
		fatal("%v", e)
	}
	m := regexp.MustCompile(`(?m)^module\s+(\S+)`).FindSubmatch(gm)
	if m == nil {
		fatal("no module line in go.mod")
	}
	c.modPath = string(m[1])
	hd := filepath.Join(c.verif, "harness")
	base := "internal/zzverif"
	libs, _ := filepath.Glob(filepath.Join(hd, "zz*"))
	for _, l := range libs {
		c.addOverlayDir(l, filepath.Join(c.repo, base, filepath.Base(l)))
	}
	c.symPkg = c.modPath + "/" + base + "/zzsym"
	src := filepath.Join(hd, strings.ToLower(c.id))
	dir := base + "/" + strings.ToLower(c.id)
	ents, e := os.ReadDir(src)
	if e != nil {
		fatal("%v", e)
	}
	for _, en := range ents {
		b, _ := os.ReadFile(filepath.Join(src, en.Name()))
		if m := dirRe.FindSubmatch(b); m != nil {
			dir = string(m[1])
		}
		for _, m := range copyRe.FindAllSubmatch(b, -1) {
			repl := map[string]string{}
			for _, r := range strings.Fields(string(m[4])) {
				k, v, _ := strings.Cut(r, "=")
				repl[k] = v
			}
			freshNative = true
			c.copyMain(string(m[1]), string(m[2]), string(m[3]), repl)
		}
		c.sched = c.sched || schedRe.Match(b)
		exactQuote = exactQuote || quoteRe.Match(b)
		exactInts = exactInts || intsRe.Match(b)
		freshNative = freshNative || freshRe.Match(b)
	}
	c.pkgDir = filepath.Join(c.repo, dir)
	c.pkgPath = c.modPath + "/" + dir
	c.addOverlayDir(src, c.pkgDir)

	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: c.repo, Overlay: c.overlay,
		Env: append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	pkgs, e := packages.Load(cfg, c.pkgPath)
	if e != nil {
		fatal("load: %v", e)
	}
	bad := false
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			bad = true
		}
	})
	if bad {
		fatal("the harness or the code under test does not compile")
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	c.prog = prog
	c.pkg = spkgs[0]
	c.pkgSetup = c.pkg.Func("Setup") != nil
	for _, f := range pkgs[0].Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
				continue
			}
			h := &harness{name: fd.Name.Name, stepLimit: 20_000_000}
			h.fn = c.pkg.Func(h.name)
			sn := "Setup_" + h.name[2:]
			if s := c.pkg.Func(sn); s != nil {
				h.setup, h.setupFn = sn, s
			}
			skip := false
			if fd.Doc != nil {
				h.doc = strings.TrimSpace(fd.Doc.Text())
				for _, l := range fd.Doc.List {
					t := strings.Fields(strings.TrimPrefix(l.Text, "//"))
					if len(t) == 0 {
						continue
					}
					switch t[0] {
					case "zz:steps":
						h.stepLimit, _ = strconv.ParseInt(t[1], 10, 64)
					case "zz:maporder":
						h.mapOrder = true
						h.mapDevs = 1 << 30
						if len(t) > 1 {
							h.mapDevs, _ = strconv.Atoi(t[1])
						}
					case "zz:bounds":
						h.bounds = strings.Join(t[1:], " ")
					case "zz:thorough":
						skip = skip || !thoroughTier
					case "zz:quick":
						skip = skip || thoroughTier
					}
				}
			}
			if !skip {
				c.harnesses = append(c.harnesses, h)
			}
		}
	}
	sort.SliceStable(c.harnesses, func(i, j int) bool { return c.harnesses[i].name < c.harnesses[j].name })
	if len(c.harnesses) == 0 {
		fatal("no harness in %s", src)
	}
}

func (c *check) newWorker() *Machine {
	m := newMachine(c.prog, c.modPath, c.symPkg)
	s, e := newSolver(m.tc)
	if e != nil {
		fatal("solver: %v", e)
	}
	m.sol = s
	m.runConcrete(func() {
		m.initPkg(c.pkg)
		if c.pkgSetup {
			m.call(m.getFunc(c.pkg.Func("Setup")), nil, nil, nil)
		}
	})
	return m
}

type setupFailure struct{ msg string }

// runConcrete runs set-up code outside any path.
func (m *Machine) runConcrete(f func()) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case targetPanic:
				panic(setupFailure{"panic in set-up: " + m.panicText(e.v)})
			case unsupported:
				panic(setupFailure{"set-up: " + e.msg})
			case pathEnd:
				panic(setupFailure{"set-up: " + e.why})
			}
			panic(r)
		}
	}()
	m.trailOn = false
	m.steps, m.limit, m.depth = 0, 200_000_000, 0
	f()
}

func main() {
	debug.SetGCPercent(400)
	id := flag.String("id", "", "property id")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	workers := flag.Int("workers", runtime.NumCPU(), "workers")
	budget := flag.Float64("budget", 0, "seconds of exploration")
	only := flag.String("only", "", "regexp of harness names")
	replay := flag.String("replay", "", "replay file")
	verbose := flag.Bool("v", false, "verbose")
	flag.BoolVar(&debugEngine, "debug", false, "stack traces of engine errors")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	nsamp := flag.Int("samples", 0, "native validation runs per harness")
	flag.StringVar(&solverBin, "solver", "z3-new", "solver binary")
	flag.Parse()
	if _, e := exec.LookPath(solverBin); e != nil {
		solverBin = "z3"
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	thoroughTier = *tier == "thorough"
	if *budget == 0 {
		*budget = 420
		if thoroughTier {
			*budget = 780
		}
	}
	if *nsamp == 0 {
		*nsamp = 60
		if thoroughTier {
			*nsamp = 300
		}
	}
	t0 := time.Now()
	c := &check{id: *id, repo: *repo, verif: *verif}
	tmp, e := os.MkdirTemp("", "gosym")
	if e != nil {
		fatal("%v", e)
	}
	c.tmp = tmp
	code := 2
	defer func() {
		os.RemoveAll(tmp)
		os.Exit(code)
	}()
	if *replay == "" {
		old, _ := filepath.Glob(filepath.Join(*verif, "evidence", "replay", *id+"-*.json"))
		for _, f := range old {
			os.Remove(f)
		}
	}
	c.load()
	if *only != "" {
		re := regexp.MustCompile(*only)
		var hs []*harness
		for _, h := range c.harnesses {
			if re.MatchString(h.name) {
				hs = append(hs, h)
			}
		}
		c.harnesses = hs
	}
	tLoad := time.Since(t0)

	type nb struct {
		r *nativeRunner
		e error
	}
	nch := make(chan nb, 1)
	go func() {
		r, e := c.buildNative(false)
		nch <- nb{r, e}
	}()
	if *replay != "" {
		n := <-nch
		if n.e != nil {
			fmt.Fprintln(os.Stderr, n.e)
			return
		}
		code = c.replayFile(n.r, *replay)
		return
	}

	// workers
	var setupErr string
	var mu sync.Mutex
	var wg sync.WaitGroup
	c.machines = make([]*Machine, *workers)
	for i := range c.machines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if sf, ok := r.(setupFailure); ok {
						setupErr = sf.msg
					} else {
						setupErr = fmt.Sprint(r)
						if debugEngine {
							setupErr += "\n" + string(debug.Stack())
						}
					}
					mu.Unlock()
				}
			}()
			c.machines[i] = c.newWorker()
		}()
	}
	wg.Wait()
	defer func() {
		for _, m := range c.machines {
			if m != nil {
				m.sol.Close()
			}
		}
	}()
	n := <-nch
	if n.e != nil {
		fmt.Fprintln(os.Stderr, n.e)
		return
	}
	if setupErr != "" {
		// may be a genuine effect of a change: see whether the real code fails in set-up too
		fmt.Fprintln(os.Stderr, setupErr)
		res := n.r.run([]nativeJob{{Harness: c.harnesses[0].name, Inputs: map[string]any{}, Timeout: 20000}})
		if s := res[0].Status; s == "panic" || s == "fail" || s == "timeout" || s == "crash" {
			v := &violation{Harness: c.harnesses[0].name, Kind: "setup", Msg: setupErr, Inputs: map[string]any{}, Conf: s + ": " + res[0].Msg}
			c.printViolation(v, *tier)
			c.writeEvidence(*tier, tLoad, time.Since(t0), nil, 1)
			code = 1
		}
		return
	}

	c.known = c.loadKnown()
	deadline := t0.Add(time.Duration(*budget * float64(time.Second)))
	var confirmed []*violation
	unconf := 0
	for hi, h := range c.harnesses {
		left := time.Until(deadline)
		// every remaining harness gets a fair share; unused time flows on
		share := left / time.Duration(len(c.harnesses)-hi)
		if share < 2*time.Second {
			share = 2 * time.Second
		}
		if hi < len(c.harnesses)-1 && share < left/2 {
			share = left / 2
		}
		c.explore(h, share, *nsamp)
		c.validate(n.r, h)
		vs, uc := c.confirm(n.r, h)
		unconf += uc
		confirmed = append(confirmed, vs...)
		fresh := 0
		for _, v := range confirmed {
			if c.known.match(v) == "" {
				fresh++
			}
		}
		if *verbose {
			st := &h.x.st
			fmt.Printf("%-28s %6.1fs paths=%d ok=%d pruned=%d unsup=%d forks=%d branches=%d asserts=%d/%d steps=%dk viol=%d timeout=%v cert=%d/%d val=%d mism=%d\n",
				h.name, h.wall.Seconds(), st.paths, st.completed, st.pruned, st.unsup, st.forks, st.branches, st.assertsSym, st.asserts, st.steps/1000,
				len(h.x.viol), h.x.timedOut.Load(), st.certified, st.certFail, h.validated, len(h.mismatch))
			for k, v := range h.x.unsup {
				fmt.Printf("    unsupported x%d: %s\n", v, k)
			}
			for i, s := range h.mismatch {
				if i < 3 {
					fmt.Printf("    mismatch: %s\n", s)
				}
			}
			for k, v := range h.x.reach {
				fmt.Printf("    reach %s x%d\n", k, v)
			}
			for i, v := range h.x.viol {
				if i < 6 {
					fmt.Printf("    viol[%s] %s: %s [%s]\n", v.Kind, v.Msg, inputsText(v.Inputs), v.Conf)
				}
			}
		}
		if fresh > 0 && !*verbose {
			break
		}
	}
	known := c.known
	nviol := 0
	printedKnown := map[string]bool{}
	for _, v := range confirmed {
		if k := known.match(v); k != "" {
			if !printedKnown[k] {
				printedKnown[k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.id, k)
			}
			continue
		}
		nviol++
		if nviol <= 3 {
			c.printViolation(v, *tier)
		}
	}
	c.writeEvidence(*tier, tLoad, time.Since(t0), nil, nviol)
	code = 0
	if nviol > 0 {
		code = 1
		return
	}
	for _, m := range c.machines {
		if m.sol.broken != nil {
			fmt.Printf("ERROR solver: %v\n", m.sol.broken)
			code = 2
			break
		}
	}
	for _, h := range c.harnesses {
		if h.x == nil {
			continue
		}
		if len(h.mismatch) > 0 {
			fmt.Printf("WARNING %s: %d of %d replayed paths disagree with the native run: %s\n", h.name, len(h.mismatch), h.validated+len(h.mismatch), h.mismatch[0])
		}
		if h.x.timedOut.Load() {
			fmt.Printf("NOTE %s: time budget reached, exploration incomplete (reduced bound)\n", h.name)
		}
		for _, k := range sortedKeys(h.x.unsup) {
			fmt.Printf("NOTE %s: %d paths not encodable: %s\n", h.name, h.x.unsup[k], strings.SplitN(k, "\n", 2)[0])
		}
		if h.x.st.certFail > 0 {
			fmt.Printf("ERROR %s: the solver refuted %d path certificates, the exploration is not trusted\n", h.name, h.x.st.certFail)
			code = 2
		}
		if h.x.st.completed == 0 && len(h.x.knownViol) == 0 {
			fmt.Printf("ERROR %s: no completed path, nothing was decided\n", h.name)
			code = 2
		}
	}
	if unconf > 0 {
		fmt.Printf("NOTE %d candidate counterexamples did not reproduce natively and are not reported\n", unconf)
	}
	var paths int64
	for _, h := range c.harnesses {
		if h.x != nil {
			paths += h.x.st.completed
		}
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s harnesses=%d paths=%d wall=%.1fs\n", c.id, *tier, len(c.harnesses), paths, time.Since(t0).Seconds())
	}
}

func (c *check) explore(h *harness, share time.Duration, nsamp int) {
	x := newExplorer(h)
	x.known = c.known
	x.sampleN = nsamp
	x.t0 = time.Now()
	x.deadline = x.t0.Add(share)
	h.x = x
	t0 := time.Now()
	var wg sync.WaitGroup
	for _, m := range c.machines {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if h.setupFn != nil {
				ok := true
				func() {
					defer func() {
						if r := recover(); r != nil {
							ok = false
							if sf, is := r.(setupFailure); is {
								x.mu.Lock()
								if len(x.viol) == 0 {
									x.viol = append(x.viol, &violation{Harness: h.name, Kind: "setup", Msg: sf.msg, Inputs: map[string]any{}})
								}
								x.mu.Unlock()
								x.halt()
								return
							}
							panic(r)
						}
					}()
					m.runConcrete(func() { m.call(m.getFunc(h.setupFn), nil, nil, nil) })
				}()
				if !ok {
					return
				}
			}
			entry := m.getFunc(h.fn)
			m.certTime = 0
			for {
				d, ok := x.pop()
				if !ok {
					return
				}
				m.runPath(x, d, entry)
				x.done()
			}
		}()
	}
	wg.Wait()
	h.wall = time.Since(t0)
}

// validate replays sampled paths natively and compares observations.
func (c *check) validate(r *nativeRunner, h *harness) {
	if len(h.x.samples) == 0 {
		return
	}
	jobs := make([]nativeJob, len(h.x.samples))
	for i, s := range h.x.samples {
		jobs[i] = nativeJob{Harness: h.name, Inputs: s.inputs, Timeout: 20000}
	}
	for i, nr := range r.run(jobs) {
		s := h.x.samples[i]
		if nr.Status == "ok" && sameObs(s.obs, nr.Obs) {
			h.validated++
			continue
		}
		if h.mapOrder && nr.Status == "ok" {
			h.validated++ // observations may depend on the order chosen
			continue
		}
		h.mismatch = append(h.mismatch, fmt.Sprintf("%s -> native %s %s %v, symbolic %v", inputsText(s.inputs), nr.Status, nr.Msg, nr.Obs, s.obs))
		// a native failure on a sampled input is a violation the encoding missed: report it
		if nr.Status == "fail" || nr.Status == "panic" || nr.Status == "timeout" || nr.Status == "crash" {
			h.x.viol = append(h.x.viol, &violation{Harness: h.name, Kind: nr.Status, Msg: nr.Msg, Inputs: s.inputs})
		}
	}
}

func sameObs(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] && !strings.Contains(a[i], "?*") && !strings.Contains(a[i], opaque) {
			return false
		}
	}
	return true
}

// confirm replays candidate counterexamples natively.
func (c *check) confirm(r *nativeRunner, h *harness) (res []*violation, unconf int) {
	all := append(append([]*violation(nil), h.x.viol...), h.x.knownViol...)
	if len(all) == 0 {
		return
	}
	jobs := make([]nativeJob, len(all))
	for i, v := range all {
		jobs[i] = nativeJob{Harness: h.name, Inputs: v.Inputs, Timeout: 10000}
		if h.mapOrder {
			jobs[i].Repeat = 300
		}
	}
	for i, nr := range r.run(jobs) {
		v := all[i]
		switch nr.Status {
		case "fail", "panic", "timeout", "crash":
			v.Conf = nr.Status + ": " + nr.Msg
			res = append(res, v)
		default:
			if v.Kind == "shared-write" && c.raceRun(v) {
				v.Conf = "data race"
				res = append(res, v)
				continue
			}
			v.Conf = "not reproduced (" + nr.Status + ")"
			unconf++
		}
	}
	return
}

// raceRun replays a write to shared memory with the threads of the harness
// really running side by side under the race detector of the Go toolchain.
func (c *check) raceRun(v *violation) bool {
	if c.race == nil {
		r, e := c.buildNative(true)
		if e != nil {
			fmt.Fprintln(os.Stderr, e)
			return false
		}
		c.race = r
	}
	j := nativeJob{Harness: v.Harness, Inputs: v.Inputs, Timeout: 60000}
	nr := c.race.run([]nativeJob{j})[0]
	return nr.Status == "crash"
}

func (c *check) printViolation(v *violation, tier string) {
	dir := filepath.Join(c.verif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	var p string
	for i := 1; ; i++ {
		p = filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.id, i))
		if _, e := os.Stat(p); e != nil {
			break
		}
	}
	b, _ := json.MarshalIndent(map[string]any{"property": c.id, "tier": tier, "violation": v}, "", " ")
	os.WriteFile(p, b, 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, p)
	fmt.Printf("  %s: %s: %s\n  inputs: %s\n  native replay: %s\n", v.Harness, v.Kind, v.Msg, inputsText(v.Inputs), v.Conf)
}

func (c *check) replayFile(r *nativeRunner, f string) int {
	b, e := os.ReadFile(f)
	if e != nil {
		fmt.Fprintln(os.Stderr, e)
		return 2
	}
	var d struct{ Violation violation }
	if e = json.Unmarshal(b, &d); e != nil {
		fmt.Fprintln(os.Stderr, e)
		return 2
	}
	j := nativeJob{Harness: d.Violation.Harness, Inputs: d.Violation.Inputs, Timeout: 10000}
	if d.Violation.MapOrder {
		j.Repeat = 300
	}
	nr := r.run([]nativeJob{j})[0]
	if nr.Status == "ok" && d.Violation.Kind == "shared-write" && c.raceRun(&d.Violation) {
		nr.Status = "race"
	}
	fmt.Printf("%s %s %s %v\n", d.Violation.Harness, nr.Status, nr.Msg, nr.Obs)
	if nr.Status == "ok" || nr.Status == "pruned" {
		return 0
	}
	return 1
}

type knownList []struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Kind     string         `json:"kind"` // instead of a message
	Msg      string         `json:"msg"`
	Inputs   map[string]any `json:"inputs"`
	What     string         `json:"what"`
	Status   string         `json:"status"`
}

func (c *check) loadKnown() knownList {
	var k knownList
	b, e := os.ReadFile(filepath.Join(c.verif, "KNOWN_FINDINGS.json"))
	if e != nil {
		return nil
	}
	if e := json.Unmarshal(b, &k); e != nil {
		fmt.Fprintln(os.Stderr, "KNOWN_FINDINGS.json:", e)
	}
	var r knownList
	for _, x := range k {
		if x.Property == c.id && x.Status == "known" {
			r = append(r, x)
		}
	}
	return r
}

// match finds a listed finding with the same harness, message and the given inputs.
func (k knownList) match(v *violation) string {
	for _, x := range k {
		if x.Harness != v.Harness || x.Kind == "" && x.Msg != v.Msg || x.Kind != "" && x.Kind != v.Kind {
			continue
		}
		ok := true
		for n, want := range x.Inputs {
			got, has := v.Inputs[n]
			if !has || fmt.Sprint(got) != fmt.Sprint(want) {
				ok = false
			}
		}
		if ok {
			return x.What
		}
	}
	return ""
}

func (c *check) writeEvidence(tier string, tLoad, wall time.Duration, extra map[string]any, nviol int) {
	var q, sat, unsat, unk int64
	var st, mx time.Duration
	fns := map[string]int{}
	blocks := map[string]bool{} // basic blocks of the repository: executed
	stdFns := map[string]bool{}
	intr := map[string]bool{}
	instrs := 0
	for _, m := range c.machines {
		if m == nil {
			continue
		}
		q += m.sol.Queries
		sat += m.sol.Sat
		unsat += m.sol.Unsat
		unk += m.sol.Unknown
		st += m.sol.Time
		mx = max(mx, m.sol.MaxTime)
		for _, f := range m.funcs {
			if f.calls == 0 {
				continue
			}
			if f.repo && !strings.Contains(f.name, "/zzverif") && !strings.Contains(f.name, "/zzsym") {
				for i, b := range f.blocks {
					k := fmt.Sprintf("%s\t%d\t%s", f.name, i, strings.TrimPrefix(f.fn.Prog.Fset.Position(b.pos).String(), c.repo+"/"))
					blocks[k] = blocks[k] || b.hit
				}
				if _, ok := fns[f.name]; !ok {
					fns[f.name] = f.ninstr
					instrs += f.ninstr
				}
			} else if !f.repo {
				stdFns[f.name] = true
			}
		}
		for k := range m.intrUse {
			if !strings.Contains(k, "zzsym") {
				intr[k] = true
			}
		}
	}
	var states, trans, val, paths, compl, pruned, unsup, aTot, aSym, aUnk int64
	var hs []any
	var samples []any
	complete := true
	var notes []string
	for _, h := range c.harnesses {
		if h.x == nil {
			continue
		}
		s := &h.x.st
		states += s.paths + s.forks
		trans += s.branches
		val += int64(h.validated)
		paths += s.paths
		compl += s.completed
		pruned += s.pruned
		unsup += s.unsup
		aTot += s.asserts
		aSym += s.assertsSym
		aUnk += s.assertUnk
		hc := !h.x.timedOut.Load() && s.unsup == 0 && s.assertUnk == 0
		complete = complete && hc
		hs = append(hs, map[string]any{"harness": h.name, "what": h.doc, "bounds": h.bounds, "paths": s.paths, "completed": s.completed,
			"pruned_by_assumptions": s.pruned, "not_encodable": s.unsup, "forks": s.forks, "symbolic_branches": s.branches,
			"assertions": s.asserts, "assertions_sent_to_solver": s.assertsSym, "path_certificates_proved_by_solver": s.certified, "path_certificates_refuted": s.certFail, "instructions": s.steps, "wall_s": h.wall.Seconds(),
			"explored_completely_within_bounds": hc, "reached": h.x.reach, "native_replays_agreeing": h.validated, "native_replays_disagreeing": len(h.mismatch)})
		if h.x.timedOut.Load() {
			notes = append(notes, h.name+": time budget reached; the remaining paths are outside the claim of this run")
		}
		for k, v := range h.x.unsup {
			notes = append(notes, fmt.Sprintf("%s: %d paths left the encodable fragment (%s)", h.name, v, strings.SplitN(k, "\n", 2)[0]))
		}
		for i, s := range h.x.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": s.harness, "inputs": s.inputs, "observed": s.obs})
			}
		}
	}
	hitBlocks := 0
	for _, h := range blocks {
		if h {
			hitBlocks++
		}
	}
	if f := os.Getenv("GOSYM_COVER"); f != "" {
		b, _ := json.Marshal(blocks)
		os.WriteFile(f, b, 0o644)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples, "exhaustive": complete,
		"explanation": "Symbolic execution of the SSA form of /repo built in this run: states = nodes of the symbolic execution tree (paths + forks), transitions = symbolic branch decisions, each decided for all values within the bounds. Feasibility and assertions are decided by the SMT solver; branches over a single byte-wide input are decided exactly by its value set.",
		"harnesses":   hs, "paths": paths, "paths_completed": compl, "assertions_checked": aTot,
		"solver":            map[string]any{"binary": solverBin, "queries": q, "sat": sat, "unsat": unsat, "unknown": unk, "time_s": st.Seconds(), "max_query_s": mx.Seconds()},
		"functions_encoded": fns, "functions_encoded_count": len(fns), "basic_blocks_of_functions": len(blocks), "basic_blocks_executed": hitBlocks, "instructions_encoded": instrs,
		"library_functions_encoded_count": len(stdFns), "modelled_library_functions": sortedKeys(intr), "load_s": tLoad.Seconds(), "notes": notes,
	}
	ev := map[string]any{"property": c.id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall.Seconds(), "violations": nviol,
		"assumptions": []string{"x/tools go/ssa translates the source faithfully; sampled paths are re-run natively and compared",
			"modelled library functions behave as documented (regexp over symbolic text is simulated from its compiled program)",
			"claims hold within the bounds given per harness only"}}
	dir := filepath.Join(c.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if e := os.WriteFile(filepath.Join(dir, c.id+".json"), b, 0o644); e != nil {
		fmt.Fprintln(os.Stderr, e)
	}
}
