package main

// Native replay: the harnesses are compiled by the real toolchain together
// with the code under test and run on the inputs of solver models.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

// freshNative is set for programs whose state lives in package variables.
var freshNative bool

type nativeJob struct {
	ID      int            `json:"id"`
	Harness string         `json:"h"`
	Inputs  map[string]any `json:"in"`
	Timeout int            `json:"t"`
	Repeat  int            `json:"r"`
}

type nativeRes struct {
	ID     int      `json:"id"`
	Status string   `json:"s"` // ok, pruned, fail, panic, timeout, crash
	Msg    string   `json:"m"`
	Obs    []string `json:"o"`
}

const nativeMain = `package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	h %q
	s %q
)

type job struct {
	ID int              ` + "`json:\"id\"`" + `
	H  string           ` + "`json:\"h\"`" + `
	In map[string]int64 ` + "`json:\"in\"`" + `
	T  int              ` + "`json:\"t\"`" + `
	R  int              ` + "`json:\"r\"`" + `
}
type res struct {
	ID int      ` + "`json:\"id\"`" + `
	S  string   ` + "`json:\"s\"`" + `
	M  string   ` + "`json:\"m\"`" + `
	O  []string ` + "`json:\"o\"`" + `
}

var table = map[string][2]func(){
%s}

func run(j job) (r res) {
	r.ID = j.ID
	defer func() {
		if p := recover(); p != nil {
			switch e := p.(type) {
			case s.Failure:
				r.S, r.M = "fail", e.Msg
			case s.Pruned:
				r.S, r.M = "pruned", e.Msg
			default:
				r.S, r.M = "panic", fmt.Sprint(p)
			}
		}
		r.O = s.Observations()
	}()
	f := table[j.H]
	s.Begin(map[string]int64{}, %v)
%s	if f[0] != nil {
		f[0]()
	}
	s.Begin(j.In, %v)
	f[1]()
	s.CheckFrozen()
	r.S = "ok"
	return
}

func main() {
	debug.SetMaxStack(64 << 20)
	out := bufio.NewWriter(os.Stdout)
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	emit := func(r res) {
		b, _ := json.Marshal(r)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	for sc.Scan() {
		var j job
		if e := json.Unmarshal(sc.Bytes(), &j); e != nil {
			panic(e)
		}
		n := j.R
		if n < 1 {
			n = 1
		}
		ch := make(chan res, 1)
		go func() {
			var r res
			for i := 0; i < n; i++ {
				r = run(j)
				if r.S != "ok" {
					break
				}
			}
			ch <- r
		}()
		deadline := time.After(time.Duration(j.T) * time.Millisecond)
		tick := time.NewTicker(50 * time.Millisecond)
	wait:
		for {
			select {
			case r := <-ch:
				emit(r)
				break wait
			case <-deadline:
				emit(res{ID: j.ID, S: "timeout"})
				os.Exit(3)
			case <-tick.C:
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 {
					emit(res{ID: j.ID, S: "timeout", M: "memory"})
					os.Exit(3)
				}
			}
		}
		tick.Stop()
	}
}
`

type nativeRunner struct {
	bin   string
	race  bool
	fresh bool // a process per job
}

func (c *check) buildNative(race bool) (*nativeRunner, error) {
	var tab strings.Builder
	for _, h := range c.harnesses {
		setup := "nil"
		if h.setup != "" {
			setup = "h." + h.setup
		}
		fmt.Fprintf(&tab, "\t%q: {%s, h.%s},\n", h.name, setup, h.name)
	}
	pre := ""
	if c.pkgSetup {
		pre = "\th.Setup()\n"
	}
	src := fmt.Sprintf(nativeMain, c.pkgPath, c.symPkg, tab.String(), thoroughTier, pre, thoroughTier)
	dir := c.tmp
	mainFile := filepath.Join(dir, "main.go")
	if e := os.WriteFile(mainFile, []byte(src), 0o644); e != nil {
		return nil, e
	}
	mainDir := filepath.Join(c.pkgDir, "zzmain")
	rep := map[string]string{}
	for k, v := range c.overlayFiles {
		rep[k] = v
	}
	rep[filepath.Join(mainDir, "main.go")] = mainFile
	if c.sched {
		c.schedSync(rep)
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	ovf := filepath.Join(dir, "overlay.json")
	if e := os.WriteFile(ovf, ov, 0o644); e != nil {
		return nil, e
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-buildvcs=false"}
	if race {
		bin += "-race"
		args = append(args, "-race")
	}
	cmd := exec.Command("go", append(args, "-overlay", ovf, "-o", bin, mainDir)...)
	cmd.Dir = c.repo
	cmd.Env = append(os.Environ(), "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local")
	out, e := cmd.CombinedOutput()
	if e != nil {
		return nil, fmt.Errorf("native build: %v\n%s", e, out)
	}
	return &nativeRunner{bin, race, freshNative}, nil
}

// syncNames are what zzsync has.
var syncNames = map[string]bool{"Once": true, "Pool": true, "WaitGroup": true, "Locker": true, "Cond": true, "OnceFunc": true,
	"OnceValue": true, "OnceValues": true, "NewCond": true, "Mutex": true, "RWMutex": true, "Map": true}

// atomicNames are what zzatomic has.
var atomicNames = map[string]bool{"Bool": true, "Pointer": true, "Int32": true, "LoadInt32": true, "StoreInt32": true, "SwapInt32": true, "AddInt32": true, "CompareAndSwapInt32": true, "Int64": true, "LoadInt64": true, "StoreInt64": true, "SwapInt64": true, "AddInt64": true, "CompareAndSwapInt64": true, "Uint32": true, "LoadUint32": true, "StoreUint32": true, "SwapUint32": true, "AddUint32": true, "CompareAndSwapUint32": true, "Uint64": true, "LoadUint64": true, "StoreUint64": true, "SwapUint64": true, "AddUint64": true, "CompareAndSwapUint64": true}

// schedSync makes replays of schedules use locks that let other threads run.
func (c *check) schedSync(rep map[string]string) {
	n := 0
	filepath.WalkDir(c.repo, func(p string, d fs.DirEntry, e error) error {
		if e != nil || d.IsDir() {
			if e == nil && p != c.repo && strings.HasPrefix(d.Name(), ".") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || rep[p] != "" {
			return nil
		}
		b, e := os.ReadFile(p)
		if e != nil {
			return nil
		}
		fset := token.NewFileSet()
		f, e := parser.ParseFile(fset, p, b, parser.SkipObjectResolution)
		if e != nil {
			return nil
		}
		type edit struct {
			from, to int
			text     string
		}
		var edits []edit
		for _, im := range f.Imports {
			var names map[string]bool
			name := ""
			switch im.Path.Value {
			case `"sync"`:
				name, names = "sync", syncNames
			case `"sync/atomic"`:
				name, names = "atomic", atomicNames
			default:
				continue
			}
			pkg := "zz" + name
			if im.Name != nil {
				name = im.Name.Name
			}
			known := name != "." && name != "_"
			ast.Inspect(f, func(x ast.Node) bool {
				if s, ok := x.(*ast.SelectorExpr); ok {
					if id, ok := s.X.(*ast.Ident); ok && id.Name == name && !names[s.Sel.Name] {
						known = false
					}
				}
				return true
			})
			if !known {
				continue
			}
			edits = append(edits, edit{fset.Position(im.Pos()).Offset, fset.Position(im.End()).Offset, name + " " + strconv.Quote(strings.TrimSuffix(c.symPkg, "zzsym")+pkg)})
		}
		if len(edits) == 0 {
			return nil
		}
		for i := len(edits) - 1; i >= 0; i-- {
			b = append(b[:edits[i].from:edits[i].from], append([]byte(edits[i].text), b[edits[i].to:]...)...)
		}
		fn := filepath.Join(c.tmp, fmt.Sprintf("sync%d.go", n))
		n++
		if os.WriteFile(fn, b, 0o644) == nil {
			rep[p] = fn
		}
		return nil
	})
}

// run executes the jobs, restarting the process after a hang or a crash.
func (r *nativeRunner) run(jobs []nativeJob) []nativeRes {
	res := make([]nativeRes, len(jobs))
	if r.fresh {
		var wg sync.WaitGroup
		one := &nativeRunner{bin: r.bin, race: r.race}
		slots := make(chan bool, 8)
		for i := range jobs {
			wg.Add(1)
			slots <- true
			go func() {
				defer wg.Done()
				res[i] = one.run(jobs[i : i+1])[0]
				res[i].ID = i
				<-slots
			}()
		}
		wg.Wait()
		return res
	}
	next := 0
	for next < len(jobs) {
		var in strings.Builder
		for i := next; i < len(jobs); i++ {
			jobs[i].ID = i
			b, _ := json.Marshal(jobs[i])
			in.Write(b)
			in.WriteByte('\n')
		}
		cmd := exec.Command(r.bin)
		cmd.Stdin = strings.NewReader(in.String())
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GOMAXPROCS=2")
		if r.race {
			cmd.Env = append(cmd.Env, "ZZRACE=1", "GORACE=halt_on_error=1 exitcode=66")
		}
		outP, e := cmd.StdoutPipe()
		if e != nil {
			return res
		}
		if e = cmd.Start(); e != nil {
			return res
		}
		sc := bufio.NewScanner(outP)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		timer := time.AfterFunc(300*time.Second, func() { cmd.Process.Kill() })
		last := next - 1
		for sc.Scan() {
			var nr nativeRes
			if json.Unmarshal(sc.Bytes(), &nr) == nil {
				res[nr.ID] = nr
				last = nr.ID
			}
		}
		cmd.Wait()
		timer.Stop()
		if last == len(jobs)-1 {
			break
		}
		if last >= next && res[last].Status == "timeout" {
			next = last + 1
			continue
		}
		// the process died on the job after the last answer
		res[last+1] = nativeRes{ID: last + 1, Status: "crash", Msg: "process died"}
		next = last + 2
	}
	return res
}
