package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	machineCode bool // kernels run from their machine code
	repo        string
	overlay     map[string][]byte // path -> content
	prog        *ssa.Program
	pkgs        []*packages.Package
	infos       map[*ssa.Function]*FnInfo
	infoMu      sync.RWMutex
	intrCache   map[*ssa.Function]intrinsic
	implMu      sync.Mutex
	impl        map[implKey]bool
	methMu      sync.Mutex
	meths       map[methKey]*ssa.Function

	errPtr, wrapPtr types.Type
	errIface        *types.Interface

	seed          int64
	thorough      bool
	branchTimeout int
	proveTimeout  int
	deadline      time.Time
	cut           int64 // end of the exploration after a confirmed violation, ns
	onViol        func(*Harness, Violation)

	harnesses []*Harness
	mu        sync.Mutex
	cond      *sync.Cond
	rr        int
	active    int
	pending   map[*Harness]int

	provMu  sync.Mutex
	provers []*Solver

	funcMu sync.Mutex
	funcs  map[*ssa.Function]bool
}

type implKey struct {
	t  types.Type
	it *types.Interface
}
type methKey struct {
	t types.Type
	n string
}

type work struct {
	h      *Harness
	prefix []int32
}

type HStats struct {
	Paths, Stopped, Aborted   int
	Steps                     int64
	Obligs, Normal, Solver    int
	Undecided, Cross, CrossOK int
	Maybe                     int
	Merged                    int // branches executed without forking
	Notes                     map[string]int
	Aborts                    map[string]int
	Stops                     map[string]int
	Reached                   map[string]int
	MaxPC                     int
}

func (s *HStats) note(m string) {
	if s.Notes == nil {
		s.Notes = map[string]int{}
	}
	if len(m) > 300 {
		m = m[:300] + "…"
	}
	if len(s.Notes) < 40 {
		s.Notes[m]++
	}
}

type Harness struct {
	Name     string
	fn       *ssa.Function
	FP       bool
	Doc      string
	Steps    int64
	Conc     bool
	Deep     bool // thorough tier only
	MaxPaths int
	NoCrash  bool
	BranchMS int
	bmu      sync.Mutex
	bnds     map[token.Pos][2]int64 // values of the choices, by position
	maxIn    int
	Linear   bool // branch conditions: linear abstraction only

	mu      sync.Mutex
	St      HStats
	viols   map[string][]Violation
	undef   map[string]int // candidates per place
	undefT  time.Duration  // solver time spent on them
	wit     []witness
	crossN  int64
	queue   []work
	spent   time.Duration
	run     int
	started time.Time
	ended   time.Time
}

type witness struct {
	Inputs []Input
	Obs    []float64
}

func (h *Harness) count(f func(*HStats)) {
	h.mu.Lock()
	f(&h.St)
	h.mu.Unlock()
}
func (h *Harness) maxSteps() int64 {
	if h.Steps > 0 {
		return h.Steps
	}
	return 3000000
}
func (h *Harness) crossCheck() bool           { return atomic.LoadInt64(&h.crossN) < crossBudget }
func (h *Harness) spendCross(d time.Duration) { atomic.AddInt64(&h.crossN, int64(d)) }

// crossBudget bounds the solver time per harness spent on obligations which the
// normal form has already decided.
var crossBudget = int64(2 * time.Second)

func shortFile(f string) string {
	if i := strings.Index(f, "/spago/"); i >= 0 {
		f = f[i+7:]
	}
	return strings.TrimPrefix(f, "/repo/")
}

// NewEngine loads the packages (patterns relative to the repository) with the overlay.
func NewEngine(repo string, overlay map[string][]byte, patterns ...string) (*Engine, error) {
	e := &Engine{repo: repo, overlay: overlay, infos: map[*ssa.Function]*FnInfo{}, intrCache: map[*ssa.Function]intrinsic{},
		impl: map[implKey]bool{}, meths: map[methKey]*ssa.Function{}, seed: 1, branchTimeout: 2000, proveTimeout: 20000,
		pending: map[*Harness]int{}, funcs: map[*ssa.Function]bool{}}
	e.cond = sync.NewCond(&e.mu)
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Fset: token.NewFileSet()}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if strings.HasPrefix(p.PkgPath, "github.com/nlpodyssey") {
				errs = append(errs, er.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the packages do not compile:\n%s", strings.Join(errs, "\n"))
	}
	e.pkgs = pk
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e.prog = prog
	e.errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
	if t := e.pkgType("errors", "errorString"); t != nil {
		e.errPtr = types.NewPointer(t)
	} else {
		return nil, fmt.Errorf("package errors is not loaded")
	}
	if t := e.pkgType("fmt", "wrapError"); t != nil {
		e.wrapPtr = types.NewPointer(t)
	} else {
		e.wrapPtr = e.errPtr
	}
	return e, nil
}

func (e *Engine) pkgType(path, name string) types.Type {
	p := e.prog.ImportedPackage(path)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	if it == nil {
		return false
	}
	if _, ok := t.(hostType); ok {
		return it.NumMethods() == 0 || it.NumMethods() > 10 // reflect.Type
	}
	e.implMu.Lock()
	defer e.implMu.Unlock()
	k := implKey{t, it}
	if r, ok := e.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	e.impl[k] = r
	return r
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	if f, ok := e.meths[k]; ok {
		return f
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.meths[k] = f
	return f
}

func (e *Engine) findMethod(t types.Type, name string) *ssa.Function {
	if _, ok := t.(hostType); ok {
		return nil
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return e.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (e *Engine) newSolver() *Solver {
	s, err := NewSolver(solverBin)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(2)
	}
	return s
}

func (e *Engine) newProver() *Solver {
	e.provMu.Lock()
	if n := len(e.provers); n > 0 {
		s := e.provers[n-1]
		e.provers = e.provers[:n-1]
		e.provMu.Unlock()
		return s
	}
	e.provMu.Unlock()
	return e.newSolver()
}

func (e *Engine) putProver(s *Solver) {
	if s.dead {
		s.Close()
		return
	}
	e.provMu.Lock()
	e.provers = append(e.provers, s)
	e.provMu.Unlock()
}

func (e *Engine) expired() bool {
	if n := atomic.LoadInt64(&e.cut); n != 0 && time.Now().UnixNano() > n {
		return true
	}
	return !e.deadline.IsZero() && time.Now().After(e.deadline)
}

func (e *Engine) enqueue(h *Harness, prefix []int32) {
	e.mu.Lock()
	h.queue = append(h.queue, work{h, prefix})
	e.pending[h]++
	e.mu.Unlock()
	e.cond.Signal()
}

// discover finds the harness functions of the loaded root packages.
func (e *Engine) discover() {
	for _, p := range e.pkgs {
		sp := e.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "H_") {
					continue
				}
				h := &Harness{Name: p.Types.Name() + "." + fd.Name.Name, fn: sp.Func(fd.Name.Name), viols: map[string][]Violation{}}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if strings.HasPrefix(t, "vrt:") {
							fs := strings.Fields(t[4:])
							for _, o := range fs {
								k, v, _ := strings.Cut(o, "=")
								switch k {
								case "fp":
									h.FP = true
								case "steps":
									fmt.Sscan(v, &h.Steps)
								case "paths":
									fmt.Sscan(v, &h.MaxPaths)
								case "branch":
									if v == "lin" {
										h.Linear = true
									} else {
										fmt.Sscan(v, &h.BranchMS)
									}
								case "conc":
									h.Conc = true
								case "deep":
									h.Deep = true
								}
							}
						} else {
							h.Doc += strings.TrimSpace(t) + " "
						}
					}
				}
				e.harnesses = append(e.harnesses, h)
			}
		}
	}
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].Name < e.harnesses[j].Name })
}

// explore runs every queued path of the harnesses on n workers.
func (e *Engine) explore(hs []*Harness, n int) {
	for i := len(hs) - 1; i >= 0; i-- {
		hs[i].started = time.Now()
		e.enqueue(hs[i], nil)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := e.newSolver()
			defer func() { s.Close() }()
			for {
				w, ok := e.take()
				if !ok {
					return
				}
				t0 := time.Now()
				s = e.runPath(w, s)
				e.done(w, time.Since(t0))
			}
		}()
	}
	wg.Wait()
	for _, s := range e.provers {
		s.Close()
	}
	e.provers = nil
}

// take gives the next path: of the harness that has used the least time, the
// newest one, or now and then any.
func (e *Engine) take() (work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		var h *Harness
		for _, x := range e.harnesses {
			if len(x.queue) > 0 && (h == nil || x.spent < h.spent) {
				h = x
			}
		}
		if h != nil {
			n := len(h.queue)
			if e.rr++; e.rr%4 == 0 {
				k := int(uint64(e.rr)*0x9E3779B97F4A7C15>>33) % n
				h.queue[k], h.queue[n-1] = h.queue[n-1], h.queue[k]
			}
			w := h.queue[n-1]
			h.queue = h.queue[:n-1]
			e.active++
			h.spent += time.Millisecond
			return w, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return work{}, false
		}
		e.cond.Wait()
	}
}

func (e *Engine) done(w work, t time.Duration) {
	e.mu.Lock()
	e.active--
	w.h.spent += t
	e.pending[w.h]--
	if e.pending[w.h] == 0 {
		w.h.ended = time.Now()
	}
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Engine) runPath(w work, s *Solver) *Solver {
	h := w.h
	if e.expired() || h.MaxPaths > 0 && h.St.Paths > h.MaxPaths {
		h.count(func(st *HStats) {
			st.Aborted++
			if st.Aborts == nil {
				st.Aborts = map[string]int{}
			}
			st.Aborts["not explored: time or path budget"]++
		})
		return s
	}
	p := newPath(e, h, w.prefix, s)
	p.avx, p.ncpu = 2, 4
	outcome := "done"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case stopPath:
					outcome = "stop:" + x.why
				case abortErr:
					at := ""
					if p.cur != nil {
						at = p.abortAt + " <<< " + p.cur.where()
					}
					outcome = "abort:" + x.msg + " @ " + at
				case goPanic:
					outcome = "stop:panic"
					p.violate("panic", "uncaught panic in a host callback: "+p.panicText(x.val), "")
				default:
					at := ""
					if p.cur != nil {
						at = p.cur.where()
					}
					outcome = fmt.Sprintf("abort:engine: %v @ %s", r, at)
					if debugEngine {
						fmt.Println(outcome)
						debug.PrintStack()
					}
				}
			}
		}()
		p.runMain()
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				outcome = fmt.Sprintf("abort:discharge: %v", r)
				if debugEngine {
					fmt.Println(outcome)
					debug.PrintStack()
				}
			}
		}()
		p.releaseLinear()
		p.discharge()
	}()
	h.mergeBounds(p)
	e.funcMu.Lock()
	for f := range p.funcs {
		e.funcs[f] = true
	}
	e.funcMu.Unlock()
	h.mu.Lock()
	defer h.mu.Unlock()
	st := &h.St
	st.Steps += p.steps
	if p.maybe {
		st.Maybe++
	}
	if len(p.pc) > st.MaxPC {
		st.MaxPC = len(p.pc)
	}
	if st.Reached == nil {
		st.Reached = map[string]int{}
		st.Aborts = map[string]int{}
		st.Stops = map[string]int{}
	}
	for r := range p.reached {
		st.Reached[r]++
	}
	switch {
	case outcome == "done":
		st.Paths++
		real := 0
		for _, v := range p.viols {
			if v.Kind != "undefined" {
				real++
			}
		}
		if real == 0 && len(h.wit) < 24 {
			var ev *Evaluator
			if len(p.alive) > 0 {
				ev = p.alive[0]
			} else {
				ev = p.sample(nil, 20)
			}
			if ev != nil && p.evalPC(ev) {
				wt := witness{Inputs: p.concreteInputs(ev)}
				for i, o := range p.obs {
					if i > 400 {
						break
					}
					if o.sort == SReal {
						wt.Obs = append(wt.Obs, ev.R(o))
					} else if o.sort == SFP {
						wt.Obs = append(wt.Obs, fpv(ev.U(o), o.w))
					}
				}
				h.wit = append(h.wit, wt)
			}
		}
	case strings.HasPrefix(outcome, "stop:"):
		st.Stopped++
		st.Stops[outcome[5:]]++
	default:
		st.Aborted++
		st.Aborts[outcome[6:]]++
	}
	for _, v := range p.viols {
		if k := len(h.viols[v.Msg]); k < 12 {
			h.viols[v.Msg] = append(h.viols[v.Msg], v)
			if e.onViol != nil && k == 0 && v.Kind != "undefined" {
				go e.onViol(h, v)
			}
		}
	}
	return p.solver
}

var debugEngine = os.Getenv("GOSYM_DEBUG") != ""

func (p *Path) runMain() {
	p.run(&Closure{fn: p.h.fn})
}

// buildOverlay maps the harness tree into the repository.
func buildOverlay(harnessDir, repo string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	repl := map[string]string{}
	err := filepath.Walk(harnessDir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(harnessDir, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, rel)
		ov[dst] = b
		repl[dst] = path
		return nil
	})
	return ov, repl, err
}

// undefinedDone: enough candidates are known for the place.
func (h *Harness) undefinedDone(pos string) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.undef[pos] >= 8
}

func (h *Harness) undefinedHit(pos string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.undef == nil {
		h.undef = map[string]int{}
	}
	h.undef[pos]++
}

// undefinedTime adds solver time spent on such candidates; false when the
// harness has used up its share.
func (h *Harness) undefinedTime(d time.Duration, thorough bool) bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.undefT += d
	if thorough {
		return h.undefT < 4*time.Minute
	}
	return h.undefT < 40*time.Second
}
