package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/token"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type caseJSON struct {
	Harness  string  `json:"harness"`
	Inputs   []Input `json:"inputs"`
	Thorough bool    `json:"thorough"`
}

type resJSON struct {
	Res string   `json:"res"`
	Obs []string `json:"obs"`
}

type Known struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Message  string `json:"message"` // regular expression over the whole message
	What     string `json:"what"`
	Status   string `json:"status"` // known | fixed
	Commit   string `json:"commit,omitempty"`
}

type driver struct {
	prop, repo, verif string
	thorough          bool
	seed              int64
	e                 *Engine
	tmp               string
	bins              map[string]string // tags -> binary
	roots             []string          // harness package import paths
	repl              map[string]string
	env               []string
}

func main() {
	var (
		prop    = flag.String("prop", "", "property")
		tier    = flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
		repo    = flag.String("repo", "/repo", "repository")
		verif   = flag.String("verif", "/verif", "framework")
		only    = flag.String("only", "", "regexp of harness names")
		workers = flag.Int("j", runtime.NumCPU(), "workers")
		budget  = flag.Int("budget", 0, "seconds for exploration")
		verbose = flag.Bool("v", false, "verbose")
		replay  = flag.String("replay", "", "replay file")
		noev    = flag.Bool("noevidence", false, "")
	)
	flag.BoolVar(&debugSMT, "debugsmt", false, "")
	flag.Parse()
	start := time.Now()
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if n, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = n
		}
	}
	d := &driver{prop: *prop, repo: *repo, verif: *verif, thorough: *tier == "thorough", seed: seed, bins: map[string]string{}}
	tmp, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal(err)
	}
	d.tmp = tmp
	code := 0
	func() {
		defer os.RemoveAll(tmp)
		if *replay != "" {
			code = d.replayFile(*replay)
			return
		}
		code = d.check(start, *only, *workers, *budget, *verbose, !*noev)
	}()
	os.Exit(code)
}

func envOr(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, append([]any{"gosym:"}, a...)...)
	os.Exit(2)
}

func (d *driver) findRoots() {
	seen := map[string]bool{}
	hd := filepath.Join(d.verif, "harness")
	filepath.Walk(hd, func(p string, info os.FileInfo, err error) error {
		if err == nil && info.IsDir() && filepath.Base(p) == strings.ToLower(d.prop) {
			rel, _ := filepath.Rel(hd, p)
			if !seen[rel] {
				seen[rel] = true
				d.roots = append(d.roots, "github.com/nlpodyssey/spago/"+filepath.ToSlash(rel))
			}
		}
		return nil
	})
}

func (d *driver) load() error {
	ov, repl, err := buildOverlay(filepath.Join(d.verif, "harness"), d.repo)
	if err != nil {
		return err
	}
	if err := d.applyHooks(ov, repl); err != nil {
		return err
	}
	d.repl = repl
	d.findRoots()
	if len(d.roots) == 0 {
		return fmt.Errorf("no harness for %s", d.prop)
	}
	e, err := NewEngine(d.repo, ov, d.roots...)
	if err != nil {
		return err
	}
	e.seed = d.seed
	e.thorough = d.thorough
	e.machineCode = d.prop == "C05"
	d.e = e
	e.discover()
	return nil
}

func (d *driver) check(start time.Time, only string, workers, budget int, verbose, writeEv bool) int {
	if err := d.load(); err != nil {
		// the tree does not build with the harness: nothing was decided
		fmt.Fprintln(os.Stderr, "gosym: cannot load:", err)
		return 2
	}
	e := d.e
	loadT := time.Since(start)
	if budget == 0 {
		budget = 420
		if d.thorough {
			crossBudget = int64(40 * time.Second)
			budget = 620
		}
	}
	e.deadline = start.Add(time.Duration(budget) * time.Second)
	if d.thorough {
		e.proveTimeout = 60000
		e.branchTimeout = 5000
	}
	var hs []*Harness
	re := regexp.MustCompile(only)
	for _, h := range e.harnesses {
		if only != "" && !re.MatchString(h.Name) {
			continue
		}
		if h.Deep && !d.thorough {
			continue
		}
		hs = append(hs, h)
	}
	var plain, conc []*Harness
	for _, h := range hs {
		if h.Conc {
			conc = append(conc, h)
		} else {
			plain = append(plain, h)
		}
	}
	// a violation that the compiled code confirms ends the exploration soon
	known := d.loadKnown()
	var earlyMu sync.Mutex
	e.onViol = func(h *Harness, v Violation) {
		if d.knownAs(known, h, v) != nil || atomic.LoadInt64(&e.cut) != 0 {
			return
		}
		earlyMu.Lock()
		defer earlyMu.Unlock()
		if atomic.LoadInt64(&e.cut) != 0 || d.buildNative("") != nil {
			return
		}
		if _, hit := d.confirm(h, v); hit {
			atomic.StoreInt64(&e.cut, time.Now().Add(20*time.Second).UnixNano())
		}
	}
	e.explore(plain, workers)
	var concRep []map[string]any
	if len(conc) > 0 {
		concRep = e.exploreConc(conc, workers)
	}
	simdRep := d.simdReport()
	exploreT := time.Since(start)

	earlyMu.Lock()
	atomic.StoreInt64(&e.cut, 1)
	earlyMu.Unlock()
	// native confirmation
	type conf struct {
		h *Harness
		v Violation
		r string
	}
	var confirmed []conf
	var spurious []string
	harmless := 0 // points outside the domain at which the code answers as the harness expects
	knownSeen := map[string]bool{}
	if err := d.buildNative(""); err != nil {
		fmt.Fprintln(os.Stderr, "gosym: native build failed:", err)
		return 2
	}
	for _, h := range hs {
		var msgs []string
		for m := range h.viols {
			msgs = append(msgs, m)
		}
		sort.Strings(msgs)
		for _, m := range msgs {
			ok := false
			last := ""
			for _, v := range h.viols[m] {
				r, hit := d.confirm(h, v)
				last = r
				if hit {
					confirmed = append(confirmed, conf{h, v, r})
					ok = true
					break
				}
			}
			if !ok && h.viols[m][0].Kind == "undefined" {
				harmless++
			} else if !ok {
				spurious = append(spurious, h.Name+": "+m+" (native: "+last+") on "+compact(h.viols[m][0].Inputs))
			}
		}
	}
	// conformance of the encoding on concrete witnesses
	validated, mism := d.conformance(hs)

	viol := 0
	for _, c := range confirmed {
		if k := d.knownAs(known, c.h, c.v); k != nil {
			if !knownSeen[k.What] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.prop, k.What)
				knownSeen[k.What] = true
			}
			continue
		}
		viol++
		path := d.writeReplay(c.h, c.v, c.r)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, path)
		fmt.Printf("  %s: %s [%s] %s\n  native: %s\n", c.h.Name, c.v.Msg, c.v.Kind, c.v.Where, c.r)
	}

	// report
	var tot HStats
	samples := []any{}
	var perH []any
	incomplete := 0
	for _, h := range hs {
		st := h.St
		tot.Paths += st.Paths
		tot.Stopped += st.Stopped
		tot.Aborted += st.Aborted
		tot.Steps += st.Steps
		tot.Obligs += st.Obligs
		tot.Normal += st.Normal
		tot.Solver += st.Solver
		tot.Undecided += st.Undecided
		tot.Cross += st.Cross
		tot.CrossOK += st.CrossOK
		tot.Maybe += st.Maybe
		tot.Merged += st.Merged
		if st.Aborted > 0 || st.Undecided > 0 || st.Paths == 0 && len(h.viols) == 0 && !h.Conc {
			incomplete++
		}
		m := map[string]any{"harness": h.Name, "paths": st.Paths, "stopped": st.Stopped, "aborted": st.Aborted, "steps": st.Steps,
			"obligations": st.Obligs, "by_normal_form": st.Normal, "by_solver": st.Solver, "undecided": st.Undecided}
		if h.FP {
			m["floats"] = "IEEE-754 bit-vectors"
		}
		if len(st.Aborts) > 0 {
			m["aborts"] = top(st.Aborts, 5)
		}
		if len(st.Notes) > 0 {
			m["notes"] = top(st.Notes, 5)
		}
		if len(st.Stops) > 0 {
			m["stops"] = st.Stops
		}
		if len(st.Reached) > 0 {
			m["reached"] = st.Reached
		}
		perH = append(perH, m)
		if len(samples) < 12 && len(h.wit) > 0 {
			samples = append(samples, map[string]any{"harness": h.Name, "inputs": compact(h.wit[0].Inputs)})
		}
		if verbose {
			fmt.Printf("%-42s paths=%d stop=%d abort=%d steps=%d oblig=%d normal=%d solver=%d undec=%d maybe=%d t=%.1fs viol=%d\n", h.Name, st.Paths, st.Stopped, st.Aborted, st.Steps, st.Obligs, st.Normal, st.Solver, st.Undecided, st.Maybe, h.ended.Sub(start).Seconds(), len(h.viols))
			for k, n := range st.Aborts {
				fmt.Printf("    abort %d× %s\n", n, k)
			}
			for k, n := range st.Notes {
				fmt.Printf("    note %d× %s\n", n, k)
			}
			for k, n := range st.Stops {
				fmt.Printf("    stop %d× %s\n", n, k)
			}
		}
	}
	for _, s := range spurious {
		fmt.Printf("UNCONFIRMED %s\n", s)
	}
	if verbose {
		for _, s := range mism {
			fmt.Println("MISMATCH", s)
		}
	}
	var fns []string
	for f := range e.funcs {
		if f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/nlpodyssey/spago") && !strings.Contains(f.Pkg.Pkg.Path(), "zzverif") ||
			f.Origin() != nil && f.Origin().Pkg != nil && strings.HasPrefix(f.Origin().Pkg.Pkg.Path(), "github.com/nlpodyssey/spago") && !strings.Contains(f.Origin().Pkg.Pkg.Path(), "zzverif") {
			fns = append(fns, strings.ReplaceAll(f.String(), "github.com/nlpodyssey/spago/", ""))
		}
	}
	for k := range simdRep {
		fns = append(fns, k+" (machine code)")
	}
	sort.Strings(fns)
	fmt.Printf("%s %s: %d harnesses, %d paths, %d steps, %d obligations (%d normal form, %d solver, %d undecided), %d aborted paths, %d queries (%d unsat %d sat %d unknown, %.1fs), %d functions, %d/%d native traces agree, load %.1fs explore %.1fs total %.1fs\n",
		d.prop, map[bool]string{true: "thorough", false: "quick"}[d.thorough], len(hs), tot.Paths, tot.Steps, tot.Obligs, tot.Normal, tot.Solver, tot.Undecided, tot.Aborted,
		statQueries, statUnsat, statSat, statUnknown, float64(statSolverNS)/1e9, len(fns), validated, validated+len(mism), loadT.Seconds(), exploreT.Seconds(), time.Since(start).Seconds())
	if writeEv {
		tierS := "quick"
		if d.thorough {
			tierS = "thorough"
		}
		cov := map[string]any{
			"states": tot.Paths + tot.Stopped, "transitions": tot.Steps, "traces_validated_against_impl": validated, "samples": samples,
			"explanation":             "states = feasible symbolic paths of the harnesses over the real SSA; transitions = SSA instructions executed symbolically; every path stands for all values of its symbolic inputs",
			"harnesses":               perH,
			"functions_encoded":       fns,
			"functions_encoded_count": len(fns),
			"obligations":             tot.Obligs,
			"discharged_normal_form":  tot.Normal,
			"discharged_solver":       tot.Solver,
			"undecided":               tot.Undecided,
			"aborted_paths":           tot.Aborted,
			"decisions_on_unknown":    tot.Maybe,
			"branches_merged":         tot.Merged,
			"crosschecked_unsat":      fmt.Sprintf("%d of %d normal-form verdicts sent to the solver as well (others timed out; none sat)", tot.CrossOK, tot.Cross),
			"solver":                  solverBin,
			"queries":                 statQueries,
			"queries_unsat":           statUnsat,
			"queries_sat":             statSat,
			"queries_unknown":         statUnknown,
			"solver_seconds":          math.Round(float64(statSolverNS)/1e6) / 1e3,
			"trace_mismatches":        mism,
			"unconfirmed":             spurious,
			"harmless_undefined":      harmless,
			"incomplete_harnesses":    incomplete,
			"bounds":                  d.boundsText(),
		}
		if concRep != nil {
			cov["schedules"] = concRep
		}
		if simdRep != nil {
			cov["simd"] = simdRep
		}
		ev := map[string]any{"property": d.prop, "tier": tierS, "seed": d.seed, "level": "model_checking", "coverage": cov,
			"assumptions": assumptions, "wall_s": math.Round(time.Since(start).Seconds()*100) / 100, "violations": viol}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(d.verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(d.verif, "evidence", d.prop+".json"), b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	if viol > 0 {
		return 1
	}
	return 0
}

var assumptions = []string{
	"real mode: float arithmetic is treated as arithmetic over the reals, float constants as their shortest decimal; rounding, overflow and NaN/Inf inputs are outside the claim except in harnesses marked IEEE-754",
	"partial real functions are evaluated inside their domain (divisors non-zero, logarithm arguments positive, square-root arguments non-negative)",
	"sizes, dimensions and counts are bounded as stated in the harness; every size within the bound is explored",
	"library functions replaced by models: sync, sync/atomic, reflect, fmt, errors.Is, sort.Slice, math (uninterpreted with axioms); assembly kernels replaced by their specification, which C05 decides on the machine code",
	"the interpreter gosym, its normal form and z3 are trusted; every reported violation is confirmed by the compiled code, and witnesses of passing paths are run natively as a conformance check",
}

// boundsText states, per harness, its documentation and the values its choices
// of sizes, variants and ranges took.
func (d *driver) boundsText() any {
	out := map[string]string{}
	files := map[string][]string{}
	line := func(p token.Position) string {
		ls, ok := files[p.Filename]
		if !ok {
			name := p.Filename
			if i := strings.Index(name, "/zzverif/"); i >= 0 {
				for _, dir := range []string{"harness", "harness/mat"} {
					c := filepath.Join(d.verif, dir, name[i:])
					if _, err := os.Stat(c); err == nil {
						name = c
						break
					}
				}
			}
			b, _ := os.ReadFile(name)
			ls = strings.Split(string(b), "\n")
			files[p.Filename] = ls
		}
		if p.Line < 1 || p.Line > len(ls) {
			return ""
		}
		t := strings.TrimSpace(ls[p.Line-1])
		if len(t) > 110 {
			t = t[:110] + "…"
		}
		return t
	}
	for _, h := range d.e.harnesses {
		var at []token.Pos
		for p := range h.bnds {
			at = append(at, p)
		}
		sort.Slice(at, func(i, j int) bool { return at[i] < at[j] })
		var cs []string
		last := -1
		for _, p := range at {
			ps := d.e.prog.Fset.Position(p)
			r := fmt.Sprintf("%d..%d", h.bnds[p][0], h.bnds[p][1])
			if ps.Line == last {
				cs[len(cs)-1] += ", " + r
				continue
			}
			last = ps.Line
			cs = append(cs, fmt.Sprintf("line %d `%s`: %s", ps.Line, line(ps), r))
		}
		t := strings.TrimSpace(h.Doc)
		if len(cs) > 0 {
			t += " Choices explored: " + strings.Join(cs, "; ") + "."
		}
		out[h.Name] = strings.TrimSpace(fmt.Sprintf("%s At most %d symbolic inputs and choices on a path.", t, h.maxIn))
	}
	return out
}

func top(m map[string]int, n int) []string {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n || l[i].n == l[j].n && l[i].k < l[j].k })
	var out []string
	for i, x := range l {
		if i >= n {
			break
		}
		out = append(out, fmt.Sprintf("%d× %s", x.n, x.k))
	}
	return out
}

func compact(in []Input) string {
	var ss []string
	for _, x := range in {
		ss = append(ss, x.Kind+"="+x.Val)
		if len(ss) > 40 {
			ss = append(ss, "…")
			break
		}
	}
	return strings.Join(ss, " ")
}

// ---------- native side ----------

func (d *driver) goEnv() []string { return os.Environ() }

func (d *driver) buildNative(tags string) error {
	if _, ok := d.bins[tags]; ok {
		return nil
	}
	names := map[string][]string{}
	for _, h := range d.e.harnesses {
		pp := h.fn.Pkg.Pkg.Path()
		names[pp] = append(names[pp], h.fn.Name())
	}
	var sb strings.Builder
	sb.WriteString("package main\n\nimport (\n\t\"github.com/nlpodyssey/spago/zzverif/vrt\"\n")
	var pps []string
	for pp := range names {
		pps = append(pps, pp)
	}
	sort.Strings(pps)
	for i, pp := range pps {
		fmt.Fprintf(&sb, "\tp%d %q\n", i, pp)
	}
	sb.WriteString(")\n\nfunc main() {\n\tvrt.Main(map[string]func(){\n")
	for i, pp := range pps {
		for _, h := range d.e.harnesses {
			if h.fn.Pkg.Pkg.Path() == pp {
				fmt.Fprintf(&sb, "\t\t%q: p%d.%s,\n", h.Name, i, h.fn.Name())
			}
		}
	}
	sb.WriteString("\t})\n}\n")
	mainFile := filepath.Join(d.tmp, "main.go")
	os.WriteFile(mainFile, []byte(sb.String()), 0o644)
	repl := map[string]string{}
	for k, v := range d.repl {
		repl[k] = v
	}
	repl[filepath.Join(d.repo, "zzverif", "zzmain", "main.go")] = mainFile
	ob, _ := json.Marshal(map[string]any{"Replace": repl})
	of := filepath.Join(d.tmp, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(d.tmp, "native"+strings.ReplaceAll(tags, ",", "_"))
	args := []string{"build", "-overlay", of, "-o", bin}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	args = append(args, "./zzverif/zzmain")
	cmd := exec.Command("go", args...)
	cmd.Dir = d.repo
	cmd.Env = d.goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	d.bins[tags] = bin
	return nil
}

// runCase runs one case in its own process.
func (d *driver) runCase(tags string, c caseJSON, timeout time.Duration) (res resJSON, crashed, timedOut bool) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	// code that never ends may allocate without bound
	cmd := exec.CommandContext(ctx, "sh", "-c", "ulimit -v 10000000; exec \"$0\"", d.bins[tags])
	cmd.Dir = d.tmp
	b, _ := json.Marshal(c)
	cmd.Stdin = bytes.NewReader(append(b, '\n'))
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	err := cmd.Run()
	if ctx.Err() != nil {
		return resJSON{Res: "timeout"}, false, true
	}
	if json.Unmarshal(bytes.TrimSpace(out.Bytes()), &res) != nil || err != nil {
		s := errb.String()
		if i := strings.Index(s, "\ngoroutine "); i > 0 {
			s = s[:i]
		}
		if len(s) > 400 {
			s = s[:400]
		}
		return resJSON{Res: "crash: " + strings.TrimSpace(s)}, true, false
	}
	return res, false, false
}

// confirm replays a counterexample against the compiled code.
func (d *driver) confirm(h *Harness, v Violation) (string, bool) {
	c := caseJSON{h.Name, v.Inputs, d.thorough}
	if v.Sched {
		return d.confirmSched(h, v)
	}
	switch v.Kind {
	case "unsafe":
		if d.e.machineCode {
			// buffers between guard pages: at the asked alignment, flush with the end, flush with the start
			for _, mode := range []string{"", "end", "start"} {
				os.Setenv("GOSYM_BUF", mode)
				r, crashed, _ := d.runCase("", c, 30*time.Second)
				os.Unsetenv("GOSYM_BUF")
				if crashed || strings.HasPrefix(r.Res, "panic") || strings.HasPrefix(r.Res, "violation") {
					return r.Res, true
				}
			}
			return "ok", false
		}
		if err := d.buildNative("purego,noasm"); err != nil {
			return "purego build failed: " + err.Error(), false
		}
		r, crashed, _ := d.runCase("purego,noasm", c, 30*time.Second)
		if crashed || strings.HasPrefix(r.Res, "panic") || strings.HasPrefix(r.Res, "violation") {
			return r.Res, true
		}
		r, crashed, _ = d.runCase("", c, 30*time.Second)
		return r.Res, crashed || strings.HasPrefix(r.Res, "panic") || strings.HasPrefix(r.Res, "violation")
	case "deadlock", "steps":
		r, crashed, to := d.runCase("", c, 15*time.Second)
		return r.Res, crashed || to || strings.HasPrefix(r.Res, "violation") || strings.HasPrefix(r.Res, "panic")
	}
	r, crashed, to := d.runCase("", c, 30*time.Second)
	return r.Res, crashed || to || strings.HasPrefix(r.Res, "violation") || strings.HasPrefix(r.Res, "panic") && !strings.Contains(r.Res, "vrt: input")
}

func (d *driver) writeReplay(h *Harness, v Violation, native string) string {
	dir := filepath.Join(d.verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%x.json", d.prop, strings.ReplaceAll(h.Name, ".", "-"), uint32(hashStr(v.Msg))))
	b, _ := json.MarshalIndent(map[string]any{"property": d.prop, "harness": h.Name, "inputs": v.Inputs, "thorough": d.thorough, "message": v.Msg,
		"kind": v.Kind, "sched": v.Sched, "hot": v.Hot, "where": v.Where, "native": native, "how": "bash /verif/run.sh replay " + path}, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (d *driver) replayFile(f string) int {
	b, err := os.ReadFile(f)
	if err != nil {
		fatal(err)
	}
	var r struct {
		Property, Harness, Message, Kind string
		Inputs                           []Input
		Thorough, Sched                  bool
		Hot                              []string
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err)
	}
	d.prop = r.Property
	d.thorough = r.Thorough
	if err := d.load(); err != nil {
		fatal(err)
	}
	if err := d.buildNative(""); err != nil {
		fatal(err)
	}
	for _, h := range d.e.harnesses {
		if h.Name == r.Harness {
			s, hit := d.confirm(h, Violation{Msg: r.Message, Kind: r.Kind, Inputs: r.Inputs, Sched: r.Sched, Hot: r.Hot})
			fmt.Println("native:", s)
			if hit {
				fmt.Printf("VIOLATION property=%s replay=%s\n", d.prop, f)
				return 1
			}
			return 0
		}
	}
	fatal("no such harness")
	return 2
}

// conformance runs concrete witnesses of passing paths natively.
func (d *driver) conformance(hs []*Harness) (int, []string) {
	ok := 0
	var mism []string
	for _, h := range hs {
		if len(h.wit) == 0 || h.Conc {
			continue
		}
		var in bytes.Buffer
		for _, w := range h.wit {
			b, _ := json.Marshal(caseJSON{h.Name, w.Inputs, d.thorough})
			in.Write(append(b, '\n'))
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		cmd := exec.CommandContext(ctx, d.bins[""])
		cmd.Dir = d.tmp
		cmd.Stdin = &in
		out, _ := cmd.Output()
		cancel()
		dec := json.NewDecoder(bytes.NewReader(out))
		for i, w := range h.wit {
			var r resJSON
			if err := dec.Decode(&r); err != nil {
				mism = append(mism, fmt.Sprintf("%s: native run of witness %d ended early", h.Name, i))
				break
			}
			if r.Res != "ok" && r.Res != "assume" {
				mism = append(mism, fmt.Sprintf("%s: %s on %s", h.Name, r.Res, compact(w.Inputs)))
				continue
			}
			bad := false
			for j, o := range w.Obs {
				if r.Res != "ok" || j >= len(r.Obs) {
					break
				}
				f, _ := strconv.ParseFloat(r.Obs[j], 64)
				if math.Abs(f-o) > 5e-3*(1+math.Abs(o)) && !math.IsNaN(o) && !math.IsInf(o, 0) {
					mism = append(mism, fmt.Sprintf("%s: observation %d native %v encoding %v on %s", h.Name, j, f, o, compact(w.Inputs)))
					bad = true
					break
				}
			}
			if !bad {
				ok++
			}
		}
	}
	return ok, mism
}

func (d *driver) knownAs(known []Known, h *Harness, v Violation) *Known {
	for i := range known {
		kn := &known[i]
		if kn.Status == "known" && kn.Property == d.prop && kn.Harness == h.Name && regexp.MustCompile("^(?:"+kn.Message+")$").MatchString(v.Msg) {
			return kn
		}
	}
	return nil
}

func (d *driver) loadKnown() []Known {
	b, err := os.ReadFile(filepath.Join(d.verif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal("known_findings.json:", err)
	}
	return f.Findings
}
