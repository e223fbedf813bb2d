package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Input struct {
	Kind string `json:"k"`
	t    *Term
	Val  string `json:"v"`
	w    uint8
}

type Oblig struct {
	cond *Term
	msg  string
	npc  int
	pos  string
	weak bool
}

type Violation struct {
	Msg    string
	Inputs []Input
	Kind   string // assert, panic, deadlock, steps
	Where  string
	Model  *Model
	Sched  bool     // depends on the schedule
	Hot    []string // source lines where switching matters
}

type Path struct {
	bnds     map[token.Pos][2]int64
	bufs     []bufInfo
	nextAddr int64
	addrs    map[any]int64  // addresses seen through reflection
	asked    map[*Term]bool // conditions looked up while recording
	eng      *Engine
	h        *Harness
	a        *Arena
	prefix   []int32
	pos      int
	taken    []int32
	pc       []*Term
	pcSet    map[*Term]bool
	hints    map[*Term]*VarHint
	alive    []*Evaluator
	solver   *Solver
	synced   int
	ready    bool // solver reset for this path
	// a second solver for the linear abstraction of branch conditions
	lin     *Solver
	linSync int
	ufs     map[*Term]bool
	spec    *specRun // speculative execution of a guarded block

	globals map[*ssa.Global]*V
	inited  map[*ssa.Package]bool
	consts  map[*ssa.Const]V
	threads []*Thread
	cur     *Thread
	steps   int64
	fp      bool

	inputs    []Input
	obligs    []Oblig
	viols     []Violation
	reached   map[string]bool
	funcs     map[*ssa.Function]bool
	side      map[any]any // side tables of intrinsics (mutexes, ...)
	chanID    int
	nvar      int
	flags     map[string]int
	maybe     bool // some decision was taken on an unknown solver answer
	logs      []string
	dead      string // reason path stopped early (assume false ...)
	quiet     bool   // during init
	killed    bool
	rtErrT    types.Type
	mapOrder  bool
	abortAt   string
	crec      *crec
	initDepth int
	avx       int
	ncpu      int64
	obs       []*Term
	weak      map[*Term]*weakFact
	hold      map[string]bool
}

func newPath(e *Engine, h *Harness, prefix []int32, s *Solver) *Path {
	p := &Path{eng: e, h: h, a: NewArena(), prefix: prefix, pcSet: map[*Term]bool{}, hints: map[*Term]*VarHint{},
		solver: s, globals: map[*ssa.Global]*V{}, inited: map[*ssa.Package]bool{}, consts: map[*ssa.Const]V{},
		reached: map[string]bool{}, funcs: map[*ssa.Function]bool{}, side: map[any]any{}, flags: map[string]int{}}
	p.fp = h.FP
	for i := 0; i < 6; i++ {
		m := &Model{seed: e.seed*1000 + int64(i), style: i, vals: map[*Term]any{}}
		p.alive = append(p.alive, NewEvaluator(m, p.hints))
	}
	p.a.onDiv = func(d *Term) {
		_, ok := p.a.sign(d)
		p.fact(p.a.Not(p.a.Eq(d, p.a.r0)), ok)
	}
	p.a.onSqrt = func(d *Term) { p.fact(p.a.Not(p.a.RLt(d, p.a.r0)), p.a.NonNeg(d)) }
	p.a.onLog = func(d *Term) { p.fact(p.a.RLt(p.a.r0, d), p.a.Positive(d)) }
	return p
}

// fact adds an assumption of the encoding (well-definedness) to the path condition.
//
// Where the code under test, not the harness, makes the assumption, the points
// it leaves out are candidates too: see undefined.
func (p *Path) fact(c *Term, sure bool) {
	if c == p.a.T {
		return
	}
	if sure {
		p.addPC(c)
		return
	}
	impl, pos := p.inCode()
	if p.pcSet[c] {
		if w := p.weak[c]; w != nil && !impl {
			w.oracle = true
		}
		return
	}
	p.addPC(c)
	if impl && !p.fp && c.op != OAnd {
		if p.weak == nil {
			p.weak = map[*Term]*weakFact{}
		}
		p.weak[c] = &weakFact{pos: pos}
	}
}

// weakFact is an assumption made by the code under test about its own arithmetic.
type weakFact struct {
	pos    string
	oracle bool // the harness makes it too
}

// inCode tells whether the running function belongs to the code under test.
func (p *Path) inCode() (bool, string) {
	if p.cur == nil || p.quiet {
		return false, ""
	}
	for fr := p.cur.top; fr != nil; fr = fr.caller {
		f := fr.fn
		if f.Origin() != nil {
			f = f.Origin()
		}
		for f.Pkg == nil && f.Parent() != nil {
			f = f.Parent()
		}
		if f.Pkg == nil {
			continue
		}
		path := f.Pkg.Pkg.Path()
		if !strings.HasPrefix(path, "github.com/nlpodyssey/spago") {
			continue
		}
		if strings.Contains(path, "zzverif") {
			return false, ""
		}
		return true, p.cur.pos()
	}
	return false, ""
}

// undefined looks for inputs at which the code under test divides by zero, or
// takes the logarithm or root of a number that has none, while the harness
// does not do so itself. They are candidates for the native run, which knows
// what the code answers there.
func (p *Path) undefined() {
	if p.fp || len(p.weak) == 0 {
		return
	}
	var pc, neg []*Term
	var ws []*weakFact
	for _, c := range p.pc {
		if w := p.weak[c]; w != nil && !w.oracle {
			if p.h.undefinedDone(w.pos) || p.h.undefinedDone(w.pos+" unknown") {
				continue
			}
			neg = append(neg, p.a.Not(c))
			ws = append(ws, w)
			continue
		}
		pc = append(pc, c)
	}
	if len(neg) == 0 {
		return
	}
	if !p.h.undefinedTime(0, p.eng.thorough) {
		return
	}
	start := time.Now()
	defer func() { p.h.undefinedTime(time.Since(start), p.eng.thorough) }()
	ps := p.eng.newProver()
	defer func() { p.eng.putProver(ps) }()
	ask := func(c *Term, ms int) string {
		if ps.dead {
			*ps = *p.eng.newSolver()
		}
		ps.Reset(ms)
		for _, x := range pc {
			ps.Assert(x)
		}
		ps.Assert(c)
		return ps.Check()
	}
	if len(neg) > 1 && ask(p.a.Or(neg...), 500) == "unsat" {
		return
	}
	for i, c := range neg {
		if i > 20 {
			break
		}
		r := ask(c, 300)
		if r == "unknown" {
			p.h.undefinedHit(ws[i].pos + " unknown")
		}
		if r != "sat" {
			continue
		}
		e := NewEvaluator(&Model{seed: p.eng.seed, vals: ps.GetValues(p.a.vars)}, p.hints)
		p.h.undefinedHit(ws[i].pos)
		p.viols = append(p.viols, Violation{Msg: "a value the code does not define: " + ws[i].pos, Kind: "undefined", Where: ws[i].pos, Inputs: p.concreteInputs(e)})
	}
}

func (p *Path) addPC(c *Term) {
	if p.spec != nil {
		panic(specFail{})
	}
	if c == p.a.T || p.pcSet[c] {
		return
	}
	if c.op == OAnd {
		for _, x := range c.args {
			p.addPC(x)
		}
		return
	}
	p.pc = append(p.pc, c)
	p.pcSet[c] = true
	var keep []*Evaluator
	for _, e := range p.alive {
		if e.B(c) {
			keep = append(keep, e)
		}
	}
	p.alive = keep
}

func (p *Path) known(c *Term) (bool, bool) {
	if c.op == OConst {
		return c.b, true
	}
	if p.asked != nil {
		p.asked[c] = true
	}
	if p.pcSet[c] {
		return true, true
	}
	if p.pcSet[p.a.Not(c)] {
		return false, true
	}
	return false, false
}

// sample tries random models for PC ∧ c.
func (p *Path) sample(c *Term, n int) *Evaluator {
	for i := 0; i < n; i++ {
		p.nvar++
		m := &Model{seed: p.eng.seed*100000 + int64(p.nvar)*31 + 17, style: i, vals: map[*Term]any{}}
		e := NewEvaluator(m, p.hints)
		ok := true
		if c != nil && !e.B(c) {
			continue
		}
		for j := len(p.pc) - 1; j >= 0; j-- {
			if !e.B(p.pc[j]) {
				ok = false
				break
			}
		}
		if ok {
			return e
		}
	}
	return nil
}

func (p *Path) syncSolver() {
	if !p.ready {
		ms := p.eng.branchTimeout
		if p.h.BranchMS > 0 {
			ms = p.h.BranchMS
		}
		p.solver.Reset(ms)
		p.solver.quick = p.h.BranchMS > 0
		p.ready = true
		p.synced = 0
	}
	for ; p.synced < len(p.pc); p.synced++ {
		p.solver.Assert(p.pc[p.synced])
	}
}

// feasible reports whether PC ∧ c may hold: yes / no / unknown.
func (p *Path) feasible(c *Term) string {
	for _, e := range p.alive {
		if e.B(c) {
			return "sat"
		}
	}
	if e := p.sample(c, 40); e != nil {
		p.alive = append(p.alive, e)
		return "sat"
	}
	switch r := p.linear(c); {
	case r == "unsat" || r == "sat":
		return r
	case r == "abstract" && p.h.Linear:
		return "unknown"
	}
	p.syncSolver()
	p.solver.Push()
	p.solver.Assert(c)
	r := p.solver.Check()
	if r == "sat" {
		vals := p.solver.GetValues(p.a.vars)
		m := &Model{seed: p.eng.seed, style: 0, vals: vals}
		e := NewEvaluator(m, p.hints)
		if e.B(c) && p.evalPC(e) {
			p.alive = append(p.alive, e)
		}
	}
	p.solver.Pop()
	if p.solver.dead {
		p.solver = p.eng.newSolver()
		p.ready = false
	}
	return r
}

// linear asks whether PC ∧ c is contradictory when products are replaced by
// fresh constants: "unsat" holds for the exact formula as well, "abstract" means
// the abstraction is satisfiable (or undecided), "" that there were no products.
func (p *Path) linear(c *Term) string {
	if p.fp {
		return ""
	}
	if p.hasUF(c) {
		return "abstract"
	}
	if p.lin == nil {
		p.lin = p.eng.newProver()
		p.lin.Reset(500)
		p.lin.em.abs = true
		p.linSync = 0
	}
	s := p.lin
	for ; p.linSync < len(p.pc); p.linSync++ {
		// (a condition left out can only make the answer less precise)
		if !p.hasUF(p.pc[p.linSync]) {
			s.Assert(p.pc[p.linSync])
		}
	}
	s.Push()
	s.Assert(c)
	r := "abstract"
	if s.em.abstracted {
		r = s.Check()
		if r == "sat" {
			// the assignment may be one of the exact formula
			vals := s.GetValues(p.a.vars)
			e := NewEvaluator(&Model{seed: p.eng.seed, style: 0, vals: vals}, p.hints)
			if e.B(c) && p.evalPC(e) {
				p.alive = append(p.alive, e)
			} else {
				r = "abstract"
			}
		}
		if r == "unknown" {
			r = "abstract"
		}
	} else {
		r = ""
	}
	s.Pop()
	if s.dead {
		p.eng.putProver(s)
		p.lin = nil
	}
	return r
}

// hasUF: the term applies a transcendental function.
func (p *Path) hasUF(t *Term) bool {
	if t.op == OUF {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if b, ok := p.ufs[t]; ok {
		return b
	}
	r := false
	for _, x := range t.args {
		if p.hasUF(x) {
			r = true
			break
		}
	}
	if p.ufs == nil {
		p.ufs = map[*Term]bool{}
	}
	p.ufs[t] = r
	return r
}

func (p *Path) releaseLinear() {
	if p.lin != nil {
		p.eng.putProver(p.lin)
		p.lin = nil
	}
}

func (p *Path) evalPC(e *Evaluator) bool {
	for _, c := range p.pc {
		if !e.B(c) {
			return false
		}
	}
	return true
}

type stopPath struct{ why string }

func (p *Path) nextDecision() (int32, bool) {
	if p.spec != nil {
		panic(specFail{})
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		return d, true
	}
	return 0, false
}

func (p *Path) fork(alt int32) {
	np := make([]int32, len(p.taken)+1)
	copy(np, p.taken)
	np[len(p.taken)] = alt
	if p.crec != nil {
		if p.crec.on {
			panic(abort("decision during concurrent execution"))
		}
		p.crec.forks = append(p.crec.forks, np)
		return
	}
	p.eng.enqueue(p.h, np)
}

// branch decides a symbolic condition, forking the path when both sides are feasible.
func (p *Path) branch(c *Term) bool {
	if b, ok := p.known(c); ok {
		return b
	}
	if p.spec != nil {
		panic(specFail{})
	}
	nc := p.a.Not(c)
	if d, ok := p.nextDecision(); ok {
		if d == 1 {
			p.addPC(c)
			return true
		}
		p.addPC(nc)
		return false
	}
	ft := p.feasible(c)
	ff := "sat"
	if ft == "unsat" {
		ff = "sat"
	} else {
		ff = p.feasible(nc)
	}
	if ft == "unknown" || ff == "unknown" {
		p.maybe = true
	}
	switch {
	case ft == "unsat":
		p.taken = append(p.taken, 0)
		p.pos++
		p.addPC(nc)
		return false
	case ff == "unsat":
		p.taken = append(p.taken, 1)
		p.pos++
		p.addPC(c)
		return true
	}
	p.fork(0)
	p.taken = append(p.taken, 1)
	p.pos++
	p.addPC(c)
	return true
}

// choose makes an unconstrained n-way decision.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := p.nextDecision(); ok {
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		p.fork(int32(i))
	}
	p.taken = append(p.taken, 0)
	p.pos++
	return 0
}

// concretizeTerm forks over the feasible values of an integer term.
func (p *Path) concretizeTerm(t *Term) int64 {
	if t.IsConst() {
		return int64(t.bv)
	}
	for n := 0; ; n++ {
		if n > 300 {
			panic(abort("too many values when concretising %s", t))
		}
		// candidate value: from prefix decisions it must be reproducible, so the
		// value itself is recorded as two decisions (value chosen, taken or not).
		var val uint64
		if p.pos < len(p.prefix) {
			lo, _ := p.nextDecision()
			hi, _ := p.nextDecision()
			val = uint64(uint32(lo)) | uint64(uint32(hi))<<32
		} else {
			got := false
			for _, e := range p.alive {
				val = e.U(t)
				got = true
				break
			}
			if !got {
				if e := p.sample(nil, 100); e != nil {
					p.alive = append(p.alive, e)
					val = e.U(t)
					got = true
				}
			}
			if !got {
				p.syncSolver()
				r := p.solver.Check()
				if r != "sat" {
					panic(stopPath{"infeasible at concretisation (" + r + ")"})
				}
				vals := p.solver.GetValues(p.a.vars)
				e := NewEvaluator(&Model{seed: p.eng.seed, vals: vals}, p.hints)
				val = e.U(t)
				p.alive = append(p.alive, e)
			}
			p.taken = append(p.taken, int32(uint32(val)), int32(uint32(val>>32)))
			p.pos += 2
		}
		if p.branch(p.a.Eq(t, p.a.BV(val, t.w))) {
			return int64(val)
		}
	}
}

func (p *Path) assume(c *Term) {
	if p.spec != nil {
		panic(specFail{})
	}
	if b, ok := p.known(c); ok {
		if !b {
			panic(stopPath{"assume"})
		}
		return
	}
	p.addPC(c)
	if p.pos < len(p.prefix) {
		return
	}
	if len(p.alive) == 0 {
		if e := p.sample(nil, 60); e != nil {
			p.alive = append(p.alive, e)
			return
		}
		p.syncSolver()
		switch p.solver.Check() {
		case "unsat":
			panic(stopPath{"assume"})
		case "sat":
			vals := p.solver.GetValues(p.a.vars)
			e := NewEvaluator(&Model{seed: p.eng.seed, vals: vals}, p.hints)
			if p.evalPC(e) {
				p.alive = append(p.alive, e)
			}
		}
	}
}

func (p *Path) assert(c *Term, msg, pos string) {
	if p.spec != nil {
		panic(specFail{})
	}
	if p.pos < len(p.prefix) {
		// already discharged by the parent path
		p.addPC(c)
		return
	}
	if c == p.a.F {
		p.violate("assert", msg, pos)
		panic(stopPath{"violated"})
	}
	p.h.count(func(s *HStats) { s.Obligs++ })
	if c == p.a.T {
		p.obligs = append(p.obligs, Oblig{c, msg, len(p.pc), pos, false})
		return
	}
	p.obligs = append(p.obligs, Oblig{c, msg, len(p.pc), pos, false})
}

// violate records a definite violation of the current path (condition PC).
func (p *Path) violate(kind, msg, pos string) {
	if p.spec != nil {
		panic(specFail{})
	}
	v := Violation{Msg: msg, Kind: kind, Where: pos}
	var e *Evaluator
	if len(p.alive) > 0 {
		e = p.alive[0]
	} else if e = p.sample(nil, 500); e == nil {
		p.syncSolver()
		r := p.solver.Check()
		if r == "unsat" {
			return
		}
		if r == "sat" {
			e = NewEvaluator(&Model{seed: p.eng.seed, vals: p.solver.GetValues(p.a.vars)}, p.hints)
		}
	}
	if e == nil {
		p.h.count(func(s *HStats) { s.Undecided++; s.note("undecided: " + msg) })
		return
	}
	v.Inputs = p.concreteInputs(e)
	p.viols = append(p.viols, v)
	// additional witnesses make the native confirmation more robust
	for i, e2 := range p.alive {
		if i > 0 && i < 4 {
			p.viols = append(p.viols, Violation{Msg: msg, Kind: kind, Where: pos, Inputs: p.concreteInputs(e2)})
		}
	}
}

func (p *Path) concreteInputs(e *Evaluator) []Input {
	out := make([]Input, len(p.inputs))
	for i, in := range p.inputs {
		out[i] = Input{Kind: in.Kind, Val: in.Val}
		if in.t != nil {
			switch in.t.sort {
			case SBool:
				out[i].Val = strconv.FormatBool(e.B(in.t))
			case SBV:
				out[i].Val = strconv.FormatInt(sext(e.U(in.t), in.t.w), 10)
				if in.Kind == "u" {
					out[i].Val = strconv.FormatUint(e.U(in.t), 10)
				}
			case SReal:
				out[i].Val = strconv.FormatFloat(e.R(in.t), 'g', -1, 64)
			case SFP:
				out[i].Val = "x" + strconv.FormatUint(e.U(in.t), 16)
			}
		}
	}
	return out
}

// ---------- discharging obligations ----------

func (p *Path) discharge() {
	p.undefined()
	if len(p.obligs) == 0 {
		return
	}
	a := p.a
	// group by pc length
	groups := map[int][]Oblig{}
	for _, o := range p.obligs {
		groups[o.npc] = append(groups[o.npc], o)
	}
	var keys []int
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Ints(keys)
	cn := newCanon(a, p.hints)
	fullPC := p.pc
	for _, k := range keys {
		p.pc = fullPC[:k]
		var rest []Oblig
		var simp []*Term
		trivial := 0
		for _, o := range groups[k] {
			s := p.simplifyCond(cn, o.cond)
			if s == a.T {
				trivial++
				continue
			}
			rest = append(rest, o)
			simp = append(simp, s)
		}
		p.h.count(func(s *HStats) { s.Normal += trivial })
		if trivial > 0 && p.h.crossCheck() {
			p.crossCheck(groups[k], fullPC[:k])
		}
		if len(rest) == 0 {
			continue
		}
		// 1. all together without the path condition, then with it
		ps := p.eng.newProver()
		neg := make([]*Term, len(simp))
		for i, s := range simp {
			neg[i] = a.Not(s)
		}
		all := a.Or(neg...)
		if len(p.aliveFor(all)) == 0 {
			ps.Reset(1500)
			ps.Assert(all)
			if ps.Check() == "unsat" {
				n := len(rest)
				p.h.count(func(s *HStats) { s.Solver += n })
				p.eng.putProver(ps)
				continue
			}
			if !p.fp {
				ps.Reset(1500)
				ps.em.abs = true
				for _, c := range p.pc {
					ps.Assert(c)
				}
				ps.Assert(all)
				if ps.Check() == "unsat" {
					n := len(rest)
					p.h.count(func(s *HStats) { s.Solver += n })
					p.eng.putProver(ps)
					continue
				}
			}
			ps.Reset(p.eng.proveTimeout)
			for _, c := range p.pc {
				ps.Assert(c)
			}
			ps.Assert(all)
			if ps.Check() == "unsat" {
				n := len(rest)
				p.h.count(func(s *HStats) { s.Solver += n })
				p.eng.putProver(ps)
				continue
			}
		}
		for i, o := range rest {
			p.dischargeOne(ps, o, neg[i])
		}
		p.eng.putProver(ps)
	}
	p.pc = fullPC
	p.obligs = nil
}

func (p *Path) aliveFor(c *Term) []*Evaluator {
	var out []*Evaluator
	for _, e := range p.alive {
		if e.B(c) && p.evalPC(e) {
			out = append(out, e)
		}
	}
	return out
}

func (p *Path) simplifyCond(cn *canon, c *Term) *Term {
	a := p.a
	switch c.op {
	case OEq:
		if c.args[0].sort == SReal {
			return cn.SimplifyEq(c.args[0], c.args[1])
		}
	case OAnd:
		xs := make([]*Term, len(c.args))
		for i, x := range c.args {
			xs[i] = p.simplifyCond(cn, x)
		}
		return a.And(xs...)
	}
	return c
}

func (p *Path) dischargeOne(ps *Solver, o Oblig, neg *Term) {
	if ps.dead {
		*ps = *p.eng.newSolver()
	}
	var cands []*Evaluator
	orig := p.a.Not(o.cond)
	for _, e := range p.alive {
		if e.B(orig) && p.evalPC(e) {
			cands = append(cands, e)
		}
	}
	{
		// (a candidate may owe its existence to rounding in the evaluation: the
		// solver's answer decides where it has one)
		ms := p.eng.proveTimeout
		if len(cands) > 0 {
			ms = 2000
		}
		ps.Reset(ms)
		for _, c := range p.pc {
			ps.Assert(c)
		}
		ps.Assert(neg)
		r := ps.Check()
		if r == "unsat" {
			p.h.count(func(s *HStats) { s.Solver++ })
			return
		}
		if r == "sat" {
			vals := ps.GetValues(p.a.vars)
			e := NewEvaluator(&Model{seed: p.eng.seed, vals: vals}, p.hints)
			if e.B(orig) && p.evalPC(e) {
				cands = append(cands, e)
			}
		}
		if ps.dead {
			*ps = *p.eng.newSolver()
		}
	}
	// more candidate models by sampling the path condition (the verdict on each
	// candidate is the concrete evaluation of the encoded query, then replay)
	for i := 0; i < 60 && len(cands) < 6; i++ {
		if e := p.sample(orig, 8); e != nil {
			cands = append(cands, e)
		}
	}
	if len(cands) == 0 {
		p.h.count(func(s *HStats) { s.Undecided++; s.note("undecided: " + o.msg + " : " + o.cond.String()) })
		return
	}
	// the solver confirms that the candidate is a model of PC ∧ ¬cond where it can
	for _, e := range cands {
		v := Violation{Msg: o.msg, Kind: "assert", Where: o.pos, Inputs: p.concreteInputs(e)}
		p.viols = append(p.viols, v)
	}
}

// crossCheck sends un-normalised obligations to the solver as well, within a
// time budget per harness; an answer "sat" that evaluates as a counterexample
// would reveal an encoder bug.
func (p *Path) crossCheck(obs []Oblig, pc []*Term) {
	ps := p.eng.newProver()
	defer p.eng.putProver(ps)
	var neg []*Term
	for _, o := range obs {
		if o.cond.op != OConst {
			neg = append(neg, p.a.Not(o.cond))
		}
	}
	if len(neg) == 0 {
		return
	}
	start := time.Now()
	ps.Reset(400)
	for _, c := range pc {
		ps.Assert(c)
	}
	ps.Assert(p.a.Or(neg...))
	r := ps.Check()
	p.h.spendCross(time.Since(start))
	p.h.count(func(s *HStats) {
		s.Cross += len(neg)
		if r == "unsat" {
			s.CrossOK += len(neg)
		}
	})
}

func (p *Path) ratOf(s string) *big.Rat {
	r, ok := new(big.Rat).SetString(s)
	if !ok {
		panic(fmt.Sprintf("bad rational %q", s))
	}
	return r
}
