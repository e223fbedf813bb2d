package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- function metadata ----------

type FnInfo struct {
	slots map[ssa.Value]int
	n     int
}

func (e *Engine) info(fn *ssa.Function) *FnInfo {
	e.infoMu.RLock()
	fi := e.infos[fn]
	e.infoMu.RUnlock()
	if fi != nil {
		return fi
	}
	fi = &FnInfo{slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		fi.slots[v] = fi.n
		fi.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	e.infoMu.Lock()
	e.infos[fn] = fi
	e.infoMu.Unlock()
	return fi
}

// ---------- threads and frames ----------

type deferred struct {
	fn   *Closure
	args []V
	bi   *ssa.Builtin
	site ssa.Instruction
}

type panicRec struct {
	val       V
	recovered bool
}

type Frame struct {
	fn     *ssa.Function
	fi     *FnInfo
	regs   []V
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	defers []deferred
	caller *Frame
	// deferOf is set when this frame runs a deferred call of that frame.
	deferOf  *Frame
	panicked *panicRec
	result   V
	onReturn func(V) // host continuation
	barrier  bool    // nested run boundary
}

type Thread struct {
	p        *Path
	id       int
	top      *Frame
	blocked  func() bool
	why      string
	done     bool
	parent   *Thread
	clock    int
	pendWait *chWaiter
	curInstr ssa.Instruction
	waitSt   any

	// controlled schedules (mcr.go)
	own     *Thread // the thread this nested call belongs to
	granted bool
	inInstr bool
	key     uint64
	allocs  map[string]int
	locks   []lockSec
	evs     []*evt
	syncN   int
	seg     map[uint64]*segState
	pend    []pendWrite
	sel     *selRec
}

type blockReq struct {
	ready func() bool
	why   string
}

type goPanic struct{ val V } // a Go panic raised by the interpreted program

func (p *Path) rtPanic(msg string) goPanic {
	return goPanic{p.mkError(msg)}
}

// mkError builds an error value of dynamic type *errors.errorString.
func (p *Path) mkError(msg string) V {
	cell := V(Struct{msg})
	return Iface{t: p.eng.errPtr, v: &cell}
}

func (p *Path) newThread(fn *Closure, args []V) *Thread {
	th := &Thread{p: p, id: len(p.threads)}
	p.threads = append(p.threads, th)
	th.pushCall(fn, args, nil)
	return th
}

func (th *Thread) pushCall(cl *Closure, args []V, site ssa.Instruction) *Frame {
	fn := cl.fn
	p := th.p
	if fn.Blocks == nil {
		panic(abort("no body: %s", fn))
	}
	fi := p.eng.info(fn)
	fr := &Frame{fn: fn, fi: fi, regs: make([]V, fi.n), caller: th.top, block: fn.Blocks[0]}
	if len(args) != len(fn.Params) {
		panic(abort("arity mismatch calling %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	copy(fr.regs, args)
	for i, v := range cl.env {
		fr.regs[len(fn.Params)+i] = v
	}
	th.top = fr
	if !p.funcs[fn] {
		p.funcs[fn] = true
	}
	depth := 0
	_ = depth
	return fr
}

func (fr *Frame) set(v ssa.Value, x V) { fr.regs[fr.fi.slots[v]] = x }

func (th *Thread) get(fr *Frame, v ssa.Value) V {
	switch x := v.(type) {
	case *ssa.Const:
		return th.p.constVal(x)
	case *ssa.Global:
		return th.p.global(x)
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := fr.fi.slots[v]
	if !ok {
		panic(abort("no slot for %s in %s", v, fr.fn))
	}
	return fr.regs[i]
}

func (p *Path) constVal(c *ssa.Const) V {
	if v, ok := p.consts[c]; ok {
		return copyVal(v)
	}
	v := p.constVal1(c)
	p.consts[c] = v
	return copyVal(v)
}

func (p *Path) constVal1(c *ssa.Const) V {
	if c.Value == nil {
		return p.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		panic(abort("const of type %s", c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsInteger != 0:
		cv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return i
		}
		u, _ := constant.Uint64Val(cv)
		return int64(u)
	case b.Info()&types.IsFloat != 0:
		w := fwidth(b)
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if w == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return p.fconst32(f32)
		}
		return p.fconst(f, 64)
	case b.Info()&types.IsComplex != 0:
		return complex(0, 0)
	}
	panic(abort("const %s", c))
}

// fconst makes a float constant.  In real mode the shortest decimal that
// identifies the float is taken as the exact value (0.1 means 1/10).
func (p *Path) fconst(f float64, w uint8) *Term {
	if p.fp {
		return p.a.FP(f, w)
	}
	if w == 32 {
		return p.fconst32(float32(f))
	}
	switch {
	case math.IsNaN(f):
		return p.a.NaN()
	case math.IsInf(f, 0):
		if f > 0 {
			return p.a.Inf(1)
		}
		return p.a.Inf(-1)
	}
	r, _ := new(big.Rat).SetString(strconv.FormatFloat(f, 'g', -1, 64))
	return p.a.Rat(r)
}
func (p *Path) fconst32(f float32) *Term {
	if p.fp {
		return p.a.FPBits(uint64(math.Float32bits(f)), 32)
	}
	if f != f || math.IsInf(float64(f), 0) {
		return p.fconst(float64(f), 64)
	}
	r, _ := new(big.Rat).SetString(strconv.FormatFloat(float64(f), 'g', -1, 32))
	return p.a.Rat(r)
}

func (p *Path) global(g *ssa.Global) *V {
	if c, ok := p.globals[g]; ok {
		return c
	}
	p.ensureInit(g.Pkg)
	if c, ok := p.globals[g]; ok {
		return c
	}
	return p.mkGlobal(g)
}

func (p *Path) mkGlobal(g *ssa.Global) *V {
	if c, ok := p.globals[g]; ok {
		return c
	}
	c := new(V)
	*c = p.zero(g.Type().(*types.Pointer).Elem())
	if g.Name() == "X86" && g.Pkg != nil && strings.HasSuffix(g.Pkg.Pkg.Path(), "matfuncs/cpu") {
		p.setCPU(g, c)
	}
	p.globals[g] = c
	if p.crec != nil {
		p.crec.reg(c, mix(0, "global", g.String()))
	}
	return c
}

// setCPU fills the CPU feature table according to the modelled feature level.
func (p *Path) setCPU(g *ssa.Global, c *V) {
	st := g.Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	s := (*c).(Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "HasAVX":
			s[i] = p.avx >= 1
		case "HasAVX2", "HasFMA":
			s[i] = p.avx >= 2
		case "HasSSE2", "HasSSE3", "HasSSSE3", "HasSSE41", "HasSSE42":
			s[i] = true
		}
	}
}

var skipInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "reflect": true, "time": true, "internal/poll": true,
	"net": true, "log": true, "testing": true, "encoding/gob": true, "internal/godebug": true, "internal/cpu": true, "github.com/nlpodyssey/spago/mat/internal/matfuncs/cpu": true, "sync": true, "fmt": true, "unicode": true, "context": false}

func (p *Path) ensureInit(pkg *ssa.Package) {
	if pkg == nil || p.inited[pkg] {
		return
	}
	if p.spec != nil {
		panic(specFail{})
	}
	p.inited[pkg] = true
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	p.initDepth++
	defer func() { p.initDepth-- }()
	p.runNested(&Closure{fn: init}, nil)
}

// runNested runs a call to completion on a helper thread.
func (p *Path) runNested(cl *Closure, args []V) V {
	if cl.host != nil {
		return cl.host(p.cur, args)
	}
	save := p.cur
	th := &Thread{p: p, id: -1}
	if save != nil {
		th.id = save.id
		th.own = save
	}
	var res V
	if v, ok := p.tryIntrinsic(th, cl, args); ok {
		return v
	}
	fr := th.pushCall(cl, args, nil)
	fr.onReturn = func(v V) { res = v }
	p.cur = th
	ok2 := false
	defer func() {
		if !ok2 && p.abortAt == "" {
			p.abortAt = th.where()
		}
		p.cur = save
	}()
	for !th.done {
		th.step()
		if th.blocked != nil {
			if !th.blocked() {
				// let other threads run
				if !p.runOthers(th) {
					panic(abort("nested call blocked: %s", th.why))
				}
				p.cur = th
			}
			th.blocked = nil
		}
	}
	ok2 = true
	return res
}

// runOthers steps other runnable threads once; false when none can run.
func (p *Path) runOthers(self *Thread) bool {
	for _, t := range p.threads {
		if t == self || t.done {
			continue
		}
		if t.blocked != nil && !t.blocked() {
			continue
		}
		// never resume the thread that is waiting for the nested call
		if t.id == self.id {
			continue
		}
		t.blocked = nil
		p.cur = t
		for i := 0; i < 1000 && !t.done && t.blocked == nil; i++ {
			t.step()
		}
		return true
	}
	return false
}

// run executes the path's main function until every relevant thread finished.
func (p *Path) run(main *Closure) {
	mt := p.newThread(main, nil)
	p.cur = mt
	for !mt.done {
		th := p.cur
		if th.done || th.blocked != nil {
			nt := p.pickThread()
			if nt == nil {
				p.onDeadlock()
				return
			}
			nt.blocked = nil
			p.cur = nt
			th = nt
		}
		th.step()
	}
}

func (p *Path) pickThread() *Thread {
	n := len(p.threads)
	start := 0
	if p.cur != nil && p.cur.id >= 0 {
		start = p.cur.id + 1
	}
	for i := 0; i < n; i++ {
		t := p.threads[(start+i)%n]
		if t.done {
			continue
		}
		if t.blocked != nil && !t.blocked() {
			continue
		}
		return t
	}
	return nil
}

func (p *Path) onDeadlock() {
	msg := "deadlock: all goroutines are blocked"
	for _, t := range p.threads {
		if !t.done {
			msg += fmt.Sprintf(" [g%d %s at %s]", t.id, t.why, t.where())
		}
	}
	p.violate("deadlock", msg, "")
	panic(stopPath{"deadlock"})
}

func (th *Thread) where() string {
	s := ""
	n := 0
	for fr := th.top; fr != nil && n < 6; fr = fr.caller {
		pos := ""
		if fr.block != nil && fr.pc > 0 && fr.pc-1 < len(fr.block.Instrs) {
			for i := fr.pc - 1; i >= 0; i-- {
				if ps := fr.block.Instrs[i].Pos(); ps.IsValid() {
					pp := th.p.eng.prog.Fset.Position(ps)
					f := pp.Filename
					if j := strings.LastIndex(f, "/"); j >= 0 {
						f = f[j+1:]
					}
					pos = fmt.Sprintf("%s:%d", f, pp.Line)
					break
				}
			}
		}
		s += fr.fn.Name() + "(" + pos + ") < "
		n++
	}
	return s
}

// ---------- stepping ----------

func (th *Thread) step() {
	p := th.p
	p.steps++
	if p.steps&1023 == 0 {
		if p.steps > p.h.maxSteps() {
			p.violate("steps", fmt.Sprintf("no termination within %d steps at %s", p.steps, th.where()), th.where())
			panic(stopPath{"steps"})
		}
		if p.eng.expired() {
			panic(stopPath{"time"})
		}
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				th.startPanic(x.val)
			case blockReq:
				th.top.pc--
				th.blocked = x.ready
				th.why = x.why
			default:
				panic(r)
			}
		}
	}()
	// run a batch of instructions under one defer
	for i := 0; i < 64; i++ {
		fr := th.top
		in := fr.block.Instrs[fr.pc]
		fr.pc++
		th.curInstr = in
		th.inInstr = false
		th.exec(fr, in)
		if len(th.pend) > 0 {
			p.crec.finish(th)
		}
		if th.done || th.blocked != nil {
			return
		}
		p.steps++
	}
}

func (th *Thread) startPanic(v V) {
	fr := th.top
	rec := &panicRec{val: v}
	fr.panicked = rec
	th.unwind()
}

// unwind continues a panic in the top frame.
func (th *Thread) unwind() {
	for {
		fr := th.top
		if fr == nil {
			return
		}
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			th.callDeferred(fr, d)
			if th.top != fr {
				return // runs now; continues on return
			}
			if fr.panicked.recovered {
				th.finishRecovered(fr)
				return
			}
			continue
		}
		// propagate
		rec := fr.panicked
		if fr.caller == nil || fr.onReturn != nil && fr.caller == nil {
			th.top = nil
			th.done = true
			if th.id == -1 || fr.onReturn != nil {
				panic(goPanic{rec.val}) // nested run: re-raise in the host caller
			}
			th.p.uncaught(th, rec.val)
			return
		}
		if fr.deferOf != nil { // panic inside a deferred function replaces the outer one
			fr.deferOf.panicked = rec
			th.top = fr.deferOf
			continue
		}
		th.top = fr.caller
		th.top.panicked = rec
	}
}

func (th *Thread) finishRecovered(fr *Frame) {
	fr.panicked = nil
	if fr.fn.Recover != nil {
		fr.prev = fr.block
		fr.block = fr.fn.Recover
		fr.pc = 0
		return
	}
	th.ret(fr, th.p.zeroResults(fr.fn.Signature))
}

func (p *Path) zeroResults(sig *types.Signature) V {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return p.zero(r.At(0).Type())
	}
	return p.zero(r)
}

func (p *Path) panicText(v V) string {
	if i, ok := v.(Iface); ok {
		return p.fmtVal(i, 0)
	}
	return p.fmtVal(v, 0)
}

func (p *Path) uncaught(th *Thread, v V) {
	msg := "uncaught panic: " + p.panicText(v)
	p.violate("panic", msg, "")
	panic(stopPath{"panic"})
}

func (th *Thread) callDeferred(fr *Frame, d deferred) {
	if d.bi != nil {
		th.builtin(fr, d.bi, d.args, nil, d.site)
		return
	}
	if d.fn == nil {
		panic(th.p.rtPanic("runtime error: invalid memory address or nil pointer dereference"))
	}
	if d.fn.host != nil {
		d.fn.host(th, d.args)
		return
	}
	if _, ok := th.p.tryIntrinsic(th, d.fn, d.args); ok {
		return
	}
	nf := th.pushCall(d.fn, d.args, d.site)
	nf.deferOf = fr
}

// ret returns from frame fr with value v.
func (th *Thread) ret(fr *Frame, v V) {
	if fr.deferOf != nil {
		owner := fr.deferOf
		th.top = owner
		if owner.panicked != nil {
			if owner.panicked.recovered {
				th.finishRecovered(owner)
				return
			}
			th.unwind()
		}
		return
	}
	th.top = fr.caller
	if fr.onReturn != nil {
		fr.onReturn(v)
	}
	if th.top == nil {
		th.done = true
		th.syncEv("end", nil)
		return
	}
	if fr.onReturn == nil {
		c := th.top
		// the call instruction is the one before pc
		in := c.block.Instrs[c.pc-1]
		if cv, ok := in.(*ssa.Call); ok {
			c.set(cv, v)
		}
	}
}

func (th *Thread) nilDeref() goPanic {
	return th.p.rtPanic("runtime error: invalid memory address or nil pointer dereference")
}

func (th *Thread) jump(fr *Frame, to *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = to
	fr.pc = 0
	// phis are evaluated in parallel
	var vals []V
	n := 0
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n++
		for i, pred := range to.Preds {
			if pred == fr.prev {
				vals = append(vals, th.get(fr, phi.Edges[i]))
				break
			}
		}
	}
	for i := 0; i < n; i++ {
		fr.set(to.Instrs[i].(*ssa.Phi), vals[i])
	}
	fr.pc = n
}

func (th *Thread) cond(v V) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return th.p.branch(x)
	}
	panic(abort("cond %T", v))
}

func boolV(t *Term) V {
	if t.op == OConst {
		return t.b
	}
	return t
}

func (th *Thread) exec(fr *Frame, in ssa.Instruction) {
	p := th.p
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(x, th.unop(fr, x))
	case *ssa.BinOp:
		fr.set(x, th.binop(x.Op, x.X.Type(), th.get(fr, x.X), th.get(fr, x.Y), x.Y.Type()))
	case *ssa.Call:
		th.call(fr, &x.Call, x)
	case *ssa.ChangeInterface:
		fr.set(x, th.get(fr, x.X))
	case *ssa.ChangeType:
		fr.set(x, th.get(fr, x.X))
	case *ssa.Convert:
		fr.set(x, th.convert(x.X.Type(), x.Type(), th.get(fr, x.X)))
	case *ssa.MultiConvert:
		fr.set(x, th.convert(x.X.Type(), x.Type(), th.get(fr, x.X)))
	case *ssa.SliceToArrayPointer:
		s := th.get(fr, x.X).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			panic(p.rtPanic("runtime error: cannot convert slice to array pointer"))
		}
		cell := V(Array(s[:n:n]))
		fr.set(x, &cell)
	case *ssa.MakeInterface:
		fr.set(x, Iface{t: x.X.Type(), v: copyVal(th.get(fr, x.X))})
	case *ssa.MakeClosure:
		env := make([]V, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = th.get(fr, b)
		}
		fr.set(x, &Closure{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.MakeMap:
		m := newMap(x.Type().Underlying().(*types.Map).Key())
		th.alloc(m)
		fr.set(x, m)
	case *ssa.MakeChan:
		n := th.intv(th.get(fr, x.Size))
		p.chanID++
		c := &Chan{cap: int(n), id: p.chanID}
		th.alloc(c)
		fr.set(x, c)
	case *ssa.MakeSlice:
		n := th.intv(th.get(fr, x.Len))
		c := th.intv(th.get(fr, x.Cap))
		if n < 0 {
			panic(p.rtPanic("runtime error: makeslice: len out of range"))
		}
		if c < n {
			panic(p.rtPanic("runtime error: makeslice: cap out of range"))
		}
		if c > 1<<22 {
			panic(abort("huge allocation %d", c))
		}
		s := make(Slice, c)
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := p.zero(et)
		for i := range s {
			s[i] = copyVal(z)
		}
		th.alloc(s)
		fr.set(x, s[:n])
	case *ssa.Alloc:
		c := new(V)
		*c = p.zero(x.Type().(*types.Pointer).Elem())
		th.alloc(c)
		fr.set(x, c)
	case *ssa.FieldAddr:
		ptr := th.get(fr, x.X)
		fr.set(x, th.fieldAddr(ptr, x.Field))
	case *ssa.Field:
		s := th.get(fr, x.X).(Struct)
		fr.set(x, copyVal(s[x.Field]))
	case *ssa.IndexAddr:
		fr.set(x, th.indexAddr(th.get(fr, x.X), th.get(fr, x.Index), x.Index.Type()))
	case *ssa.Index:
		fr.set(x, th.index(th.get(fr, x.X), th.get(fr, x.Index), x.Index.Type()))
	case *ssa.Lookup:
		fr.set(x, th.lookup(fr, x))
	case *ssa.MapUpdate:
		m := th.get(fr, x.Map).(*Map)
		if m == nil {
			panic(p.rtPanic("assignment to entry in nil map"))
		}
		k := th.get(fr, x.Key)
		th.memAccess(m, true)
		m.set(p.keyOf(k), copyVal(k), copyVal(th.get(fr, x.Value)))
	case *ssa.Range:
		fr.set(x, th.rangeIter(th.get(fr, x.X)))
	case *ssa.Next:
		fr.set(x, th.next(th.get(fr, x.Iter), x))
	case *ssa.TypeAssert:
		fr.set(x, th.typeAssert(x, th.get(fr, x.X).(Iface)))
	case *ssa.Extract:
		fr.set(x, th.get(fr, x.Tuple).(Tuple)[x.Index])
	case *ssa.Slice:
		fr.set(x, th.slice(fr, x))
	case *ssa.Phi:
		panic(abort("phi executed"))
	case *ssa.Select:
		fr.set(x, th.selectStmt(fr, x))
	case *ssa.Store:
		ptr := th.get(fr, x.Addr)
		th.store(ptr, th.get(fr, x.Val))
	case *ssa.Send:
		th.send(th.get(fr, x.Chan).(*Chan), copyVal(th.get(fr, x.X)))
	case *ssa.If:
		cv := th.get(fr, x.Cond)
		if t, ok := cv.(*Term); ok && th.mergeSkip(fr, t) {
			return
		}
		if th.cond(cv) {
			th.jump(fr, fr.block.Succs[0])
		} else {
			th.jump(fr, fr.block.Succs[1])
		}
	case *ssa.Jump:
		th.jump(fr, fr.block.Succs[0])
	case *ssa.Return:
		var v V
		switch len(x.Results) {
		case 0:
		case 1:
			v = copyVal(th.get(fr, x.Results[0]))
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = copyVal(th.get(fr, r))
			}
			v = t
		}
		th.ret(fr, v)
	case *ssa.RunDefers:
		if n := len(fr.defers); n > 0 {
			d := fr.defers[n-1]
			fr.defers = fr.defers[:n-1]
			fr.pc-- // come back
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(blockReq); ok { // blocked inside an intrinsic: retry later
							fr.defers = append(fr.defers, d)
						}
						fr.pc++
						panic(r)
					}
				}()
				th.callDeferred(fr, d)
			}()
		}
	case *ssa.Panic:
		panic(goPanic{th.get(fr, x.X)})
	case *ssa.Go:
		cl, args, bi := th.prepareCall(fr, &x.Call)
		if bi != nil {
			panic(abort("go builtin"))
		}
		th.spawn(cl, args)
	case *ssa.Defer:
		cl, args, bi := th.prepareCall(fr, &x.Call)
		fr.defers = append(fr.defers, deferred{fn: cl, args: args, bi: bi, site: in})
	default:
		panic(abort("instr %T", in))
	}
}

func (th *Thread) spawn(cl *Closure, args []V) {
	p := th.p
	if cl == nil {
		panic(th.nilDeref())
	}
	nt := &Thread{p: p, id: len(p.threads), parent: th}
	p.threads = append(p.threads, nt)
	if p.crec != nil && p.initDepth == 0 {
		p.crec.fork(th.owner(), nt)
	}
	if cl.host != nil {
		cl.host(nt, args)
		nt.done = true
		return
	}
	nt.pushCall(cl, args, nil)
}

func (th *Thread) intv(v V) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		if x.IsConst() {
			return sext(x.bv, x.w)
		}
		return sext(uint64(th.p.concretizeTerm(x)), x.w)
	}
	panic(abort("intv %T", v))
}

func (th *Thread) fieldAddr(ptr V, i int) *V {
	switch q := ptr.(type) {
	case *V:
		if q == nil {
			panic(th.nilDeref())
		}
		s, ok := (*q).(Struct)
		if !ok {
			panic(abort("fieldAddr of %T at %s", *q, th.where()))
		}
		return &s[i]
	}
	panic(abort("fieldAddr %T", ptr))
}

func (th *Thread) checkIndex(iv V, n int, it types.Type) int {
	if t, ok := iv.(*Term); ok && !t.IsConst() {
		p := th.p
		w := t.w
		ii, _ := intOf(it)
		var in *Term
		if ii.signed {
			in = p.a.And(p.a.BCmp(OBSle, p.a.BV(0, w), t), p.a.BCmp(OBSlt, t, p.a.BV(uint64(n), w)))
		} else {
			in = p.a.BCmp(OBUlt, t, p.a.BV(uint64(n), w))
		}
		if !p.branch(in) {
			panic(p.rtPanic("runtime error: index out of range"))
		}
		return int(p.concretizeTerm(t))
	}
	i := th.intv(iv)
	if i < 0 || i >= int64(n) {
		panic(th.p.rtPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n)))
	}
	return int(i)
}

func (th *Thread) indexAddr(x V, iv V, it types.Type) V {
	switch s := x.(type) {
	case Slice:
		return &s[th.checkIndex(iv, len(s), it)]
	case *V:
		if s == nil {
			panic(th.nilDeref())
		}
		a := (*s).(Array)
		return &a[th.checkIndex(iv, len(a), it)]
	case *View:
		return s.at(th.checkIndex(iv, s.n, it))
	}
	panic(abort("indexAddr %T", x))
}

func (th *Thread) index(x V, iv V, it types.Type) V {
	switch s := x.(type) {
	case Array:
		return copyVal(s[th.checkIndex(iv, len(s), it)])
	case string:
		return int64(s[th.checkIndex(iv, len(s), it)])
	}
	panic(abort("index %T", x))
}

func (th *Thread) lookup(fr *Frame, x *ssa.Lookup) V {
	p := th.p
	m := th.get(fr, x.X)
	switch mm := m.(type) {
	case string:
		return int64(mm[th.checkIndex(th.get(fr, x.Index), len(mm), x.Index.Type())])
	case *Map:
		k := p.keyOf(th.get(fr, x.Index))
		if mm != nil {
			th.memAccess(mm, false)
		}
		i := mm.find(k)
		var v V
		if i >= 0 {
			v = copyVal(*mm.vals[i])
		} else {
			v = p.zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		if x.CommaOk {
			return Tuple{v, i >= 0}
		}
		return v
	}
	panic(abort("lookup %T", m))
}

type iter struct {
	m     *Map
	order []int
	pos   int
	str   []rune
	offs  []int
}

func (th *Thread) rangeIter(v V) V {
	switch m := v.(type) {
	case *Map:
		it := &iter{m: m}
		if m != nil {
			th.memAccess(m, false)
			for i := range m.keys {
				if !m.dead[i] {
					it.order = append(it.order, i)
				}
			}
			if r := th.recording(); r != nil {
				// the order must not depend on the order of the insertions
				sort.Slice(it.order, func(i, j int) bool { return r.fp(m.keys[it.order[i]]) < r.fp(m.keys[it.order[j]]) })
			}
			if th.p.mapOrder {
				// any iteration order
				var out []int
				rest := it.order
				for len(rest) > 0 {
					k := th.p.choose(len(rest))
					out = append(out, rest[k])
					rest = append(append([]int{}, rest[:k]...), rest[k+1:]...)
				}
				it.order = out
			}
		}
		return it
	case string:
		it := &iter{}
		for i, r := range m {
			it.str = append(it.str, r)
			it.offs = append(it.offs, i)
		}
		return it
	}
	panic(abort("range %T", v))
}

func (th *Thread) next(v V, x *ssa.Next) V {
	it := v.(*iter)
	p := th.p
	if x.IsString {
		if it.pos >= len(it.str) {
			return Tuple{false, int64(0), int64(0)}
		}
		i := it.pos
		it.pos++
		return Tuple{true, int64(it.offs[i]), int64(it.str[i])}
	}
	tt := x.Type().(*types.Tuple)
	for it.m != nil && it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if it.m.dead[i] {
			continue
		}
		return Tuple{true, copyVal(it.m.keys[i]), copyVal(*it.m.vals[i])}
	}
	z := Tuple{false, nil, nil}
	for i := 1; i <= 2; i++ {
		if t := tt.At(i).Type(); t != types.Typ[types.Invalid] {
			z[i] = p.zero(t)
		}
	}
	return z
}

func (th *Thread) typeAssert(x *ssa.TypeAssert, v Iface) V {
	p := th.p
	ok := false
	if v.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = p.eng.implements(v.t, it)
		} else {
			if _, host := v.t.(hostType); !host {
				ok = types.Identical(v.t, x.AssertedType)
			}
		}
	}
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	var r V
	if ok {
		if toIface {
			r = v
		} else {
			r = copyVal(v.v)
		}
	} else {
		if !x.CommaOk {
			msg := "interface conversion: interface is nil, not " + x.AssertedType.String()
			if v.t != nil {
				msg = "interface conversion: interface is " + v.t.String() + ", not " + x.AssertedType.String()
			}
			panic(p.rtPanic(msg))
		}
		r = p.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, ok}
	}
	return r
}

func (th *Thread) load(ptr V) V {
	switch q := ptr.(type) {
	case *V:
		if q == nil {
			panic(th.nilDeref())
		}
		th.memAccess(q, false)
		return copyVal(*q)
	case *ViewPtr:
		return q.load(th.p)
	case nil:
		panic(th.nilDeref())
	}
	panic(abort("load %T at %s", ptr, th.where()))
}

func (th *Thread) store(ptr V, v V) {
	switch q := ptr.(type) {
	case *V:
		if q == nil {
			panic(th.nilDeref())
		}
		th.memAccess(q, true)
		storeTo(q, v)
		return
	case *ViewPtr:
		q.store(th.p, v)
		return
	case nil:
		panic(th.nilDeref())
	}
	panic(abort("store %T at %s", ptr, th.where()))
}

func (th *Thread) unop(fr *Frame, x *ssa.UnOp) V {
	p := th.p
	v := th.get(fr, x.X)
	switch x.Op {
	case token.MUL:
		return th.load(v)
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *Term:
			return boolV(p.a.Not(b))
		}
	case token.SUB:
		switch n := v.(type) {
		case int64:
			ii, _ := intOf(x.Type())
			return ii.norm(uint64(-n))
		case *Term:
			switch n.sort {
			case SReal:
				return p.a.Neg(n)
			case SFP:
				return p.a.FUn(OFNeg, n)
			case SBV:
				return p.a.BNeg(n)
			}
		}
	case token.XOR:
		ii, _ := intOf(x.Type())
		switch n := v.(type) {
		case int64:
			return ii.norm(^uint64(n))
		case *Term:
			return p.a.BNot(n)
		}
	case token.ARROW:
		r, ok := th.recv(v.(*Chan), x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, ok}
		}
		return r
	}
	panic(abort("unop %s %T", x.Op, v))
}

func (p *Path) bv(v V, w uint8) *Term {
	switch x := v.(type) {
	case int64:
		return p.a.BV(uint64(x), w)
	case *Term:
		if x.w != w {
			panic(abort("bv width %d vs %d", x.w, w))
		}
		return x
	}
	panic(abort("bv %T", v))
}

func (ii intInfo) val(t *Term) V {
	if t.IsConst() {
		return ii.norm(t.bv)
	}
	return t
}

func (th *Thread) binop(op token.Token, t types.Type, x, y V, yt types.Type) V {
	p := th.p
	a := p.a
	switch op {
	case token.EQL:
		return boolV(p.equal(x, y))
	case token.NEQ:
		return boolV(a.Not(p.equal(x, y)))
	}
	if ii, ok := intOf(t); ok {
		xi, xc := x.(int64)
		yi, yc := y.(int64)
		if op == token.SHL || op == token.SHR {
			yii, _ := intOf(yt)
			if yc && yii.signed && yi < 0 {
				panic(p.rtPanic("runtime error: negative shift amount"))
			}
			if xc && yc {
				sh := uint64(yi)
				if op == token.SHL {
					if sh >= 64 {
						return int64(0)
					}
					return ii.norm(uint64(xi) << sh)
				}
				if ii.signed {
					if sh > 63 {
						sh = 63
					}
					return ii.norm(uint64(xi >> sh))
				}
				if sh >= 64 {
					return int64(0)
				}
				return ii.norm(mask(uint64(xi), ii.w) >> sh)
			}
			xb := p.bv(x, ii.w)
			var yb *Term
			if yc {
				sh := uint64(yi)
				if sh > uint64(ii.w) {
					sh = uint64(ii.w)
				}
				yb = a.BV(sh, ii.w)
			} else {
				yb = y.(*Term)
				if yb.w < ii.w {
					yb = a.Zext(yb, ii.w)
				} else if yb.w > ii.w {
					big := a.BCmp(OBUle, a.BV(uint64(ii.w), yb.w), yb)
					yb = a.Ite(big, a.BV(uint64(ii.w), ii.w), a.Extract(yb, 0, ii.w))
				}
			}
			o := OBShl
			if op == token.SHR {
				o = OBLshr
				if ii.signed {
					o = OBAshr
				}
			}
			return ii.val(a.BBin(o, xb, yb))
		}
		if xc && yc {
			ux, uy := uint64(xi), uint64(yi)
			switch op {
			case token.ADD:
				return ii.norm(ux + uy)
			case token.SUB:
				return ii.norm(ux - uy)
			case token.MUL:
				return ii.norm(ux * uy)
			case token.QUO, token.REM:
				if yi == 0 {
					panic(p.rtPanic("runtime error: integer divide by zero"))
				}
				if ii.signed {
					if yi == -1 {
						if op == token.QUO {
							return ii.norm(uint64(-xi))
						}
						return int64(0)
					}
					if op == token.QUO {
						return ii.norm(uint64(xi / yi))
					}
					return ii.norm(uint64(xi % yi))
				}
				ux, uy = mask(ux, ii.w), mask(uy, ii.w)
				if op == token.QUO {
					return ii.norm(ux / uy)
				}
				return ii.norm(ux % uy)
			case token.AND:
				return ii.norm(ux & uy)
			case token.OR:
				return ii.norm(ux | uy)
			case token.XOR:
				return ii.norm(ux ^ uy)
			case token.AND_NOT:
				return ii.norm(ux &^ uy)
			}
			if ii.signed {
				switch op {
				case token.LSS:
					return xi < yi
				case token.LEQ:
					return xi <= yi
				case token.GTR:
					return xi > yi
				case token.GEQ:
					return xi >= yi
				}
			}
			switch op {
			case token.LSS:
				return ux < uy
			case token.LEQ:
				return ux <= uy
			case token.GTR:
				return ux > uy
			case token.GEQ:
				return ux >= uy
			}
		}
		xb, yb := p.bv(x, ii.w), p.bv(y, ii.w)
		lt, le := OBUlt, OBUle
		if ii.signed {
			lt, le = OBSlt, OBSle
		}
		switch op {
		case token.ADD:
			return ii.val(a.BBin(OBAdd, xb, yb))
		case token.SUB:
			return ii.val(a.BBin(OBSub, xb, yb))
		case token.MUL:
			return ii.val(a.BBin(OBMul, xb, yb))
		case token.QUO, token.REM:
			if p.branch(a.Eq(yb, a.BV(0, ii.w))) {
				panic(p.rtPanic("runtime error: integer divide by zero"))
			}
			o := OBUdiv
			switch {
			case op == token.QUO && ii.signed:
				o = OBSdiv
			case op == token.REM && ii.signed:
				o = OBSrem
			case op == token.REM:
				o = OBUrem
			}
			return ii.val(a.BBin(o, xb, yb))
		case token.AND:
			return ii.val(a.BBin(OBAnd, xb, yb))
		case token.OR:
			return ii.val(a.BBin(OBOr, xb, yb))
		case token.XOR:
			return ii.val(a.BBin(OBXor, xb, yb))
		case token.AND_NOT:
			return ii.val(a.BBin(OBAnd, xb, a.BNot(yb)))
		case token.LSS:
			return boolV(a.BCmp(lt, xb, yb))
		case token.LEQ:
			return boolV(a.BCmp(le, xb, yb))
		case token.GTR:
			return boolV(a.BCmp(lt, yb, xb))
		case token.GEQ:
			return boolV(a.BCmp(le, yb, xb))
		}
	}
	switch xv := x.(type) {
	case string:
		yv := y.(string)
		switch op {
		case token.ADD:
			return xv + yv
		case token.LSS:
			return xv < yv
		case token.LEQ:
			return xv <= yv
		case token.GTR:
			return xv > yv
		case token.GEQ:
			return xv >= yv
		}
	case *Term:
		yv, ok := y.(*Term)
		if ok {
			return p.fbin(op, xv, yv)
		}
	case bool:
		yb := y
		if op == token.AND || op == token.OR { // not generated by ssa
			_ = yb
		}
	}
	panic(abort("binop %s %T %T", op, x, y))
}

// fbin is a floating-point operation in the active float mode.
func (p *Path) fbin(op token.Token, x, y *Term) V {
	a := p.a
	if x.sort == SFP {
		switch op {
		case token.ADD:
			return a.FBin(OFAdd, x, y)
		case token.SUB:
			return a.FBin(OFSub, x, y)
		case token.MUL:
			return a.FBin(OFMul, x, y)
		case token.QUO:
			return a.FBin(OFDiv, x, y)
		case token.LSS:
			return boolV(a.FCmp(OFLt, x, y))
		case token.LEQ:
			return boolV(a.FCmp(OFLe, x, y))
		case token.GTR:
			return boolV(a.FCmp(OFLt, y, x))
		case token.GEQ:
			return boolV(a.FCmp(OFLe, y, x))
		}
	}
	switch op {
	case token.ADD:
		return a.Add(x, y)
	case token.SUB:
		return a.Sub(x, y)
	case token.MUL:
		return p.fmul(x, y)
	case token.QUO:
		if a.onDen != nil {
			a.onDen(y)
		}
		if y.op == OPosInf || y.op == ONegInf {
			if x.special() {
				return a.NaN()
			}
			return a.r0
		}
		if x.special() && !y.special() {
			return p.fmul(x, a.Div(a.r1, y))
		}
		return a.Div(x, y)
	case token.LSS:
		return boolV(a.RLt(x, y))
	case token.LEQ:
		return boolV(a.RLe(x, y))
	case token.GTR:
		return boolV(a.RLt(y, x))
	case token.GEQ:
		return boolV(a.RLe(y, x))
	}
	panic(abort("fbin %s", op))
}

func (p *Path) fmul(x, y *Term) *Term {
	if r := p.a.Mul(x, y); r != nil {
		return r
	}
	if y.special() {
		x, y = y, x
	}
	// x infinite, sign of y unknown
	if p.branch(p.a.RLt(p.a.r0, y)) {
		return x
	}
	if p.branch(p.a.RLt(y, p.a.r0)) {
		return p.a.Neg(x)
	}
	return p.a.NaN()
}

func (th *Thread) convert(from, to types.Type, v V) V {
	p := th.p
	a := p.a
	fu, tu := from.Underlying(), to.Underlying()
	if tb, ok := tu.(*types.Basic); ok {
		if tb.Kind() == types.UnsafePointer {
			if pt, ok := fu.(*types.Pointer); ok {
				if cv, ok := th.curInstr.(*ssa.Convert); ok {
					th.noteBase(cv.X, v)
				}
				return UPtr{v, pt.Elem()}
			}
			if u, ok := v.(UPtr); ok {
				return u
			}
			panic(abort("unsafe.Pointer from %s", from))
		}
		if tii, ok := intOf(to); ok {
			if fii, ok := intOf(from); ok {
				switch n := v.(type) {
				case int64:
					return tii.norm(uint64(n))
				case *Term:
					if fii.signed {
						return tii.val(a.Sext(n, tii.w))
					}
					return tii.val(a.Zext(n, tii.w))
				}
			}
			if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsFloat != 0 {
				return p.floatToInt(v.(*Term), tii)
			}
			if u, ok := v.(UPtr); ok && tb.Kind() == types.Uintptr {
				_ = u
				panic(abort("uintptr conversion"))
			}
		}
		if tb.Info()&types.IsFloat != 0 {
			w := fwidth(tb)
			if fii, ok := intOf(from); ok {
				switch n := v.(type) {
				case int64:
					if p.fp {
						return a.FFromInt(a.BV(uint64(n), fii.w), fii.signed, w)
					}
					if fii.signed {
						return a.RInt(n)
					}
					return a.Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(uint64(n))))
				case *Term:
					if p.fp {
						return a.FFromInt(n, fii.signed, w)
					}
					return a.BV2Real(n, fii.signed)
				}
			}
			t := v.(*Term)
			if t.sort == SFP {
				return a.FCvt(t, w)
			}
			return t
		}
		if tb.Info()&types.IsString != 0 {
			switch s := v.(type) {
			case string:
				return s
			case Slice:
				if fs, ok := fu.(*types.Slice); ok {
					if eb, ok := fs.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
						b := make([]byte, len(s))
						for i, e := range s {
							b[i] = byte(th.intv(e))
						}
						return string(b)
					}
					r := make([]rune, len(s))
					for i, e := range s {
						r[i] = rune(th.intv(e))
					}
					return string(r)
				}
			case int64:
				return string(rune(s))
			}
		}
		if tb.Info()&types.IsBoolean != 0 {
			return v
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		if s, ok := v.(string); ok {
			eb := t.Elem().Underlying().(*types.Basic)
			var out Slice
			if eb.Kind() == types.Uint8 {
				out = make(Slice, len(s))
				for i := 0; i < len(s); i++ {
					out[i] = int64(s[i])
				}
			} else {
				for _, r := range s {
					out = append(out, int64(r))
				}
			}
			return out
		}
		return v
	case *types.Pointer:
		if u, ok := v.(UPtr); ok {
			if isNilPtr(u.p) {
				return (*V)(nil)
			}
			if types.Identical(u.elem.Underlying(), t.Elem().Underlying()) {
				return u.p
			}
			return p.reinterpret(th, u, t.Elem())
		}
		return v
	}
	return v
}

// noteBase remembers which slice an element address was taken from.
func (th *Thread) noteBase(src ssa.Value, v V) {
	q, ok := v.(*V)
	if !ok {
		return
	}
	for {
		switch x := src.(type) {
		case *ssa.ChangeType:
			src = x.X
			continue
		case *ssa.IndexAddr:
			fr := th.top
			if s, ok := th.get(fr, x.X).(Slice); ok {
				i := int(th.intv(th.get(fr, x.Index)))
				th.p.side[sliceKey{q}] = s[i:cap(s):cap(s)]
			}
		}
		return
	}
}

func (p *Path) floatToInt(t *Term, ii intInfo) V {
	a := p.a
	if t.sort == SFP {
		return ii.val(a.FToInt(t, ii.signed, ii.w))
	}
	if t.IsConst() {
		q := new(big.Int).Quo(t.rat.Num(), t.rat.Denom())
		if !q.IsInt64() {
			return ii.norm(1 << 63)
		}
		return ii.norm(uint64(q.Int64()))
	}
	if t.op == OBV2Real {
		src := t.args[0]
		if t.bv == 1 {
			return ii.val(a.Sext(src, ii.w))
		}
		return ii.val(a.Zext(src, ii.w))
	}
	if t.special() {
		return ii.norm(1 << 63)
	}
	// truncate: fork over the feasible integer values near the witnesses
	for n := 0; n < 64; n++ {
		var k int64
		if p.pos < len(p.prefix) {
			d, _ := p.nextDecision()
			k = int64(d)
		} else {
			if len(p.alive) == 0 {
				if e := p.sample(nil, 200); e != nil {
					p.alive = append(p.alive, e)
				} else {
					panic(abort("float to int conversion of symbolic value"))
				}
			}
			k = int64(p.alive[0].R(t))
			p.taken = append(p.taken, int32(k))
			p.pos++
		}
		lo, hi := a.RInt(k), a.RInt(k+1)
		var in *Term
		switch {
		case k > 0:
			in = a.And(a.RLe(lo, t), a.RLt(t, hi))
		case k < 0:
			in = a.And(a.RLt(a.RInt(k-1), t), a.RLe(t, lo))
		default:
			in = a.And(a.RLt(a.RInt(-1), t), a.RLt(t, hi))
		}
		if p.branch(in) {
			return ii.norm(uint64(k))
		}
	}
	panic(abort("float to int conversion with many values"))
}

func (th *Thread) slice(fr *Frame, x *ssa.Slice) V {
	v := th.get(fr, x.X)
	opt := func(s ssa.Value) (int64, bool) {
		if s == nil {
			return 0, false
		}
		return th.intv(th.get(fr, s)), true
	}
	lo, _ := opt(x.Low)
	hi, hasHi := opt(x.High)
	mx, hasMax := opt(x.Max)
	bad := func(n int) goPanic {
		return th.p.rtPanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", lo, hi, n))
	}
	switch s := v.(type) {
	case string:
		if !hasHi {
			hi = int64(len(s))
		}
		if lo < 0 || hi > int64(len(s)) || lo > hi {
			panic(bad(len(s)))
		}
		return s[lo:hi]
	case Slice:
		if !hasHi {
			hi = int64(len(s))
		}
		if !hasMax {
			mx = int64(cap(s))
		}
		if lo < 0 || lo > hi || hi > mx || mx > int64(cap(s)) {
			panic(bad(cap(s)))
		}
		if s == nil {
			return Slice(nil)
		}
		return s[lo:hi:mx]
	case *V:
		if s == nil {
			panic(th.nilDeref())
		}
		a := (*s).(Array)
		if !hasHi {
			hi = int64(len(a))
		}
		if !hasMax {
			mx = int64(len(a))
		}
		if lo < 0 || lo > hi || hi > mx || mx > int64(len(a)) {
			panic(bad(len(a)))
		}
		return Slice(a[lo:hi:mx])
	case *View:
		if !hasHi {
			hi = int64(s.n)
		}
		if lo < 0 || lo > hi || hi > int64(s.n) {
			panic(bad(s.n))
		}
		return s.sub(int(lo), int(hi))
	}
	panic(abort("slice of %T", v))
}

// ---------- calls ----------

func (th *Thread) prepareCall(fr *Frame, c *ssa.CallCommon) (*Closure, []V, *ssa.Builtin) {
	p := th.p
	args := make([]V, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv := th.get(fr, c.Value).(Iface)
		if recv.t == nil {
			panic(th.nilDeref())
		}
		if ht, ok := recv.t.(hostType); ok {
			for _, a := range c.Args {
				args = append(args, copyVal(th.get(fr, a)))
			}
			m := c.Method.Name()
			rv := recv.v
			return &Closure{host: func(t2 *Thread, as []V) V { return ht.call(p, t2, rv, m, as) }}, args, nil
		}
		fn := p.eng.lookupMethod(recv.t, c.Method)
		if fn == nil {
			panic(abort("no method %s on %s", c.Method, recv.t))
		}
		args = append(args, copyVal(recv.v))
		for _, a := range c.Args {
			args = append(args, copyVal(th.get(fr, a)))
		}
		return &Closure{fn: fn}, args, nil
	}
	for _, a := range c.Args {
		args = append(args, copyVal(th.get(fr, a)))
	}
	switch f := c.Value.(type) {
	case *ssa.Builtin:
		return nil, args, f
	case *ssa.Function:
		return &Closure{fn: f}, args, nil
	}
	cl, ok := th.get(fr, c.Value).(*Closure)
	if !ok {
		panic(abort("call of %T", th.get(fr, c.Value)))
	}
	return cl, args, nil
}

func (th *Thread) call(fr *Frame, c *ssa.CallCommon, x *ssa.Call) {
	cl, args, bi := th.prepareCall(fr, c)
	if bi != nil {
		if th.p.spec != nil && bi.Name() != "len" && bi.Name() != "cap" {
			panic(specFail{})
		}
		fr.set(x, th.builtin(fr, bi, args, c, x))
		return
	}
	if cl == nil {
		panic(th.nilDeref())
	}
	if th.p.spec != nil && cl.host != nil {
		panic(specFail{})
	}
	if cl.host != nil {
		fr.set(x, cl.host(th, args))
		return
	}
	if v, ok := th.p.tryIntrinsic(th, cl, args); ok {
		fr.set(x, v)
		return
	}
	if cl.fn.Pkg != nil && cl.fn.Name() == "init" && cl.fn.Signature.Recv() == nil && cl.fn.Synthetic != "" {
		// package initialisers are run lazily
		if fr.fn.Name() == "init" && cl.fn.Pkg != fr.fn.Pkg {
			fr.set(x, nil)
			return
		}
	}
	n := 0
	for f := th.top; f != nil; f = f.caller {
		n++
		if n > 2000 {
			panic(th.p.rtPanic("stack overflow"))
		}
		if n > 400 && n%100 != 0 {
			continue
		}
	}
	th.pushCall(cl, args, x)
}

func (th *Thread) builtin(fr *Frame, bi *ssa.Builtin, args []V, c *ssa.CallCommon, site ssa.Instruction) V {
	p := th.p
	switch bi.Name() {
	case "len":
		switch s := args[0].(type) {
		case Slice:
			return int64(len(s))
		case string:
			return int64(len(s))
		case *Map:
			if s == nil {
				return int64(0)
			}
			th.memAccess(s, false)
			return int64(s.n)
		case *Chan:
			if s == nil {
				return int64(0)
			}
			return int64(len(s.buf))
		case Array:
			return int64(len(s))
		case *V:
			return int64(len((*s).(Array)))
		case *View:
			return int64(s.n)
		}
	case "cap":
		switch s := args[0].(type) {
		case Slice:
			return int64(cap(s))
		case *Chan:
			if s == nil {
				return int64(0)
			}
			return int64(s.cap)
		case Array:
			return int64(len(s))
		case *V:
			return int64(len((*s).(Array)))
		case *View:
			return int64(s.n)
		}
	case "append":
		var s Slice
		if args[0] != nil {
			s = args[0].(Slice)
		}
		switch e := args[1].(type) {
		case Slice:
			for i := range e {
				th.memAccess(&e[i], false)
			}
			n0 := len(s)
			if len(e) > 0 && n0+len(e) > cap(s) {
				// grow exactly as little as needed doubling, like Go's amortised growth
				nc := cap(s) * 2
				if nc < n0+len(e) {
					nc = n0 + len(e)
				}
				et := bi.Type().(*types.Signature).Results()
				_ = et
				ns := make(Slice, n0, nc)
				for i := range s {
					th.memAccess(&s[i], false)
				}
				copy(ns, s)
				s = ns
				full := s[:nc]
				z := p.zeroLike(args, c)
				for i := n0; i < nc; i++ {
					full[i] = copyVal(z)
				}
				th.alloc(full)
			}
			base := s[:n0]
			if len(e) == 0 {
				return s
			}
			s = base[: n0+len(e) : cap(base)]
			tmp := make([]V, len(e))
			for i := range e {
				tmp[i] = copyVal(e[i])
			}
			for i := range tmp {
				th.memAccess(&s[n0+i], true)
				s[n0+i] = tmp[i]
			}
			return s
		case string:
			out := append(Slice{}, s...)
			for i := 0; i < len(e); i++ {
				out = append(out, int64(e[i]))
			}
			return out
		case *View:
			for i := 0; i < e.n; i++ {
				s = append(s, e.at(i).load(p))
			}
			return s
		case nil:
			return s
		}
	case "copy":
		switch d := args[0].(type) {
		case Slice:
			switch s := args[1].(type) {
			case Slice:
				n := len(d)
				if len(s) < n {
					n = len(s)
				}
				tmp := make([]V, n)
				for i := range tmp {
					th.memAccess(&s[i], false)
					tmp[i] = copyVal(s[i])
				}
				for i := range tmp {
					th.memAccess(&d[i], true)
					storeTo(&d[i], tmp[i])
				}
				return int64(n)
			case string:
				n := len(d)
				if len(s) < n {
					n = len(s)
				}
				for i := 0; i < n; i++ {
					d[i] = int64(s[i])
				}
				return int64(n)
			case *View:
				n := len(d)
				if s.n < n {
					n = s.n
				}
				for i := 0; i < n; i++ {
					d[i] = s.at(i).load(p)
				}
				return int64(n)
			}
		case *View:
			if s, ok := args[1].(Slice); ok {
				n := d.n
				if len(s) < n {
					n = len(s)
				}
				for i := 0; i < n; i++ {
					d.at(i).store(p, s[i])
				}
				return int64(n)
			}
		}
	case "delete":
		if m := args[0].(*Map); m != nil {
			th.memAccess(m, true)
			m.del(p.keyOf(args[1]))
		}
		return nil
	case "clear":
		switch m := args[0].(type) {
		case *Map:
			if m != nil {
				nm := newMap(m.keyType)
				*m = *nm
			}
		case Slice:
			if len(m) > 0 {
				z := p.zero(c.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range m {
					storeTo(&m[i], z)
				}
			}
		}
		return nil
	case "close":
		th.closeChan(args[0].(*Chan))
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		// the deferring frame is the owner of the calling deferred frame
		if fr.deferOf != nil && fr.deferOf.panicked != nil && !fr.deferOf.panicked.recovered {
			fr.deferOf.panicked.recovered = true
			return fr.deferOf.panicked.val
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch xv := r.(type) {
			case int64:
				yv := y.(int64)
				if (bi.Name() == "min") == (yv < xv) {
					r = y
				}
			case *Term:
				yv := y.(*Term)
				if xv.sort == SReal || xv.sort == SFP {
					r = p.fminmax(xv, yv, bi.Name() == "max")
				} else {
					panic(abort("min/max of symbolic ints"))
				}
			case string:
				if (bi.Name() == "min") == (y.(string) < xv) {
					r = y
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			panic(p.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", args[1], args[2])))
		}
		return args[0]
	case "Slice": // unsafe.Slice
		return p.unsafeSlice(th, args, c)
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return (*V)(nil)
		}
		s = s[:cap(s)]
		p.side[sliceKey{&s[0]}] = s
		return &s[0]
	case "String": // unsafe.String
	}
	panic(abort("builtin %s(%T)", bi.Name(), args))
}

func (p *Path) zeroLike(args []V, c *ssa.CallCommon) V {
	if c != nil {
		if st, ok := c.Args[0].Type().Underlying().(*types.Slice); ok {
			return p.zero(st.Elem())
		}
	}
	return nil
}

func (p *Path) fminmax(x, y *Term, max bool) *Term {
	a := p.a
	if x.sort == SFP {
		// math.Max semantics on NaN / signed zero are left to forks
		nan := a.Or(a.FIsNaN(x), a.FIsNaN(y))
		if p.branch(nan) {
			return a.FP(math.NaN(), x.w)
		}
		c := a.FCmp(OFLt, x, y)
		if p.branch(c) == max {
			return y
		}
		return x
	}
	if x.op == ONaN || y.op == ONaN {
		return a.NaN()
	}
	c := a.RLt(x, y)
	if !max {
		x, y = y, x
	}
	if b, ok := p.known(c); ok {
		if b {
			return y
		}
		return x
	}
	if r := a.Ite(c, y, x); r != nil {
		return r
	}
	if p.branch(c) {
		return y
	}
	return x
}
