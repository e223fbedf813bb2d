package main

import (
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Merging of skip guards.  A branch "if v == 0 { skip } else { work }" whose work
// only changes float cells, each by something that vanishes with v, needs no
// fork: the work is done on both sides.  The work is executed speculatively; its
// writes are undone when it turns out to do anything else.

type specRun struct {
	log   []specWrite
	seen  map[*V]bool
	steps int
}

type specWrite struct {
	cell *V
	old  V
}

type specFail struct{}

var noMerge = os.Getenv("GOSYM_NOMERGE") != ""

func (s *specRun) note(loc any) {
	c, ok := loc.(*V)
	if !ok {
		panic(specFail{})
	}
	if s.seen[c] {
		return
	}
	if t, ok := (*c).(*Term); !ok || t.sort != SReal {
		panic(specFail{})
	}
	s.seen[c] = true
	s.log = append(s.log, specWrite{c, *c})
}

// mergeSkip executes the guarded block of the branch x on the condition t
// without forking, when that is the same on both sides.
func (th *Thread) mergeSkip(fr *Frame, t *Term) bool {
	p := th.p
	if p.spec != nil || p.fp || p.crec != nil || noMerge {
		return false
	}
	eq, skip := t, 0
	if t.op == ONot {
		eq, skip = t.args[0], 1
	}
	if eq.op != OEq || eq.args[0].sort != SReal || eq.args[0].special() || eq.args[1].special() {
		return false
	}
	if p.pcSet[t] || p.pcSet[p.a.Not(t)] {
		return false
	}
	from := fr.block
	join, body := from.Succs[skip], from.Succs[1-skip]
	if join == body || len(body.Succs) != 1 || body.Succs[0] != join || len(body.Preds) != 1 {
		return false
	}
	v := p.a.Sub(eq.args[0], eq.args[1])
	prev, pc, regs := fr.prev, fr.pc, append([]V{}, fr.regs...)
	cur, steps := th.curInstr, p.steps
	p.spec = &specRun{seen: map[*V]bool{}}
	ok := func() (ok bool) {
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case specFail, goPanic, blockReq, stopPath, abortErr:
					ok = false
				default:
					panic(r)
				}
			}
		}()
		th.jump(fr, body)
		for !(th.top == fr && fr.block == join) {
			f := th.top
			in := f.block.Instrs[f.pc]
			f.pc++
			th.curInstr = in
			switch in.(type) {
			case *ssa.DebugRef, *ssa.UnOp, *ssa.BinOp, *ssa.Call, *ssa.ChangeType, *ssa.Convert, *ssa.Extract,
				*ssa.Field, *ssa.FieldAddr, *ssa.Index, *ssa.IndexAddr, *ssa.If, *ssa.Jump, *ssa.Phi,
				*ssa.Return, *ssa.Slice, *ssa.Store:
			default:
				return false
			}
			th.exec(f, in)
			if p.spec.steps++; p.spec.steps > 20000 || th.done || th.blocked != nil {
				return false
			}
		}
		return true
	}()
	spec := p.spec
	p.spec = nil
	if ok {
		// values that flow into the join must not tell the sides apart
		n := 0
		for i, pred := range join.Preds {
			if pred != from {
				continue
			}
			for _, in := range join.Instrs {
				phi, isPhi := in.(*ssa.Phi)
				if !isPhi {
					break
				}
				n++
				save := fr.regs
				fr.regs = regs
				a := th.get(fr, phi.Edges[i])
				fr.regs = save
				if !p.a.vanishes(v, a, th.get(fr, phi)) {
					ok = false
				}
			}
			break
		}
		for _, w := range spec.log {
			if !ok || !p.a.vanishes(v, w.old, *w.cell) {
				ok = false
				break
			}
		}
	}
	if ok {
		p.h.count(func(s *HStats) { s.Merged++ })
		return true
	}
	for i := len(spec.log) - 1; i >= 0; i-- {
		*spec.log[i].cell = spec.log[i].old
	}
	th.top, th.curInstr, th.blocked = fr, cur, nil
	fr.block, fr.prev, fr.pc = from, prev, pc
	copy(fr.regs, regs)
	p.steps = steps
	return false
}

// vanishes: x and y are equal wherever v is zero.
func (a *Arena) vanishes(v *Term, x, y V) bool {
	xt, ok1 := x.(*Term)
	yt, ok2 := y.(*Term)
	if !ok1 || !ok2 {
		switch x.(type) {
		case bool, int64, int, uint64, string, int32, uint32, uint8, int8, int16, uint16, nil:
			return x == y
		}
		return false
	}
	if xt == yt {
		return true
	}
	if xt.sort != SReal || yt.sort != SReal || xt.special() || yt.special() {
		return false
	}
	d := a.Sub(yt, xt)
	if d.IsConst() {
		return d.rat.Sign() == 0
	}
	n, m := a.numerator(d), a.numerator(v)
	return n != nil && m != nil && divides(m, n)
}

func monoDeg(m *mono) int {
	d := 0
	for _, f := range m.fs {
		d += f.k
	}
	return d
}

// monoLess is the graded lexicographic order.
func monoLess(x, y *mono) bool {
	if dx, dy := monoDeg(x), monoDeg(y); dx != dy {
		return dx < dy
	}
	for i := 0; i < len(x.fs) && i < len(y.fs); i++ {
		f, g := x.fs[i], y.fs[i]
		if f.t != g.t {
			return f.t.id > g.t.id // the one with the smaller id has the higher power of it
		}
		if f.k != g.k {
			return f.k < g.k
		}
	}
	return len(x.fs) < len(y.fs)
}

func (p poly) lead() *mono {
	var best *mono
	for _, m := range p {
		if best == nil || monoLess(best, m) {
			best = m
		}
	}
	return best
}

// divides tells whether d divides n (false when that takes too long).
func divides(d, n poly) bool {
	if len(n) == 0 {
		return true
	}
	if len(d) == 0 {
		return false
	}
	ld := d.lead()
	r := poly{}
	for _, m := range n {
		r.add(m.c, m.fs)
	}
	for i := 0; i < 4000 && len(r) > 0; i++ {
		lr := r.lead()
		q, ok := monoDiv(lr, ld)
		if !ok {
			return false
		}
		for _, m := range d {
			r.add(new(big.Rat).Neg(new(big.Rat).Mul(q.c, m.c)), monoMul(q.fs, m.fs))
		}
	}
	return len(r) == 0
}

func monoDiv(x, y *mono) (*mono, bool) {
	pw := map[*Term]int{}
	for _, f := range y.fs {
		pw[f.t] = f.k
	}
	var out []factor
	for _, f := range x.fs {
		k := f.k - pw[f.t]
		if k < 0 {
			return nil, false
		}
		delete(pw, f.t)
		if k > 0 {
			out = append(out, factor{f.t, k})
		}
	}
	if len(pw) > 0 {
		return nil, false
	}
	return &mono{c: new(big.Rat).Quo(x.c, y.c), fs: out}, true
}

// monoMul multiplies sorted factor lists.
func monoMul(x, y []factor) []factor {
	out := make([]factor, 0, len(x)+len(y))
	for len(x) > 0 && len(y) > 0 {
		switch {
		case x[0].t == y[0].t:
			out = append(out, factor{x[0].t, x[0].k + y[0].k})
			x, y = x[1:], y[1:]
		case x[0].t.id < y[0].t.id:
			out = append(out, x[0])
			x = x[1:]
		default:
			out = append(out, y[0])
			y = y[1:]
		}
	}
	out = append(out, x...)
	return append(out, y...)
}

// specAllowed: library models without effects other than on float cells.
func specAllowed(fn *ssa.Function) bool {
	if fn.Pkg == nil {
		return false
	}
	path := fn.Pkg.Pkg.Path()
	return path == "math" || strings.HasSuffix(path, "/asm32") || strings.HasSuffix(path, "/asm64") || strings.HasSuffix(path, "/matfuncs")
}
