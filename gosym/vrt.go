package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) newVar(kind string, s Sort, w uint8) *Term {
	t := p.a.Var(fmt.Sprintf("%s%d", kind, len(p.inputs)), s, w)
	p.inputs = append(p.inputs, Input{Kind: kind, t: t, w: w})
	return t
}

func typeArgWidth(fn *ssa.Function) uint8 {
	if ta := fn.TypeArgs(); len(ta) > 0 {
		if b, ok := ta[0].Underlying().(*types.Basic); ok {
			return fwidth(b)
		}
	}
	return 64
}

func (p *Path) floatVar(fn *ssa.Function) *Term {
	w := typeArgWidth(fn)
	if p.fp {
		return p.newVar("f", SFP, w)
	}
	return p.newVar("f", SReal, 64)
}

// noteBound records, for the evidence, the values a choice of the harness took.
func (p *Path) noteBound(th *Thread, lo, hi int64) {
	var at token.Pos
	for fr := th.top; fr != nil && at == 0; fr = fr.caller {
		fn := fr.fn
		if fn.Origin() != nil {
			fn = fn.Origin()
		}
		pk := fn.Pkg
		for q := fn.Parent(); pk == nil && q != nil; q = q.Parent() {
			pk = q.Pkg
		}
		if pk == nil || !strings.Contains(pk.Pkg.Path(), "zzverif/c") || fr.block == nil {
			continue
		}
		for i := fr.pc - 1; i >= 0 && i < len(fr.block.Instrs); i-- {
			if ps := fr.block.Instrs[i].Pos(); ps.IsValid() {
				at = ps
				break
			}
		}
	}
	if at == 0 {
		return
	}
	if p.bnds == nil {
		p.bnds = map[token.Pos][2]int64{}
	}
	if b, ok := p.bnds[at]; ok {
		lo, hi = min(lo, b[0]), max(hi, b[1])
	}
	p.bnds[at] = [2]int64{lo, hi}
}

// mergeBounds adds the choices of a path to its harness.
func (h *Harness) mergeBounds(p *Path) {
	h.bmu.Lock()
	defer h.bmu.Unlock()
	if h.bnds == nil {
		h.bnds = map[token.Pos][2]int64{}
	}
	for at, r := range p.bnds {
		if b, ok := h.bnds[at]; ok {
			r[0], r[1] = min(r[0], b[0]), max(r[1], b[1])
		}
		h.bnds[at] = r
	}
	h.maxIn = max(h.maxIn, len(p.inputs))
}

func (th *Thread) pos() string {
	p := th.p
	for fr := th.top; fr != nil; fr = fr.caller {
		if fr.pc > 0 {
			if ps := fr.block.Instrs[fr.pc-1].Pos(); ps.IsValid() {
				pp := p.eng.prog.Fset.Position(ps)
				return fmt.Sprintf("%s:%d", shortFile(pp.Filename), pp.Line)
			}
		}
	}
	return ""
}

func (p *Path) asBool(v V) *Term {
	switch x := v.(type) {
	case bool:
		return p.a.Bool(x)
	case *Term:
		return x
	}
	panic(abort("asBool %T", v))
}

func (p *Path) sameTerm(x, y *Term) *Term {
	if x.sort == SReal && (x.special() || y.special()) {
		return p.a.Bool(x.op == y.op && x.special())
	}
	return p.a.Eq(x, y)
}

func registerVRT() {
	V0 := func(name string, f func(th *Thread, fn *ssa.Function, a []V) V) { reg(f, vrtPath+"."+name) }
	V0("Choose", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		n := int(th.intv(a[0]))
		if n <= 1 {
			return int64(0)
		}
		k := p.choose(n)
		p.noteBound(th, int64(k), int64(k))
		p.inputs = append(p.inputs, Input{Kind: "c", Val: strconv.Itoa(k)})
		return int64(k)
	})
	V0("Int", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		lo, hi := th.intv(a[0]), th.intv(a[1])
		p.noteBound(th, lo, hi)
		t := p.newVar("i", SBV, 64)
		p.hints[t] = &VarHint{lo: lo, hi: hi, ranged: true}
		p.assume(p.a.And(p.a.BCmp(OBSle, p.a.BV(uint64(lo), 64), t), p.a.BCmp(OBSle, t, p.a.BV(uint64(hi), 64))))
		return t
	})
	V0("U64", func(th *Thread, fn *ssa.Function, a []V) V { return th.p.newVar("u", SBV, 64) })
	V0("U32", func(th *Thread, fn *ssa.Function, a []V) V { return th.p.newVar("u", SBV, 32) })
	V0("Byte", func(th *Thread, fn *ssa.Function, a []V) V { return th.p.newVar("u", SBV, 8) })
	V0("Bool", func(th *Thread, fn *ssa.Function, a []V) V { return th.p.newVar("b", SBool, 0) })
	V0("F", func(th *Thread, fn *ssa.Function, a []V) V { return th.p.floatVar(fn) })
	V0("FIn", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		t := p.floatVar(fn)
		lo, hi := ft(a[0]), ft(a[1])
		if p.fp {
			lo, hi = p.a.FCvt(lo, t.w), p.a.FCvt(hi, t.w)
			p.assume(p.a.And(p.a.FCmp(OFLe, lo, t), p.a.FCmp(OFLe, t, hi)))
			return t
		}
		l, h := ratF(lo.rat), ratF(hi.rat)
		p.hints[t] = &VarHint{flo: l, fhi: h, franged: true}
		p.assume(p.a.And(p.a.RLe(lo, t), p.a.RLe(t, hi)))
		return t
	})
	V0("Pos", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		t := p.floatVar(fn)
		if p.fp {
			p.assume(p.a.And(p.a.FCmp(OFLt, p.a.FP(0, t.w), t)))
			return t
		}
		p.hints[t] = &VarHint{flo: 0.03, fhi: 4, franged: true}
		p.assume(p.a.RLt(p.a.r0, t))
		return t
	})
	V0("Buf", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		n, off := int(th.intv(a[0])), th.intv(a[1])
		w := typeArgWidth(fn)
		s := make(Slice, n)
		for i := range s {
			s[i] = p.fconst(0, w)
		}
		p.newBuf(s, int64(w/8), off*int64(w/8))
		return s
	})
	V0("Assume", func(th *Thread, fn *ssa.Function, a []V) V {
		th.p.assume(th.p.asBool(a[0]))
		return nil
	})
	V0("Assert", func(th *Thread, fn *ssa.Function, a []V) V {
		th.p.assert(th.p.asBool(a[0]), a[1].(string), th.pos())
		return nil
	})
	eq := func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		x, y := ft(a[0]), ft(a[1])
		p.obs = append(p.obs, x)
		p.assert(p.sameTerm(x, y), a[2].(string), th.pos())
		return nil
	}
	V0("AssertEq", eq)
	V0("AssertSame", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		p.assert(p.sameTerm(ft(a[0]), ft(a[1])), a[2].(string), th.pos())
		return nil
	})
	le := func(strict bool) func(th *Thread, fn *ssa.Function, a []V) V {
		return func(th *Thread, fn *ssa.Function, a []V) V {
			p := th.p
			x, y := ft(a[0]), ft(a[1])
			var c *Term
			if p.fp {
				op := OFLe
				if strict {
					op = OFLt
				}
				c = p.a.FCmp(op, x, y)
			} else if strict {
				c = p.a.RLt(x, y)
			} else {
				c = p.a.RLe(x, y)
			}
			p.assert(c, a[2].(string), th.pos())
			return nil
		}
	}
	V0("AssertLe", le(false))
	V0("AssertLt", le(true))
	V0("Tol", func(th *Thread, fn *ssa.Function, a []V) V { return nil })
	V0("Deriv", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		xs := a[1].(Slice)
		p.asked = map[*Term]bool{}
		y := ft(p.runNested(a[0].(*Closure), []V{append(Slice{}, xs...)}))
		asked := p.asked
		p.asked = nil
		p.smoothIte(y, asked)
		out := make(Slice, len(xs))
		for i, x := range xs {
			xt := ft(x)
			if xt.op != OVar {
				panic(abort("Deriv wrt non-input %s", xt))
			}
			d, err := p.a.Diff(y, xt)
			if err != nil {
				panic(abort("Deriv: %v", err))
			}
			out[i] = d
		}
		return out
	})
	V0("ExpSafe", func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		var args, small []*Term
		p.a.onExp = func(x *Term) { args = append(args, x) }
		p.a.onLn = func(x *Term) { small = append(small, x) }
		p.a.onDen = func(x *Term) {
			if p.hasUF(x) {
				small = append(small, x)
			}
		}
		off := func() { p.a.onExp, p.a.onLn, p.a.onDen = nil, nil, nil }
		defer off()
		p.runNested(a[0].(*Closure), []V{p.a.r1})
		off()
		pos := th.pos()
		// a sum that contains exp(0) cannot vanish
		for _, x := range small {
			if x.special() {
				p.assert(p.a.Bool(false), a[1].(string), pos)
				continue
			}
			p.assert(p.a.RLe(p.a.Rat(big.NewRat(1, 1000)), x), a[1].(string)+": no logarithm of, or division by, a vanishing sum", pos)
		}
		for _, x := range args {
			if x.special() {
				p.assert(p.a.Bool(x.op == ONegInf), a[1].(string), pos)
				continue
			}
			p.assert(p.a.RLe(x, p.a.r0), a[1].(string), pos)
		}
		p.assert(p.a.Bool(len(args) > 0), "an exponential is computed", pos)
		return nil
	})
	V0("Smooth", func(th *Thread, fn *ssa.Function, a []V) V {
		th.p.smooth()
		return nil
	})
	V0("Reach", func(th *Thread, fn *ssa.Function, a []V) V {
		th.p.reached[a[0].(string)] = true
		return nil
	})
	V0("Thorough", func(th *Thread, fn *ssa.Function, a []V) V { return th.p.eng.thorough })
	V0("Bound", func(th *Thread, fn *ssa.Function, a []V) V {
		if th.p.eng.thorough {
			return a[1]
		}
		return a[0]
	})
	V0("MapOrder", func(th *Thread, fn *ssa.Function, a []V) V { th.p.mapOrder = a[0].(bool); return nil })
	V0("CPU", func(th *Thread, fn *ssa.Function, a []V) V { th.p.avx = int(th.intv(a[0])); return nil })
	V0("NumCPU", func(th *Thread, fn *ssa.Function, a []V) V { th.p.ncpu = th.intv(a[0]); return nil })
}

// smooth keeps only the interior of the path: every real comparison is made
// strict and equalities between non-constant reals end the path.
func (p *Path) smooth() {
	a := p.a
	pc := append([]*Term{}, p.pc...)
	for _, c := range pc {
		switch c.op {
		case OEq:
			if c.args[0].sort == SReal {
				panic(stopPath{"kink"})
			}
		case OLe:
			p.assume(a.RLt(c.args[0], c.args[1]))
		case ONot:
			if n := c.args[0]; n.op == OLt {
				p.assume(a.RLt(n.args[1], n.args[0]))
			}
		}
	}
	if len(p.alive) == 0 {
		p.syncSolver()
		if p.solver.Check() == "unsat" {
			panic(stopPath{"kink"})
		}
	}
}

// smoothIte excludes the points at which a conditional inside t switches, or one
// of those asked about while it was computed.
func (p *Path) smoothIte(t *Term, asked map[*Term]bool) {
	seen := map[*Term]bool{}
	var conds []*Term
	var cond func(c *Term)
	cond = func(c *Term) {
		if seen[c] {
			return
		}
		seen[c] = true
		if (c.op == OLt || c.op == OLe || c.op == OEq) && c.args[0].sort == SReal {
			conds = append(conds, p.a.Not(p.a.Eq(c.args[0], c.args[1])))
			return
		}
		for _, x := range c.args {
			cond(x)
		}
	}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OIte {
			cond(t.args[0])
		}
		for _, x := range t.args {
			walk(x)
		}
	}
	walk(t)
	for c := range asked {
		cond(c)
	}
	sort.Slice(conds, func(i, j int) bool { return conds[i].id < conds[j].id })
	for _, c := range conds {
		p.assume(c)
	}
}

func registerGob() {}
