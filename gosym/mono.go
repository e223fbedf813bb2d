package main

import (
	"math"
)

// A float built from an unsigned integer by operations that are monotone even
// with their rounding (conversion, adding or scaling by a constant, negation) is
// compared with a constant exactly where the integer passes a threshold.  The
// threshold is found by bisection, so that no float arithmetic reaches the solver.

// maxBV bounds an unsigned bit-vector term from above.
func maxBV(x *Term) uint64 {
	m := ^uint64(0)
	if x.w < 64 {
		m = 1<<x.w - 1
	}
	min := func(v uint64) {
		if v < m {
			m = v
		}
	}
	switch x.op {
	case OConst:
		return x.bv
	case OBAnd:
		min(maxBV(x.args[0]))
		min(maxBV(x.args[1]))
	case OBZext:
		min(maxBV(x.args[0]))
	case OBUrem:
		if d := x.args[1]; d.IsConst() && d.bv > 0 {
			min(d.bv - 1)
		}
	case OBLshr:
		if d := x.args[1]; d.IsConst() && d.bv < 64 {
			min(maxBV(x.args[0]) >> d.bv)
		}
	case OIte:
		p, q := maxBV(x.args[1]), maxBV(x.args[2])
		if q > p {
			p = q
		}
		min(p)
	}
	return m
}

// monoChain peels the monotone operations; f computes the float from the integer.
func monoChain(t *Term) (base *Term, f func(v uint64) float64) {
	constant := func(x *Term) (float64, bool) {
		if !x.IsConst() {
			return 0, false
		}
		v := x.fpval()
		add := t.op == OFAdd || t.op == OFSub
		return v, (v != 0 || add) && !math.IsNaN(v) && !math.IsInf(v, 0)
	}
	rnd := func(v float64) float64 {
		if t.w == 32 {
			return float64(float32(v))
		}
		return v
	}
	switch t.op {
	case OFFromUBV, OFFromSBV:
		x := t.args[0]
		if t.op == OFFromSBV && maxBV(x)>>(x.w-1) != 0 {
			return nil, nil
		}
		if t.w == 32 {
			return x, func(v uint64) float64 { return float64(float32(v)) }
		}
		return x, func(v uint64) float64 { return float64(v) }
	case OFNeg:
		if b, g := monoChain(t.args[0]); b != nil {
			return b, func(v uint64) float64 { return -g(v) }
		}
	case OFCvt:
		if b, g := monoChain(t.args[0]); b != nil {
			return b, func(v uint64) float64 { return rnd(g(v)) }
		}
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := t.args[0], t.args[1]
		swapped := false
		c, ok := constant(y)
		if !ok {
			if c, ok = constant(x); !ok || t.op == OFDiv {
				return nil, nil
			}
			x, swapped = y, true
		}
		b, g := monoChain(x)
		if b == nil {
			return nil, nil
		}
		// in float32, the float64 operation rounded once more is exact: the 53 bits
		// are more than twice 24 plus two
		switch op := t.op; op {
		case OFAdd:
			return b, func(v uint64) float64 { return rnd(g(v) + c) }
		case OFSub:
			if swapped {
				return b, func(v uint64) float64 { return rnd(c - g(v)) }
			}
			return b, func(v uint64) float64 { return rnd(g(v) - c) }
		case OFMul:
			return b, func(v uint64) float64 { return rnd(g(v) * c) }
		case OFDiv:
			return b, func(v uint64) float64 { return rnd(g(v) / c) }
		}
	}
	return nil, nil
}

func (a *Arena) monoCmp(op Op, x, y *Term) *Term {
	t, c, swapped := x, y, false
	if x.IsConst() {
		t, c, swapped = y, x, true
	}
	cv := c.fpval()
	if t.IsConst() || math.IsNaN(cv) {
		return nil
	}
	base, f := monoChain(t)
	if base == nil {
		return nil
	}
	max := maxBV(base)
	at := func(pred func(float64) bool) *Term {
		first, last := pred(f(0)), pred(f(max))
		if first == last {
			return a.Bool(first)
		}
		// the least v in 1..max where the predicate differs from its value at 0
		lo, hi := uint64(0), max
		for hi-lo > 1 {
			mid := lo + (hi-lo)/2
			if pred(f(mid)) == first {
				lo = mid
			} else {
				hi = mid
			}
		}
		below := a.BCmp(OBUlt, base, a.BV(hi, base.w))
		if first {
			return below
		}
		return a.Not(below)
	}
	le := func(v float64) bool { return v <= cv }
	ge := func(v float64) bool { return v >= cv }
	switch {
	case op == OFEq:
		return a.And(at(le), at(ge))
	case op == OFLe && !swapped:
		return at(le)
	case op == OFLe:
		return at(ge)
	case op == OFLt && !swapped:
		return a.Not(at(ge))
	case op == OFLt:
		return a.Not(at(le))
	}
	return nil
}
