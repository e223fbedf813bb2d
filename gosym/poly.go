package main

import (
	"math"
	"math/big"
	"sort"
	"strconv"
)

// Rational-function normal form: decides/simplifies equalities between real
// terms before they are handed to the solver.

type mono struct {
	c  *big.Rat
	fs []factor // sorted by id, non-zero powers
}

type poly map[string]*mono

func monoKey(fs []factor) string {
	b := make([]byte, 0, len(fs)*6)
	for _, f := range fs {
		b = strconv.AppendInt(b, int64(f.t.id), 36)
		b = append(b, '^')
		b = strconv.AppendInt(b, int64(f.k), 36)
		b = append(b, ' ')
	}
	return string(b)
}

func combine(a *Arena, fs []factor) []factor {
	m := map[*Term]int{}
	var order []*Term
	var add func(t *Term, k int)
	add = func(t *Term, k int) {
		if t.op == OMono {
			for i, x := range t.args {
				add(x, t.pow[i]*k)
			}
			return
		}
		if _, ok := m[t]; !ok {
			order = append(order, t)
		}
		m[t] += k
	}
	for _, f := range fs {
		add(f.t, f.k)
	}
	for i := 0; i < len(order); i++ {
		t := order[i]
		k := m[t]
		if t.op == OUF && t.name == "sqrt" && (k >= 2 || k <= -2) {
			h := k / 2
			m[t] = k - 2*h
			add(t.args[0], h)
		}
		if t.op == OUF && t.name == "sqrt" && m[t] == -1 && t.args[0].IsConst() {
			m[t] = 1
			add(t.args[0], -1)
		}
	}
	out := make([]factor, 0, len(order))
	for _, t := range order {
		if m[t] != 0 {
			out = append(out, factor{t, m[t]})
			m[t] = 0
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].t.id < out[j].t.id })
	return out
}

func (p poly) add(c *big.Rat, fs []factor) {
	k := monoKey(fs)
	if m, ok := p[k]; ok {
		m.c = new(big.Rat).Add(m.c, c)
		if m.c.Sign() == 0 {
			delete(p, k)
		}
		return
	}
	if c.Sign() == 0 {
		return
	}
	p[k] = &mono{c: c, fs: fs}
}

const polyLimit = 60000

// expand returns the polynomial numerator of t (denominators multiplied out),
// or nil when it grows beyond the limit.
func (a *Arena) numerator(t *Term) poly {
	p := poly{}
	l := a.toLin(t)
	if l.c.Sign() != 0 {
		p.add(l.c, nil)
	}
	for i, x := range l.ts {
		p.add(l.cs[i], combine(a, a.factors(x)))
	}
	for iter := 0; iter < 200; iter++ {
		// multiply out denominators
		min := map[*Term]int{}
		for _, m := range p {
			for _, f := range m.fs {
				if f.k < min[f.t] {
					min[f.t] = f.k
				}
			}
		}
		if len(min) > 0 {
			var mul []factor
			for t, k := range min {
				if k < 0 {
					mul = append(mul, factor{t, -k})
				}
			}
			if len(mul) > 0 {
				q := poly{}
				for _, m := range p {
					q.add(m.c, combine(a, append(append([]factor{}, m.fs...), mul...)))
				}
				p = q
			}
		}
		// drop common positive factors? (not needed) ; expand one level of sums
		q := poly{}
		changed := false
		for _, m := range p {
			idx := -1
			for i, f := range m.fs {
				if f.t.op == OLin || f.t.op == OConst || f.t.op == OUF && f.t.name == "sin" && f.k >= 2 {
					idx = i
					break
				}
			}
			if idx < 0 || m.fs[idx].k < 0 {
				q.add(m.c, m.fs)
				continue
			}
			changed = true
			f := m.fs[idx]
			rest := make([]factor, 0, len(m.fs)+2)
			rest = append(rest, m.fs[:idx]...)
			rest = append(rest, m.fs[idx+1:]...)
			if f.t.op == OUF { // sin^2 = 1 - cos^2
				if f.k > 2 {
					rest = append(rest, factor{f.t, f.k - 2})
				}
				q.add(m.c, combine(a, rest))
				q.add(new(big.Rat).Neg(m.c), combine(a, append(append([]factor{}, rest...), factor{a.even("cos", f.t.args[0]), 2})))
				continue
			}
			if f.k > 1 {
				rest = append(rest, factor{f.t, f.k - 1})
			}
			fl := a.toLin(f.t)
			if fl.c.Sign() != 0 {
				q.add(new(big.Rat).Mul(m.c, fl.c), combine(a, rest))
			}
			for i, x := range fl.ts {
				nf := append(append([]factor{}, rest...), a.factors(x)...)
				q.add(new(big.Rat).Mul(m.c, fl.cs[i]), combine(a, nf))
			}
			if len(q) > polyLimit {
				return nil
			}
		}
		p = q
		neg := false
		for _, m := range p {
			for _, f := range m.fs {
				if f.k < 0 {
					neg = true
				}
			}
		}
		if !changed && !neg {
			return p
		}
	}
	return nil
}

func (a *Arena) polyTerm(p poly) *Term {
	m := map[*Term]*big.Rat{}
	c := new(big.Rat)
	for _, mo := range p {
		if len(mo.fs) == 0 {
			c = mo.c
			continue
		}
		var t *Term
		if len(mo.fs) == 1 && mo.fs[0].k == 1 {
			t = mo.fs[0].t
		} else {
			ts := make([]*Term, len(mo.fs))
			ps := make([]int, len(mo.fs))
			for i, f := range mo.fs {
				ts[i] = f.t
				ps[i] = f.k
			}
			t = a.mk(Term{op: OMono, sort: SReal, args: ts, pow: ps})
		}
		m[t] = mo.c
	}
	return a.fromLin(c, m)
}

// canonicaliser unifies function applications whose arguments are provably equal.
type canon struct {
	a    *Arena
	memo map[*Term]*Term
	reps map[string][]*Term
	ev   [2]*Evaluator
	// expand rewrites hyperbolic and circular functions into exp, sin and cos
	expand bool
	second *canon
}

func newCanon(a *Arena, hints map[*Term]*VarHint) *canon {
	c := &canon{a: a, memo: map[*Term]*Term{}, reps: map[string][]*Term{}}
	for i := range c.ev {
		c.ev[i] = NewEvaluator(&Model{seed: int64(1000 + i), style: 3, vals: map[*Term]any{}}, hints)
	}
	return c
}

func (c *canon) norm(t *Term) *Term {
	if t.sort != SReal || len(t.args) == 0 {
		return t
	}
	if r, ok := c.memo[t]; ok {
		return r
	}
	a := c.a
	var r *Term
	switch t.op {
	case OLin:
		r = a.Rat(t.rat)
		for i, x := range t.args {
			r = a.addScaled(r, t.coef[i], c.norm(x))
		}
	case OMono:
		r = a.r1
		for i, x := range t.args {
			n := c.norm(x)
			if n == x {
				r = a.Mul(r, a.mulFactors([]factor{{x, t.pow[i]}}))
			} else {
				r = a.Mul(r, a.PowInt(n, t.pow[i]))
			}
		}
	case OUF:
		args := make([]*Term, len(t.args))
		same := true
		for i, x := range t.args {
			args[i] = c.norm(x)
			same = same && args[i] == x
		}
		r = t
		if !same {
			od, os, ol := a.onDiv, a.onSqrt, a.onLog
			a.onDiv, a.onSqrt, a.onLog = nil, nil, nil
			if len(args) == 1 {
				r = a.Fun(t.name, args[0])
			} else if t.name == "pow" {
				r = a.Pow(args[0], args[1])
			} else {
				r = a.uf(t.name, args...)
			}
			a.onDiv, a.onSqrt, a.onLog = od, os, ol
		}
		if c.expand && r.op == OUF {
			if x := c.rewrite(r); x != nil {
				r = c.norm(x)
				break
			}
		}
		if r.op == OUF {
			r = c.unify(r)
		}
	default:
		r = t
	}
	c.memo[t] = r
	return r
}

func (c *canon) rewrite(t *Term) (r *Term) {
	a := c.a
	x := t.args[0]
	od, os, ol := a.onDiv, a.onSqrt, a.onLog
	a.onDiv, a.onSqrt, a.onLog = nil, nil, nil
	defer func() { a.onDiv, a.onSqrt, a.onLog = od, os, ol }()
	switch t.name {
	case "tanh":
		e := a.Exp(a.scale(big.NewRat(2, 1), x))
		return a.Mul(a.Sub(e, a.r1), a.Inv(a.Add(e, a.r1)))
	case "cosh", "sinh":
		e, f := a.Exp(x), a.Exp(a.Neg(x))
		if t.name == "sinh" {
			f = a.Neg(f)
		}
		return a.scale(big.NewRat(1, 2), a.Add(e, f))
	case "tan":
		return a.Mul(a.Fun("sin", x), a.Inv(a.Fun("cos", x)))
	}
	return nil
}

func (c *canon) unify(t *Term) *Term {
	a := c.a
	// fold arguments that are provably constant zero etc.
	for _, q := range c.reps[t.name] {
		if q == t {
			return t
		}
		if len(q.args) != len(t.args) {
			continue
		}
		ok := true
		for i := range q.args {
			if q.args[i] == t.args[i] {
				continue
			}
			for _, ev := range c.ev {
				x, y := ev.R(q.args[i]), ev.R(t.args[i])
				if math.IsNaN(x) || math.IsNaN(y) {
					continue
				}
				if math.Abs(x-y) > 1e-6*(1+math.Abs(x)) {
					ok = false
				}
			}
			if !ok {
				break
			}
			p := a.numerator(a.Sub(q.args[i], t.args[i]))
			if p == nil || len(p) != 0 {
				ok = false
				break
			}
		}
		if ok {
			return q
		}
	}
	c.reps[t.name] = append(c.reps[t.name], t)
	return t
}

// SimplifyEq rewrites x==y (reals) into a polynomial equation under the
// assumption that all denominators occurring are non-zero.
func (c *canon) SimplifyEq(x, y *Term) *Term {
	a := c.a
	if x == y {
		return a.T
	}
	d := a.Sub(c.norm(x), c.norm(y))
	if d.IsConst() {
		return a.Bool(d.rat.Sign() == 0)
	}
	p := a.numerator(d)
	if p == nil {
		return a.mk(Term{op: OEq, sort: SBool, args: []*Term{x, y}})
	}
	if len(p) == 0 {
		return a.T
	}
	if !c.expand {
		if c.second == nil {
			c.second = newCanon(a, nil)
			c.second.ev = c.ev
			c.second.expand = true
		}
		if c.second.SimplifyEq(x, y) == a.T {
			return a.T
		}
	}
	n := a.polyTerm(p)
	if n.IsConst() {
		return a.Bool(n.rat.Sign() == 0)
	}
	return a.mk(Term{op: OEq, sort: SBool, args: []*Term{n, a.r0}})
}
