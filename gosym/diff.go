package main

import (
	"fmt"
	"math/big"
)

type differ struct {
	a    *Arena
	v    *Term
	memo map[*Term]*Term
	dep  map[*Term]bool
}

func (a *Arena) Diff(t, v *Term) (r *Term, err error) {
	defer func() {
		if e := recover(); e != nil {
			if s, ok := e.(string); ok {
				err = fmt.Errorf("%s", s)
				return
			}
			panic(e)
		}
	}()
	d := &differ{a: a, v: v, memo: map[*Term]*Term{}, dep: map[*Term]bool{}}
	return d.d(t), nil
}

func (d *differ) depends(t *Term) bool {
	if t == d.v {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := d.dep[t]; ok {
		return r
	}
	r := false
	for _, x := range t.args {
		if d.depends(x) {
			r = true
			break
		}
	}
	d.dep[t] = r
	return r
}

func (d *differ) d(t *Term) *Term {
	a := d.a
	if t == d.v {
		return a.r1
	}
	if !d.depends(t) {
		return a.r0
	}
	if r, ok := d.memo[t]; ok {
		return r
	}
	var r *Term
	switch t.op {
	case OLin:
		r = a.r0
		for i, x := range t.args {
			r = a.addScaled(r, t.coef[i], d.d(x))
		}
	case OMono:
		r = a.r0
		fs := a.factors(t)
		for i, x := range t.args {
			dx := d.d(x)
			if dx == a.r0 {
				continue
			}
			k := t.pow[i]
			nf := make([]factor, len(fs))
			copy(nf, fs)
			nf[i].k--
			p := a.mulFactors(nf)
			r = a.addScaled(r, new(big.Rat).SetInt64(int64(k)), a.Mul(p, dx))
		}
	case OUF:
		x := t.args[0]
		dx := d.d(x)
		var f *Term
		switch t.name {
		case "exp":
			f = t
		case "log":
			f = a.Inv(x)
		case "sqrt":
			f = a.scale(big.NewRat(1, 2), a.Inv(t))
		case "tanh":
			f = a.Sub(a.r1, a.Mul(t, t))
		case "sin":
			f = a.even("cos", x)
		case "cos":
			f = a.Neg(a.odd("sin", x))
		case "tan":
			c := a.even("cos", x)
			f = a.Inv(a.Mul(c, c))
		case "sinh":
			f = a.even("cosh", x)
		case "cosh":
			f = a.odd("sinh", x)
		case "pow":
			f = a.Mul(a.Mul(t.args[1], t), a.Inv(x))
			r = a.Mul(f, dx)
			if dy := d.d(t.args[1]); dy != a.r0 {
				r = a.Add(r, a.Mul(a.Mul(t, a.Log(x)), dy))
			}
			d.memo[t] = r
			return r
		default:
			panic("cannot differentiate " + t.name)
		}
		r = a.Mul(f, dx)
	case OIte:
		r = a.Ite(t.args[0], d.d(t.args[1]), d.d(t.args[2]))
	default:
		panic("cannot differentiate " + t.String())
	}
	d.memo[t] = r
	return r
}
