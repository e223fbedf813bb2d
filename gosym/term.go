package main

// Term language of the symbolic executor: booleans, bit-vectors, reals and
// IEEE floats.  Reals are kept in a light canonical form (linear combinations
// of monomials with integer powers over atoms).

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SBV
	SReal
	SFP // w = 32 or 64
)

type Op uint8

const (
	OConst Op = iota // bool/bv/fp(bits)/real(rat)
	OVar
	// real
	OLin    // rat + sum coef_i * args_i (args are monomials/atoms)
	OMono   // prod args_i ^ pow_i
	OUF     // name(args)
	OPosInf // special values of "real" floats
	ONegInf
	ONaN
	OBV2Real // args[0] bv ; signed flag in bv field
	OFP2Real
	// polymorphic
	OIte
	OEq
	// bool
	ONot
	OAnd
	OOr
	// real comparisons
	OLe
	OLt
	// bv
	OBAdd
	OBSub
	OBMul
	OBUdiv
	OBUrem
	OBSdiv
	OBSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OBNeg
	OBShl
	OBLshr
	OBAshr
	OBUlt
	OBUle
	OBSlt
	OBSle
	OBExtract // bv field = lo, w = width
	OBZext
	OBSext
	OBConcat
	// fp
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFFromBits // bv -> fp
	OFToBits   // fp -> bv
	OFCvt      // fp -> fp other width
	OFFromSBV
	OFFromUBV
	OFToSBV // round toward zero
	OFToUBV
	OFRound // roundToIntegral, mode in bv: 0 RNE 1 RTZ 2 RTN(floor) 3 RTP(ceil) 4 RNA
	OFFma
)

type Term struct {
	id   int32
	op   Op
	sort Sort
	w    uint8
	b    bool // bool const
	bv   uint64
	rat  *big.Rat
	name string
	args []*Term
	coef []*big.Rat // OLin
	pow  []int      // OMono
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) special() bool { return t.op == OPosInf || t.op == ONegInf || t.op == ONaN }

// Arena of hash-consed terms; one per path.
type Arena struct {
	tab    map[string]*Term
	n      int32
	vars   []*Term
	varTab map[string]*Term
	buf    []byte
	// facts gathered while building terms (assumptions of the encoding)
	onDiv  func(den *Term) // den assumed non-zero
	onSqrt func(arg *Term) // arg assumed >= 0
	onLog  func(arg *Term) // arg assumed > 0
	onExp  func(arg *Term) // reports the arguments of exponentials
	onLn   func(arg *Term) // reports the arguments of logarithms
	onDen  func(arg *Term) // reports denominators
	posVar map[*Term]bool  // variables known to be positive
	T, F   *Term
	r0, r1 *Term
}

func NewArena() *Arena {
	a := &Arena{tab: map[string]*Term{}, varTab: map[string]*Term{}, posVar: map[*Term]bool{}}
	a.T = a.mk(Term{op: OConst, sort: SBool, b: true})
	a.F = a.mk(Term{op: OConst, sort: SBool, b: false})
	a.r0 = a.Rat(new(big.Rat))
	a.r1 = a.Rat(big.NewRat(1, 1))
	return a
}

func (a *Arena) key(t *Term) []byte {
	b := a.buf[:0]
	b = append(b, byte(t.op), byte(t.sort), t.w)
	if t.b {
		b = append(b, 1)
	}
	p64 := func(v uint64) {
		for i := 0; i < 8; i++ {
			b = append(b, byte(v>>(8*i)))
		}
	}
	p64(t.bv)
	if t.rat != nil {
		b = append(b, t.rat.String()...)
	}
	b = append(b, '|')
	b = append(b, t.name...)
	b = append(b, '|')
	for i, x := range t.args {
		id := uint32(x.id)
		b = append(b, byte(id), byte(id>>8), byte(id>>16), byte(id>>24))
		if t.coef != nil {
			b = append(b, t.coef[i].String()...)
			b = append(b, ',')
		}
		if t.pow != nil {
			b = append(b, byte(t.pow[i]), byte(t.pow[i]>>8))
		}
	}
	a.buf = b
	return b
}

func (a *Arena) mk(t Term) *Term {
	k := a.key(&t)
	if r, ok := a.tab[string(k)]; ok {
		return r
	}
	r := new(Term)
	*r = t
	a.n++
	r.id = a.n
	a.tab[string(k)] = r
	return r
}

func (a *Arena) Var(name string, s Sort, w uint8) *Term {
	if v, ok := a.varTab[name]; ok {
		return v
	}
	v := a.mk(Term{op: OVar, sort: s, w: w, name: name})
	a.varTab[name] = v
	a.vars = append(a.vars, v)
	return v
}

func (a *Arena) Bool(b bool) *Term {
	if b {
		return a.T
	}
	return a.F
}

func mask(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	return v & (1<<w - 1)
}
func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (a *Arena) BV(v uint64, w uint8) *Term {
	return a.mk(Term{op: OConst, sort: SBV, w: w, bv: mask(v, w)})
}
func (a *Arena) Rat(r *big.Rat) *Term {
	return a.mk(Term{op: OConst, sort: SReal, rat: r})
}
func (a *Arena) RInt(i int64) *Term { return a.Rat(new(big.Rat).SetInt64(i)) }
func (a *Arena) FPBits(bits uint64, w uint8) *Term {
	return a.mk(Term{op: OConst, sort: SFP, w: w, bv: mask(bits, w)})
}
func (a *Arena) FP(f float64, w uint8) *Term {
	if w == 32 {
		return a.FPBits(uint64(math.Float32bits(float32(f))), 32)
	}
	return a.FPBits(math.Float64bits(f), 64)
}
func (t *Term) fpval() float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.bv)))
	}
	return math.Float64frombits(t.bv)
}

// ---------- booleans ----------

func (a *Arena) Not(x *Term) *Term {
	switch {
	case x == a.T:
		return a.F
	case x == a.F:
		return a.T
	case x.op == ONot:
		return x.args[0]
	}
	return a.mk(Term{op: ONot, sort: SBool, args: []*Term{x}})
}
func (a *Arena) And(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == a.F {
			return a.F
		}
		if x == a.T || seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return a.T
	}
	if len(out) == 1 {
		return out[0]
	}
	return a.mk(Term{op: OAnd, sort: SBool, args: out})
}
func (a *Arena) Or(xs ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, x := range xs {
		if x == a.T {
			return a.T
		}
		if x == a.F || seen[x] {
			continue
		}
		seen[x] = true
		out = append(out, x)
	}
	if len(out) == 0 {
		return a.F
	}
	if len(out) == 1 {
		return out[0]
	}
	return a.mk(Term{op: OOr, sort: SBool, args: out})
}
func (a *Arena) Ite(c, x, y *Term) *Term {
	if c == a.T || x == y {
		return x
	}
	if c == a.F {
		return y
	}
	if x.sort == SBool {
		if x == a.T && y == a.F {
			return c
		}
		if x == a.F && y == a.T {
			return a.Not(c)
		}
	}
	if x.special() || y.special() {
		return nil // caller must fork
	}
	if x.sort == SReal {
		if r := a.absIte(c, x, y); r != nil {
			return r
		}
	}
	return a.mk(Term{op: OIte, sort: x.sort, w: x.w, args: []*Term{c, x, y}})
}

// absIte recognises "x if x > 0, else -x" in all its spellings and gives one
// form for all of them.
func (a *Arena) absIte(c, x, y *Term) *Term {
	if c.op == ONot {
		c, x, y = c.args[0], y, x
	}
	if c.op != OLt || c.args[0].special() || c.args[1].special() || x.IsConst() || a.Neg(x) != y {
		return nil
	}
	d := a.Sub(c.args[1], c.args[0]) // c is d > 0
	neg := false
	switch {
	case d == x || d == a.Add(x, x):
	case d == y || d == a.Add(y, y):
		neg = true
	default:
		return nil
	}
	if l := a.toLin(x); l.cs[0].Sign() < 0 {
		x, y = y, x
	}
	cn := a.RLt(x, a.r0)
	r := x
	if cn == a.T {
		r = y
	} else if cn != a.F {
		r = a.mk(Term{op: OIte, sort: x.sort, w: x.w, args: []*Term{cn, y, x}})
	}
	if neg {
		return a.Neg(r)
	}
	return r
}

func (a *Arena) Eq(x, y *Term) *Term {
	if x == y {
		return a.T
	}
	if x.op == OConst && y.op == OConst && x.sort != SFP {
		return a.F
	}
	switch x.sort {
	case SBool:
		if x == a.T {
			return y
		}
		if y == a.T {
			return x
		}
		if x == a.F {
			return a.Not(y)
		}
		if y == a.F {
			return a.Not(x)
		}
	case SReal:
		if x.special() || y.special() {
			return a.F // NaN!=anything ; Inf handled by identity above (NaN==NaN handled by caller)
		}
		d := a.Sub(x, y)
		if d.IsConst() {
			return a.Bool(d.rat.Sign() == 0)
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return a.mk(Term{op: OEq, sort: SBool, args: []*Term{x, y}})
}

// real comparisons
func (a *Arena) RLt(x, y *Term) *Term {
	if x.op == ONaN || y.op == ONaN {
		return a.F
	}
	if x == y || x.op == OPosInf || y.op == ONegInf {
		return a.F
	}
	if x.op == ONegInf || y.op == OPosInf {
		return a.T
	}
	d := a.Sub(y, x)
	if d.IsConst() {
		return a.Bool(d.rat.Sign() > 0)
	}
	if a.Positive(d) {
		return a.T
	}
	if a.NonNeg(a.Neg(d)) {
		return a.F
	}
	return a.mk(Term{op: OLt, sort: SBool, args: []*Term{x, y}})
}
func (a *Arena) RLe(x, y *Term) *Term {
	if x.op == ONaN || y.op == ONaN {
		return a.F
	}
	return a.Not(a.RLt(y, x))
}

// ---------- reals ----------

type lin struct {
	c  *big.Rat
	ts []*Term
	cs []*big.Rat
}

func (a *Arena) toLin(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{c: t.rat}
	case OLin:
		return lin{c: t.rat, ts: t.args, cs: t.coef}
	}
	return lin{c: new(big.Rat), ts: []*Term{t}, cs: []*big.Rat{ratOne}}
}

var ratOne = big.NewRat(1, 1)
var ratZero = new(big.Rat)

func (a *Arena) fromLin(c *big.Rat, m map[*Term]*big.Rat) *Term {
	var ts []*Term
	for t, k := range m {
		if k.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return a.Rat(c)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && c.Sign() == 0 && m[ts[0]].Cmp(ratOne) == 0 {
		return ts[0]
	}
	cs := make([]*big.Rat, len(ts))
	for i, t := range ts {
		cs[i] = m[t]
	}
	return a.mk(Term{op: OLin, sort: SReal, rat: c, args: ts, coef: cs})
}

func (a *Arena) addScaled(x *Term, k *big.Rat, y *Term) *Term {
	lx, ly := a.toLin(x), a.toLin(y)
	m := make(map[*Term]*big.Rat, len(lx.ts)+len(ly.ts))
	for i, t := range lx.ts {
		m[t] = lx.cs[i]
	}
	for i, t := range ly.ts {
		v := new(big.Rat).Mul(k, ly.cs[i])
		if o, ok := m[t]; ok {
			v.Add(v, o)
		}
		m[t] = v
	}
	c := new(big.Rat).Mul(k, ly.c)
	c.Add(c, lx.c)
	return a.fromLin(c, m)
}

func (a *Arena) Add(x, y *Term) *Term {
	if x.special() || y.special() {
		if x.op == ONaN || y.op == ONaN {
			return a.NaN()
		}
		if x.special() && y.special() && x.op != y.op {
			return a.NaN()
		}
		if x.special() {
			return x
		}
		return y
	}
	return a.addScaled(x, ratOne, y)
}

var ratM1 = big.NewRat(-1, 1)

func (a *Arena) Neg(x *Term) *Term {
	switch x.op {
	case ONaN:
		return x
	case OPosInf:
		return a.Inf(-1)
	case ONegInf:
		return a.Inf(1)
	}
	return a.addScaled(a.r0, ratM1, x)
}
func (a *Arena) Sub(x, y *Term) *Term {
	if x.special() || y.special() {
		return a.Add(x, a.Neg(y))
	}
	return a.addScaled(x, ratM1, y)
}
func (a *Arena) NaN() *Term { return a.mk(Term{op: ONaN, sort: SReal}) }
func (a *Arena) Inf(s int) *Term {
	if s > 0 {
		return a.mk(Term{op: OPosInf, sort: SReal})
	}
	return a.mk(Term{op: ONegInf, sort: SReal})
}

type factor struct {
	t *Term
	k int
}

func (a *Arena) factors(t *Term) []factor {
	if t.op == OMono {
		fs := make([]factor, len(t.args))
		for i := range t.args {
			fs[i] = factor{t.args[i], t.pow[i]}
		}
		return fs
	}
	return []factor{{t, 1}}
}

// mulMono multiplies two monomials/atoms (non-Lin, non-const) and returns a real term.
func (a *Arena) mulFactors(fs []factor) *Term {
	m := map[*Term]int{}
	for _, f := range fs {
		m[f.t] += f.k
	}
	rest := a.r1
	changed := false
	var ts []*Term
	for t, k := range m {
		if k == 0 {
			continue
		}
		// sqrt(u)^2 = u
		if t.op == OUF && t.name == "sqrt" && (k >= 2 || k <= -2) {
			h := k / 2
			rest = a.Mul(rest, a.PowInt(t.args[0], h))
			k -= 2 * h
			changed = true
		}
		if k == -1 && t.op == OUF && t.name == "sqrt" && t.args[0].IsConst() {
			rest = a.Mul(rest, a.Inv(t.args[0]))
			k = 1
			changed = true
		}
		if k != 0 {
			m[t] = k
			ts = append(ts, t)
		} else {
			delete(m, t)
		}
	}
	var base *Term
	if len(ts) == 0 {
		base = a.r1
	} else {
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		if len(ts) == 1 && m[ts[0]] == 1 && ts[0].op != OLin {
			base = ts[0]
		} else if len(ts) == 1 && m[ts[0]] == 1 {
			base = ts[0] // a plain sum
		} else {
			ps := make([]int, len(ts))
			for i, t := range ts {
				ps[i] = m[t]
			}
			base = a.mk(Term{op: OMono, sort: SReal, args: ts, pow: ps})
		}
	}
	if changed {
		return a.Mul(base, rest)
	}
	return base
}

const distLimit = 48

func (a *Arena) scale(k *big.Rat, x *Term) *Term {
	if k.Cmp(ratOne) == 0 {
		return x
	}
	return a.addScaled(a.r0, k, x)
}

func (a *Arena) Mul(x, y *Term) *Term {
	if x.special() || y.special() {
		if x.op == ONaN || y.op == ONaN {
			return a.NaN()
		}
		sx, okx := a.sign(x)
		sy, oky := a.sign(y)
		if okx && oky {
			if sx*sy == 0 {
				return a.NaN()
			}
			return a.Inf(sx * sy)
		}
		return nil
	}
	if x.IsConst() {
		return a.scale(x.rat, y)
	}
	if y.IsConst() {
		return a.scale(y.rat, x)
	}
	if x.op != OLin && y.op != OLin {
		return a.mulFactors(append(a.factors(x), a.factors(y)...))
	}
	lx, ly := a.toLin(x), a.toLin(y)
	nx, ny := len(lx.ts), len(ly.ts)
	if lx.c.Sign() != 0 {
		nx++
	}
	if ly.c.Sign() != 0 {
		ny++
	}
	if nx*ny <= distLimit {
		// distribute
		res := a.Rat(new(big.Rat).Mul(lx.c, ly.c))
		m := map[*Term]*big.Rat{}
		c := new(big.Rat).Set(res.rat)
		acc := func(t *Term, k *big.Rat) {
			l := a.toLin(t)
			c.Add(c, new(big.Rat).Mul(k, l.c))
			for i, u := range l.ts {
				v := new(big.Rat).Mul(k, l.cs[i])
				if o, ok := m[u]; ok {
					v.Add(v, o)
				}
				m[u] = v
			}
		}
		for i, t := range lx.ts {
			if ly.c.Sign() != 0 {
				acc(t, new(big.Rat).Mul(lx.cs[i], ly.c))
			}
			for j, u := range ly.ts {
				p := a.mulFactors(append(a.factors(t), a.factors(u)...))
				acc(p, new(big.Rat).Mul(lx.cs[i], ly.cs[j]))
			}
		}
		if lx.c.Sign() != 0 {
			for j, u := range ly.ts {
				acc(u, new(big.Rat).Mul(lx.c, ly.cs[j]))
			}
		}
		return a.fromLin(c, m)
	}
	kx, fx := a.freeze(x)
	ky, fy := a.freeze(y)
	return a.scale(new(big.Rat).Mul(kx, ky), a.mulFactors(append(fx, fy...)))
}

// freeze writes x as coefficient * product of factors, with sums normalised
// (common monomial content and leading coefficient extracted).
func (a *Arena) freeze(x *Term) (*big.Rat, []factor) {
	if x.op == OConst {
		return x.rat, nil
	}
	if x.op != OLin {
		return ratOne, a.factors(x)
	}
	if len(x.args) == 1 && x.rat.Sign() == 0 {
		return x.coef[0], a.factors(x.args[0])
	}
	// common content
	var content map[*Term]int
	if x.rat.Sign() == 0 {
		content = map[*Term]int{}
		for _, f := range a.factors(x.args[0]) {
			content[f.t] = f.k
		}
		for _, t := range x.args[1:] {
			cur := map[*Term]int{}
			for _, f := range a.factors(t) {
				cur[f.t] = f.k
			}
			for k, v := range content {
				if c := cur[k]; c < v {
					content[k] = c
				}
			}
			for k, v := range cur {
				if _, ok := content[k]; !ok && v < 0 {
					content[k] = v
				}
			}
		}
	} else {
		content = map[*Term]int{}
		for _, t := range x.args {
			for _, f := range a.factors(t) {
				if f.k < 0 && f.k < content[f.t] {
					content[f.t] = f.k
				}
			}
		}
	}
	var cf []factor
	for t, k := range content {
		if k != 0 {
			cf = append(cf, factor{t, k})
		}
	}
	if len(cf) > 0 {
		inv := make([]factor, len(cf))
		for i, f := range cf {
			inv[i] = factor{f.t, -f.k}
		}
		im := a.mulFactors(inv)
		y := a.r0
		l := a.toLin(x)
		if l.c.Sign() != 0 {
			y = a.scale(l.c, im)
		}
		for i, t := range l.ts {
			y = a.addScaled(y, l.cs[i], a.mulFactors(append(a.factors(t), inv...)))
		}
		if y.op != OLin {
			k, f := a.freeze(y)
			return k, append(f, cf...)
		}
		x = y
		if len(x.args) == 1 && x.rat.Sign() == 0 {
			return x.coef[0], append(cf, a.factors(x.args[0])...)
		}
	}
	// leading coefficient: of first arg
	k := x.coef[0]
	if k.Cmp(ratOne) != 0 {
		x = a.addScaled(a.r0, new(big.Rat).Inv(k), x)
	}
	return k, append(cf, factor{x, 1})
}

func (a *Arena) Inv(x *Term) *Term {
	switch x.op {
	case ONaN:
		return x
	case OPosInf, ONegInf:
		return a.r0
	}
	if x.IsConst() {
		if x.rat.Sign() == 0 {
			return a.NaN()
		}
		return a.Rat(new(big.Rat).Inv(x.rat))
	}
	k, fs := a.freeze(x)
	inv := make([]factor, len(fs))
	for i, f := range fs {
		inv[i] = factor{f.t, -f.k}
	}
	return a.scale(new(big.Rat).Inv(k), a.mulFactors(inv))
}

func (a *Arena) Div(x, y *Term) *Term {
	if y.IsConst() && y.rat.Sign() == 0 {
		if s, ok := a.sign(x); ok && s != 0 {
			return a.Inf(s)
		}
		return a.NaN()
	}
	if !y.IsConst() && !y.special() && a.onDiv != nil {
		a.onDiv(y)
	}
	if y.special() && x.special() {
		return a.NaN()
	}
	iy := a.Inv(y)
	return a.Mul(x, iy)
}

func (a *Arena) PowInt(x *Term, k int) *Term {
	if k == 0 {
		return a.r1
	}
	if k < 0 {
		return a.PowInt(a.Inv(x), -k)
	}
	if x.op != OLin && !x.IsConst() && !x.special() {
		fs := a.factors(x)
		for i := range fs {
			fs[i].k *= k
		}
		return a.mulFactors(fs)
	}
	r := x
	for i := 1; i < k; i++ {
		r = a.Mul(r, x)
	}
	return r
}

// sign of a term when syntactically known.
func (a *Arena) sign(x *Term) (int, bool) {
	switch x.op {
	case OConst:
		return x.rat.Sign(), true
	case OPosInf:
		return 1, true
	case ONegInf:
		return -1, true
	}
	if a.Positive(x) {
		return 1, true
	}
	if a.Positive(a.Neg(x)) {
		return -1, true
	}
	return 0, false
}

func (a *Arena) Positive(x *Term) bool {
	switch x.op {
	case OConst:
		return x.rat != nil && x.rat.Sign() > 0
	case OPosInf:
		return true
	case OVar:
		return a.posVar[x]
	case OUF:
		switch x.name {
		case "exp", "cosh":
			return true
		case "sqrt":
			return a.Positive(x.args[0])
		case "pow":
			return a.Positive(x.args[0])
		}
		return false
	case OMono:
		for i, t := range x.args {
			if x.pow[i]%2 == 0 && x.pow[i] < 0 {
				continue // 1/even power, defined => positive
			}
			if !a.Positive(t) {
				return false
			}
		}
		return true
	case OLin:
		if x.rat.Sign() < 0 {
			return false
		}
		strict := x.rat.Sign() > 0
		for i, t := range x.args {
			if x.coef[i].Sign() < 0 {
				return false
			}
			if a.Positive(t) {
				strict = true
			} else if !a.NonNeg(t) {
				return false
			}
		}
		return strict
	case OIte:
		return a.Positive(x.args[1]) && a.Positive(x.args[2])
	}
	return false
}

func (a *Arena) NonNeg(x *Term) bool {
	if a.Positive(x) {
		return true
	}
	switch x.op {
	case OConst:
		return x.rat != nil && x.rat.Sign() >= 0
	case OUF:
		return x.name == "sqrt"
	case OMono:
		for i, t := range x.args {
			if x.pow[i]%2 != 0 && !a.NonNeg(t) {
				return false
			}
		}
		return true
	case OLin:
		if x.rat.Sign() < 0 {
			return false
		}
		for i, t := range x.args {
			if x.coef[i].Sign() < 0 || !a.NonNeg(t) {
				return false
			}
		}
		return true
	case OIte:
		return a.NonNeg(x.args[1]) && a.NonNeg(x.args[2])
	}
	return false
}

func (a *Arena) uf(name string, args ...*Term) *Term {
	return a.mk(Term{op: OUF, sort: SReal, name: name, args: args})
}

// leadNeg reports whether the canonical leading coefficient is negative.
func (a *Arena) leadNeg(x *Term) bool {
	switch x.op {
	case OConst:
		return x.rat.Sign() < 0
	case OLin:
		return x.coef[0].Sign() < 0
	}
	return false
}

func ratInt(r *big.Rat) (int, bool) {
	if r.IsInt() && r.Num().IsInt64() {
		v := r.Num().Int64()
		if v > -1000 && v < 1000 {
			return int(v), true
		}
	}
	return 0, false
}

func (a *Arena) Exp(x *Term) *Term {
	switch x.op {
	case ONaN:
		return x
	case OPosInf:
		return x
	case ONegInf:
		return a.r0
	}
	if x.IsConst() && x.rat.Sign() == 0 {
		return a.r1
	}
	l := a.toLin(x)
	r := a.r1
	if l.c.Sign() != 0 {
		r = a.expAtom(a.r1, l.c)
	}
	for i, t := range l.ts {
		r = a.Mul(r, a.expAtom(t, l.cs[i]))
	}
	return r
}

// exp(k*t)
func (a *Arena) expAtom(t *Term, k *big.Rat) *Term {
	if t.op == OUF && t.name == "log" {
		if n, ok := ratInt(k); ok {
			return a.PowInt(t.args[0], n)
		}
	}
	if t.op == OConst { // constant exponent
		abs := new(big.Rat).Abs(k)
		e := a.uf("exp", a.Rat(abs))
		if k.Sign() < 0 {
			return a.Inv(e)
		}
		return e
	}
	num := k.Num()
	if num.IsInt64() {
		n := num.Int64()
		if n > -1000 && n < 1000 {
			unit := new(big.Rat).SetFrac(big.NewInt(1), k.Denom())
			return a.PowInt(a.uf("exp", a.scale(unit, t)), int(n))
		}
	}
	if k.Sign() < 0 {
		return a.Inv(a.uf("exp", a.scale(new(big.Rat).Neg(k), t)))
	}
	return a.uf("exp", a.scale(k, t))
}

func (a *Arena) Log(x *Term) *Term {
	switch x.op {
	case ONaN, OPosInf:
		return x
	case ONegInf:
		return a.NaN()
	}
	if x.IsConst() {
		switch {
		case x.rat.Sign() == 0:
			return a.Inf(-1)
		case x.rat.Sign() < 0:
			return a.NaN()
		case x.rat.Cmp(ratOne) == 0:
			return a.r0
		}
		return a.uf("log", x)
	}
	if a.onLog != nil {
		a.onLog(x)
	}
	k, fs := a.freeze(x)
	if k.Sign() < 0 {
		return a.uf("log", x)
	}
	r := a.r0
	rest := []factor{}
	for _, f := range fs {
		if a.Positive(f.t) {
			var lt *Term
			if f.t.op == OUF && f.t.name == "exp" {
				lt = f.t.args[0]
			} else if f.t.op == OUF && f.t.name == "sqrt" {
				lt = a.scale(big.NewRat(1, 2), a.Log(f.t.args[0]))
			} else {
				lt = a.uf("log", f.t)
			}
			r = a.addScaled(r, new(big.Rat).SetInt64(int64(f.k)), lt)
		} else {
			rest = append(rest, f)
		}
	}
	if len(rest) == 0 {
		if k.Cmp(ratOne) != 0 {
			r = a.Add(r, a.uf("log", a.Rat(k)))
		}
		return r
	}
	return a.Add(r, a.uf("log", a.scale(k, a.mulFactors(rest))))
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n := new(big.Int).Sqrt(r.Num())
	d := new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d), true
	}
	return nil, false
}

func (a *Arena) Sqrt(x *Term) *Term {
	switch x.op {
	case ONaN, OPosInf:
		return x
	case ONegInf:
		return a.NaN()
	}
	if x.IsConst() {
		if x.rat.Sign() < 0 {
			return a.NaN()
		}
		if r, ok := ratSqrt(x.rat); ok {
			return a.Rat(r)
		}
		return a.uf("sqrt", x)
	}
	if a.onSqrt != nil {
		a.onSqrt(x)
	}
	// sqrt(k * m) with even powers of positive atoms pulled out
	k, fs := a.freeze(x)
	out := a.r1
	var rest []factor
	for _, f := range fs {
		if f.k%2 == 0 && a.Positive(f.t) {
			out = a.Mul(out, a.PowInt(f.t, f.k/2))
		} else {
			rest = append(rest, f)
		}
	}
	if rk, ok := ratSqrt(k); ok {
		out = a.scale(rk, out)
		k = ratOne
	}
	if len(rest) == 0 {
		if k.Cmp(ratOne) == 0 {
			return out
		}
		return a.Mul(out, a.uf("sqrt", a.Rat(k)))
	}
	in := a.scale(k, a.mulFactors(rest))
	return a.Mul(out, a.uf("sqrt", in))
}

func (a *Arena) Pow(x, y *Term) *Term {
	if y.IsConst() {
		if n, ok := ratInt(y.rat); ok && n >= -64 && n <= 64 {
			if n < 0 {
				return a.Div(a.r1, a.PowInt(x, -n))
			}
			return a.PowInt(x, n)
		}
		if y.rat.Cmp(big.NewRat(1, 2)) == 0 {
			return a.Sqrt(x)
		}
		if y.rat.Cmp(big.NewRat(-1, 2)) == 0 {
			return a.Div(a.r1, a.Sqrt(x))
		}
	}
	if x.special() || y.special() {
		return nil
	}
	if x.IsConst() && x.rat.Cmp(ratOne) == 0 {
		return a.r1
	}
	// x^(n + r): keep as uf; x^(y-1) for derivative: x^y * x^-1
	l := a.toLin(y)
	if n, ok := ratInt(floorRat(l.c)); ok && n != 0 && !x.IsConst() {
		yy := a.Sub(y, a.RInt(int64(n)))
		if yy.IsConst() && yy.rat.Cmp(big.NewRat(1, 2)) == 0 {
			return a.Mul(a.Sqrt(x), a.PowInt(x, n))
		}
		return a.Mul(a.uf("pow", x, yy), a.PowInt(x, n))
	}
	return a.uf("pow", x, y)
}

func floorRat(r *big.Rat) *big.Rat {
	q := new(big.Int)
	m := new(big.Int)
	q.DivMod(r.Num(), r.Denom(), m)
	return new(big.Rat).SetInt(q)
}

func (a *Arena) odd(name string, x *Term) *Term {
	if x.IsConst() && x.rat.Sign() == 0 {
		return a.r0
	}
	if a.leadNeg(x) {
		return a.Neg(a.uf(name, a.Neg(x)))
	}
	return a.uf(name, x)
}
func (a *Arena) even(name string, x *Term) *Term {
	if x.IsConst() && x.rat.Sign() == 0 {
		return a.r1
	}
	if a.leadNeg(x) {
		return a.uf(name, a.Neg(x))
	}
	return a.uf(name, x)
}

// Fun applies a named unary real function.
func (a *Arena) Fun(name string, x *Term) *Term {
	switch name {
	case "exp":
		if a.onExp != nil {
			a.onExp(x)
		}
		return a.Exp(x)
	case "log":
		if a.onLn != nil {
			a.onLn(x)
		}
		return a.Log(x)
	case "sqrt":
		return a.Sqrt(x)
	}
	if x.op == ONaN {
		return x
	}
	if x.special() {
		switch name {
		case "tanh", "erf":
			if x.op == OPosInf {
				return a.r1
			}
			return a.Neg(a.r1)
		}
		return a.NaN()
	}
	switch name {
	case "tanh", "sin", "sinh", "tan", "atan", "asin", "erf", "asinh", "atanh":
		return a.odd(name, x)
	case "cos", "cosh":
		return a.even(name, x)
	}
	return a.uf(name, x)
}

// ---------- bit-vectors ----------

func (a *Arena) bvc(op Op, x, y uint64, w uint8) (uint64, bool) {
	switch op {
	case OBAdd:
		return x + y, true
	case OBSub:
		return x - y, true
	case OBMul:
		return x * y, true
	case OBUdiv:
		if y == 0 {
			return 0, false
		}
		return x / y, true
	case OBUrem:
		if y == 0 {
			return 0, false
		}
		return x % y, true
	case OBSdiv:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return uint64(-sx), true
		}
		return uint64(sx / sy), true
	case OBSrem:
		if y == 0 {
			return 0, false
		}
		sx, sy := sext(x, w), sext(y, w)
		if sy == -1 {
			return 0, true
		}
		return uint64(sx % sy), true
	case OBAnd:
		return x & y, true
	case OBOr:
		return x | y, true
	case OBXor:
		return x ^ y, true
	case OBShl:
		if y >= uint64(w) {
			return 0, true
		}
		return x << y, true
	case OBLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OBAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w) >> y), true
	}
	return 0, false
}

func (a *Arena) BBin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("BBin width mismatch %d %d", x.w, y.w))
	}
	if x.IsConst() && y.IsConst() {
		if v, ok := a.bvc(op, x.bv, y.bv, x.w); ok {
			return a.BV(v, x.w)
		}
	}
	switch op {
	case OBAdd:
		if x.IsConst() && x.bv == 0 {
			return y
		}
		if y.IsConst() && y.bv == 0 {
			return x
		}
	case OBSub:
		if y.IsConst() && y.bv == 0 {
			return x
		}
		if x == y {
			return a.BV(0, x.w)
		}
	case OBMul:
		if x.IsConst() && x.bv == 1 {
			return y
		}
		if y.IsConst() && y.bv == 1 {
			return x
		}
		if x.IsConst() && x.bv == 0 {
			return x
		}
		if y.IsConst() && y.bv == 0 {
			return y
		}
	case OBAnd:
		if x == y {
			return x
		}
		if x.IsConst() && x.bv == 0 {
			return x
		}
		if y.IsConst() && y.bv == 0 {
			return y
		}
		if y.IsConst() && y.bv == mask(^uint64(0), y.w) {
			return x
		}
		if x.IsConst() && x.bv == mask(^uint64(0), x.w) {
			return y
		}
	case OBOr, OBXor:
		if x.IsConst() && x.bv == 0 {
			return y
		}
		if y.IsConst() && y.bv == 0 {
			return x
		}
		if x == y {
			if op == OBXor {
				return a.BV(0, x.w)
			}
			return x
		}
		// or of disjoint byte pieces: recognised by concat/extract normalisation in Concat
		if op == OBOr {
			if r := a.mergeOr(x, y); r != nil {
				return r
			}
		}
	case OBShl, OBLshr, OBAshr:
		if y.IsConst() && y.bv == 0 {
			return x
		}
		if y.IsConst() {
			sh := y.bv
			if op == OBShl {
				if sh >= uint64(x.w) {
					return a.BV(0, x.w)
				}
				return a.Concat(a.Extract(x, 0, x.w-uint8(sh)), a.BV(0, uint8(sh)))
			}
			if op == OBLshr {
				if sh >= uint64(x.w) {
					return a.BV(0, x.w)
				}
				return a.Zext(a.Extract(x, uint8(sh), x.w-uint8(sh)), x.w)
			}
		}
	}
	return a.mk(Term{op: op, sort: SBV, w: x.w, args: []*Term{x, y}})
}

// pieces decomposes a bv into (term,width) pieces from low to high through concat/zext.
func (a *Arena) pieces(x *Term, out []*Term) []*Term {
	switch x.op {
	case OBConcat:
		out = a.pieces(x.args[1], out)
		return a.pieces(x.args[0], out)
	case OBZext:
		out = a.pieces(x.args[0], out)
		return append(out, a.BV(0, x.w-x.args[0].w))
	}
	return append(out, x)
}

// mergeOr merges x|y when at each bit one side is a constant zero.
func (a *Arena) mergeOr(x, y *Term) *Term {
	px, py := a.pieces(x, nil), a.pieces(y, nil)
	if len(px) == 1 && len(py) == 1 {
		return nil
	}
	i, j := 0, 0
	var ox, oy uint8
	var res []*Term
	for i < len(px) && j < len(py) {
		rx, ry := px[i].w-ox, py[j].w-oy
		n := rx
		if ry < n {
			n = ry
		}
		ex, ey := a.Extract(px[i], ox, n), a.Extract(py[j], oy, n)
		switch {
		case ex.IsConst() && ex.bv == 0:
			res = append(res, ey)
		case ey.IsConst() && ey.bv == 0:
			res = append(res, ex)
		default:
			return nil
		}
		ox += n
		oy += n
		if ox == px[i].w {
			i++
			ox = 0
		}
		if oy == py[j].w {
			j++
			oy = 0
		}
	}
	r := res[0]
	for _, p := range res[1:] {
		r = a.Concat(p, r)
	}
	return r
}

func (a *Arena) Concat(hi, lo *Term) *Term {
	w := hi.w + lo.w
	if hi.IsConst() && lo.IsConst() {
		return a.BV(hi.bv<<lo.w|lo.bv, w)
	}
	if hi.IsConst() && hi.bv == 0 {
		return a.Zext(lo, w)
	}
	// adjacent extracts
	ha, hl, hb := exParts(hi)
	la, ll, _ := exParts(lo)
	_ = hb
	if ha == la && ha != hi && hl == ll+lo.w {
		return a.Extract(ha, ll, w)
	}
	if lo.op == OBConcat { // merge hi with top piece of lo
		ta, tl, _ := exParts(lo.args[0])
		if ta == ha && ha != hi && hl == tl+lo.args[0].w {
			return a.Concat(a.Extract(ha, tl, hi.w+lo.args[0].w), lo.args[1])
		}
	}
	if hi.op == OBConcat { // right-nest
		return a.Concat(hi.args[0], a.Concat(hi.args[1], lo))
	}
	return a.mk(Term{op: OBConcat, sort: SBV, w: w, args: []*Term{hi, lo}})
}

func exParts(x *Term) (*Term, uint8, uint8) {
	if x.op == OBExtract {
		return x.args[0], uint8(x.bv), x.w
	}
	return x, 0, x.w
}

func (a *Arena) Extract(x *Term, lo, w uint8) *Term {
	if lo == 0 && w == x.w {
		return x
	}
	if x.IsConst() {
		return a.BV(x.bv>>lo, w)
	}
	switch x.op {
	case OBExtract:
		return a.Extract(x.args[0], uint8(x.bv)+lo, w)
	case OBConcat:
		l := x.args[1]
		if lo+w <= l.w {
			return a.Extract(l, lo, w)
		}
		if lo >= l.w {
			return a.Extract(x.args[0], lo-l.w, w)
		}
		return a.Concat(a.Extract(x.args[0], 0, lo+w-l.w), a.Extract(l, lo, l.w-lo))
	case OBZext:
		in := x.args[0]
		if lo+w <= in.w {
			return a.Extract(in, lo, w)
		}
		if lo >= in.w {
			return a.BV(0, w)
		}
		return a.Zext(a.Extract(in, lo, in.w-lo), w)
	case OBAnd, OBOr, OBXor:
		return a.BBin(x.op, a.Extract(x.args[0], lo, w), a.Extract(x.args[1], lo, w))
	}
	return a.mk(Term{op: OBExtract, sort: SBV, w: w, bv: uint64(lo), args: []*Term{x}})
}
func (a *Arena) Zext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return a.Extract(x, 0, w)
	}
	if x.IsConst() {
		return a.BV(x.bv, w)
	}
	if x.op == OBZext {
		x = x.args[0]
	}
	return a.mk(Term{op: OBZext, sort: SBV, w: w, args: []*Term{x}})
}
func (a *Arena) Sext(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.w > w {
		return a.Extract(x, 0, w)
	}
	if x.IsConst() {
		return a.BV(uint64(sext(x.bv, x.w)), w)
	}
	if x.op == OBZext {
		return a.Zext(x.args[0], w)
	}
	return a.mk(Term{op: OBSext, sort: SBV, w: w, args: []*Term{x}})
}
func (a *Arena) BNot(x *Term) *Term {
	if x.IsConst() {
		return a.BV(^x.bv, x.w)
	}
	return a.mk(Term{op: OBNot, sort: SBV, w: x.w, args: []*Term{x}})
}
func (a *Arena) BNeg(x *Term) *Term {
	if x.IsConst() {
		return a.BV(-x.bv, x.w)
	}
	return a.mk(Term{op: OBNeg, sort: SBV, w: x.w, args: []*Term{x}})
}
func (a *Arena) BCmp(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic("BCmp width mismatch")
	}
	if x.IsConst() && y.IsConst() {
		switch op {
		case OBUlt:
			return a.Bool(x.bv < y.bv)
		case OBUle:
			return a.Bool(x.bv <= y.bv)
		case OBSlt:
			return a.Bool(sext(x.bv, x.w) < sext(y.bv, y.w))
		case OBSle:
			return a.Bool(sext(x.bv, x.w) <= sext(y.bv, y.w))
		}
	}
	if x == y {
		return a.Bool(op == OBUle || op == OBSle)
	}
	return a.mk(Term{op: op, sort: SBool, args: []*Term{x, y}})
}

// MulHiLo returns the 128-bit product pieces of two 64-bit terms (bits.Mul64).
func mul64(x, y uint64) (hi, lo uint64) { return bits.Mul64(x, y) }

// ---------- floats (FP mode) ----------

func (a *Arena) fround(f float64, w uint8) *Term { return a.FP(f, w) }

func (a *Arena) FBin(op Op, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		if x.w == 32 {
			p, q := float32(x.fpval()), float32(y.fpval())
			var r float32
			switch op {
			case OFAdd:
				r = p + q
			case OFSub:
				r = p - q
			case OFMul:
				r = p * q
			case OFDiv:
				r = p / q
			}
			return a.FPBits(uint64(math.Float32bits(r)), 32)
		}
		p, q := x.fpval(), y.fpval()
		var r float64
		switch op {
		case OFAdd:
			r = p + q
		case OFSub:
			r = p - q
		case OFMul:
			r = p * q
		case OFDiv:
			r = p / q
		}
		return a.FP(r, 64)
	}
	if (op == OFAdd || op == OFMul) && y.id < x.id {
		x, y = y, x
	}
	return a.mk(Term{op: op, sort: SFP, w: x.w, args: []*Term{x, y}})
}
func (a *Arena) FCmp(op Op, x, y *Term) *Term {
	if x.IsConst() && y.IsConst() {
		p, q := x.fpval(), y.fpval()
		switch op {
		case OFEq:
			return a.Bool(p == q)
		case OFLt:
			return a.Bool(p < q)
		case OFLe:
			return a.Bool(p <= q)
		}
	}
	if y.IsConst() || x.IsConst() {
		if r := a.monoCmp(op, x, y); r != nil {
			return r
		}
	}
	return a.mk(Term{op: op, sort: SBool, args: []*Term{x, y}})
}
func (a *Arena) FUn(op Op, x *Term) *Term {
	if x.IsConst() {
		switch op {
		case OFNeg:
			return a.FPBits(x.bv^(1<<(x.w-1)), x.w)
		case OFAbs:
			return a.FPBits(x.bv&^(1<<(x.w-1)), x.w)
		case OFSqrt:
			if x.w == 32 {
				return a.FP(float64(float32(math.Sqrt(x.fpval()))), 32)
			}
			return a.FP(math.Sqrt(x.fpval()), 64)
		}
	}
	if op == OFNeg && x.op == OFNeg {
		return x.args[0]
	}
	return a.mk(Term{op: op, sort: SFP, w: x.w, args: []*Term{x}})
}
func (a *Arena) FIsNaN(x *Term) *Term {
	if x.IsConst() {
		return a.Bool(math.IsNaN(x.fpval()))
	}
	return a.mk(Term{op: OFIsNaN, sort: SBool, args: []*Term{x}})
}
func (a *Arena) FFromBits(x *Term) *Term {
	if x.IsConst() {
		return a.FPBits(x.bv, x.w)
	}
	if x.op == OFToBits {
		return x.args[0]
	}
	return a.mk(Term{op: OFFromBits, sort: SFP, w: x.w, args: []*Term{x}})
}

// FToBits gives the bit pattern.  For non-constant terms that are not a plain
// FromBits the solver cannot give a NaN payload, so a fresh constraint is used.
func (a *Arena) FToBits(x *Term) *Term {
	if x.IsConst() {
		return a.BV(x.bv, x.w)
	}
	if x.op == OFFromBits {
		return x.args[0]
	}
	return a.mk(Term{op: OFToBits, sort: SBV, w: x.w, args: []*Term{x}})
}
func (a *Arena) FCvt(x *Term, w uint8) *Term {
	if x.w == w {
		return x
	}
	if x.IsConst() {
		return a.FP(x.fpval(), w)
	}
	return a.mk(Term{op: OFCvt, sort: SFP, w: w, args: []*Term{x}})
}
func (a *Arena) FFromInt(x *Term, signed bool, w uint8) *Term {
	if x.IsConst() {
		if signed {
			if w == 32 {
				return a.FP(float64(float32(sext(x.bv, x.w))), 32)
			}
			return a.FP(float64(sext(x.bv, x.w)), w)
		}
		if w == 32 {
			return a.FP(float64(float32(x.bv)), 32)
		}
		return a.FP(float64(x.bv), w)
	}
	op := OFFromUBV
	if signed {
		op = OFFromSBV
	}
	return a.mk(Term{op: op, sort: SFP, w: w, args: []*Term{x}})
}
func (a *Arena) FToInt(x *Term, signed bool, w uint8) *Term {
	if x.IsConst() {
		if signed {
			return a.BV(uint64(int64(x.fpval())), w)
		}
		return a.BV(uint64(x.fpval()), w)
	}
	op := OFToUBV
	if signed {
		op = OFToSBV
	}
	return a.mk(Term{op: op, sort: SBV, w: w, args: []*Term{x}})
}
func (a *Arena) FRoundInt(x *Term, mode uint64) *Term {
	if x.IsConst() {
		f := x.fpval()
		switch mode {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Trunc(f)
		case 2:
			f = math.Floor(f)
		case 3:
			f = math.Ceil(f)
		case 4:
			f = math.Round(f)
		}
		return a.FP(f, x.w)
	}
	return a.mk(Term{op: OFRound, sort: SFP, w: x.w, bv: mode, args: []*Term{x}})
}

// BV2Real converts an integer term to a real.
func (a *Arena) BV2Real(x *Term, signed bool) *Term {
	if x.IsConst() {
		if signed {
			return a.RInt(sext(x.bv, x.w))
		}
		return a.Rat(new(big.Rat).SetInt(new(big.Int).SetUint64(x.bv)))
	}
	s := uint64(0)
	if signed {
		s = 1
	}
	return a.mk(Term{op: OBV2Real, sort: SReal, bv: s, args: []*Term{x}})
}

// ---------- printing ----------

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb, 8)
	return sb.String()
}
func (t *Term) write(sb *strings.Builder, depth int) {
	if sb.Len() > 600 || depth == 0 {
		sb.WriteString("…")
		return
	}
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			fmt.Fprint(sb, t.b)
		case SBV:
			fmt.Fprintf(sb, "%d:%d", t.bv, t.w)
		case SReal:
			sb.WriteString(t.rat.RatString())
		case SFP:
			fmt.Fprint(sb, t.fpval())
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	case OLin:
		sb.WriteString("(")
		if t.rat.Sign() != 0 {
			sb.WriteString(t.rat.RatString())
		}
		for i, x := range t.args {
			if t.coef[i].Cmp(ratOne) == 0 {
				sb.WriteString(" + ")
			} else {
				sb.WriteString(" + " + t.coef[i].RatString() + "*")
			}
			x.write(sb, depth-1)
		}
		sb.WriteString(")")
		return
	case OMono:
		for i, x := range t.args {
			if i > 0 {
				sb.WriteString("*")
			}
			x.write(sb, depth-1)
			if t.pow[i] != 1 {
				fmt.Fprintf(sb, "^%d", t.pow[i])
			}
		}
		return
	case OPosInf:
		sb.WriteString("+Inf")
		return
	case ONegInf:
		sb.WriteString("-Inf")
		return
	case ONaN:
		sb.WriteString("NaN")
		return
	}
	n := t.name
	if n == "" {
		n = opNames[t.op]
		if n == "" {
			n = fmt.Sprintf("op%d", t.op)
		}
	}
	sb.WriteString(n + "(")
	for i, x := range t.args {
		if i > 0 {
			sb.WriteString(", ")
		}
		x.write(sb, depth-1)
	}
	sb.WriteString(")")
}

var opNames = map[Op]string{OIte: "ite", OEq: "=", ONot: "not", OAnd: "and", OOr: "or", OLe: "<=", OLt: "<",
	OBAdd: "bvadd", OBSub: "bvsub", OBMul: "bvmul", OBUdiv: "bvudiv", OBUrem: "bvurem", OBSdiv: "bvsdiv", OBSrem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", OBNeg: "bvneg", OBShl: "bvshl", OBLshr: "bvlshr", OBAshr: "bvashr",
	OBUlt: "bvult", OBUle: "bvule", OBSlt: "bvslt", OBSle: "bvsle", OBConcat: "concat"}
