package main

import (
	"math"
	"math/big"
	"math/rand"
)

// Model assigns values to variables: float64 for reals, uint64 for BV/FP bits, bool.
type Model struct {
	seed  int64
	style int
	vals  map[*Term]any
}

type VarHint struct {
	lo, hi   int64 // BV range (signed) when ranged
	ranged   bool
	flo, fhi float64 // real range
	franged  bool
}

func hashStr(s string) int64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return int64(h)
}

func (m *Model) get(v *Term, hints map[*Term]*VarHint) any {
	if x, ok := m.vals[v]; ok {
		return x
	}
	r := rand.New(rand.NewSource(m.seed*7919 + hashStr(v.name)))
	for i := 0; i < 3; i++ {
		r.Int63()
	}
	var x any
	h := hints[v]
	switch v.sort {
	case SBool:
		x = r.Intn(2) == 0
	case SBV:
		if h != nil && h.ranged {
			x = mask(uint64(h.lo+r.Int63n(h.hi-h.lo+1)), v.w)
		} else {
			switch r.Intn(4) {
			case 0:
				x = mask(uint64(r.Intn(8)), v.w)
			case 1:
				x = mask(^uint64(r.Intn(8)), v.w)
			default:
				x = mask(r.Uint64(), v.w)
			}
		}
	case SReal:
		if h != nil && h.franged {
			x = h.flo + (h.fhi-h.flo)*r.Float64()
		} else {
			switch m.style % 4 {
			case 0:
				x = float64(r.Intn(2001)-1000) / 512
			case 1:
				x = float64(r.Intn(2001)-1000) / 1024 * 8
			case 2:
				x = float64(r.Intn(13)-6) / 2
			default:
				if r.Intn(3) == 0 {
					x = float64(r.Intn(5) - 2)
				} else {
					x = float64(r.Intn(4001)-2000) / 4096
				}
			}
		}
	case SFP:
		switch r.Intn(6) {
		case 0:
			sp := []float64{0, math.Copysign(0, -1), 1, -1, math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64}
			f := sp[r.Intn(len(sp))]
			if v.w == 32 {
				x = uint64(math.Float32bits(float32(f)))
			} else {
				x = math.Float64bits(f)
			}
		case 1:
			x = mask(r.Uint64(), v.w)
		default:
			f := float64(r.Intn(2001)-1000) / 64
			if v.w == 32 {
				x = uint64(math.Float32bits(float32(f)))
			} else {
				x = math.Float64bits(f)
			}
		}
	}
	m.vals[v] = x
	return x
}

type Evaluator struct {
	m     *Model
	hints map[*Term]*VarHint
	memo  map[*Term]any
}

func NewEvaluator(m *Model, hints map[*Term]*VarHint) *Evaluator {
	return &Evaluator{m: m, hints: hints, memo: map[*Term]any{}}
}

func ratF(r *big.Rat) float64 { f, _ := r.Float64(); return f }

func (e *Evaluator) R(t *Term) float64 { return e.eval(t).(float64) }
func (e *Evaluator) B(t *Term) bool    { return e.eval(t).(bool) }
func (e *Evaluator) U(t *Term) uint64  { return e.eval(t).(uint64) }

func fpv(b uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(b)))
	}
	return math.Float64frombits(b)
}
func fpb(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func ufEval(name string, a []float64) float64 {
	switch name {
	case "exp":
		return math.Exp(a[0])
	case "log":
		return math.Log(a[0])
	case "sqrt":
		return math.Sqrt(a[0])
	case "tanh":
		return math.Tanh(a[0])
	case "sin":
		return math.Sin(a[0])
	case "cos":
		return math.Cos(a[0])
	case "tan":
		return math.Tan(a[0])
	case "sinh":
		return math.Sinh(a[0])
	case "cosh":
		return math.Cosh(a[0])
	case "erf":
		return math.Erf(a[0])
	case "atan":
		return math.Atan(a[0])
	case "asin":
		return math.Asin(a[0])
	case "acos":
		return math.Acos(a[0])
	case "pow":
		return math.Pow(a[0], a[1])
	case "floor":
		return math.Floor(a[0])
	case "ceil":
		return math.Ceil(a[0])
	}
	// opaque function: deterministic pseudo-random
	h := uint64(hashStr(name))
	for _, x := range a {
		h = h*6364136223846793005 + math.Float64bits(x)
	}
	return float64(h%4096)/1024 - 2
}

// approxEq is used for real-sort equality in concrete evaluation.
func approxEq(x, y float64) bool {
	if x == y || math.IsNaN(x) && math.IsNaN(y) {
		return true
	}
	return math.Abs(x-y) <= 1e-9*(1+math.Max(math.Abs(x), math.Abs(y)))
}

func (e *Evaluator) eval(t *Term) any {
	if t.op == OConst {
		switch t.sort {
		case SBool:
			return t.b
		case SReal:
			return ratF(t.rat)
		default:
			return t.bv
		}
	}
	if r, ok := e.memo[t]; ok {
		return r
	}
	r := e.eval1(t)
	e.memo[t] = r
	return r
}

func (e *Evaluator) eval1(t *Term) any {
	switch t.op {
	case OVar:
		return e.m.get(t, e.hints)
	case OLin:
		s := ratF(t.rat)
		for i, x := range t.args {
			s += ratF(t.coef[i]) * e.R(x)
		}
		return s
	case OMono:
		p := 1.0
		for i, x := range t.args {
			v := e.R(x)
			k := t.pow[i]
			if k < 0 {
				v = 1 / v
				k = -k
			}
			for ; k > 0; k-- {
				p *= v
			}
		}
		return p
	case OUF:
		a := make([]float64, len(t.args))
		for i, x := range t.args {
			a[i] = e.R(x)
		}
		return ufEval(t.name, a)
	case OPosInf:
		return math.Inf(1)
	case ONegInf:
		return math.Inf(-1)
	case ONaN:
		return math.NaN()
	case OBV2Real:
		u := e.U(t.args[0])
		if t.bv == 1 {
			return float64(sext(u, t.args[0].w))
		}
		return float64(u)
	case OFP2Real:
		return fpv(e.U(t.args[0]), t.args[0].w)
	case OIte:
		if e.B(t.args[0]) {
			return e.eval(t.args[1])
		}
		return e.eval(t.args[2])
	case OEq:
		x, y := e.eval(t.args[0]), e.eval(t.args[1])
		if t.args[0].sort == SReal {
			return approxEq(x.(float64), y.(float64))
		}
		if t.args[0].sort == SFP { // structural equality (all NaNs equal)
			a, b := fpv(x.(uint64), t.args[0].w), fpv(y.(uint64), t.args[0].w)
			if math.IsNaN(a) && math.IsNaN(b) {
				return true
			}
		}
		return x == y
	case ONot:
		return !e.B(t.args[0])
	case OAnd:
		for _, x := range t.args {
			if !e.B(x) {
				return false
			}
		}
		return true
	case OOr:
		for _, x := range t.args {
			if e.B(x) {
				return true
			}
		}
		return false
	case OLt:
		return e.R(t.args[0]) < e.R(t.args[1])
	case OLe:
		return e.R(t.args[0]) <= e.R(t.args[1])
	case OBAdd, OBSub, OBMul, OBUdiv, OBUrem, OBSdiv, OBSrem, OBAnd, OBOr, OBXor, OBShl, OBLshr, OBAshr:
		x, y := e.U(t.args[0]), e.U(t.args[1])
		v, ok := (*Arena)(nil).bvc(t.op, x, y, t.w)
		if !ok {
			switch t.op { // SMT-LIB division by zero
			case OBUdiv:
				v = ^uint64(0)
			case OBUrem, OBSrem:
				v = x
			case OBSdiv:
				if sext(x, t.w) < 0 {
					v = 1
				} else {
					v = ^uint64(0)
				}
			}
		}
		return mask(v, t.w)
	case OBNot:
		return mask(^e.U(t.args[0]), t.w)
	case OBNeg:
		return mask(-e.U(t.args[0]), t.w)
	case OBUlt:
		return e.U(t.args[0]) < e.U(t.args[1])
	case OBUle:
		return e.U(t.args[0]) <= e.U(t.args[1])
	case OBSlt:
		w := t.args[0].w
		return sext(e.U(t.args[0]), w) < sext(e.U(t.args[1]), w)
	case OBSle:
		w := t.args[0].w
		return sext(e.U(t.args[0]), w) <= sext(e.U(t.args[1]), w)
	case OBExtract:
		return mask(e.U(t.args[0])>>t.bv, t.w)
	case OBZext:
		return e.U(t.args[0])
	case OBSext:
		return mask(uint64(sext(e.U(t.args[0]), t.args[0].w)), t.w)
	case OBConcat:
		return mask(e.U(t.args[0])<<t.args[1].w|e.U(t.args[1]), t.w)
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := fpv(e.U(t.args[0]), t.w), fpv(e.U(t.args[1]), t.w)
		var r float64
		if t.w == 32 {
			p, q := float32(x), float32(y)
			var s float32
			switch t.op {
			case OFAdd:
				s = p + q
			case OFSub:
				s = p - q
			case OFMul:
				s = p * q
			default:
				s = p / q
			}
			r = float64(s)
		} else {
			switch t.op {
			case OFAdd:
				r = x + y
			case OFSub:
				r = x - y
			case OFMul:
				r = x * y
			default:
				r = x / y
			}
		}
		return fpb(r, t.w)
	case OFFma:
		return fpb(math.FMA(fpv(e.U(t.args[0]), t.w), fpv(e.U(t.args[1]), t.w), fpv(e.U(t.args[2]), t.w)), t.w)
	case OFNeg:
		return e.U(t.args[0]) ^ 1<<(t.w-1)
	case OFAbs:
		return e.U(t.args[0]) &^ (1 << (t.w - 1))
	case OFSqrt:
		return fpb(math.Sqrt(fpv(e.U(t.args[0]), t.w)), t.w)
	case OFEq:
		w := t.args[0].w
		return fpv(e.U(t.args[0]), w) == fpv(e.U(t.args[1]), w)
	case OFLt:
		w := t.args[0].w
		return fpv(e.U(t.args[0]), w) < fpv(e.U(t.args[1]), w)
	case OFLe:
		w := t.args[0].w
		return fpv(e.U(t.args[0]), w) <= fpv(e.U(t.args[1]), w)
	case OFIsNaN:
		return math.IsNaN(fpv(e.U(t.args[0]), t.args[0].w))
	case OFFromBits, OFToBits:
		return e.U(t.args[0])
	case OFCvt:
		return fpb(fpv(e.U(t.args[0]), t.args[0].w), t.w)
	case OFFromSBV:
		v := sext(e.U(t.args[0]), t.args[0].w)
		if t.w == 32 {
			return fpb(float64(float32(v)), 32)
		}
		return fpb(float64(v), t.w)
	case OFFromUBV:
		v := e.U(t.args[0])
		if t.w == 32 {
			return fpb(float64(float32(v)), 32)
		}
		return fpb(float64(v), t.w)
	case OFToSBV:
		f := fpv(e.U(t.args[0]), t.args[0].w)
		return mask(uint64(int64(f)), t.w)
	case OFToUBV:
		f := fpv(e.U(t.args[0]), t.args[0].w)
		return mask(uint64(f), t.w)
	case OFRound:
		f := fpv(e.U(t.args[0]), t.w)
		switch t.bv {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Trunc(f)
		case 2:
			f = math.Floor(f)
		case 3:
			f = math.Ceil(f)
		case 4:
			f = math.Round(f)
		}
		return fpb(f, t.w)
	}
	panic("eval: op " + t.String())
}
