// Package c25: every operator of the computation graph computes its definition.
//
// The oracles are written from the definitions over plain float64 slices and
// share no code with the library.
package c25

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// ---- operands ----

type dom int

const (
	anyReal dom = iota
	positive
	nonzero
	nonneg
)

// m is an operand: its elements, row-major, and the tensor holding them.
type m struct {
	r, c int
	v    []float64
	t    mat.Tensor // what the operator is given
	leaf mat.Matrix
}

func (a m) at(i, j int) float64 { return a.v[i*a.c+j] }

func sym[T float.DType](r, c int, d dom) m {
	v := hx.Floats[T](r * c)
	out := make([]float64, len(v))
	for i, x := range v {
		switch d {
		case positive:
			vrt.Assume(x > 0)
		case nonzero:
			vrt.Assume(x != 0)
		case nonneg:
			vrt.Assume(x >= 0)
		}
		out[i] = float64(x)
	}
	l := hx.M(r, c, v)
	return m{r, c, out, l, l}
}

// node makes the operand the result of another operator.
func node(a m) m {
	a.t = ag.Copy(a.t)
	return a
}

// wrap gives the operands as leaves, possibly with the last one in the place of
// another one of its shape, or as results of operators.
func wrap(as ...m) []m {
	last := len(as) - 1
	for i, a := range as[:max(last, 0)] {
		if a.r == as[last].r && a.c == as[last].c && vrt.Choose(2) == 1 {
			as[i] = as[last]
			return as
		}
	}
	if vrt.Choose(2) == 0 {
		return as
	}
	out := make([]m, len(as))
	for i, a := range as {
		out[i] = node(a)
	}
	return out
}

func ts(as []m) []mat.Tensor {
	out := make([]mat.Tensor, len(as))
	for i, a := range as {
		out[i] = a.t
	}
	return out
}

func cast[T float.DType](v []float64) []T {
	out := make([]T, len(v))
	for i, x := range v {
		out[i] = T(x)
	}
	return out
}

// is asserts the value of y, on its first and on a second reading, and that the
// operands kept theirs.
func is[T float.DType](y mat.Tensor, r, c int, want []float64, as ...m) {
	w := cast[T](want)
	hx.Eq(y.Value(), r, c, w, "value")
	hx.Eq(y, r, c, w, "operator")
	for _, a := range as {
		hx.Eq(a.leaf, a.r, a.c, cast[T](a.v), "operand")
	}
}

func both(f32, f64 func()) { hx.Both(f32, f64) }

func sigmoid(x float64) float64 { return 1 / (1 + math.Exp(-x)) }

// ---- elementwise operators ----

type uop struct {
	f   func(mat.Tensor) mat.Tensor
	def func(float64) float64
	d   dom
}

func unaries[T float.DType](shape func() (int, int), ops ...uop) {
	o := hx.Pick(ops...)
	r, c := shape()
	x := wrap(sym[T](r, c, o.d))[0]
	y := o.f(x.t)
	want := make([]float64, len(x.v))
	for i, e := range x.v {
		want[i] = o.def(e)
	}
	is[T](y, r, c, want, x)
}

func H_Elementwise() { both(elementwise[float32], elementwise[float64]) }

func elementwise[T float.DType]() {
	unaries[T](hx.AnyShape,
		uop{ag.Cos, math.Cos, 0}, uop{ag.Sin, math.Sin, 0}, uop{ag.Tan, math.Tan, 0},
		uop{ag.Exp, math.Exp, 0}, uop{ag.Log, math.Log, positive}, uop{ag.Sqrt, math.Sqrt, nonneg},
		uop{ag.Square, func(x float64) float64 { return x * x }, 0},
		uop{ag.Neg, func(x float64) float64 { return -x }, 0},
		uop{ag.Reciprocal, func(x float64) float64 { return 1 / x }, nonzero},
		uop{ag.ReverseSubOne, func(x float64) float64 { return 1 - x }, 0},
		uop{ag.Copy, func(x float64) float64 { return x }, 0},
		uop{func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 2) }, func(x float64) float64 { return x * x }, nonzero},
		uop{func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 3) }, func(x float64) float64 { return x * x * x }, nonzero},
		uop{func(x mat.Tensor) mat.Tensor { return ag.Pow(x, -1) }, func(x float64) float64 { return 1 / x }, nonzero},
		uop{func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 0.5) }, math.Sqrt, positive},
		uop{func(x mat.Tensor) mat.Tensor { return ag.StopGrad(x) }, func(x float64) float64 { return x }, 0},
	)
}

func H_Activation() { both(activation[float32], activation[float64]) }

func activation[T float.DType]() {
	unaries[T](hx.SmallShape,
		uop{ag.GELU, func(x float64) float64 {
			return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
		}, 0},
		uop{ag.Mish, func(x float64) float64 { return x * math.Tanh(math.Log(1+math.Exp(x))) }, 0},
		uop{ag.Sigmoid, sigmoid, 0},
		uop{ag.SiLU, func(x float64) float64 { return x * sigmoid(x) }, 0},
		uop{ag.Swish, func(x float64) float64 { return x * sigmoid(x) }, 0},
		uop{ag.Tanh, math.Tanh, 0},
	)
}

// H_Piecewise: the operators defined by cases.
func H_Piecewise() { both(piecewise[float32], piecewise[float64]) }

func piecewise[T float.DType]() {
	unaries[T](pieces,
		uop{ag.Abs, math.Abs, 0},
		uop{ag.HardSigmoid, func(x float64) float64 { return math.Max(0, math.Min(1, 0.2*x+0.5)) }, 0},
		uop{ag.HardTanh, func(x float64) float64 { return math.Max(-1, math.Min(1, x)) }, 0},
		uop{ag.PositiveELU, func(x float64) float64 {
			if x > 0 {
				return x + 1
			}
			return math.Exp(x)
		}, 0},
		uop{ag.ReLU, func(x float64) float64 { return math.Max(x, 0) }, 0},
		uop{ag.Softsign, func(x float64) float64 { return x / (1 + math.Abs(x)) }, 0},
	)
}

func pieces() (int, int) {
	return hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {0, 0}}, [][2]int{{3, 1}, {2, 2}})
}

type sop struct {
	f   func(x mat.Tensor, s []mat.Tensor) mat.Tensor
	def func(x float64, s []float64) float64
	d   []dom // of the scalars
}

func s1(f func(x, s mat.Tensor) mat.Tensor) func(mat.Tensor, []mat.Tensor) mat.Tensor {
	return func(x mat.Tensor, s []mat.Tensor) mat.Tensor { return f(x, s[0]) }
}

func s2(f func(x, a, b mat.Tensor) mat.Tensor) func(mat.Tensor, []mat.Tensor) mat.Tensor {
	return func(x mat.Tensor, s []mat.Tensor) mat.Tensor { return f(x, s[0], s[1]) }
}

// H_Scalars: operators of a tensor and one or two scalars.
func H_Scalars() { both(scalars[float32], scalars[float64]) }

func scalars[T float.DType]() {
	one := []dom{anyReal}
	withScalars[T](hx.SmallShape,
		sop{s1(ag.AddScalar), func(x float64, s []float64) float64 { return x + s[0] }, one},
		sop{s1(ag.SubScalar), func(x float64, s []float64) float64 { return x - s[0] }, one},
		sop{s1(ag.ReverseSub), func(x float64, s []float64) float64 { return s[0] - x }, one},
		sop{s1(ag.ProdScalar), func(x float64, s []float64) float64 { return x * s[0] }, one},
		sop{s1(ag.DivScalar), func(x float64, s []float64) float64 { return x / s[0] }, []dom{nonzero}},
		sop{s1(ag.SwishB), func(x float64, s []float64) float64 { return x * sigmoid(s[0]*x) }, one},
	)
}

// H_ScalarPiecewise: those defined by cases.
func H_ScalarPiecewise() { both(scalarPieces[float32], scalarPieces[float64]) }

func scalarPieces[T float.DType]() {
	one := []dom{anyReal}
	withScalars[T](pieces,
		sop{s1(ag.ELU), func(x float64, s []float64) float64 {
			if x > 0 {
				return x
			}
			return s[0] * (math.Exp(x) - 1)
		}, one},
		sop{s1(ag.CELU), func(x float64, s []float64) float64 {
			if x > 0 {
				return x
			}
			return s[0] * (math.Exp(x/s[0]) - 1)
		}, []dom{nonzero}},
		sop{s1(ag.LeakyReLU), func(x float64, s []float64) float64 {
			if x > 0 {
				return x
			}
			return s[0] * x
		}, one},
		sop{s1(ag.SoftShrink), func(x float64, s []float64) float64 {
			switch {
			case x > s[0]:
				return x - s[0]
			case x < -s[0]:
				return x + s[0]
			}
			return 0
		}, []dom{nonneg}},
		sop{s2(ag.SELU), func(x float64, s []float64) float64 {
			if x > 0 {
				return s[1] * x
			}
			return s[1] * s[0] * (math.Exp(x) - 1)
		}, []dom{0, 0}},
		sop{s2(ag.SoftPlus), func(x float64, s []float64) float64 {
			if x > s[1] {
				return x
			}
			return math.Log(1+math.Exp(s[0]*x)) / s[0]
		}, []dom{nonzero, 0}},
		sop{s2(ag.Threshold), func(x float64, s []float64) float64 {
			if x > s[0] {
				return x
			}
			return s[1]
		}, []dom{0, 0}},
	)
}

func withScalars[T float.DType](shape func() (int, int), ops ...sop) {
	o := hx.Pick(ops...)
	r, c := shape()
	as := []m{sym[T](r, c, 0)}
	for _, d := range o.d {
		as = append(as, sym[T](1, 1, d))
	}
	as = wrap(as...)
	y := o.f(as[0].t, ts(as[1:]))
	var s []float64
	for _, a := range as[1:] {
		s = append(s, a.v[0])
	}
	want := make([]float64, r*c)
	for i, x := range as[0].v {
		want[i] = o.def(x, s)
	}
	is[T](y, r, c, want, as...)
}

type bop struct {
	f   func(a, b mat.Tensor) mat.Tensor
	def func(a, b float64) float64
	d   dom
}

func H_Binary() { both(binary[float32], binary[float64]) }

func binary[T float.DType]() {
	o := hx.Pick(
		bop{ag.Add, func(a, b float64) float64 { return a + b }, 0},
		bop{ag.Sub, func(a, b float64) float64 { return a - b }, 0},
		bop{ag.Prod, func(a, b float64) float64 { return a * b }, 0},
		bop{ag.Div, func(a, b float64) float64 { return a / b }, nonzero},
	)
	r, c := hx.AnyShape()
	as := wrap(sym[T](r, c, 0), sym[T](r, c, o.d))
	y := o.f(as[0].t, as[1].t)
	want := make([]float64, r*c)
	for i, x := range as[0].v {
		want[i] = o.def(x, as[1].v[i])
	}
	is[T](y, r, c, want, as...)
}

// H_MaxMin: the elementwise maximum and minimum of two or more tensors.
func H_MaxMin() { both(maxMin[float32], maxMin[float64]) }

func maxMin[T float.DType]() {
	n := hx.Pick(1, 2, 3)
	r, c := hx.Dims([][2]int{{1, 1}, {1, 2}, {2, 1}}, [][2]int{{3, 1}, {2, 2}})
	var as []m
	for i := 0; i < n; i++ {
		as = append(as, sym[T](r, c, 0))
	}
	as = wrap(as...)
	f, list, def := ag.Max, ag.Maximum, math.Max
	if vrt.Choose(2) == 1 {
		f, list, def = ag.Min, ag.Minimum, math.Min
	}
	want := append([]float64{}, as[0].v...)
	for _, a := range as[1:] {
		for i, x := range a.v {
			want[i] = def(want[i], x)
		}
	}
	is[T](list(ts(as)), r, c, want, as...)
	if n == 2 {
		is[T](f(as[0].t, as[1].t), r, c, want, as...)
	}
}

func H_SumMean() { both(sumMean[float32], sumMean[float64]) }

func sumMean[T float.DType]() {
	n := 1 + vrt.Choose(vrt.Bound(4, 6))
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 3}}, [][2]int{{3, 1}, {3, 2}})
	var as []m
	for i := 0; i < n; i++ {
		as = append(as, sym[T](r, c, 0))
	}
	as = wrap(as...)
	sum := make([]float64, r*c)
	for _, a := range as {
		for i, x := range a.v {
			sum[i] += x
		}
	}
	is[T](ag.Sum(ts(as)...), r, c, sum, as...)
	for i := range sum {
		sum[i] /= float64(n)
	}
	is[T](ag.Mean(ts(as)), r, c, sum, as...)
}

// The first operand of an addition may be missing.
func H_AddNil() { both(addNil[float32], addNil[float64]) }

func addNil[T float.DType]() {
	r, c := hx.SmallShape()
	a := wrap(sym[T](r, c, 0))[0]
	is[T](ag.Add(nil, a.t), r, c, a.v, a)
}

// ---- products ----

func mulDims() (n, k, p int) {
	ds := [][3]int{{1, 1, 1}, {2, 3, 1}, {1, 3, 2}, {2, 2, 3}, {3, 1, 2}, {1, 9, 1}, {3, 4, 2}}
	if vrt.Thorough() {
		ds = append(ds, [][3]int{{4, 5, 3}, {1, 17, 2}, {9, 2, 1}, {2, 1, 9}}...)
	}
	d := hx.Pick(ds...)
	return d[0], d[1], d[2]
}

func mm(a, b m) m {
	out := m{r: a.r, c: b.c, v: make([]float64, a.r*b.c)}
	for i := 0; i < a.r; i++ {
		for j := 0; j < b.c; j++ {
			s := 0.0
			for k := 0; k < a.c; k++ {
				s += a.at(i, k) * b.at(k, j)
			}
			out.v[i*b.c+j] = s
		}
	}
	return out
}

func tr(a m) m {
	out := m{r: a.c, c: a.r, v: make([]float64, len(a.v))}
	for i := 0; i < a.r; i++ {
		for j := 0; j < a.c; j++ {
			out.v[j*a.r+i] = a.at(i, j)
		}
	}
	return out
}

func plus(as ...m) m {
	out := m{r: as[0].r, c: as[0].c, v: make([]float64, len(as[0].v))}
	for _, a := range as {
		for i, x := range a.v {
			out.v[i] += x
		}
	}
	return out
}

func eq[T float.DType](y mat.Tensor, w m, as ...m) { is[T](y, w.r, w.c, w.v, as...) }

func H_Mul() { both(mul[float32], mul[float64]) }

func mul[T float.DType]() {
	n, k, p := mulDims()
	as := wrap(sym[T](n, k, 0), sym[T](k, p, 0))
	eq[T](ag.Mul(as[0].t, as[1].t), mm(as[0], as[1]), as...)
}

// MulT is the product of the transpose with a column vector.
func H_MulT() { both(mulT[float32], mulT[float64]) }

func mulT[T float.DType]() {
	n, k, _ := mulDims()
	as := wrap(sym[T](k, n, 0), sym[T](k, 1, 0))
	eq[T](ag.MulT(as[0].t, as[1].t), mm(tr(as[0]), as[1]), as...)
}

func H_Dot() { both(dot[float32], dot[float64]) }

func dot[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {9, 1}}, [][2]int{{1, 17}, {3, 3}})
	as := wrap(sym[T](r, c, 0), sym[T](r, c, 0))
	s := 0.0
	for i, x := range as[0].v {
		s += x * as[1].v[i]
	}
	is[T](ag.Dot(as[0].t, as[1].t), 1, 1, []float64{s}, as...)
}

func H_Affine() { both(affine[float32], affine[float64]) }

func affine[T float.DType]() {
	n, k, p := mulDims()
	pairs := vrt.Choose(3)
	if n*k*p == 1 && vrt.Choose(2) == 1 {
		pairs = vrt.Bound(4, 5)
	}
	as := []m{sym[T](n, p, 0), sym[T](n, k, 0), sym[T](k, p, 0)}
	for i := 0; i < pairs; i++ {
		as = append(as, sym[T](n, 1+i, 0), sym[T](1+i, p, 0))
	}
	as = wrap(as...)
	xs := ts(as)
	terms := []m{as[0]}
	for i := 1; i < len(as); i += 2 {
		if i > 1 && vrt.Choose(2) == 1 { // a missing x leaves out its term
			xs[i+1] = nil
			continue
		}
		terms = append(terms, mm(as[i], as[i+1]))
	}
	eq[T](ag.Affine(xs[0], xs[1], xs[2], xs[3:]...), plus(terms...), as...)
}

func H_Bilinear() { both(bilinear[float32], bilinear[float64]) }

func bilinear[T float.DType]() {
	n, k := hx.Pick(1, 2, 3), hx.Pick(1, 2, 3)
	as := wrap(sym[T](n, k, 0), sym[T](n, 1, 0), sym[T](k, 1, 0), sym[T](1, 1, 0), sym[T](n, 1, 0), sym[T](k, 1, 0))
	w, u, v, b, x1, x2 := as[0], as[1], as[2], as[3], as[4], as[5]
	bi := mm(mm(tr(x1), w), x2)
	eq[T](ag.BiLinear(w.t, x1.t, x2.t), bi, as...)
	eq[T](ag.BiAffine(w.t, u.t, v.t, b.t, x1.t, x2.t), plus(bi, mm(tr(u), x1), mm(tr(v), x2), b), as...)
}

// ---- reductions ----

func H_Reduce() { both(reduce[float32], reduce[float64]) }

func reduce[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {9, 1}, {1, 17}}, [][2]int{{3, 3}, {4, 5}, {1, 33}})
	x := wrap(sym[T](r, c, 0))[0]
	s := 0.0
	for _, e := range x.v {
		s += e
	}
	is[T](ag.ReduceSum(x.t), 1, 1, []float64{s}, x)
	is[T](ag.ReduceMean(x.t), 1, 1, []float64{s / float64(r*c)}, x)
}

func H_ReduceMax() { both(reduceMax[float32], reduceMax[float64]) }

func reduceMax[T float.DType]() {
	r, c := hx.VecShape(4, 5)
	x := wrap(sym[T](r, c, 0))[0]
	best := x.v[0]
	for _, e := range x.v {
		best = math.Max(best, e)
	}
	is[T](ag.ReduceMax(x.t), 1, 1, []float64{best}, x)
}

func H_ScalarMax() { both(scalarMax[float32], scalarMax[float64]) }

func scalarMax[T float.DType]() {
	n := 1 + vrt.Choose(vrt.Bound(3, 4))
	var as []m
	for i := 0; i < n; i++ {
		as = append(as, sym[T](1, 1, 0))
	}
	as = wrap(as...)
	best := as[0].v[0]
	for _, a := range as {
		best = math.Max(best, a.v[0])
	}
	is[T](ag.ScalarMax(ts(as)), 1, 1, []float64{best}, as...)
}

func H_MaxPooling() { both(maxPooling[float32], maxPooling[float64]) }

func maxPooling[T float.DType]() {
	s := hx.Pick([4]int{1, 1, 1, 1}, [4]int{2, 2, 2, 1}, [4]int{2, 2, 1, 1}, [4]int{2, 4, 1, 2}, [4]int{2, 2, 2, 2}, [4]int{3, 2, 1, 2})
	x := wrap(sym[T](s[0], s[1], 0))[0]
	r, c := s[0]/s[2], s[1]/s[3]
	var want []float64
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			best := x.at(i*s[2], j*s[3])
			for p := i * s[2]; p < (i+1)*s[2]; p++ {
				for q := j * s[3]; q < (j+1)*s[3]; q++ {
					best = math.Max(best, x.at(p, q))
				}
			}
			want = append(want, best)
		}
	}
	is[T](ag.MaxPooling(x.t, s[2], s[3]), r, c, want, x)
	if s[0]%2 == 1 && s[0] > 1 {
		vrt.AssertPanics(func() { ag.MaxPooling(x.t, 2, 1).Value() }, "a window that does not divide the rows")
	}
}

// ---- vector functions ----

func H_Softmax() { both(softmax[float32], softmax[float64]) }

func softmax[T float.DType]() {
	r, c := hx.VecShape(3, 4)
	x := wrap(sym[T](r, c, 0))[0]
	z := 0.0
	for _, e := range x.v {
		z += math.Exp(e)
	}
	want := make([]float64, len(x.v))
	logs := make([]float64, len(x.v))
	for i, e := range x.v {
		want[i] = math.Exp(e) / z
		logs[i] = math.Log(want[i])
	}
	is[T](ag.Softmax(x.t), r*c, 1, want, x)
	is[T](ag.LogSoftmax(x.t), r*c, 1, logs, x)
}

// LogSumExp of a vector or of several scalars: its exponential is the sum of
// the exponentials.
func H_LogSumExp() { both(logSumExp[float32], logSumExp[float64]) }

func logSumExp[T float.DType]() {
	var xs []m
	var v []float64
	if vrt.Choose(2) == 0 {
		r, c := hx.VecShape(3, 4)
		xs = wrap(sym[T](r, c, 0))
		v = xs[0].v
	} else {
		n := hx.Pick(2, 3)
		for i := 0; i < n; i++ {
			xs = append(xs, sym[T](1, 1, 0))
		}
		xs = wrap(xs...)
		for _, x := range xs {
			v = append(v, x.v[0])
		}
	}
	y := ag.LogSumExp(ts(xs)...)
	hx.Shape(y.Value(), 1, 1, "log-sum-exp")
	s := 0.0
	for _, e := range v {
		s += math.Exp(e)
	}
	vrt.AssertEq(math.Exp(y.Value().Data().F64()[0]), s, "log-sum-exp")
	is[T](xs[0].t, xs[0].r, xs[0].c, xs[0].v, xs...)
}

// SparseMax is the Euclidean projection on the simplex; the loss subtracts half
// of 1 + the sum over the support of x^2 - tau^2.
func H_SparseMax() { both(sparseMax[float32], sparseMax[float64]) }

func sparseMax[T float.DType]() {
	r, c := hx.VecShape(3, 4)
	x := wrap(sym[T](r, c, 0))[0]
	y := ag.SparseMax(x.t)
	hx.Shape(y.Value(), r, c, "sparsemax")
	out := y.Value().Data().F64()
	sum := 0.0
	for j := range out {
		vrt.AssertLe(0, out[j], "not negative")
		sum += out[j]
		for k := range out {
			if out[j] > 0 && out[k] > 0 {
				vrt.AssertEq(out[j]-out[k], x.v[j]-x.v[k], "the support is shifted as a whole")
			}
			if out[j] > 0 && !(out[k] > 0) {
				vrt.AssertLe(x.v[k], x.v[j]-out[j], "the rest lies below the shift")
			}
		}
	}
	vrt.AssertEq(sum, 1, "sums to one")
	if r*c > 2 && !vrt.Thorough() {
		return
	}
	reg := 0.5
	for j, o := range out {
		if o > 0 {
			tau := x.v[j] - o
			reg += 0.5 * (x.v[j]*x.v[j] - tau*tau)
		}
	}
	want := make([]float64, len(out))
	for i, e := range x.v {
		want[i] = e - reg
	}
	is[T](ag.SparseMaxLoss(x.t), r, c, want, x)
}

// ---- structure ----

// RotateR moves the last k elements of a vector to its front.
func H_RotateR() { both(rotateR[float32], rotateR[float64]) }

func rotateR[T float.DType]() {
	r, c := hx.VecShape(4, 6)
	x := wrap(sym[T](r, c, 0))[0]
	k := vrt.Choose(r*c + 1)
	want := append(append([]float64{}, x.v[r*c-k:]...), x.v[:r*c-k]...)
	is[T](ag.RotateR(x.t, k), r*c, 1, want, x)
}

func H_Shape() { both(shape[float32], shape[float64]) }

func shape[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {4, 1}}, [][2]int{{4, 3}, {2, 6}})
	x := wrap(sym[T](r, c, 0))[0]
	switch vrt.Choose(4) {
	case 0:
		eq[T](ag.T(x.t), tr(x), x)
	case 1:
		is[T](ag.Flatten(x.t), 1, r*c, x.v, x)
	case 2:
		is[T](ag.Reshape(x.t, c, r), c, r, x.v, x)
		is[T](ag.Reshape(x.t, 1, r*c), 1, r*c, x.v, x)
		vrt.AssertPanics(func() { ag.Reshape(x.t, r+1, c).Value() }, "reshape to another size")
	case 3:
		i, j := vrt.Int(0, r-1), vrt.Int(0, c-1)
		p, q := vrt.Int(i, r), vrt.Int(j, c)
		var want []float64
		for a := i; a < p; a++ {
			want = append(want, x.v[a*c+j:a*c+q]...)
		}
		is[T](ag.Slice(x.t, i, j, p, q), p-i, q-j, want, x)
	}
}

func H_Views() { both(views[float32], views[float64]) }

func views[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}}, [][2]int{{4, 3}, {2, 5}})
	x := wrap(sym[T](r, c, 0))[0]
	switch vrt.Choose(3) {
	case 0:
		ys := ag.RowViews(x.t)
		vrt.Assert(len(ys) == r, "a view per row")
		for i, y := range ys {
			is[T](y, 1, c, x.v[i*c:(i+1)*c], x)
		}
		i := vrt.Int(0, r-1)
		is[T](ag.RowView(x.t, i), 1, c, x.v[i*c:(i+1)*c], x)
	case 1:
		ys := ag.ColViews(x.t)
		vrt.Assert(len(ys) == c, "a view per column")
		t := tr(x)
		for i, y := range ys {
			is[T](y, r, 1, t.v[i*r:(i+1)*r], x)
		}
		i := vrt.Int(0, c-1)
		is[T](ag.ColView(x.t, i), r, 1, t.v[i*r:(i+1)*r], x)
	case 2:
		ys := ag.SeparateMatrix(x.t)
		vrt.Assert(len(ys) == r, "a slice per row")
		for i, row := range ys {
			vrt.Assert(len(row) == c, "a scalar per element")
			for j, y := range row {
				is[T](y, 1, 1, []float64{x.at(i, j)}, x)
			}
		}
		i, j := vrt.Int(0, r-1), vrt.Int(0, c-1)
		is[T](ag.At(x.t, i, j), 1, 1, []float64{x.at(i, j)}, x)
	}
}

func H_SeparateVec() { both(separateVec[float32], separateVec[float64]) }

func separateVec[T float.DType]() {
	r, c := hx.VecShape(4, 6)
	x := wrap(sym[T](r, c, 0))[0]
	ys := ag.SeparateVec(x.t)
	vrt.Assert(len(ys) == r*c, "a scalar per element")
	for i, y := range ys {
		is[T](y, 1, 1, []float64{x.v[i]}, x)
	}
	// it is the inverse of Concat
	is[T](ag.Concat(ys...), r*c, 1, x.v, x)
}

func H_SplitVec() { both(splitVec[float32], splitVec[float64]) }

func splitVec[T float.DType]() {
	n := 1 + vrt.Choose(vrt.Bound(6, 9))
	chunks := 1 + vrt.Choose(n)
	x := wrap(sym[T](n, 1, 0))[0]
	if n%chunks != 0 {
		vrt.AssertPanics(func() { ag.SplitVec(x.t, chunks) }, "chunks that do not divide the size")
		return
	}
	ys := ag.SplitVec(x.t, chunks)
	vrt.Assert(len(ys) == chunks, "number of chunks")
	k := n / chunks
	for i, y := range ys {
		is[T](y, k, 1, x.v[i*k:(i+1)*k], x)
	}
}

func H_Join() { both(join[float32], join[float64]) }

func vecm[T float.DType](n int) m {
	if vrt.Choose(2) == 1 {
		return sym[T](1, n, 0)
	}
	return sym[T](n, 1, 0)
}

func join[T float.DType]() {
	n := 1 + vrt.Choose(3)
	var as []m
	var all []float64
	switch vrt.Choose(3) {
	case 0: // concatenation of vectors of any sizes
		for i := 0; i < n; i++ {
			as = append(as, vecm[T](hx.Pick(1, 3)))
		}
		as = wrap(as...)
		for _, a := range as {
			all = append(all, a.v...)
		}
		is[T](ag.Concat(ts(as)...), len(all), 1, all, as...)
	case 1: // one row per vector
		size := hx.Pick(1, 3)
		for i := 0; i < n; i++ {
			as = append(as, vecm[T](size))
		}
		as = wrap(as...)
		for _, a := range as {
			all = append(all, a.v...)
		}
		is[T](ag.Stack(ts(as)...), n, size, all, as...)
	case 2: // a matrix with further rows
		r, c := hx.Pick(1, 2), hx.Pick(1, 3)
		as = append(as, sym[T](r, c, 0))
		for i := 1; i < n; i++ {
			as = append(as, sym[T](1, c, 0))
		}
		as = wrap(as...)
		for _, a := range as {
			all = append(all, a.v...)
		}
		is[T](ag.AppendRows(as[0].t, ts(as[1:])...), r+n-1, c, all, as...)
	}
}

// ---- sequences ----

func H_MapPad() { both(mapPad[float32], mapPad[float64]) }

func mapPad[T float.DType]() {
	n := vrt.Choose(4)
	var as []m
	for i := 0; i < n; i++ {
		as = append(as, sym[T](2, 1, 0))
	}
	as = wrap(as...)
	xs := ts(as)
	switch vrt.Choose(4) {
	case 0:
		calls := 0
		ys := ag.Map(func(x mat.Tensor) mat.Tensor { calls++; return ag.Neg(x) }, xs)
		vrt.Assert(len(ys) == n && calls == n, "one call and one result per element")
		for i, y := range ys {
			is[T](y, 2, 1, []float64{-as[i].v[0], -as[i].v[1]}, as...)
		}
	case 1:
		k := vrt.Choose(4)
		var bs []m
		for i := 0; i < k; i++ {
			bs = append(bs, sym[T](2, 1, 0))
		}
		if k != n {
			vrt.AssertPanics(func() { ag.Map2(ag.Sub, xs, ts(bs)) }, "sequences of different lengths")
			return
		}
		ys := ag.Map2(ag.Sub, xs, ts(bs))
		vrt.Assert(len(ys) == n, "one result per pair")
		for i, y := range ys {
			is[T](y, 2, 1, []float64{as[i].v[0] - bs[i].v[0], as[i].v[1] - bs[i].v[1]}, as...)
		}
	default:
		size := vrt.Choose(5)
		// the given sequence is the beginning of a longer one
		long := append(append([]mat.Tensor{}, xs...), mat.Scalar[T](70), mat.Scalar[T](71), mat.Scalar[T](72), mat.Scalar[T](73))
		whole := append([]mat.Tensor{}, long...)
		xs = long[:n]
		defer func() {
			for i, x := range long {
				vrt.Assert(x == whole[i], "the caller's sequence and what lies behind it are as before")
			}
		}()
		pads := make([]mat.Tensor, size)
		ys := ag.Pad(xs, size, func(i int) mat.Tensor {
			vrt.Assert(n <= i && i < size && pads[i] == nil, "padding asked once for each missing position")
			pads[i] = mat.Scalar[T](T(i))
			return pads[i]
		})
		vrt.Assert(len(ys) == size, "padded length")
		for i, y := range ys {
			if i < n {
				vrt.Assert(y == xs[i], "the given elements come first")
			} else {
				vrt.Assert(y == pads[i], "then the padding")
			}
		}
		vrt.Assert(len(xs) == n, "the given sequence keeps its length")
		for i := range xs {
			vrt.Assert(xs[i] == as[i].t, "the given sequence keeps its elements")
		}
	}
}
