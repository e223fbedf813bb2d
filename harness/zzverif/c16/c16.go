// Package c16: normalising functions return distributions and are shift-safe.
package c16

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// softmaxes are the ways to compute a softmax.
func softmaxes() []func(x mat.Matrix) mat.Tensor {
	return []func(x mat.Matrix) mat.Tensor{
		func(x mat.Matrix) mat.Tensor { return x.Softmax() },
		func(x mat.Matrix) mat.Tensor { return ag.Softmax(x) },
		func(x mat.Matrix) mat.Tensor { return activation.New(activation.Softmax).Forward(x)[0] },
	}
}

func definition[T float.DType](x []T) []T {
	var sum float64
	for _, v := range x {
		sum += math.Exp(float64(v))
	}
	out := make([]T, len(x))
	for i, v := range x {
		out[i] = T(math.Exp(float64(v)) / sum)
	}
	return out
}

func vec[T float.DType](quick, deep int) (r, c int, x []T) {
	r, c = hx.VecShape(quick, deep)
	return r, c, hx.Floats[T](r * c)
}

func H_Softmax() { hx.Both(softmax[float32], softmax[float64]) }

func softmax[T float.DType]() {
	fs := softmaxes()
	f := fs[vrt.Choose(len(fs))]
	r, c, x := vec[T](6, 17)
	n := r * c
	y := f(hx.M(r, c, x))
	vrt.Assert(y.Size() == n, "size")
	got := hx.V[T](y)
	hx.EqD(got, definition(x), "softmax")
	var sum T
	for _, v := range got {
		vrt.AssertLt(0, v, "positive")
		sum += v
	}
	vrt.AssertEq(sum, 1, "sums to one")
}

// Adding a constant to every element changes nothing.
func H_Shift() { hx.Both(shift[float32], shift[float64]) }

func shift[T float.DType]() {
	r, c, x := vec[T](3, 5)
	k := vrt.F[T]()
	z := hx.Copy(x)
	for i := range z {
		z[i] += k
	}
	a, b := hx.M(r, c, x), hx.M(r, c, z)
	hx.EqD(hx.V[T](a.Softmax()), hx.V[T](b.Softmax()), "softmax of the shifted input")
	hx.EqD(hx.V[T](ag.SparseMax(a)), hx.V[T](ag.SparseMax(b)), "sparsemax of the shifted input")
	vrt.AssertEq(hx.V[T](ag.LogSumExp(a))[0]+k, hx.V[T](ag.LogSumExp(b))[0], "log-sum-exp of the shifted input")
}

func scaled[T float.DType](x []T, k float64) []T {
	out := make([]T, len(x))
	for i := range x {
		out[i] = x[i] * T(k)
	}
	return out
}

func wide[T float.DType](x mat.Tensor) []float64 {
	var out []float64
	for _, v := range hx.V[T](x) {
		out = append(out, float64(v))
	}
	return out
}

// Only exponentials of non-positive numbers are taken, so nothing overflows.
func H_SoftmaxSafe() { hx.Both(softmaxSafe[float32], softmaxSafe[float64]) }

func softmaxSafe[T float.DType]() {
	fs := softmaxes()
	f := fs[vrt.Choose(len(fs))]
	r, c, x := vec[T](6, 17)
	vrt.ExpSafe(func(k float64) []float64 { return wide[T](f(hx.M(r, c, scaled(x, k)))) }, "softmax")
}

func H_LogSumExpSafe() { hx.Both(lseSafe[float32], lseSafe[float64]) }

func lseSafe[T float.DType]() {
	if vrt.Choose(2) == 0 {
		r, c, x := vec[T](4, 9)
		vrt.ExpSafe(func(k float64) []float64 { return wide[T](ag.LogSumExp(hx.M(r, c, scaled(x, k)))) }, "log-sum-exp")
		return
	}
	x := hx.Floats[T](2 + vrt.Choose(vrt.Bound(3, 5)))
	vrt.ExpSafe(func(k float64) []float64 {
		return wide[T](ag.LogSumExp(scalars(scaled(x, k))...))
	}, "log-sum-exp of scalars")
}

func scalars[T float.DType](x []T) []mat.Tensor {
	out := make([]mat.Tensor, len(x))
	for i := range x {
		out[i] = mat.Scalar(x[i])
	}
	return out
}

func H_LossSafe() { hx.Both(lossSafe[float32], lossSafe[float64]) }

func lossSafe[T float.DType]() {
	r, c, x := vec[T](4, 7)
	t := vrt.Choose(r * c)
	k := vrt.Choose(3)
	vrt.ExpSafe(func(s float64) []float64 {
		a := hx.M(r, c, scaled(x, s))
		switch k {
		case 0:
			return wide[T](losses.CrossEntropy(a, t))
		case 1:
			return wide[T](losses.WeightedCrossEntropy(hx.M(r, c, x))(a, t))
		default:
			return wide[T](losses.CrossEntropySeq([]mat.Tensor{a, a}, []int{t, t}, true))
		}
	}, "cross entropy")
}

func H_LogSumExp() { hx.Both(lse[float32], lse[float64]) }

func lse[T float.DType]() {
	var x []T
	var y mat.Tensor
	if vrt.Choose(2) == 0 {
		var r, c int
		r, c, x = vec[T](5, 12)
		y = ag.LogSumExp(hx.M(r, c, x))
	} else {
		x = hx.Floats[T](2 + vrt.Choose(vrt.Bound(3, 5)))
		y = ag.LogSumExp(scalars(x)...)
	}
	var sum float64
	for _, v := range x {
		sum += math.Exp(float64(v))
	}
	hx.Eq(y, 1, 1, []T{T(math.Log(sum))}, "log-sum-exp")
}

func H_LogSoftmax() { hx.Both(logSoftmax[float32], logSoftmax[float64]) }

func logSoftmax[T float.DType]() {
	r, c, x := vec[T](5, 9)
	got := hx.V[T](ag.LogSoftmax(hx.M(r, c, x)))
	var sum float64
	for _, v := range x {
		sum += math.Exp(float64(v))
	}
	vrt.Assert(len(got) == len(x), "size")
	for i := range x {
		vrt.AssertEq(got[i], x[i]-T(math.Log(sum)), "log-softmax")
	}
}

func H_SparseMax() { hx.Both(sparseMax[float32], sparseMax[float64]) }

func sparseMax[T float.DType]() {
	r, c, x := vec[T](4, 5)
	n := r * c
	var m mat.Tensor
	if vrt.Choose(2) == 0 {
		m = ag.SparseMax(hx.M(r, c, x))
	} else {
		m = activation.New(activation.SparseMax).Forward(hx.M(r, c, x))[0]
	}
	vrt.Assert(m.Size() == n, "size")
	y := hx.V[T](m)
	var sum T
	for _, v := range y {
		vrt.AssertLe(0, v, "not negative")
		sum += v
	}
	vrt.AssertEq(sum, 1, "sums to one")
	// y is the projection of x onto the simplex: some threshold t exists such that
	// x - y equals t on the support of y and x is at most t elsewhere.
	for i := range y {
		if !(y[i] > 0) {
			continue
		}
		t := x[i] - y[i]
		for j := range y {
			if y[j] > 0 {
				vrt.AssertEq(x[j]-y[j], t, "one threshold on the support")
			} else {
				vrt.AssertLe(x[j], t, "outside of the support")
			}
		}
	}
}

// The order of the probabilities is the order of the inputs, permuting the inputs
// permutes the outputs.
func H_Permute() {
	n := vrt.Bound(3, 4)
	x := hx.Floats[float64](n)
	i := vrt.Choose(n - 1)
	z := hx.Copy(x)
	z[i], z[i+1] = z[i+1], z[i]
	a, b := hx.M(n, 1, x), hx.M(n, 1, z)
	for _, f := range []func(x mat.Matrix) mat.Tensor{
		func(x mat.Matrix) mat.Tensor { return x.Softmax() },
		func(x mat.Matrix) mat.Tensor { return ag.SparseMax(x) },
	} {
		p, q := hx.V[float64](f(a)), hx.V[float64](f(b))
		q[i], q[i+1] = q[i+1], q[i]
		hx.EqD(p, q, "permuted")
		vrt.Assert(p[i] <= p[i+1] || x[i] > x[i+1], "order is kept")
	}
}
