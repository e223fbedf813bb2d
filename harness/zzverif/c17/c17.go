// Package c17: loss functions equal their published formulas.
package c17

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// formula is a published loss on plain numbers.
type formula func(x []float64) float64

// check compares the value of a loss with the formula, and the gradient of the
// prediction with the derivative of the formula.
func check[T float.DType](r, c int, x []T, loss func(x mat.Tensor) mat.Tensor, f formula, msg string) {
	m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(x)), mat.WithGrad(true))
	l := loss(m)
	w := make([]float64, len(x))
	for i := range x {
		w[i] = float64(x[i])
	}
	d := vrt.Deriv(f, w)
	hx.Eq(l, 1, 1, []T{T(f(w))}, msg)
	g := vrt.F[T]()
	l.AccGrad(mat.Scalar(g))
	if err := ag.Backward(l); err != nil {
		panic(err)
	}
	hx.EqF(m.Grad(), r, c, func(i, j int) T { return g * T(d[i*c+j]) }, msg+": gradient of the prediction")
	hx.Eq(m, r, c, x, msg+": prediction")
}

func shape() (int, int) {
	return hx.Dims([][2]int{{1, 1}, {3, 1}, {1, 2}, {2, 2}}, [][2]int{{5, 1}, {2, 3}, {1, 9}})
}

func vector() (int, int) { return hx.VecShape(4, 6) }

func f64s[T float.DType](x []T) []float64 {
	out := make([]float64, len(x))
	for i, v := range x {
		out[i] = float64(v)
	}
	return out
}

func sum(n int, f func(i int) float64) float64 {
	var s float64
	for i := 0; i < n; i++ {
		s += f(i)
	}
	return s
}

func mae(x, y []float64) float64 {
	return sum(len(x), func(i int) float64 { return math.Abs(x[i] - y[i]) })
}

func mse(x, y []float64) float64 {
	return 0.5 * sum(len(x), func(i int) float64 { return (x[i] - y[i]) * (x[i] - y[i]) })
}

func ce(x []float64, c int) float64 {
	return math.Log(sum(len(x), func(i int) float64 { return math.Exp(x[i]) })) - x[c]
}

func H_MAE() { hx.Both(maeLoss[float32], maeLoss[float64]) }

func maeLoss[T float.DType]() {
	r, c := shape()
	x, y := hx.Floats[T](r*c), hx.Floats[T](r*c)
	ym, y64, mean := hx.M(r, c, y), f64s(y), vrt.Choose(2) == 1
	for i := range x {
		vrt.Assume(x[i] != y[i])
	}
	check(r, c, x, func(m mat.Tensor) mat.Tensor { return losses.MAE(m, ym, mean) }, func(x []float64) float64 {
		if mean {
			return mae(x, y64) / float64(len(x))
		}
		return mae(x, y64)
	}, "absolute error")
	hx.Eq(ym, r, c, y, "target")
}

func H_MSE() { hx.Both(mseLoss[float32], mseLoss[float64]) }

func mseLoss[T float.DType]() {
	r, c := shape()
	x, y := hx.Floats[T](r*c), hx.Floats[T](r*c)
	ym, y64, mean := hx.M(r, c, y), f64s(y), vrt.Choose(2) == 1
	check(r, c, x, func(m mat.Tensor) mat.Tensor { return losses.MSE(m, ym, mean) }, func(x []float64) float64 {
		if mean {
			return mse(x, y64) / float64(len(x))
		}
		return mse(x, y64)
	}, "squared error")
	hx.Eq(ym, r, c, y, "target")
}

func H_NLL() { hx.Both(nll[float32], nll[float64]) }

func nll[T float.DType]() {
	r, c := vector()
	x, y := hx.Floats[T](r*c), hx.Floats[T](r*c)
	for _, v := range x {
		vrt.Assume(v > 0)
	}
	ym, y64 := hx.M(r, c, y), f64s(y)
	check(r, c, x, func(m mat.Tensor) mat.Tensor { return losses.NLL(m, ym) }, func(x []float64) float64 {
		return -sum(len(x), func(i int) float64 { return y64[i] * math.Log(x[i]) })
	}, "negative log-likelihood")
}

func H_CrossEntropy() { hx.Both(crossEntropy[float32], crossEntropy[float64]) }

func crossEntropy[T float.DType]() {
	r, c := vector()
	x := hx.Floats[T](r * c)
	t := vrt.Choose(r * c)
	check(r, c, x, func(m mat.Tensor) mat.Tensor { return losses.CrossEntropy(m, t) },
		func(x []float64) float64 { return ce(x, t) }, "cross entropy")
}

func H_WeightedCrossEntropy() { hx.Both(weighted[float32], weighted[float64]) }

func weighted[T float.DType]() {
	r, c := vector()
	n := r * c
	x, w := hx.Floats[T](n), hx.Floats[T](n)
	t := vrt.Choose(n)
	f := losses.WeightedCrossEntropy(hx.M(n, 1, w))
	check(r, c, x, func(m mat.Tensor) mat.Tensor { return f(m, t) },
		func(x []float64) float64 { return float64(w[t]) * ce(x, t) }, "weighted cross entropy")
}

// focal is -(1-p)^gamma log p.
func focal(x []float64, t int, gamma float64) float64 {
	l := ce(x, t)
	return math.Pow(1-math.Exp(-l), gamma) * l
}

func H_Focal() { hx.Both(focalLoss[float32], focalLoss[float64]) }

func focalLoss[T float.DType]() {
	n := 2 + vrt.Choose(vrt.Bound(2, 3))
	x, w := hx.Floats[T](n), hx.Floats[T](n)
	t := vrt.Choose(n)
	gamma := hx.Pick(0.0, 1.0, 2.0, 5.0)
	if vrt.Choose(2) == 0 {
		check(n, 1, x, func(m mat.Tensor) mat.Tensor { return losses.FocalLoss(m, t, gamma) },
			func(x []float64) float64 { return focal(x, t, gamma) }, "focal loss")
		return
	}
	f := losses.WeightedFocalLoss(hx.M(n, 1, w))
	check(n, 1, x, func(m mat.Tensor) mat.Tensor { return f(m, t, gamma) },
		func(x []float64) float64 { return float64(w[t]) * focal(x, t, gamma) }, "weighted focal loss")
}

func H_Perplexity() { hx.Both(perplexity[float32], perplexity[float64]) }

func perplexity[T float.DType]() {
	r, c := vector()
	x := hx.Floats[T](r * c)
	t := vrt.Choose(r * c)
	check(r, c, x, func(m mat.Tensor) mat.Tensor { return losses.Perplexity(m, t) },
		func(x []float64) float64 { return math.Exp(ce(x, t)) }, "perplexity")
}

func zeroOne(x []float64) float64 {
	return sum(len(x), func(i int) float64 { return x[i] * x[i] * (1 - x[i]) * (1 - x[i]) })
}

func norm2(x []float64) float64 {
	s := sum(len(x), func(i int) float64 { return x[i] * x[i] }) - 1
	return s * s
}

func H_Quantization() { hx.Both(quantization[float32], quantization[float64]) }

func quantization[T float.DType]() {
	r, c := vector()
	x := hx.Floats[T](r * c)
	switch vrt.Choose(3) {
	case 0:
		check(r, c, x, losses.ZeroOneQuantization, zeroOne, "zero-one quantization")
	case 1:
		check(r, c, x, losses.Norm2Quantization, norm2, "norm quantization")
	case 2:
		q := vrt.F[float64]()
		check(r, c, x, func(m mat.Tensor) mat.Tensor { return losses.OneHotQuantization(m, q) },
			func(x []float64) float64 { return q * (zeroOne(x) + norm2(x)) }, "one-hot quantization")
	}
}

func H_Distance() { hx.Both(distance[float32], distance[float64]) }

func distance[T float.DType]() {
	x := hx.Floats[T](1)
	target := vrt.F[float64]()
	vrt.Assume(float64(x[0]) != target)
	check(1, 1, x, func(m mat.Tensor) mat.Tensor { return losses.Distance(m, target) },
		func(x []float64) float64 { return math.Abs(target - x[0]) }, "distance")
}

// Sequences: the sum of the losses of the items, or its average over the items.
func H_Seq() { hx.Both(seq[float32], seq[float64]) }

func seq[T float.DType]() {
	k := 1 + vrt.Choose(vrt.Bound(3, 4))
	r, c := hx.Dims([][2]int{{1, 1}, {2, 1}}, [][2]int{{2, 2}, {3, 1}, {1, 3}})
	mean, which, n := vrt.Choose(2) == 1, vrt.Choose(3), r*c
	if which == 2 && r != 1 && c != 1 {
		return
	}
	x := hx.Floats[T](k * n)
	y := hx.Floats[T](k * n)
	y64 := f64s(y)
	var ms, ts []mat.Tensor
	var tags []int
	for i := 0; i < k; i++ {
		ms = append(ms, mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(x[i*n:(i+1)*n])), mat.WithGrad(true)))
		if which == 2 {
			tags = append(tags, vrt.Choose(n))
		} else {
			ts = append(ts, hx.M(r, c, y[i*n:(i+1)*n]))
		}
	}
	var l mat.Tensor
	var f formula
	switch which {
	case 0:
		for i := range x {
			vrt.Assume(x[i] != y[i])
		}
		l = losses.MAESeq(ms, ts, mean)
		f = func(x []float64) float64 { return mae(x, y64) }
	case 1:
		l = losses.MSESeq(ms, ts, mean)
		f = func(x []float64) float64 { return mse(x, y64) }
	case 2:
		l = losses.CrossEntropySeq(ms, tags, mean)
		f = func(x []float64) float64 {
			return sum(k, func(i int) float64 { return ce(x[i*n:(i+1)*n], tags[i]) })
		}
	}
	w := f64s(x)
	want, d := f(w), vrt.Deriv(f, w)
	div := 1.0
	if mean {
		div = float64(k)
	}
	hx.Eq(l, 1, 1, []T{T(want / div)}, "sequence loss")
	defer func() { // the same prediction at every position
		for i := range ms {
			ms[i] = ms[0]
			copy(w[i*n:(i+1)*n], w[:n])
		}
		switch which {
		case 0:
			for i := range y {
				vrt.Assume(x[i%n] != y[i])
			}
			l = losses.MAESeq(ms, ts, mean)
		case 1:
			l = losses.MSESeq(ms, ts, mean)
		case 2:
			l = losses.CrossEntropySeq(ms, tags, mean)
		}
		hx.Eq(l, 1, 1, []T{T(f(w) / div)}, "sequence loss of one prediction")
	}()
	if err := ag.Backward(l); err != nil {
		panic(err)
	}
	for s := range ms {
		hx.EqF(ms[s].Grad(), r, c, func(i, j int) T { return T(d[s*n+i*c+j] / div) }, "gradient of an item")
	}
}

func H_SPG() { hx.Both(spg[float32], spg[float64]) }

func spg[T float.DType]() {
	k := 1 + vrt.Choose(vrt.Bound(3, 5))
	x, y := hx.Floats[T](k), hx.Floats[T](k)
	var xs, ys []mat.Tensor
	for i := 0; i < k; i++ {
		xs = append(xs, mat.Scalar(x[i], mat.WithGrad(true)))
		ys = append(ys, mat.Scalar(y[i], mat.WithGrad(true)))
	}
	l := losses.SPG(xs, ys)
	var want T
	for i := range x {
		want -= x[i] * y[i]
	}
	hx.Eq(l, 1, 1, []T{want}, "policy gradient loss")
	if err := ag.Backward(l); err != nil {
		panic(err)
	}
	for i := range x {
		hx.Eq(xs[i].Grad(), 1, 1, []T{-y[i]}, "gradient of an action")
		hx.Eq(ys[i].Grad(), 1, 1, []T{-x[i]}, "gradient of a target")
	}
}

// The sparsemax loss of every class, with the sign of a reward as the operator
// defines it: z_k - 1/2 sum_{S}(z_j^2 - t^2) - 1/2.
func H_SparseMaxLoss() {
	n := 1 + vrt.Choose(vrt.Bound(3, 4))
	x := hx.Floats[float64](n)
	got := hx.V[float64](ag.SparseMaxLoss(hx.M(n, 1, x)))
	p := hx.V[float64](ag.SparseMax(hx.M(n, 1, x)))
	var tau, reg float64
	for i := range x {
		if p[i] > 0 {
			tau = x[i] - p[i]
		}
	}
	for i := range x {
		if p[i] > 0 {
			reg += x[i]*x[i] - tau*tau
		}
	}
	vrt.Assert(len(got) == n, "size")
	for i := range x {
		vrt.AssertEq(got[i], x[i]-0.5*reg-0.5, "sparsemax loss")
	}
}

// Targets out of range are refused.
func H_Range() {
	n := 1 + vrt.Choose(3)
	x := hx.M(n, 1, hx.Floats[float64](n))
	t := vrt.Int(-2, 4)
	ok := t >= 0 && t < n
	vrt.Assert(vrt.Panics(func() { losses.CrossEntropy(x, t).Value() }) == !ok, "class out of range")
}
