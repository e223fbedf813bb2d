package c16

import (
	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// long is a vector of many elements of which only one is not zero.
func long() []float64 {
	n := hx.Pick(8, 9, 16, 17, vrt.Bound(18, 33))
	x := make([]float64, n)
	x[vrt.Choose(n)] = vrt.F[float64]()
	return x
}

func H_LongSoftmax() {
	fs := softmaxes()
	f := fs[vrt.Choose(len(fs))]
	x := long()
	got := hx.V[float64](f(hx.M(len(x), 1, x)))
	hx.EqD(got, definition(x), "softmax")
}

func H_LongSafe() {
	fs := softmaxes()
	f := fs[vrt.Choose(len(fs))]
	x := long()
	vrt.ExpSafe(func(k float64) []float64 { return wide[float64](f(hx.M(len(x), 1, scaled(x, k)))) }, "softmax")
	vrt.ExpSafe(func(k float64) []float64 { return wide[float64](ag.LogSumExp(hx.M(len(x), 1, scaled(x, k)))) }, "log-sum-exp")
	vrt.ExpSafe(func(k float64) []float64 { return wide[float64](ag.LogSumExp(scalars(scaled(x, k))...)) }, "log-sum-exp of scalars")
}
