package c17

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/losses"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// grads are the derivatives of the losses, written out.
func maeGrad(x, y float64) float64 {
	if x < y {
		return -1
	}
	return 1
}

func ceGrad(x []float64, c, i int) float64 {
	d := math.Exp(x[i]) / sum(len(x), func(j int) float64 { return math.Exp(x[j]) })
	if i == c {
		d--
	}
	return d
}

// Long sequences and large predictions: constants but for one element.
func H_Long() {
	k, n := hx.Dims([][2]int{{1, 9}, {1, 17}, {5, 2}, {9, 1}, {17, 2}}, [][2]int{{1, 65}, {33, 2}, {8, 3}, {10, 1}})
	defer hx.All()
	which, mean := vrt.Choose(3), vrt.Choose(2) == 1
	at := []int{0, n, k*n - 1}[vrt.Choose(3)]
	hx.Few(at%(k*n), 1)
	if which == 2 {
		hx.FewElseZero(at%(k*n), 2)
	}
	x := hx.Floats[float64](k * n)
	hx.Few(0, 0)
	y := hx.Floats[float64](k*n + 3)[3:]
	var ms, ts []mat.Tensor
	var tags []int
	for i := 0; i < k; i++ {
		ms = append(ms, mat.NewDense[float64](mat.WithBacking(hx.Copy(x[i*n:(i+1)*n])), mat.WithGrad(true)))
		ts = append(ts, hx.M(n, 1, y[i*n:(i+1)*n]))
		tags = append(tags, (i*2+1)%n)
	}
	if which == 0 {
		for i := range x {
			vrt.Assume(x[i] != y[i])
		}
	}
	var l mat.Tensor
	div := 1.0
	if mean {
		div = float64(k)
	}
	switch {
	case k == 1 && which == 0:
		l = losses.MAE(ms[0], ts[0], mean)
	case k == 1 && which == 1:
		l = losses.MSE(ms[0], ts[0], mean)
	case k == 1:
		l = losses.CrossEntropy(ms[0], tags[0])
	case which == 0:
		l = losses.MAESeq(ms, ts, mean)
	case which == 1:
		l = losses.MSESeq(ms, ts, mean)
	default:
		l = losses.CrossEntropySeq(ms, tags, mean)
	}
	if k == 1 && mean && which < 2 {
		div = float64(n)
	}
	var want float64
	d := make([]float64, k*n)
	for s := 0; s < k; s++ {
		xs, ys := x[s*n:(s+1)*n], y[s*n:(s+1)*n]
		switch which {
		case 0:
			want += mae(xs, ys)
		case 1:
			want += mse(xs, ys)
		case 2:
			want += ce(xs, tags[s])
		}
		for i := range xs {
			switch which {
			case 0:
				d[s*n+i] = maeGrad(xs[i], ys[i]) / div
			case 1:
				d[s*n+i] = (xs[i] - ys[i]) / div
			case 2:
				d[s*n+i] = ceGrad(xs, tags[s], i) / div
			}
		}
	}
	vrt.AssertEq(hx.V[float64](l)[0], want/div, "loss of long inputs")
	if err := ag.Backward(l); err != nil {
		panic(err)
	}
	for s := range ms {
		hx.Eq(ms[s].Grad(), n, 1, d[s*n:(s+1)*n], "gradient with long inputs")
	}
}
