package c21

import (
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// Long sequences: every input is symbolic for a linear layer; one of them, the
// rest being constants, for a recurrent one.
//
//vrt:steps=8000000
func H_Long() {
	n := hx.Pick(6, 7, 9, vrt.Bound(8, 13))
	defer hx.All()
	rec := vrt.Choose(2) == 1
	var m *birnn.Model
	var params int
	if rec {
		m = birnn.New(srn.New[float64](1, 1), srn.New[float64](1, 1), birnn.Concat)
	} else {
		m = birnn.New(linear.New[float64](1, 1), linear.New[float64](1, 1), mode())
	}
	if rec {
		for _, l := range []*srn.Model{m.Positive.(*srn.Model), m.Negative.(*srn.Model)} {
			params += l.W.Size() + l.WRec.Size() + l.B.Size()
		}
		hx.Few(params+vrt.Choose(n), 1)
	}
	fill[float64](m)
	var xs []mat.Tensor
	var dd [][]float64
	for i := 0; i < n; i++ {
		d := hx.Floats[float64](1)
		xs = append(xs, mat.NewDense[float64](mat.WithShape(1), mat.WithBacking(hx.Copy(d)), mat.WithGrad(true)))
		dd = append(dd, d)
	}
	aligned(m, xs, dd)
}
