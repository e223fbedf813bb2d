package c14

import (
	"math"

	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// Many parameters and large ones, whose gradients are constants but for one element.
func H_Many() {
	count, size := hx.Dims([][2]int{{9, 1}, {17, 1}, {1, 17}, {2, 9}}, [][2]int{{33, 1}, {1, 65}})
	defer hx.All()
	var ps []par[float64]
	var nps []*nn.Param
	at := vrt.Choose(count * size)
	var all []float64
	for i := 0; i < count; i++ {
		hx.Few(0, 0)
		w := hx.Floats[float64](size)
		x := par[float64]{p: nn.NewParam(hx.M(size, 1, w)), w: w, r: size, c: 1}
		if k := at - i*size; k >= 0 && k < size {
			hx.Few(k, 1)
		}
		x.g = hx.Floats[float64](size)
		x.p.AccGrad(hx.M(size, 1, x.g))
		all = append(all, x.g...)
		ps = append(ps, x)
		nps = append(nps, x.p)
	}
	switch vrt.Choose(3) {
	case 0:
		(&gradclipper.ValueClipper{Value: 0.5}).ClipGrads(nn.StreamParams(nps))
		check(ps, func(g float64) float64 { return math.Max(-0.5, math.Min(g, 0.5)) }, "clipped by value")
	case 1:
		var s float64
		for _, g := range all {
			s += g * g
		}
		byNorm(ps, nps, 1, math.Sqrt(s), 2)
	case 2:
		var s float64
		for _, g := range all {
			s = math.Max(s, math.Abs(g))
		}
		byNorm(ps, nps, 1, s, math.Inf(1))
	}
}
