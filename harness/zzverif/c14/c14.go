// Package c14: gradient clipping enforces exactly its bound.
package c14

import (
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers/gradclipper"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

type par[T float.DType] struct {
	p    *nn.Param
	w, g []T // g is nil without a gradient
	r, c int
}

// some makes parameters of various shapes, a subset of them with gradients.
func some[T float.DType](shapes [][2]int) (ps []par[T], nps []*nn.Param, all []T) {
	for _, s := range shapes {
		w := hx.Floats[T](s[0] * s[1])
		x := par[T]{p: nn.NewParam(hx.M(s[0], s[1], w)), w: w, r: s[0], c: s[1]}
		if vrt.Choose(2) == 1 {
			x.g = hx.Floats[T](s[0] * s[1])
			x.p.AccGrad(hx.M(s[0], s[1], x.g))
			all = append(all, x.g...)
		}
		ps = append(ps, x)
		nps = append(nps, x.p)
	}
	return
}

func check[T float.DType](ps []par[T], want func(g T) T, msg string) {
	for _, x := range ps {
		hx.Eq(x.p.Value(), x.r, x.c, x.w, msg+": value of the parameter")
		vrt.Assert(x.p.HasGrad() == (x.g != nil), msg+": has a gradient")
		if x.g == nil {
			vrt.Assert(x.p.Grad() == nil, msg+": no gradient")
			continue
		}
		hx.EqF(x.p.Grad(), x.r, x.c, func(i, j int) T { return want(x.g[i*x.c+j]) }, msg+": gradient")
	}
}

func shapes() [][2]int {
	k := vrt.Choose(vrt.Bound(5, 7))
	return [][][2]int{{}, {{2, 1}}, {{1, 2}, {1, 1}}, {{2, 1}, {1, 2}}, {{1, 1}, {1, 1}, {1, 1}}, {{2, 2}, {1, 1}}, {{1, 3}, {2, 1}, {1, 1}}}[k]
}

func H_Value() { hx.Both(value[float32], value[float64]) }

func value[T float.DType]() {
	v := vrt.F[float64]()
	vrt.Assume(v >= 0)
	ps, nps, _ := some[T](shapes())
	var c gradclipper.GradClipper = &gradclipper.ValueClipper{Value: v}
	c.ClipGrads(nn.StreamParams(nps))
	check(ps, func(g T) T {
		if float64(g) > v {
			return T(v)
		}
		if float64(g) < -v {
			return T(-v)
		}
		return g
	}, "clipped by value")
}

// stabiliser is what the library adds to the norm before dividing.
const stabiliser = 1e-7

func byNorm[T float.DType](ps []par[T], nps []*nn.Param, max, norm, typ float64) {
	c := &gradclipper.NormClipper{MaxNorm: max, NormType: typ}
	c.ClipGradients(nn.StreamParams(nps))
	switch {
	case norm+stabiliser <= max:
		check(ps, func(g T) T { return g }, "within the limit")
	default:
		f := max / (norm + stabiliser)
		check(ps, func(g T) T { return g * T(f) }, "scaled to the limit")
	}
}

func maxNorm() float64 {
	m := vrt.F[float64]()
	vrt.Assume(m > 0)
	return m
}

func H_Norm2() { hx.Both(norm2[float32], norm2[float64]) }

func norm2[T float.DType]() {
	max := maxNorm()
	ps, nps, all := some[T](shapes())
	var s float64
	for _, g := range all {
		s += float64(g) * float64(g)
	}
	byNorm(ps, nps, max, math.Sqrt(s), 2)
}

func H_NormInf() { hx.Both(normInf[float32], normInf[float64]) }

func normInf[T float.DType]() {
	max := maxNorm()
	ps, nps, all := some[T](shapes())
	var s float64
	for _, g := range all {
		s = math.Max(s, math.Abs(float64(g)))
	}
	byNorm(ps, nps, max, s, math.Inf(1))
}

func H_NormP() { hx.Both(normP[float32], normP[float64]) }

func normP[T float.DType]() {
	max := maxNorm()
	ps, nps, all := some[T](shapes())
	p := hx.Pick(3.0, 4.0, 1.5)
	var s float64
	for _, g := range all {
		s += math.Pow(math.Abs(float64(g)), p)
	}
	byNorm(ps, nps, max, math.Pow(s, 1/p), p)
}

// The direction is kept and the limit is respected.
func H_Bound() {
	max := maxNorm()
	g := hx.Floats[float64](2)
	h := hx.Floats[float64](1)
	p, q := nn.NewParam(mat.NewDense[float64](mat.WithShape(2, 1))), nn.NewParam(mat.NewDense[float64](mat.WithShape(1, 1)))
	p.AccGrad(hx.M(2, 1, g))
	q.AccGrad(hx.M(1, 1, h))
	(&gradclipper.NormClipper{MaxNorm: max, NormType: 2}).ClipGradients(nn.StreamParams([]*nn.Param{p, q}))
	a, b := hx.V[float64](p.Grad()), hx.V[float64](q.Grad())
	vrt.AssertLe(a[0]*a[0]+a[1]*a[1]+b[0]*b[0], max*max, "the norm is within the limit")
}

// Norm types of one or less are refused.
func H_Type() {
	t := vrt.F[float64]()
	p := nn.NewParam(mat.NewDense[float64](mat.WithShape(1, 1)))
	if vrt.Choose(2) == 1 {
		p.AccGrad(hx.M(1, 1, []float64{1}))
	}
	if t <= 1 {
		vrt.AssertPanics(func() {
			(&gradclipper.NormClipper{MaxNorm: 1, NormType: t}).ClipGradients(nn.StreamParams([]*nn.Param{p}))
		}, "norm type of at most one")
	}
}
