// Package c24: the gradients that a backward pass leaves on the parameters and
// the inputs of a built-in model are the derivatives of the model's outputs.
//
// The forward function of the model is its own specification here (C19, C20 and
// C21 decide what it computes): it is executed with symbolic parameters and
// inputs, its outputs are differentiated symbolically, and the gradients of the
// real backward pass, for symbolic output gradients, must equal the result.
package c24

import (
	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

type (
	tensors = []mat.Tensor
	forward func(xs tensors) tensors
)

// params lists the trainable parameters of a model.
func params(ms ...nn.Model) (ps []*nn.Param) {
	for _, m := range ms {
		nn.ForEachParam(m, func(p *nn.Param) { ps = append(ps, p) })
	}
	return
}

type point struct {
	ps    []*nn.Param
	in    [][2]int // shapes of the inputs
	first int      // number of parameter elements
	v     []float64
	fixed tensors // inputs that are not symbolic
}

// fresh gives every parameter element and input element a symbolic value.
func fresh(ps []*nn.Param, in ...[2]int) *point {
	pt := &point{ps: ps, in: in}
	for _, p := range ps {
		pt.first += p.Size()
	}
	n := pt.first
	for _, s := range in {
		n += s[0] * s[1]
	}
	pt.v = hx.Floats[float64](n)
	return pt
}

// vecs are n column vectors.
func vecs(n, size int) (in [][2]int) {
	for i := 0; i < n; i++ {
		in = append(in, [2]int{size, 1})
	}
	return
}

// at puts the model at the given point and returns its inputs.
func (pt *point) at(v []float64) (xs tensors) {
	for _, p := range pt.ps {
		n := p.Size()
		mat.SetData[float64](p.Value().(mat.Matrix), hx.Copy(v[:n]))
		v = v[n:]
	}
	for _, s := range pt.in {
		n := s[0] * s[1]
		xs = append(xs, mat.NewDense[float64](mat.WithShape(s[0], s[1]), mat.WithBacking(hx.Copy(v[:n])), mat.WithGrad(true)))
		v = v[n:]
	}
	return append(xs, pt.fixed...)
}

// check runs the model forward and backward at the point and compares.
func (pt *point) check(f forward) {
	xs := pt.at(pt.v)
	ys := f(xs)
	var gs [][]float64
	for _, y := range ys {
		d := hx.Floats[float64](y.Value().Size())
		s := y.Value().Shape()
		gs = append(gs, d)
		y.AccGrad(mat.NewDense[float64](mat.WithShape(s...), mat.WithBacking(hx.Copy(d))))
	}
	if len(ys) == 0 {
		panic("no output")
	}
	err := ag.Backward(ys...)
	vrt.Assert(err == nil, "the backward pass succeeds")
	var got []float64
	grad := func(t mat.Tensor, what string) {
		n := t.Value().Size()
		g := t.Grad()
		if g == nil {
			got = append(got, make([]float64, n)...)
			return
		}
		vrt.Assert(mat.SameDims(g.Value().(mat.Matrix), t.Value().(mat.Matrix)), what+": shape of the gradient")
		got = append(got, hx.V[float64](g)...)
	}
	for _, p := range pt.ps {
		grad(p, "parameter")
	}
	for _, x := range xs[:len(pt.in)] {
		grad(x, "input")
	}
	want := vrt.Deriv(func(v []float64) float64 {
		sum := 0.0
		for i, y := range f(pt.at(v)) {
			for j, e := range hx.V[float64](y) {
				sum += gs[i][j] * e
			}
		}
		return sum
	}, pt.v)
	for i, w := range want {
		trained := true
		if i < pt.first {
			trained = pt.owner(i).RequiresGrad()
		}
		if !trained {
			w = 0
		}
		if i < pt.first {
			vrt.AssertEq(got[i], w, "gradient of a parameter")
		} else {
			vrt.AssertEq(got[i], w, "gradient of an input")
		}
	}
	pt.frozen(f, gs, got, 0)
	pt.frozen(f, gs, got, 1)
}

// frozen runs the model with every other parameter and input requiring no
// gradient: these receive none, and the others the same as before.
func (pt *point) frozen(f forward, gs [][]float64, want []float64, k int) {
	for _, p := range pt.ps {
		p.ZeroGrad()
	}
	xs := pt.at(pt.v)
	var leaves []mat.Tensor
	for i, p := range pt.ps {
		was := p.RequiresGrad()
		p.SetRequiresGrad(was && i%2 == k)
		defer p.SetRequiresGrad(was)
		leaves = append(leaves, p)
	}
	for i, x := range xs[:len(pt.in)] {
		x.(mat.Matrix).SetRequiresGrad(i%2 != k)
		leaves = append(leaves, x)
	}
	ys := f(xs)
	var open tensors
	for i, y := range ys {
		if y.RequiresGrad() {
			open = append(open, y)
			s := y.Value().Shape()
			y.AccGrad(mat.NewDense[float64](mat.WithShape(s...), mat.WithBacking(hx.Copy(gs[i]))))
		}
	}
	vrt.Assert(len(open) == 0 || ag.Backward(open...) == nil, "the backward pass with frozen leaves succeeds")
	for _, x := range leaves {
		n := x.Value().Size()
		switch {
		case !x.RequiresGrad():
			vrt.Assert(!x.HasGrad(), "a leaf that requires no gradient receives none")
		case x.HasGrad():
			hx.EqD(hx.V[float64](x.Grad()), want[:n], "gradient with other leaves frozen")
		default:
			hx.EqD(make([]float64, n), want[:n], "gradient with other leaves frozen, missing")
		}
		want = want[n:]
	}
}

func (pt *point) owner(i int) *nn.Param {
	for _, p := range pt.ps {
		if i < p.Size() {
			return p
		}
		i -= p.Size()
	}
	panic("no such element")
}
