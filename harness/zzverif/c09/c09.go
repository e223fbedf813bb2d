// Package c09: gradient blocking and gradient requirements are respected.
package c09

import (
	"fmt"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// An operator with several operands and their shapes.
type entry struct {
	f      func(xs []mat.Tensor) mat.Tensor
	shapes [][2]int
}

func f1(f func(x mat.Tensor) mat.Tensor, r, c int) entry {
	return entry{func(xs []mat.Tensor) mat.Tensor { return f(xs[0]) }, [][2]int{{r, c}}}
}
func f2(f func(a, b mat.Tensor) mat.Tensor, s1, s2 [2]int) entry {
	return entry{func(xs []mat.Tensor) mat.Tensor { return f(xs[0], xs[1]) }, [][2]int{s1, s2}}
}

func table() []entry {
	v, s := [2]int{2, 1}, [2]int{1, 1}
	return []entry{
		f2(ag.Add, v, v), f2(ag.Sub, v, v), f2(ag.Prod, v, v), f2(ag.Div, v, v), f2(ag.Dot, v, v),
		f2(ag.Max, v, v), f2(ag.Min, v, v),
		f2(ag.AddScalar, v, s), f2(ag.SubScalar, v, s), f2(ag.ProdScalar, v, s), f2(ag.DivScalar, v, s), f2(ag.ReverseSub, v, s),
		f2(ag.Mul, [2]int{2, 2}, v), f2(ag.Mul, [2]int{1, 2}, [2]int{2, 2}), f2(ag.MulT, [2]int{2, 2}, v),
		f2(ag.ELU, v, s), f2(ag.CELU, v, s), f2(ag.LeakyReLU, v, s), f2(ag.SoftShrink, v, s), f2(ag.SwishB, v, s),
		{func(x []mat.Tensor) mat.Tensor { return ag.SELU(x[0], x[1], x[2]) }, [][2]int{v, s, s}},
		{func(x []mat.Tensor) mat.Tensor { return ag.SoftPlus(x[0], x[1], x[2]) }, [][2]int{v, s, s}},
		{func(x []mat.Tensor) mat.Tensor { return ag.Threshold(x[0], x[1], x[2]) }, [][2]int{v, s, s}},
		{func(x []mat.Tensor) mat.Tensor { return ag.Affine(x[0], x[1], x[2]) }, [][2]int{v, {2, 2}, v}},
		{func(x []mat.Tensor) mat.Tensor { return ag.Affine(x[0], x[1], x[2], x[3], x[4]) }, [][2]int{v, {2, 1}, s, {2, 1}, s}},
		{func(x []mat.Tensor) mat.Tensor { return ag.Concat(x...) }, [][2]int{v, s, v}},
		{func(x []mat.Tensor) mat.Tensor { return ag.Stack(x...) }, [][2]int{v, v, v}},
		{func(x []mat.Tensor) mat.Tensor { return ag.AppendRows(x[0], x[1:]...) }, [][2]int{{1, 2}, {1, 2}, {1, 2}}},
		{func(x []mat.Tensor) mat.Tensor { return ag.ScalarMax(x) }, [][2]int{s, s, s}},
		f2(func(a, b mat.Tensor) mat.Tensor { return ag.BiLinear(a, b, b) }, [2]int{2, 2}, v),
		f1(ag.Abs, 2, 1), f1(ag.Cos, 2, 1), f1(ag.Exp, 2, 1), f1(ag.Log, 2, 1), f1(ag.Sqrt, 2, 1), f1(ag.Square, 2, 1),
		f1(ag.Sigmoid, 2, 1), f1(ag.Tanh, 2, 1), f1(ag.Swish, 2, 1), f1(ag.Copy, 2, 1), f1(ag.T, 2, 1), f1(ag.Flatten, 2, 2),
		f1(ag.Softmax, 2, 1), f1(ag.SparseMax, 2, 1), f1(ag.SparseMaxLoss, 2, 1), f1(ag.ReduceSum, 2, 1), f1(ag.ReduceMean, 2, 1), f1(ag.ReduceMax, 2, 1),
		f1(func(x mat.Tensor) mat.Tensor { return ag.Pow(x, 3) }, 2, 1),
		f1(func(x mat.Tensor) mat.Tensor { return ag.RotateR(x, 1) }, 2, 1),
		f1(func(x mat.Tensor) mat.Tensor { return ag.Slice(x, 0, 0, 1, 2) }, 2, 2),
		f1(func(x mat.Tensor) mat.Tensor { return ag.RowView(x, 1) }, 2, 2),
		f1(func(x mat.Tensor) mat.Tensor { return ag.ColView(x, 1) }, 2, 2),
		f1(func(x mat.Tensor) mat.Tensor { return ag.At(x, 1, 1) }, 2, 2),
		f1(func(x mat.Tensor) mat.Tensor { return ag.Reshape(x, 1, 4) }, 2, 2),
		f1(func(x mat.Tensor) mat.Tensor { return ag.MaxPooling(x, 1, 2) }, 2, 2),
	}
}

func dense[T float.DType](s [2]int, data []T, grad bool) *mat.Dense[T] {
	return mat.NewDense[T](mat.WithShape(s[0], s[1]), mat.WithBacking(hx.Copy(data)), mat.WithGrad(grad))
}

func data(s [2]int) []float64 {
	d := make([]float64, s[0]*s[1])
	for i := range d {
		d[i] = vrt.Pos[float64]()
	}
	return d
}

// leaf kinds
const (
	grads    = iota // requires gradients
	plain           // does not
	stopped         // requires gradients, behind a stop
	buffered        // requires gradients, inside a buffer
	param           // parameter
	frozen          // parameter that does not require gradients
	stopOp          // operator over a tensor requiring gradients, behind a stop
	numKinds
)

// leaf returns an operand and the tensor underneath it.
func leaf(kind int, s [2]int, d []float64) (x mat.Tensor, under mat.Tensor) {
	switch kind {
	case grads:
		x = dense(s, d, true)
		return x, x
	case plain:
		x = dense(s, d, false)
		return x, x
	case stopped:
		u := dense(s, d, true)
		return ag.StopGrad(u), u
	case buffered:
		u := dense(s, d, true)
		return nn.Buf(u), u
	case param:
		p := nn.NewParam(dense(s, d, false))
		return p, p
	case frozen:
		p := nn.NewParam(dense(s, d, true)).WithGrad(false)
		return p, p
	}
	u := dense(s, d, true)
	return ag.StopGrad(ag.Copy(u)), u
}

func requires(kind int) bool { return kind == grads || kind == param }

// Every operator, every combination of operands that require gradients, do
// not, or are behind a stop: only the former get a gradient, and get the one they get
// when all operands require gradients.
func H_Operators() {
	t := table()
	e := t[vrt.Choose(len(t))]
	n := len(e.shapes)
	kinds := make([]int, n)
	any := false
	for i := range kinds {
		kinds[i] = vrt.Choose(3) // grads, plain, stopped
		any = any || requires(kinds[i])
	}
	full := make([]mat.Tensor, n)
	part := make([]mat.Tensor, n)
	under := make([]mat.Tensor, n)
	ds := make([][]float64, n)
	for i, s := range e.shapes {
		ds[i] = data(s)
		full[i] = dense(s, ds[i], true)
		part[i], under[i] = leaf(kinds[i], s, ds[i])
	}
	yf, yp := e.f(full), e.f(part)
	v := yf.Value().(mat.Matrix)
	r, c := v.Shape()[0], v.Shape()[1]
	hx.Eq(yp, r, c, hx.D[float64](v), "value")
	vrt.Assert(yp.RequiresGrad() == any, "operator requires gradients exactly when an operand does")
	g := hx.Floats[float64](r * c)
	yf.AccGrad(hx.M(r, c, g))
	yp.AccGrad(hx.M(r, c, g))
	must(ag.Backward(yf))
	must(ag.Backward(yp))
	for i := range part {
		s := e.shapes[i]
		if !requires(kinds[i]) {
			vrt.Assert(!part[i].HasGrad() && !under[i].HasGrad(), fmt.Sprintf("operand %d untouched", i))
		} else if full[i].HasGrad() {
			vrt.Assert(part[i].HasGrad(), fmt.Sprintf("operand %d has its gradient", i))
			hx.EqD(hx.V[float64](part[i].Grad()), hx.V[float64](full[i].Grad()), fmt.Sprintf("gradient of operand %d", i))
		} else {
			vrt.Assert(!part[i].HasGrad(), fmt.Sprintf("operand %d has no gradient", i))
		}
		hx.Eq(part[i].Value(), s[0], s[1], ds[i], "operand value kept")
	}
}

// All kinds of leaves in a two-level graph, with a stop possibly between the levels.
func H_Graph() {
	s := [2]int{2, 1}
	k0, k1 := vrt.Choose(numKinds), vrt.Choose(numKinds)
	d0, d1 := data(s), data(s)
	x0, u0 := leaf(k0, s, d0)
	x1, u1 := leaf(k1, s, d1)
	z := ag.Prod(x0, x1)
	mid := z
	cut := vrt.Choose(2) == 1
	if cut {
		mid = ag.StopGrad(z)
		hx.Eq(mid.Value(), 2, 1, hx.V[float64](z), "value through the stop")
		vrt.Assert(!mid.RequiresGrad() && !mid.HasGrad() && mid.Grad() == nil, "stop has no gradient")
	}
	y := ag.Add(ag.Square(mid), x0)
	req0, req1 := requires(k0), requires(k1)
	vrt.Assert(z.RequiresGrad() == (req0 || req1), "inner requirement")
	vrt.Assert(y.RequiresGrad() == (req0 || req1 && !cut), "outer requirement")
	g := hx.Floats[float64](2)
	y.AccGrad(hx.M(2, 1, g))
	must(ag.Backward(y))
	w0, w1 := make([]float64, 2), make([]float64, 2)
	for i := range g {
		w0[i] = g[i]
		if !cut {
			w0[i] += g[i] * 2 * d0[i] * d1[i] * d1[i]
			w1[i] = g[i] * 2 * d0[i] * d1[i] * d0[i]
		}
	}
	chk := func(x, u mat.Tensor, req bool, w []float64, msg string) {
		if req {
			hx.Eq(x.Grad(), 2, 1, w, msg)
		} else {
			vrt.Assert(!x.HasGrad() && !u.HasGrad(), msg+": untouched")
		}
	}
	chk(x0, u0, req0, w0, "first leaf")
	if cut {
		vrt.Assert(!z.HasGrad(), "nothing behind the stop")
		vrt.Assert(!x1.HasGrad() && !u1.HasGrad(), "nothing behind the stop")
	} else {
		chk(x1, u1, req1, w1, "second leaf")
	}
	hx.Eq(u0.Value(), 2, 1, d0, "value kept")
	hx.Eq(u1.Value(), 2, 1, d1, "value kept")
	// clearing
	y.ZeroGrad()
	vrt.Assert(!y.HasGrad(), "operator zeroed")
	if req0 {
		hx.Eq(x0.Grad(), 2, 1, w0, "leaf gradient kept when another tensor is zeroed")
	}
	x0.ZeroGrad()
	vrt.Assert(!x0.HasGrad() && isNone(x0.Grad()), "zeroed")
	if req1 && !cut {
		hx.Eq(x1.Grad(), 2, 1, w1, "gradient of the other leaf kept")
	}
	vrt.Assert(x0.RequiresGrad() == req0, "requirement kept")
	hx.Eq(x0.Value(), 2, 1, d0, "value kept by ZeroGrad")
}

func isNone(t mat.Tensor) bool { return t == nil }

// A stop hides the gradient of the tensor underneath and never changes it.
func H_Stop() {
	s := [2]int{2, 1}
	d, g, h := data(s), hx.Floats[float64](2), hx.Floats[float64](2)
	u := dense(s, d, true)
	u.AccGrad(hx.M(2, 1, g))
	var b mat.Tensor
	switch vrt.Choose(3) {
	case 0:
		b = ag.StopGrad(u)
	case 1:
		b = nn.Buf(u)
	case 2:
		b = ag.StopGrad(ag.StopGrad(u))
	}
	vrt.Assert(!b.HasGrad() && b.Grad() == nil && !b.RequiresGrad(), "no gradient seen")
	b.AccGrad(hx.M(2, 1, h))
	vrt.Assert(!b.HasGrad() && b.Grad() == nil, "no gradient accumulated")
	b.ZeroGrad()
	hx.Eq(u.Grad(), 2, 1, g, "gradient underneath kept")
	hx.Eq(b.Value(), 2, 1, d, "value")
	hx.Eq(b, 2, 1, d, "data")
	vrt.Assert(u.RequiresGrad(), "requirement underneath kept")
	// an operator under two uses, one of them stopped
	z := ag.Square(u)
	u.ZeroGrad()
	y := ag.Prod(z, ag.StopGrad(z))
	y.AccGrad(hx.M(2, 1, h))
	must(ag.Backward(y))
	w := make([]float64, 2)
	for i := range w {
		w[i] = h[i] * d[i] * d[i] * 2 * d[i]
	}
	hx.Eq(u.Grad(), 2, 1, w, "gradient through the open use only")
	// a stop itself is no root
	u.ZeroGrad()
	must(ag.Backward(ag.StopGrad(ag.Square(u))))
	vrt.Assert(!u.HasGrad(), "nothing through a stopped root")
}

// The gradient interface of matrices and parameters, for both element types.
func H_Leaf() { hx.Both(leafOps[float32], leafOps[float64]) }

func leafOps[T float.DType]() {
	r, c := hx.SmallShape()
	n := r * c
	d, g, h := hx.Floats[T](n), hx.Floats[T](n), hx.Floats[T](n)
	req := vrt.Choose(2) == 0
	m := dense([2]int{r, c}, d, req)
	var x mat.Tensor = m
	p := nn.NewParam(m)
	if vrt.Choose(2) == 0 {
		vrt.Assert(p.RequiresGrad(), "new parameters require gradients")
		p.WithGrad(req)
		x = p
	}
	vrt.Assert(x.RequiresGrad() == req, "requirement")
	vrt.Assert(!x.HasGrad() && x.Grad() == nil, "no gradient at first")
	gm := hx.M(r, c, g)
	x.AccGrad(gm)
	vrt.Assert(x.HasGrad(), "has gradient")
	hx.Eq(x.Grad(), r, c, g, "first gradient")
	x.AccGrad(hx.M(r, c, h))
	w := make([]T, n)
	for i := range w {
		w[i] = g[i] + h[i]
	}
	hx.Eq(x.Grad(), r, c, w, "sum")
	hx.Eq(gm, r, c, g, "argument kept")
	hx.Eq(x.Value(), r, c, d, "value kept")
	if x == mat.Tensor(p) {
		vrt.Assert(!m.HasGrad(), "the matrix a parameter was made from is untouched")
	}
	x.ZeroGrad()
	vrt.Assert(!x.HasGrad() && x.Grad() == nil, "no gradient after zeroing")
	vrt.Assert(x.RequiresGrad() == req, "requirement kept by zeroing")
	hx.Eq(x.Value(), r, c, d, "value kept by zeroing")
	x.AccGrad(hx.M(r, c, h))
	hx.Eq(x.Grad(), r, c, h, "fresh after zeroing")
	// the requirement can be changed
	x.(mat.Matrix).SetRequiresGrad(!req)
	vrt.Assert(x.RequiresGrad() == !req, "requirement changed")
	y := ag.Copy(x)
	vrt.Assert(y.RequiresGrad() == !req, "operator over the changed leaf")
}

// Results of plain matrix operations never carry gradients or requirements.
func H_Clone() {
	d := hx.Floats[float64](4)
	m := dense([2]int{2, 2}, d, true)
	m.AccGrad(hx.M(2, 2, hx.Floats[float64](4)))
	ms := []mat.Matrix{m.Add(m), m.T(), m.ZerosLike(), m.Reshape(1, 4), m.Slice(0, 0, 1, 2), m.Mul(m), m.Apply(func(_, _ int, v float64) float64 { return v })}
	x := ms[vrt.Choose(len(ms))]
	vrt.Assert(!x.HasGrad() && !x.RequiresGrad(), "no gradient on results")
}
