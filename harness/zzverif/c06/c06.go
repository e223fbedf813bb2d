// Package c06: every operator's backward is the exact derivative of its forward.
package c06

import (
	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// An operand: its shape and the domain its elements range over.
type arg struct {
	r, c int
	dom  int
}

const (
	anyReal = iota
	positive
	nonzero
)

type op func(xs []mat.Tensor) mat.Tensor

func build[T float.DType](args []arg, xs []float64, grad bool) []mat.Tensor {
	out := make([]mat.Tensor, len(args))
	k := 0
	for i, a := range args {
		n := a.r * a.c
		d := make([]T, n)
		for j := range d {
			d[j] = T(xs[k+j])
		}
		k += n
		out[i] = mat.NewDense[T](mat.WithShape(a.r, a.c), mat.WithBacking(d), mat.WithGrad(grad))
	}
	return out
}

// vjp asserts that the gradients accumulated on the operands of f are the
// derivatives of sum_i gy_i * f(xs)_i, in the shapes of the operands.
func vjp[T float.DType](f op, args ...arg) {
	n := 0
	var xs []float64
	for _, a := range args {
		n += a.r * a.c
		for j := 0; j < a.r*a.c; j++ {
			switch a.dom {
			case positive:
				xs = append(xs, vrt.Pos[float64]())
			case nonzero:
				x := vrt.F[float64]()
				vrt.Assume(x != 0)
				xs = append(xs, x)
			default:
				xs = append(xs, vrt.F[float64]())
			}
		}
	}
	ops := build[T](args, xs, true)
	y := f(ops)
	ys := y.Value()
	r, c := ys.Shape()[0], ys.Shape()[1]
	gys := hx.Floats[float64](r * c)
	gyT := make([]T, r*c)
	for i := range gyT {
		gyT[i] = T(gys[i])
	}
	vrt.Smooth()
	y.AccGrad(hx.M(r, c, gyT))
	must(ag.Backward(y))
	d := vrt.Deriv(func(xs []float64) float64 {
		out := f(build[float64](args, xs, false)).Value().Data().F64()
		s := 0.0
		for i, v := range out {
			s += gys[i] * v
		}
		return s
	}, xs)
	check := func(m float64, msg string) {
		k := 0
		for i, a := range args {
			g := ops[i].Grad()
			want := make([]T, a.r*a.c)
			for j := range want {
				want[j] = T(m * d[k+j])
			}
			k += a.r * a.c
			if !ops[i].HasGrad() { // no gradient stands for zero
				hx.EqD(make([]T, len(want)), want, msg+" missing")
				continue
			}
			hx.Eq(g, a.r, a.c, want, msg)
		}
	}
	check(1, "gradient")
	// a second use of the same operands accumulates
	y2 := f(ops)
	y2.AccGrad(hx.M(r, c, gyT))
	must(ag.Backward(y2))
	check(2, "accumulated gradient")
	// so does a use in which the operands are results of other operators
	copies := make([]mat.Tensor, len(ops))
	for i, x := range ops {
		copies[i] = ag.Copy(x)
	}
	y3 := f(copies)
	y3.AccGrad(hx.M(r, c, gyT))
	must(ag.Backward(y3))
	check(3, "gradient through operators")
	// only the operands that require gradients receive them
	for i := 0; i < 2*len(args); i++ {
		if len(args) == 1 && i == 0 {
			continue // the only operand
		}
		some := build[T](args, xs, false)
		needed := false
		for j, x := range some {
			need := (j == i/2) == (i%2 == 0) // operand i/2, or all others
			x.(mat.Matrix).SetRequiresGrad(need)
			needed = needed || need
		}
		ys := f(some)
		vrt.Assert(ys.RequiresGrad() == needed, "the result requires gradients when an operand does")
		ys.AccGrad(hx.M(r, c, gyT))
		must(ag.Backward(ys))
		k := 0
		for j, x := range some {
			if !x.RequiresGrad() {
				vrt.Assert(!x.HasGrad(), "an operand that requires no gradient receives none")
			} else {
				want := make([]T, args[j].r*args[j].c)
				for l := range want {
					want[l] = T(d[k+l])
				}
				if x.HasGrad() {
					hx.Eq(x.Grad(), args[j].r, args[j].c, want, "gradient of some operands")
				} else {
					hx.EqD(make([]T, len(want)), want, "gradient of some operands missing")
				}
			}
			k += args[j].r * args[j].c
		}
	}
	hx.Eq(mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(gyT)), r, c, gyT, "output gradient kept")
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// both runs vjp for one of the element types, with distinct operands or with
// the same tensor as two operands of the same shape: the contributions add up.
func both(f op, args ...arg) { pick(aliased(f, args)) }

// distinct runs vjp with distinct operands: for operators that are not
// differentiable where two operands coincide.
func distinct(f op, args ...arg) { pick(f, args) }

func pick(f op, args []arg) {
	if vrt.Choose(2) == 0 {
		vjp[float64](f, args...)
	} else {
		vjp[float32](f, args...)
	}
}

// aliased possibly puts one tensor in the place of two operands of the same
// shape, or of all those (three or more) of the last one's shape.
func aliased(f op, args []arg) (op, []arg) {
	var merges [][]int
	for j := range args {
		for i := 0; i < j; i++ {
			if args[i].r == args[j].r && args[i].c == args[j].c && (j < 3 || j < 4 && vrt.Thorough()) {
				merges = append(merges, []int{i, j})
			}
		}
	}
	last := args[len(args)-1]
	var all []int
	for i, a := range args {
		if a.r == last.r && a.c == last.c {
			all = append(all, i)
		}
	}
	if len(all) > 2 {
		merges = append(merges, all)
	}
	n := vrt.Choose(len(merges) + 1)
	if n == 0 {
		return f, args
	}
	first := merges[n-1][0]
	from := make([]int, len(args)) // the operand each one is taken from
	var rest []arg
	at := 0
	for i, a := range args {
		merged := false
		for _, j := range merges[n-1][1:] {
			merged = merged || i == j
		}
		if merged {
			from[i] = from[first]
			k := from[first]
			if rest[k].dom != positive && (a.dom == positive || a.dom > rest[k].dom) {
				rest[k].dom = a.dom
			}
			continue
		}
		from[i] = at
		rest = append(rest, a)
		at++
	}
	return func(xs []mat.Tensor) mat.Tensor {
		in := make([]mat.Tensor, len(from))
		for i, k := range from {
			in[i] = xs[k]
		}
		return f(in)
	}, rest
}

func unary(f func(mat.Tensor) mat.Tensor, dom int) {
	r, c := hx.SmallShape()
	both(func(xs []mat.Tensor) mat.Tensor { return f(xs[0]) }, arg{r, c, dom})
}

func binary(f func(a, b mat.Tensor) mat.Tensor, d1, d2 int) {
	r, c := hx.SmallShape()
	both(func(xs []mat.Tensor) mat.Tensor { return f(xs[0], xs[1]) }, arg{r, c, d1}, arg{r, c, d2})
}

func scalar(f func(a, s mat.Tensor) mat.Tensor, d1, d2 int) {
	r, c := hx.SmallShape()
	both(func(xs []mat.Tensor) mat.Tensor { return f(xs[0], xs[1]) }, arg{r, c, d1}, arg{1, 1, d2})
}

func few() (int, int) {
	return hx.Dims([][2]int{{1, 1}, {1, 2}, {2, 1}}, [][2]int{{3, 1}, {1, 3}, {2, 2}})
}

func H_Abs()         { unary(ag.Abs, anyReal) }
func H_Cos()         { unary(ag.Cos, anyReal) }
func H_Sin()         { unary(ag.Sin, anyReal) }
func H_Tan()         { unary(ag.Tan, anyReal) }
func H_Exp()         { unary(ag.Exp, anyReal) }
func H_Log()         { unary(ag.Log, positive) }
func H_Sqrt()        { unary(ag.Sqrt, positive) }
func H_Square()      { unary(ag.Square, anyReal) }
func H_Neg()         { unary(ag.Neg, anyReal) }
func H_Reciprocal()  { unary(ag.Reciprocal, nonzero) }
func H_GELU()        { unary(ag.GELU, anyReal) }
func H_HardSigmoid() { unary(ag.HardSigmoid, anyReal) }
func H_HardTanh()    { unary(ag.HardTanh, anyReal) }
func H_Mish()        { unary(ag.Mish, anyReal) }
func H_ReLU()        { unary(ag.ReLU, anyReal) }
func H_Sigmoid()     { unary(ag.Sigmoid, anyReal) }
func H_SiLU()        { unary(ag.SiLU, anyReal) }
func H_Softsign()    { unary(ag.Softsign, anyReal) }
func H_Swish()       { unary(ag.Swish, anyReal) }
func H_Tanh()        { unary(ag.Tanh, anyReal) }
func H_PositiveELU() { unary(ag.PositiveELU, anyReal) }
func H_Copy()        { unary(ag.Copy, anyReal) }
func H_Flatten()     { unary(ag.Flatten, anyReal) }
func H_T()           { unary(ag.T, anyReal) }

func H_ReverseSubOne() { unary(ag.ReverseSubOne, anyReal) }

func H_Pow() {
	p := hx.Pick(-2.0, -1, -0.5, 0.5, 1, 1.5, 2, 3, 4)
	unary(func(x mat.Tensor) mat.Tensor { return ag.Pow(x, p) }, positive)
}

func H_PowNeg() {
	p := hx.Pick(-2.0, -1, 1, 2, 3, 4)
	dom := anyReal
	if p < 0 {
		dom = nonzero
	}
	unary(func(x mat.Tensor) mat.Tensor { return ag.Pow(x, p) }, dom)
}

func H_ELU()       { scalarFew(ag.ELU, anyReal, positive) }
func H_CELU()      { scalarFew(ag.CELU, anyReal, positive) }
func H_LeakyReLU() { scalarFew(ag.LeakyReLU, anyReal, anyReal) }
func H_SoftShrink() {
	scalarFew(ag.SoftShrink, anyReal, positive)
}
func H_SwishB() { scalarFew(ag.SwishB, anyReal, anyReal) }

func scalarFew(f func(a, s mat.Tensor) mat.Tensor, d1, d2 int) {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}}, [][2]int{{3, 1}, {3, 2}})
	both(func(xs []mat.Tensor) mat.Tensor { return f(xs[0], xs[1]) }, arg{r, c, d1}, arg{1, 1, d2})
}

func H_SELU() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}}, [][2]int{{3, 1}, {3, 2}})
	both(func(xs []mat.Tensor) mat.Tensor { return ag.SELU(xs[0], xs[1], xs[2]) },
		arg{r, c, anyReal}, arg{1, 1, anyReal}, arg{1, 1, anyReal})
}

func H_SoftPlus() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}}, [][2]int{{3, 1}, {3, 2}})
	both(func(xs []mat.Tensor) mat.Tensor { return ag.SoftPlus(xs[0], xs[1], xs[2]) },
		arg{r, c, anyReal}, arg{1, 1, positive}, arg{1, 1, anyReal})
}

func H_Threshold() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}}, [][2]int{{3, 1}, {3, 2}})
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Threshold(xs[0], xs[1], xs[2]) },
		arg{r, c, anyReal}, arg{1, 1, anyReal}, arg{1, 1, anyReal})
}

func H_Add()  { binary(ag.Add, anyReal, anyReal) }
func H_Sub()  { binary(ag.Sub, anyReal, anyReal) }
func H_Prod() { binary(ag.Prod, anyReal, anyReal) }
func H_Div()  { binary(ag.Div, anyReal, nonzero) }
func H_Dot()  { binary(ag.Dot, anyReal, anyReal) }

func H_Max() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 2}}, [][2]int{{2, 3}, {1, 4}})
	distinct(func(xs []mat.Tensor) mat.Tensor { return ag.Max(xs[0], xs[1]) }, arg{r, c, 0}, arg{r, c, 0})
}

func H_Min() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 2}}, [][2]int{{2, 3}, {1, 4}})
	distinct(func(xs []mat.Tensor) mat.Tensor { return ag.Min(xs[0], xs[1]) }, arg{r, c, 0}, arg{r, c, 0})
}

func H_AddScalar()  { scalar(ag.AddScalar, anyReal, anyReal) }
func H_SubScalar()  { scalar(ag.SubScalar, anyReal, anyReal) }
func H_ProdScalar() { scalar(ag.ProdScalar, anyReal, anyReal) }
func H_DivScalar()  { scalar(ag.DivScalar, anyReal, nonzero) }
func H_ReverseSub() { scalar(ag.ReverseSub, anyReal, anyReal) }

func mulDims() (n, m, k int) {
	ds := [][3]int{{1, 1, 1}, {2, 3, 1}, {1, 3, 2}, {2, 2, 3}, {3, 1, 2}, {1, 2, 1}}
	if vrt.Thorough() {
		ds = append(ds, [][3]int{{3, 2, 2}, {4, 3, 1}, {2, 1, 4}}...)
	}
	d := ds[vrt.Choose(len(ds))]
	return d[0], d[1], d[2]
}

func H_Mul() {
	n, m, k := mulDims()
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Mul(xs[0], xs[1]) }, arg{n, m, nonzero}, arg{m, k, nonzero})
}

func H_MulZero() {
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Mul(xs[0], xs[1]) }, arg{2, 2, 0}, arg{2, 2, 0})
}

func H_MulT() { // the second operand is a column vector
	n, m, _ := mulDims()
	both(func(xs []mat.Tensor) mat.Tensor { return ag.MulT(xs[0], xs[1]) }, arg{m, n, nonzero}, arg{m, 1, nonzero})
}

func H_Affine() {
	n, m, k := mulDims()
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Affine(xs[0], xs[1], xs[2]) },
		arg{n, k, 0}, arg{n, m, nonzero}, arg{m, k, nonzero})
}

func H_AffinePairs() {
	n, m, k := 2, hx.Pick(1, 2), hx.Pick(1, 2)
	skip := vrt.Choose(2) == 1
	args := []arg{{n, k, 0}, {n, m, nonzero}, {m, k, nonzero}, {n, 1, nonzero}, {1, k, nonzero}}
	both(func(xs []mat.Tensor) mat.Tensor {
		if skip {
			return ag.Affine(xs[0], xs[1], xs[2], xs[1], nil, xs[3], xs[4])
		}
		return ag.Affine(xs[0], xs[1], xs[2], xs[3], xs[4])
	}, args...)
}

// Pairs that share their matrix, their vector or both with another one.
func H_AffineShared() {
	n, m := 2, hx.Pick(1, 2)
	c := vrt.Choose(5)
	args := []arg{{n, 1, 0}, {n, m, nonzero}, {m, 1, nonzero}}
	switch c {
	case 0:
		args = append(args, arg{m, 1, nonzero})
	case 1:
		args = append(args, arg{n, m, nonzero})
	case 2, 3:
		args = append(args, arg{n, m, nonzero}, arg{m, 1, nonzero})
	}
	pick(func(xs []mat.Tensor) mat.Tensor {
		b, w, x := xs[0], xs[1], xs[2]
		switch c {
		case 0:
			return ag.Affine(b, w, x, w, xs[3])
		case 1:
			return ag.Affine(b, w, x, xs[3], x)
		case 2:
			return ag.Affine(b, w, x, xs[3], xs[4], xs[3], xs[4])
		case 3:
			return ag.Affine(b, w, x, xs[3], xs[4], w, nil, w, xs[4])
		}
		return ag.Affine(b, w, x, w, x, w, x)
	}, args)
}

func H_BiLinear() {
	n, m := hx.Pick(1, 2), hx.Pick(1, 2)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.BiLinear(xs[0], xs[1], xs[2]) },
		arg{n, m, nonzero}, arg{n, 1, nonzero}, arg{m, 1, nonzero})
}

func H_BiAffine() {
	n, m := hx.Pick(1, 2), hx.Pick(1, 2)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.BiAffine(xs[0], xs[1], xs[2], xs[3], xs[4], xs[5]) },
		arg{n, m, nonzero}, arg{n, 1, nonzero}, arg{m, 1, nonzero}, arg{1, 1, 0}, arg{n, 1, nonzero}, arg{m, 1, nonzero})
}

func vec(n int) arg {
	if vrt.Choose(2) == 1 {
		return arg{1, n, 0}
	}
	return arg{n, 1, 0}
}

func H_Concat() {
	args := []arg{vec(hx.Pick(1, 2)), vec(3)}
	if vrt.Choose(2) == 1 {
		args = append(args, vec(2))
	}
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Concat(xs...) }, args...)
}

func H_Stack() {
	n := hx.Pick(1, 2, 3)
	args := []arg{vec(n), vec(n)}
	if vrt.Choose(2) == 1 {
		args = append(args, vec(n))
	}
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Stack(xs...) }, args...)
}

func H_AppendRows() {
	r, c := hx.SmallShape()
	args := []arg{{r, c, 0}}
	for k := vrt.Choose(3); k > 0; k-- {
		args = append(args, arg{1, c, 0})
	}
	both(func(xs []mat.Tensor) mat.Tensor { return ag.AppendRows(xs[0], xs[1:]...) }, args...)
}

// Appended column vectors receive the right gradient, but as a row.
func H_AppendColumn() {
	x, v := hx.Floats[float64](4), hx.Floats[float64](2)
	xm := mat.NewDense[float64](mat.WithShape(2, 2), mat.WithBacking(x), mat.WithGrad(true))
	vm := mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking(v), mat.WithGrad(true))
	y := ag.AppendRows(xm, vm)
	g := hx.Floats[float64](6)
	y.AccGrad(hx.M(3, 2, g))
	must(ag.Backward(y))
	hx.Eq(xm.Grad(), 2, 2, g[:4], "gradient of the matrix")
	hx.EqD(hx.V[float64](vm.Grad()), g[4:], "gradient of the appended vector")
	s := vm.Grad().Shape()
	vrt.Assert(s[0] == 2 && s[1] == 1, "gradient of an appended column vector is a column")
}

func H_Slice() {
	r, c := hx.Dims([][2]int{{1, 3}, {3, 1}, {2, 3}, {3, 2}}, [][2]int{{3, 3}, {4, 2}})
	r0, c0 := vrt.Choose(r), vrt.Choose(c)
	r1, c1 := r0+1+vrt.Choose(r-r0), c0+1+vrt.Choose(c-c0)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Slice(xs[0], r0, c0, r1, c1) }, arg{r, c, 0})
}

func H_View() {
	r, c := hx.SmallShape()
	i, j := vrt.Choose(r), vrt.Choose(c)
	switch vrt.Choose(4) {
	case 0:
		both(func(xs []mat.Tensor) mat.Tensor { return ag.RowView(xs[0], i) }, arg{r, c, 0})
	case 1:
		both(func(xs []mat.Tensor) mat.Tensor { return ag.ColView(xs[0], j) }, arg{r, c, 0})
	case 2:
		both(func(xs []mat.Tensor) mat.Tensor { return ag.At(xs[0], i, j) }, arg{r, c, 0})
	case 3:
		if r != 1 && c != 1 {
			return
		}
		both(func(xs []mat.Tensor) mat.Tensor { return ag.At(xs[0], i+j) }, arg{r, c, 0})
	}
}

func H_Views() {
	r, c := hx.Dims([][2]int{{1, 3}, {3, 1}, {2, 3}}, [][2]int{{3, 3}, {4, 2}})
	switch vrt.Choose(4) {
	case 0:
		both(func(xs []mat.Tensor) mat.Tensor { return ag.Sum(ag.RowViews(xs[0])...) }, arg{r, c, 0})
	case 1:
		both(func(xs []mat.Tensor) mat.Tensor { return ag.Sum(ag.ColViews(xs[0])...) }, arg{r, c, 0})
	case 2:
		both(func(xs []mat.Tensor) mat.Tensor {
			rows := ag.SeparateMatrix(xs[0])
			var s mat.Tensor
			for i, row := range rows {
				for j, x := range row {
					s = ag.Add(s, ag.ProdScalar(x, mat.Scalar(float64(1+i*3+j))))
				}
			}
			return s
		}, arg{r, c, 0})
	case 3:
		if r != 1 && c != 1 {
			return
		}
		both(func(xs []mat.Tensor) mat.Tensor {
			ys := ag.SeparateVec(xs[0])
			return ag.Concat(ys...)
		}, arg{r, c, 0})
	}
}

func H_SplitVec() {
	n := hx.Pick(2, 4, 6)
	k := hx.Pick(1, 2)
	both(func(xs []mat.Tensor) mat.Tensor {
		ys := ag.SplitVec(xs[0], k)
		return ag.Concat(ys...)
	}, arg{n, 1, 0})
}

func H_Reshape() {
	s := hx.Pick([4]int{2, 3, 3, 2}, [4]int{1, 4, 2, 2}, [4]int{4, 1, 1, 4}, [4]int{2, 2, 4, 1}, [4]int{2, 2, 2, 2}, [4]int{1, 1, 1, 1})
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Reshape(xs[0], s[2], s[3]) }, arg{s[0], s[1], 0})
}

func H_RotateR() {
	r, c := hx.VecShape(4, 6)
	k := vrt.Choose(r*c + 1)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.RotateR(xs[0], k) }, arg{r, c, 0})
}

func H_ReduceSum()  { unary(ag.ReduceSum, 0) }
func H_ReduceMean() { unary(ag.ReduceMean, 0) }

func H_ReduceMax() {
	r, c := hx.VecShape(3, 4)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.ReduceMax(xs[0]) }, arg{r, c, 0})
}

func H_ScalarMax() {
	n := 1 + vrt.Choose(vrt.Bound(3, 4))
	args := make([]arg, n)
	for i := range args {
		args[i] = arg{1, 1, 0}
	}
	both(func(xs []mat.Tensor) mat.Tensor { return ag.ScalarMax(xs) }, args...)
}

// operands that are themselves operators must get their gradients too
func H_ScalarMaxOps() {
	both(func(xs []mat.Tensor) mat.Tensor {
		return ag.ScalarMax([]mat.Tensor{ag.Neg(xs[0]), ag.Square(xs[1])})
	}, arg{1, 1, 0}, arg{1, 1, 0})
}

func H_MaxPooling() {
	s := hx.Pick([4]int{2, 2, 1, 1}, [4]int{2, 2, 2, 1}, [4]int{2, 2, 1, 2}, [4]int{1, 4, 1, 2}, [4]int{4, 1, 2, 1}, [4]int{2, 2, 2, 2})
	if vrt.Thorough() {
		s = hx.Pick(s, [4]int{1, 3, 1, 3}, [4]int{2, 3, 2, 1}, [4]int{2, 4, 1, 2})
	}
	both(func(xs []mat.Tensor) mat.Tensor { return ag.MaxPooling(xs[0], s[2], s[3]) }, arg{s[0], s[1], 0})
}

func H_Softmax() {
	r, c := hx.VecShape(3, 4)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Softmax(xs[0]) }, arg{r, c, 0})
}

func H_LogSoftmax() {
	r, c := hx.VecShape(3, 3)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.LogSoftmax(xs[0]) }, arg{r, c, 0})
}

func H_LogSumExp() {
	if vrt.Choose(2) == 0 {
		r, c := hx.VecShape(3, 3)
		both(func(xs []mat.Tensor) mat.Tensor { return ag.LogSumExp(xs[0]) }, arg{r, c, 0})
		return
	}
	n := hx.Pick(2, 3)
	args := make([]arg, n)
	for i := range args {
		args[i] = arg{1, 1, 0}
	}
	both(func(xs []mat.Tensor) mat.Tensor { return ag.LogSumExp(xs...) }, args...)
}

func H_SparseMax() {
	r, c := hx.VecShape(2, 3)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.SparseMax(xs[0]) }, arg{r, c, 0})
}

func H_SparseMaxLoss() {
	r, c := hx.VecShape(2, 3)
	both(func(xs []mat.Tensor) mat.Tensor { return ag.SparseMaxLoss(xs[0]) }, arg{r, c, 0})
}

func list(n, r, c int) []arg {
	as := make([]arg, n)
	for i := range as {
		as[i] = arg{r, c, 0}
	}
	return as
}

func H_SumMean() {
	n := hx.Pick(1, 2, 3)
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}}, [][2]int{{3, 1}, {3, 2}})
	if vrt.Choose(2) == 0 {
		both(func(xs []mat.Tensor) mat.Tensor {
			if n == 1 {
				return ag.Copy(ag.Sum(xs...))
			}
			return ag.Sum(xs...)
		}, list(n, r, c)...)
		return
	}
	both(func(xs []mat.Tensor) mat.Tensor { return ag.Mean(xs) }, list(n, r, c)...)
}

func H_MaximumMinimum() {
	n := hx.Pick(2, 3)
	r, c := few()
	if vrt.Choose(2) == 0 {
		distinct(func(xs []mat.Tensor) mat.Tensor { return ag.Maximum(xs) }, list(n, r, c)...)
		return
	}
	distinct(func(xs []mat.Tensor) mat.Tensor { return ag.Minimum(xs) }, list(n, r, c)...)
}

// A composition, so that one operator's gradient is the next one's input.
func H_Compose() {
	r, c := few()
	both(func(xs []mat.Tensor) mat.Tensor {
		return ag.Prod(ag.Tanh(ag.Add(xs[0], xs[1])), ag.Sigmoid(xs[1]))
	}, arg{r, c, 0}, arg{r, c, 0})
}
