// Package c23: precision conversions preserve values.
package c23

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func sym[T float.DType](n int) []T {
	d := make([]T, n)
	for i := range d {
		d[i] = vrt.F[T]()
	}
	return d
}

func bits[T float.DType]() int {
	if hx.Is64[T]() {
		return 64
	}
	return 32
}

// is: x is the value w of the type T, bit by bit (any NaN is as good as another).
func is[T float.DType](x, w T, msg string) { vrt.AssertSame(x, w, msg) }

// conv rounds once.
func conv[S, T float.DType](d []S) []T {
	out := make([]T, len(d))
	for i, x := range d {
		out[i] = T(x)
	}
	return out
}

func are[T float.DType](got, want []T, msg string) {
	vrt.Assert(len(got) == len(want), msg+": length")
	for i := range want {
		is(got[i], want[i], msg)
	}
}

// all runs a harness for every ordered pair of element types.
func all(a, b, c, d func()) { hx.Pick(a, b, c, d)() }

// ---- scalars ----

// H_Float: a wrapped scalar.
//
//vrt:fp
func H_Float() {
	all(scalar[float32, float32], scalar[float32, float64], scalar[float64, float32], scalar[float64, float64])
}

func scalar[S, T float.DType]() {
	x := vrt.F[S]()
	f := float.Interface(x)
	vrt.Assert(f.BitSize() == bits[S](), "bit size of a scalar")
	is(f.F32(), float32(x), "32-bit value of a scalar")
	is(f.F64(), float64(x), "64-bit value of a scalar")
	is(float.ValueOf[T](f), T(x), "value of a scalar")
	is(float.ValueOf[S](f), x, "value of a scalar in its own type")
	// a 32-bit value survives the way through 64 bits
	y := vrt.F[float32]()
	is(float.Interface(float.Interface(y).F64()).F32(), y, "32 -> 64 -> 32")
}

// H_Exact: a value that 32 bits can represent is unchanged by any conversion.
//
//vrt:fp
func H_Exact() {
	x := vrt.F[float64]()
	vrt.Assume(float64(float32(x)) == x)
	vrt.Assert(float64(float.Interface(x).F32()) == x, "a representable value is unchanged")
	vrt.Assert(float64(float.Make(x).F32()[0]) == x, "a representable value is unchanged in a slice")
}

// ---- slices ----

// H_Slice: a wrapped slice.
//
//vrt:fp
func H_Slice() {
	all(slices[float32, float32], slices[float32, float64], slices[float64, float32], slices[float64, float64])
}

func slices[S, T float.DType]() {
	n := vrt.Choose(vrt.Bound(6, 18))
	d := sym[S](n)
	s := float.Make(hx.Copy(d)...)
	vrt.Assert(s.BitSize() == bits[S]() && s.Len() == n, "bit size and length of a slice")
	are(s.F32(), conv[S, float32](d), "32-bit slice")
	are(s.F64(), conv[S, float64](d), "64-bit slice")
	are(float.SliceValueOf[T](s), conv[S, T](d), "slice value")
	are(float.SliceValueOf[S](s), d, "slice value in its own type")
	// asking does not change it
	vrt.Assert(s.Len() == n, "length afterwards")
	are(float.SliceValueOf[S](s), d, "slice afterwards")
	// a converted slice shares nothing with its source
	c := float.SliceValueOf[T](s)
	if bits[S]() != bits[T]() {
		for i := range c {
			c[i] = 7
		}
		are(float.SliceValueOf[S](s), d, "source of a converted slice")
	}
	var none []S
	vrt.Assert(float.SliceValueOf[T](float.Make(none...)) == nil, "nothing stays nothing")
}

// H_SliceEquals: comparison converts the other side to the receiver's type.
//
//vrt:fp
func H_SliceEquals() {
	all(equals[float32, float32], equals[float32, float64], equals[float64, float32], equals[float64, float64])
}

func equals[S, T float.DType]() {
	n, k := vrt.Choose(3), vrt.Choose(3)
	a, b := sym[S](n), sym[T](k)
	want := n == k
	for i := 0; want && i < n; i++ {
		want = a[i] == S(b[i])
	}
	vrt.Assert(float.Make(a...).Equals(float.Make(b...)) == want, "equality of slices")
	r := mat.NewDense[S](mat.WithShape(n, 1), mat.WithBacking(a))
	q := mat.NewDense[T](mat.WithShape(k, 1), mat.WithBacking(b))
	vrt.Assert(mat.Equal(r, q) == want, "equality of matrices")
}

// H_SliceInDelta: comparison within a tolerance.
//
//vrt:fp
func H_SliceInDelta() {
	all(inDelta[float32, float32], inDelta[float32, float64], inDelta[float64, float32], inDelta[float64, float64])
}

func inDelta[S, T float.DType]() {
	n, k := vrt.Choose(3), vrt.Choose(3)
	a, b := sym[S](n), sym[T](k)
	delta := vrt.F[float64]()
	vrt.Assume(delta >= 0)
	want := n == k
	for i := 0; i < n && i < k; i++ {
		o := S(b[i])
		vrt.Assume(a[i]-o == a[i]-o) // a difference
		if math.Abs(float64(a[i]-o)) > delta {
			want = false
		}
	}
	vrt.Assert(float.Make(a...).InDelta(float.Make(b...), delta) == want, "tolerance of slices")
}

// ---- matrices of both precisions ----

// H_MatrixData: a matrix built from, filled with or read as the other precision.
//
//vrt:fp
func H_MatrixData() {
	all(matrixData[float32, float32], matrixData[float32, float64], matrixData[float64, float32], matrixData[float64, float64])
}

func matrixData[S, T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {2, 2}, {1, 3}, {3, 1}, {0, 0}}, [][2]int{{3, 4}, {1, 9}, {5, 2}, {0, 2}})
	d := sym[S](r * c)
	w := conv[S, T](d)
	own := func(m mat.Matrix, what string) {
		_, ok := m.(*mat.Dense[T])
		vrt.Assert(ok, what+": element type")
		hx.Shape(m, r, c, what)
		are(m.Data().F64(), conv[T, float64](w), what)
		are(m.Data().F32(), conv[T, float32](w), what)
		vrt.Assert(m.Data().BitSize() == bits[T](), what+": bit size")
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				is(m.ScalarAt(i, j).F64(), float64(w[i*c+j]), what+": an element")
			}
		}
	}
	src := mat.NewDense[S](mat.WithShape(r, c), mat.WithBacking(hx.Copy(d)))
	own(mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(d))), "built from a slice")
	m := mat.NewDense[T](mat.WithShape(r, c))
	m.SetData(float.Make(hx.Copy(d)...))
	own(m, "SetData")
	m = mat.NewDense[T](mat.WithShape(r, c))
	mat.SetData[S](m, hx.Copy(d))
	own(m, "mat.SetData")
	m = mat.NewDense[T](mat.WithShape(r, c))
	m.Copy(src)
	own(m, "Copy")
	own(mat.NewDense[T](mat.WithShape(r, c)).NewMatrix(mat.WithShape(r, c), mat.WithBacking(hx.Copy(d))), "NewMatrix")
	m = mat.NewDense[T](mat.WithShape(r, c))
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if (i+j)%2 == 0 {
				m.SetScalar(float.Interface(d[i*c+j]), i, j)
			} else {
				m.SetAt(mat.Scalar(d[i*c+j]), i, j)
			}
		}
	}
	own(m, "set one by one")
	are(mat.Data[T](src), w, "mat.Data")
	are(mat.Data[S](src), d, "source")
	if r*c == 1 {
		x := mat.Scalar(d[0])
		is(x.Item().F64(), float64(d[0]), "item")
		is(x.Item().F32(), float32(d[0]), "item")
		vrt.Assert(x.Item().BitSize() == bits[S](), "item: bit size")
	}
}

// H_Mixed: an operation on a matrix of the other precision is the operation on
// the converted matrix.
//
//vrt:fp
func H_Mixed() { hx.Pick(mixed[float32, float64], mixed[float64, float32])() }

func mixed[T, S float.DType]() {
	type op struct {
		same bool // same shapes
		f    func(a, b mat.Matrix) mat.Matrix
	}
	ops := []op{
		{true, func(a, b mat.Matrix) mat.Matrix { return a.Add(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.AddInPlace(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.Sub(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.SubInPlace(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.Prod(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.ProdInPlace(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.Div(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.DivInPlace(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.ProdMatrixScalarInPlace(b, 1.5) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.Maximum(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.Minimum(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.DotUnitary(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.MulT(b) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.Mul(b.T()) }},
		{true, func(a, b mat.Matrix) mat.Matrix {
			a.Copy(b)
			return a
		}},
		{true, func(a, b mat.Matrix) mat.Matrix {
			return a.ApplyInPlace(func(_, _ int, v float64) float64 { return -v }, b)
		}},
		{true, func(a, b mat.Matrix) mat.Matrix {
			return a.ApplyWithAlphaInPlace(func(_, _ int, v float64, _ ...float64) float64 { return -v }, b, 2)
		}},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.NewConcatV(a, b, a) }},
		{true, func(a, b mat.Matrix) mat.Matrix { return a.NewStack(b, a) }},
	}
	o := ops[vrt.Choose(len(ops))]
	// (division, roots and products of arbitrary values are compared as terms; the
	// shapes are vectors so that every operation accepts them)
	n := 1 + vrt.Choose(vrt.Bound(3, 9))
	x, y := sym[T](n), sym[S](n)
	mk := func() mat.Matrix { return mat.NewDense[T](mat.WithShape(n, 1), mat.WithBacking(hx.Copy(x))) }
	b := mat.NewDense[S](mat.WithShape(n, 1), mat.WithBacking(hx.Copy(y)))
	bc := mat.NewDense[T](mat.WithShape(n, 1), mat.WithBacking(conv[S, T](y)))
	got, want := o.f(mk(), b), o.f(mk(), bc)
	_, ok := got.(*mat.Dense[T])
	vrt.Assert(ok, "mixed: element type of the result")
	hx.Shape(got, want.Shape()[0], want.Shape()[1], "mixed")
	are(mat.Data[T](got), hx.Copy(mat.Data[T](want)), "mixed: elements")
	are(mat.Data[S](b), y, "mixed: the other operand")
}

// H_MixedRows: appending rows of the other precision.
//
//vrt:fp
func H_MixedRows() { hx.Pick(mixedRows[float32, float64], mixedRows[float64, float32])() }

func mixedRows[T, S float.DType]() {
	r, c := 1+vrt.Choose(2), 1+vrt.Choose(3)
	x, y := sym[T](r*c), sym[S](c)
	a := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(x)))
	got := a.AppendRows(mat.NewDense[S](mat.WithShape(c), mat.WithBacking(hx.Copy(y))))
	hx.Shape(got, r+1, c, "appended rows")
	are(mat.Data[T](got), append(hx.Copy(x), conv[S, T](y)...), "appended rows")
}

// H_MixedGrad: gradients of the other precision are converted.
//
//vrt:fp
func H_MixedGrad() {
	all(mixedGrad[float32, float32], mixedGrad[float32, float64], mixedGrad[float64, float32], mixedGrad[float64, float64])
}

func mixedGrad[T, S float.DType]() {
	n := 1 + vrt.Choose(3)
	x := mat.NewDense[T](mat.WithShape(n, 1), mat.WithGrad(true))
	g, h := sym[S](n), sym[S](n)
	gm := mat.NewDense[S](mat.WithShape(n, 1), mat.WithBacking(hx.Copy(g)))
	x.AccGrad(gm)
	w := conv[S, T](g)
	_, ok := x.Grad().(*mat.Dense[T])
	vrt.Assert(ok, "gradient: element type")
	hx.Shape(x.Grad(), n, 1, "gradient")
	are(mat.Data[T](x.Grad()), w, "gradient")
	gm.Zeros()
	are(mat.Data[T](x.Grad()), w, "gradient is its own copy")
	x.AccGrad(mat.NewDense[S](mat.WithShape(n, 1), mat.WithBacking(hx.Copy(h))))
	for i := range w {
		w[i] += T(h[i])
	}
	are(mat.Data[T](x.Grad()), w, "accumulated gradient")
}

// H_MixedGraph: operators on operands of both precisions. The result has the
// precision of the first operand, every operand its gradient in its own.
func H_MixedGraph() { hx.Pick(mixedGraph[float32, float64], mixedGraph[float64, float32])() }

func mixedGraph[T, S float.DType]() {
	n := 1 + vrt.Choose(vrt.Bound(3, 5))
	x, y, g := hx.Floats[T](n), hx.Floats[S](n), hx.Floats[T](n)
	a := mat.NewDense[T](mat.WithShape(n, 1), mat.WithBacking(hx.Copy(x)), mat.WithGrad(true))
	b := mat.NewDense[S](mat.WithShape(n, 1), mat.WithBacking(hx.Copy(y)), mat.WithGrad(true))
	var out mat.Tensor
	want, ga, gb := make([]T, n), make([]T, n), make([]S, n)
	switch vrt.Choose(4) {
	case 0:
		out = ag.Add(a, b)
		for i := range want {
			want[i], ga[i], gb[i] = x[i]+T(y[i]), g[i], S(g[i])
		}
	case 1:
		out = ag.Sub(a, b)
		for i := range want {
			want[i], ga[i], gb[i] = x[i]-T(y[i]), g[i], -S(g[i])
		}
	case 2:
		out = ag.Prod(a, b)
		for i := range want {
			want[i], ga[i], gb[i] = x[i]*T(y[i]), g[i]*T(y[i]), S(g[i])*S(x[i])
		}
	case 3:
		out = ag.Dot(a, b)
		want, g = []T{0}, g[:1]
		for i := range x {
			want[0] += x[i] * T(y[i])
			ga[i], gb[i] = g[0]*T(y[i]), S(g[0])*S(x[i])
		}
	}
	hx.Eq(out, len(want), 1, want, "mixed graph")
	out.AccGrad(mat.NewDense[T](mat.WithShape(len(g), 1), mat.WithBacking(hx.Copy(g))))
	ag.Backward(out)
	hx.Eq(a.Grad(), n, 1, ga, "gradient of the first operand")
	hx.Eq(b.Grad(), n, 1, gb, "gradient of the second operand")
}
