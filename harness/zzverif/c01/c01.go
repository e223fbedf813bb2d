// Package c01: matrix arithmetic equals its mathematical definition.
package c01

import (
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// pair gives two symbolic matrices of one shape; the second one may have the
// other element type.
func pair[T float.DType]() (a, b mat.Matrix, ad, bd []T, r, c int) {
	r, c = hx.AnyShape()
	a, ad = hx.SymM[T](r, c)
	bd = hx.Floats[T](r * c)
	b = hx.M(r, c, bd)
	return
}

func elementwise(name string, op, ip func(a, b mat.Matrix) mat.Matrix, f32 func(x, y float32) float32, f64 func(x, y float64) float64, nonzero bool) {
	vrt.CPU(vrt.Choose(3))
	hx.Both(func() { elementwiseT(name, op, ip, f32, nonzero) }, func() { elementwiseT(name, op, ip, f64, nonzero) })
}

func elementwiseT[T float.DType](name string, op, ip func(a, b mat.Matrix) mat.Matrix, f func(x, y T) T, nonzero bool) {
	a, b, ad, bd, r, c := pair[T]()
	if nonzero {
		for _, y := range bd {
			vrt.Assume(y != 0)
		}
	}
	want := make([]T, r*c)
	for i := range want {
		want[i] = f(ad[i], bd[i])
	}
	hx.Eq(op(a, b), r, c, want, name)
	hx.Eq(a, r, c, ad, name+" receiver")
	hx.Eq(b, r, c, bd, name+" argument")
	if ip != nil {
		out := ip(a, b)
		vrt.Assert(out == a, name+"InPlace returns the receiver")
		hx.Eq(a, r, c, want, name+"InPlace")
		hx.Eq(b, r, c, bd, name+"InPlace argument")
	}
}

func H_Add() {
	elementwise("Add", mat.Matrix.Add, mat.Matrix.AddInPlace,
		func(x, y float32) float32 { return x + y }, func(x, y float64) float64 { return x + y }, false)
}

func H_Sub() {
	elementwise("Sub", mat.Matrix.Sub, mat.Matrix.SubInPlace,
		func(x, y float32) float32 { return x - y }, func(x, y float64) float64 { return x - y }, false)
}

func H_Prod() {
	elementwise("Prod", mat.Matrix.Prod, mat.Matrix.ProdInPlace,
		func(x, y float32) float32 { return x * y }, func(x, y float64) float64 { return x * y }, false)
}

func H_Div() {
	elementwise("Div", mat.Matrix.Div, mat.Matrix.DivInPlace,
		func(x, y float32) float32 { return x / y }, func(x, y float64) float64 { return x / y }, true)
}

// Operations with the receiver as argument: the result is a new matrix, the
// in-place ones overwrite the receiver.
func H_SelfInPlace() { hx.Both(selfInPlace[float32], selfInPlace[float64]) }

func selfInPlace[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	r, c := hx.AnyShape()
	a, d := hx.SymM[T](r, c)
	k := vrt.Choose(4)
	want := make([]T, len(d))
	for i, x := range d {
		switch k {
		case 0:
			want[i] = x + x
		case 1:
			want[i] = 0
		case 2:
			want[i] = x * x
		case 3:
			vrt.Assume(x != 0)
			want[i] = 1
		}
	}
	hx.Eq([]func(b mat.Matrix) mat.Matrix{a.Add, a.Sub, a.Prod, a.Div}[k](a), r, c, want, "self")
	hx.Eq(a, r, c, d, "self receiver")
	hx.Eq(a.Maximum(a), r, c, d, "self Maximum")
	hx.Eq(a.Minimum(a), r, c, d, "self Minimum")
	switch k {
	case 0:
		a.AddInPlace(a)
	case 1:
		a.SubInPlace(a)
	case 2:
		a.ProdInPlace(a)
	case 3:
		a.DivInPlace(a)
	}
	hx.Eq(a, r, c, want, "self in-place")
}

// Operands of the other element type are converted.
func H_MixedTypes() { hx.Both(mixed[float32, float64], mixed[float64, float32]) }

func mixed[T, U float.DType]() {
	r, c := hx.AnyShape()
	a, ad := hx.SymM[T](r, c)
	b, bd := hx.SymM[U](r, c)
	k := vrt.Choose(4)
	want := make([]T, len(ad))
	for i, x := range ad {
		y := T(bd[i])
		switch k {
		case 0:
			want[i] = x + y
		case 1:
			want[i] = x - y
		case 2:
			want[i] = x * y
		case 3:
			vrt.Assume(y != 0)
			want[i] = x / y
		}
	}
	switch k {
	case 0:
		hx.Eq(a.Add(b), r, c, want, "Add mixed")
		a.AddInPlace(b)
	case 1:
		hx.Eq(a.Sub(b), r, c, want, "Sub mixed")
		a.SubInPlace(b)
	case 2:
		hx.Eq(a.Prod(b), r, c, want, "Prod mixed")
		a.ProdInPlace(b)
	case 3:
		hx.Eq(a.Div(b), r, c, want, "Div mixed")
		a.DivInPlace(b)
	}
	hx.Eq(a, r, c, want, "in-place mixed")
	hx.Eq(b, r, c, bd, "argument mixed")
}

func H_Scalars() { hx.Both(scalars[float32], scalars[float64]) }

func scalars[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	r, c := hx.AnyShape()
	a, d := hx.SymM[T](r, c)
	n := vrt.F[float64]()
	k := vrt.Choose(4)
	want := make([]T, len(d))
	for i, x := range d {
		switch k {
		case 0:
			want[i] = x + T(n)
		case 1:
			want[i] = x - T(n)
		case 2, 3:
			want[i] = x * T(n)
		}
	}
	var out mat.Matrix
	switch k {
	case 0:
		hx.Eq(a.AddScalar(n), r, c, want, "AddScalar")
		hx.Eq(a, r, c, d, "AddScalar receiver")
		out = a.AddScalarInPlace(n)
	case 1:
		hx.Eq(a.SubScalar(n), r, c, want, "SubScalar")
		hx.Eq(a, r, c, d, "SubScalar receiver")
		out = a.SubScalarInPlace(n)
	case 2:
		hx.Eq(a.ProdScalar(n), r, c, want, "ProdScalar")
		hx.Eq(a, r, c, d, "ProdScalar receiver")
		out = a.ProdScalarInPlace(n)
	case 3:
		b, _ := hx.SymM[T](r, c)
		out = b.ProdMatrixScalarInPlace(a, n)
		hx.Eq(a, r, c, d, "ProdMatrixScalarInPlace argument")
		hx.Eq(b, r, c, want, "ProdMatrixScalarInPlace")
		return
	}
	vrt.Assert(out == a, "the in-place variant returns the receiver")
	hx.Eq(a, r, c, want, "scalar op in place")
}

func H_Mul() { hx.Both(mul[float32], mul[float64]) }

func mul[T float.DType]() {
	dims := [][3]int{{1, 1, 1}, {1, 3, 1}, {3, 1, 3}, {2, 3, 2}, {3, 4, 1}, {5, 2, 1}, {2, 17, 1}, {4, 4, 4}, {1, 2, 6}, {9, 3, 1}, {2, 0, 3}, {5, 5, 5}, {0, 2, 1}, {2, 0, 1}}
	if vrt.Thorough() {
		dims = append(dims, [][3]int{{5, 5, 5}, {6, 3, 9}, {17, 8, 1}, {3, 33, 1}, {7, 5, 2}, {1, 9, 9}, {10, 1, 4}, {4, 7, 3}, {13, 13, 1}, {0, 3, 4}, {3, 2, 0}}...)
	}
	k := dims[vrt.Choose(len(dims))]
	ad, bd := sparse[T](k[0]*k[1]), hx.Floats[T](k[1]*k[2])
	a, b := hx.M(k[0], k[1], ad), hx.M(k[1], k[2], bd)
	got := a.Mul(b)
	hx.EqF(got, k[0], k[2], func(i, j int) T {
		var s T
		for q := 0; q < k[1]; q++ {
			s += ad[i*k[1]+q] * bd[q*k[2]+j]
		}
		return s
	}, "Mul")
	hx.Eq(a, k[0], k[1], ad, "Mul receiver")
	hx.Eq(b, k[1], k[2], bd, "Mul argument")
	if k[0] == k[1] {
		hx.EqF(a.Mul(a), k[0], k[0], func(i, j int) T {
			var s T
			for q := 0; q < k[0]; q++ {
				s += ad[i*k[0]+q] * ad[q*k[0]+j]
			}
			return s
		}, "Mul by itself")
		hx.Eq(a, k[0], k[1], ad, "Mul by itself: receiver")
	}
}

// sparse gives n symbolic values: any for the first four, and beyond them
// non-zero values but for one chosen position, which is zero.
func sparse[T float.DType](n int) []T {
	out := hx.Floats[T](n)
	if n > 4 {
		z := vrt.Choose(n - 4)
		for i := 4; i < n; i++ {
			if i == 4+z {
				out[i] = 0
			} else {
				vrt.Assume(out[i] != 0)
			}
		}
	}
	return out
}

// Large matrix products take the blocked and parallel path.
func H_MulBlocks() { hx.Both(mulBlocks[float32], mulBlocks[float64]) }

func mulBlocks[T float.DType]() {
	vrt.CPU(2)
	dims := [][3]int{{65, 2, 2}, {2, 65, 2}, {2, 2, 65}, {65, 65, 2}}
	if vrt.Thorough() {
		dims = append(dims, [][3]int{{130, 3, 3}, {3, 130, 3}, {3, 3, 130}, {64, 64, 2}, {128, 2, 65}}...)
	}
	k := dims[vrt.Choose(len(dims))]
	// One symbolic row and column decide every entry: the remaining elements are
	// distinct constants.
	ad, bd := make([]T, k[0]*k[1]), make([]T, k[1]*k[2])
	for i := range ad {
		ad[i] = T(i%7) - 3
	}
	for i := range bd {
		bd[i] = T(i%5) - 2
	}
	r := hx.Pick(0, k[0]/2, k[0]-1)
	q := hx.Pick(0, k[1]-1)
	c := hx.Pick(0, k[2]-1)
	ad[r*k[1]+q] = vrt.F[T]()
	bd[q*k[2]+c] = vrt.F[T]()
	a, b := hx.M(k[0], k[1], ad), hx.M(k[1], k[2], bd)
	got := a.Mul(b)
	hx.EqF(got, k[0], k[2], func(i, j int) T {
		var s T
		for q := 0; q < k[1]; q++ {
			s += ad[i*k[1]+q] * bd[q*k[2]+j]
		}
		return s
	}, "Mul")
}

func H_MulT() { hx.Both(mulT[float32], mulT[float64]) }

func mulT[T float.DType]() {
	dims := [][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 5}, {2, 17}, {9, 2}, {0, 2}, {2, 0}}
	if vrt.Thorough() {
		dims = append(dims, [][2]int{{8, 8}, {4, 33}, {33, 4}, {5, 16}}...)
	}
	k := dims[vrt.Choose(len(dims))]
	a, ad := hx.SymM[T](k[0], k[1])
	b, bd := hx.SymM[T](k[0], 1)
	got := a.MulT(b)
	hx.EqF(got, k[1], 1, func(i, _ int) T {
		var s T
		for q := 0; q < k[0]; q++ {
			s += ad[q*k[1]+i] * bd[q]
		}
		return s
	}, "MulT")
	hx.Eq(a, k[0], k[1], ad, "MulT receiver")
	if k[1] == 1 {
		var s T
		for _, x := range ad {
			s += x * x
		}
		hx.Eq(a.MulT(a), 1, 1, []T{s}, "MulT by itself")
	}
}

func H_DotUnitary() { hx.Both(dot[float32], dot[float64]) }

func dot[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	n := vrt.Choose(vrt.Bound(19, 40))
	r, c := n, 1
	if n > 1 && vrt.Choose(2) == 1 {
		r, c = 1, n
	}
	a, ad := hx.SymM[T](r, c)
	b, bd := hx.SymM[T](r, c)
	var s T
	for i := range ad {
		s += ad[i] * bd[i]
	}
	hx.Eq(a.DotUnitary(b), 1, 1, []T{s}, "DotUnitary")
	s = 0
	for _, x := range ad {
		s += x * x
	}
	hx.Eq(a.DotUnitary(a), 1, 1, []T{s}, "DotUnitary with itself")
}

func H_Clip() { hx.Both(clip[float32], clip[float64]) }

func clip[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 2}, {2, 2}, {3, 1}}, [][2]int{{5, 1}})
	a, d := hx.SymM[T](r, c)
	lo, hi := vrt.F[float64](), vrt.F[float64]()
	vrt.Assume(lo <= hi)
	want := make([]T, len(d))
	for i, x := range d {
		want[i] = max(T(lo), min(T(hi), x))
	}
	vrt.Assert(a.ClipInPlace(lo, hi) == a, "ClipInPlace returns the receiver")
	hx.Eq(a, r, c, want, "ClipInPlace")
}

func H_MaximumMinimum() { hx.Both(maxmin[float32], maxmin[float64]) }

func maxmin[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {2, 2}, {5, 1}, {0, 0}}, [][2]int{{2, 4}, {9, 1}})
	a, ad := hx.SymM[T](r, c)
	b, bd := hx.SymM[T](r, c)
	hi, lo := make([]T, len(ad)), make([]T, len(ad))
	for i := range ad {
		hi[i], lo[i] = max(ad[i], bd[i]), min(ad[i], bd[i])
	}
	if vrt.Choose(2) == 0 {
		hx.Eq(a.Maximum(b), r, c, hi, "Maximum")
	} else {
		hx.Eq(a.Minimum(b), r, c, lo, "Minimum")
	}
	hx.Eq(a, r, c, ad, "receiver")
	hx.Eq(b, r, c, bd, "argument")
}

func H_Unary() { hx.Both(unary[float32], unary[float64]) }

func unary[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	k := vrt.Choose(6)
	r, c := hx.AnyShape()
	d := make([]T, r*c)
	for i := range d {
		if k == 2 || k == 3 {
			d[i] = vrt.Pos[T]()
		} else if k == 1 && i >= 4 {
			d[i] = vrt.Pos[T]()
		} else {
			d[i] = vrt.F[T]()
		}
	}
	a := hx.M(r, c, d)
	want := make([]T, len(d))
	var got mat.Matrix
	name := ""
	switch k {
	case 0:
		name, got = "Exp", a.Exp()
		for i, x := range d {
			want[i] = T(math.Exp(float64(x)))
		}
	case 1:
		name, got = "Abs", a.Abs()
		for i, x := range d {
			want[i] = max(x, -x)
		}
	case 2:
		name, got = "Log", a.Log()
		for i, x := range d {
			want[i] = T(math.Log(float64(x)))
		}
	case 3:
		name, got = "Sqrt", a.Sqrt()
		for i, x := range d {
			want[i] = T(math.Sqrt(float64(x)))
		}
	case 4:
		name, got = "Sigmoid", a.Sigmoid()
		for i, x := range d {
			want[i] = 1 / (1 + T(math.Exp(float64(-x))))
		}
	case 5:
		name = "Pow"
		p := hx.Pick[float64](2, 3, 1, 0)
		got = a.Pow(p)
		for i, x := range d {
			w := T(1)
			for q := 0; q < int(p); q++ {
				w *= x
			}
			want[i] = w
		}
	}
	hx.Eq(got, r, c, want, name)
	hx.Eq(a, r, c, d, name+" receiver")
}

// Lengths around the vector width, one symbolic element among constants.
func H_ExpLogLengths() { hx.Both(expLog[float32], expLog[float64]) }

func expLog[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	n := 1 + vrt.Choose(vrt.Bound(18, 40))
	d := make([]T, n)
	for i := range d {
		d[i] = vrt.Pos[T]()
	}
	a := hx.M(n, 1, d)
	if vrt.Choose(2) == 0 {
		hx.EqF(a.Log(), n, 1, func(i, _ int) T { return T(math.Log(float64(d[i]))) }, "Log")
	} else {
		hx.EqF(a.Exp(), n, 1, func(i, _ int) T { return T(math.Exp(float64(d[i]))) }, "Exp")
	}
}

// The logarithm of zero is minus infinity wherever the zero is.
func H_LogZero() { hx.Both(logZero[float32], logZero[float64]) }

func logZero[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	n := 1 + vrt.Choose(vrt.Bound(18, 40))
	z := vrt.Choose(n)
	d := make([]T, n)
	for i := range d {
		if i != z {
			d[i] = vrt.Pos[T]()
		}
	}
	got := hx.D[T](hx.M(n, 1, d).Log())
	for i := range d {
		if i == z {
			vrt.Assert(math.IsInf(float64(got[i]), -1), "Log(0) is -Inf")
		} else {
			vrt.AssertEq(got[i], T(math.Log(float64(d[i]))), "Log beside a zero")
		}
	}
}

func H_Sum() { hx.Both(sum[float32], sum[float64]) }

func sum[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	n := vrt.Choose(vrt.Bound(19, 70))
	r, c := n, 1
	if n == 6 {
		r, c = 2, 3
	}
	a, d := hx.SymM[T](r, c)
	var s T
	for _, x := range d {
		s += x
	}
	hx.Eq(a.Sum(), 1, 1, []T{s}, "Sum")
}

func H_MaxMinArgMax() { hx.Both(extrema[float32], extrema[float64]) }

func extrema[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 3}, {4, 1}, {2, 2}}, [][2]int{{2, 3}, {1, 6}})
	a, d := hx.SymM[T](r, c)
	switch vrt.Choose(3) {
	case 0:
		got := hx.D[T](a.Max())
		vrt.Assert(len(got) == 1, "Max is a scalar")
		in := false
		for _, x := range d {
			vrt.AssertLe(x, got[0], "Max bounds every element")
			in = in || x == got[0]
		}
		vrt.Assert(in, "Max is an element")
	case 1:
		got := hx.D[T](a.Min())
		vrt.Assert(len(got) == 1, "Min is a scalar")
		in := false
		for _, x := range d {
			vrt.AssertLe(got[0], x, "Min bounds every element")
			in = in || x == got[0]
		}
		vrt.Assert(in, "Min is an element")
	case 2:
		if r > 1 && c > 1 {
			return
		}
		k := a.ArgMax()
		vrt.Assert(k >= 0 && k < len(d), "ArgMax range")
		for i, x := range d {
			vrt.AssertLe(x, d[k], "ArgMax element is maximal")
			if i < k {
				vrt.Assert(x < d[k], "ArgMax is the first maximum")
			}
		}
	}
}

func H_Softmax() { hx.Both(softmax[float32], softmax[float64]) }

func softmax[T float.DType]() {
	vrt.CPU(vrt.Choose(3))
	r, c := hx.VecShape(4, 6)
	a, d := hx.SymM[T](r, c)
	got := a.Softmax()
	n := r * c
	hx.EqF(got, n, 1, func(i, _ int) T {
		var s T
		for _, y := range d {
			s += T(math.Exp(float64(y - d[i])))
		}
		return 1 / s
	}, "Softmax")
	hx.Eq(a, r, c, d, "Softmax receiver")
}

func H_CumSum() { hx.Both(cumsum[float32], cumsum[float64]) }

func cumsum[T float.DType]() {
	n := vrt.Choose(vrt.Bound(19, 40))
	r, c := n, 1
	if n > 1 && vrt.Choose(2) == 1 {
		r, c = 1, n
	}
	a, d := hx.SymM[T](r, c)
	var s T
	hx.EqF(a.CumSum(), n, 1, func(i, _ int) T { s += d[i]; return s }, "CumSum")
	hx.Eq(a, r, c, d, "CumSum receiver")
}

func H_Norm() { hx.Both(norm[float32], norm[float64]) }

func norm[T float.DType]() {
	r, c := hx.VecShape(4, 6)
	d := hx.Floats[T](r * c)
	p := hx.Pick(2.0, 1, 3, 0)
	a := hx.M(r, c, d)
	var s T
	for _, x := range d {
		abs := x // the norm is of the absolute values, whatever the exponent
		if x < 0 {
			abs = -x
		}
		switch p {
		case 1:
			s += abs
		case 2:
			s += x * x
		case 3:
			s += abs * abs * abs
		}
	}
	if p == 0 { // Normalize2
		s = 0
		for _, x := range d {
			s += x * x
		}
		out := a.Normalize2()
		n := T(math.Sqrt(float64(s)))
		hx.EqF(out, r, c, func(i, j int) T { return d[i*c+j] / n }, "Normalize2")
		z := hx.M(r, c, make([]T, r*c)).Normalize2()
		hx.Eq(z, r, c, make([]T, r*c), "Normalize2 of zero")
		return
	}
	if p != 1 {
		vrt.Assume(s > 0)
	}
	got := hx.D[T](a.Norm(p))
	vrt.Assert(len(got) == 1, "Norm is a scalar")
	g := got[0]
	switch p {
	case 1:
		vrt.AssertEq(g, s, "Norm(1)")
	case 2:
		vrt.AssertEq(g, T(math.Sqrt(float64(s))), "Norm(2)")
	case 3:
		vrt.AssertEq(g, T(math.Pow(float64(s), 1/p)), "Norm(3)")
	}
}

func H_Apply() { hx.Both(apply[float32], apply[float64]) }

func apply[T float.DType]() {
	r, c := hx.AnyShape()
	a, d := hx.SymM[T](r, c)
	al, be := vrt.F[float64](), vrt.F[float64]()
	want := func(i, j int) T { return d[i*c+j]*T(al) + T(100*i+j) }
	fn := func(i, j int, v float64) float64 { return v*al + float64(100*i+j) }
	want2 := func(i, j int) T { return d[i*c+j]*T(al) + T(be)*T(100*i+j) }
	fn2 := func(i, j int, v float64, ps ...float64) float64 { return v*ps[0] + ps[1]*float64(100*i+j) }
	b, _ := hx.SymM[T](r, c)
	switch vrt.Choose(4) {
	case 0:
		hx.EqF(a.Apply(fn), r, c, want, "Apply")
	case 1:
		vrt.Assert(b.ApplyInPlace(fn, a) == b, "ApplyInPlace returns the receiver")
		hx.EqF(b, r, c, want, "ApplyInPlace")
	case 2:
		hx.EqF(a.ApplyWithAlpha(fn2, al, be), r, c, want2, "ApplyWithAlpha")
	case 3:
		vrt.Assert(b.ApplyWithAlphaInPlace(fn2, a, al, be) == b, "ApplyWithAlphaInPlace returns the receiver")
		hx.EqF(b, r, c, want2, "ApplyWithAlphaInPlace")
	}
	hx.Eq(a, r, c, d, "Apply argument")
}
