// Package c04: out-of-contract matrix calls are rejected, never answered.
package c04

import (
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// roomy is a matrix whose backing slice has spare capacity beyond its elements,
// so that an unchecked access does not run into the end of the array.
func roomy[T float.DType](r, c int) (mat.Matrix, []T) {
	d := hx.Floats[T](r * c)
	back := make([]T, r*c, r*c+8)
	copy(back, d)
	return mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(back)), d
}

func shape() (int, int) {
	return hx.Dims([][2]int{{2, 3}, {1, 3}, {3, 1}, {1, 1}, {0, 0}}, [][2]int{{3, 2}, {2, 2}, {1, 5}, {4, 1}, {0, 2}, {2, 0}})
}

// check runs f, which is inside the contract exactly when ok holds.
func check(ok bool, f func(), msg string) {
	p := vrt.Panics(f)
	if ok {
		vrt.Assert(!p, msg+": a call inside the contract is accepted")
	} else {
		vrt.Assert(p, msg+": a call outside the contract is rejected")
	}
}

func H_Indices() { hx.Both(indices[float32], indices[float64]) }

func indices[T float.DType]() {
	r, c := shape()
	m, d := roomy[T](r, c)
	v := float.Interface(vrt.F[T]())
	i, j := vrt.Int(-2, r+2), vrt.Int(-2, c+2)
	in := i >= 0 && i < r && j >= 0 && j < c
	vec := r == 1 || c == 1
	in1 := vec && i >= 0 && i < r*c
	switch vrt.Choose(8) {
	case 0:
		check(in, func() { m.ScalarAt(i, j) }, "ScalarAt")
	case 1:
		check(in, func() { m.At(i, j) }, "At")
	case 2:
		check(in, func() { m.SetScalar(v, i, j) }, "SetScalar")
		if in {
			return
		}
	case 3:
		check(in, func() { m.SetAt(mat.Scalar(1.0), i, j) }, "SetAt")
		if in {
			return
		}
	case 4:
		check(in1, func() { m.ScalarAt(i) }, "ScalarAt(i)")
	case 5:
		check(in1, func() { m.SetScalar(v, i) }, "SetScalar(i)")
		if in1 {
			return
		}
	case 6:
		check(false, func() { m.ScalarAt() }, "ScalarAt()")
		check(false, func() { m.ScalarAt(0, 0, 0) }, "ScalarAt(0,0,0)")
		check(false, func() { m.SetScalar(v) }, "SetScalar()")
	case 7:
		check(in1, func() { m.At(i) }, "At(i)")
	}
	hx.Same(m, r, c, d, "matrix after a rejected call")
}

func H_Rows() { hx.Both(rows[float32], rows[float64]) }

func rows[T float.DType]() {
	r, c := shape()
	m, d := roomy[T](r, c)
	i, j := vrt.Int(-2, r+2), vrt.Int(-2, r+2)
	switch vrt.Choose(3) {
	case 0:
		check(i >= 0 && i < r, func() { m.ExtractRow(i) }, "ExtractRow")
	case 1:
		k := vrt.Int(-2, c+2)
		check(k >= 0 && k < c, func() { m.ExtractColumn(k) }, "ExtractColumn")
	case 2:
		in := i >= 0 && i < r && j >= 0 && j < r
		check(in, func() { m.SwapInPlace(i, j) }, "SwapInPlace")
		if in {
			return
		}
	}
	hx.Same(m, r, c, d, "matrix after the call")
}

func H_Slice() { hx.Both(slice[float32], slice[float64]) }

func slice[T float.DType]() {
	r, c := hx.Dims([][2]int{{2, 2}, {1, 2}, {2, 1}}, [][2]int{{2, 3}, {3, 3}, {1, 1}})
	m, d := roomy[T](r, c)
	i, j := vrt.Int(-1, r+1), vrt.Int(-1, c+1)
	k, l := vrt.Int(-1, r+1), vrt.Int(-1, c+1)
	vrt.Assume(i != r && j != c) // an empty slice at the very end: unspecified
	in := i >= 0 && i <= k && k <= r && j >= 0 && j <= l && l <= c
	check(in, func() { m.Slice(i, j, k, l) }, "Slice")
	hx.Same(m, r, c, d, "matrix after the call")
}

func H_Reshape() { hx.Both(reshape[float32], reshape[float64]) }

func reshape[T float.DType]() {
	r, c := shape()
	m, d := roomy[T](r, c)
	i, j := vrt.Choose(r*c+4)-1, vrt.Choose(r*c+4)-1
	in := i >= 0 && j >= 0 && i*j == r*c
	switch vrt.Choose(4) {
	case 0:
		check(in, func() { m.Reshape(i, j) }, "Reshape")
	case 1:
		check(in, func() { m.ReshapeInPlace(i, j) }, "ReshapeInPlace")
		if in {
			return
		}
	case 2:
		check(false, func() { m.Reshape(r * c) }, "Reshape(n)")
		check(false, func() { m.ReshapeInPlace() }, "ReshapeInPlace()")
		check(false, func() { m.Reshape(r, c, 1) }, "Reshape(r,c,1)")
	case 3:
		check((r == 1 || c == 1) && i >= 0, func() { m.ResizeVector(i) }, "ResizeVector")
		check(i >= 0, func() { m.PadRows(i) }, "PadRows")
		check(i >= 0, func() { m.PadColumns(i) }, "PadColumns")
	}
	hx.Same(m, r, c, d, "matrix after the call")
}

// Binary operations need operands of one shape.
func H_Binary() { hx.Both(binary[float32], binary[float64]) }

func binary[T float.DType]() {
	a, b, r, c, r2, c2, ad, bd := two[T]()
	same := r == r2 && c == c2
	if same {
		for _, x := range bd {
			vrt.Assume(x != 0)
		}
	}
	k := vrt.Choose(13)
	name := ""
	f := func() {}
	inplace := true
	switch k {
	case 0:
		name, f, inplace = "Add", func() { a.Add(b) }, false
	case 1:
		name, f = "AddInPlace", func() { a.AddInPlace(b) }
	case 2:
		name, f, inplace = "Sub", func() { a.Sub(b) }, false
	case 3:
		name, f = "SubInPlace", func() { a.SubInPlace(b) }
	case 4:
		name, f, inplace = "Prod", func() { a.Prod(b) }, false
	case 5:
		name, f = "ProdInPlace", func() { a.ProdInPlace(b) }
	case 6:
		name, f, inplace = "Div", func() { a.Div(b) }, false
	case 7:
		name, f = "DivInPlace", func() { a.DivInPlace(b) }
	case 8:
		name, f, inplace = "Maximum", func() { a.Maximum(b) }, false
	case 9:
		name, f, inplace = "Minimum", func() { a.Minimum(b) }, false
	case 10:
		name, f = "Copy", func() { a.Copy(b) }
	case 11:
		name, f = "ApplyInPlace", func() { a.ApplyInPlace(func(r, c int, v float64) float64 { return v }, b) }
	case 12:
		name, f = "ProdMatrixScalarInPlace", func() { a.ProdMatrixScalarInPlace(b, 2) }
	}
	check(same, f, name)
	if !same || !inplace {
		hx.Same(a, r, c, ad, name+" receiver")
	}
	hx.Same(b, r2, c2, bd, name+" argument")
}

func two[T float.DType]() (a, b mat.Matrix, r, c, r2, c2 int, ad, bd []T) {
	shapes := [][2]int{{2, 3}, {3, 2}, {6, 1}, {1, 6}, {2, 2}, {1, 2}, {0, 0}}
	s, t := hx.Pick(shapes...), hx.Pick(shapes...)
	r, c, r2, c2 = s[0], s[1], t[0], t[1]
	a, ad = roomy[T](r, c)
	b, bd = roomy[T](r2, c2)
	return
}

func H_Products() { hx.Both(products[float32], products[float64]) }

func products[T float.DType]() {
	a, b, r, c, r2, c2, ad, bd := two[T]()
	for _, x := range append(hx.Copy(ad), bd...) {
		vrt.Assume(x != 0)
	}
	vec := func(r, c int) bool { return r == 1 || c == 1 }
	switch vrt.Choose(5) {
	case 0:
		check(c == r2, func() { a.Mul(b) }, "Mul")
	case 1:
		check(r == r2 && c2 == 1, func() { a.MulT(b) }, "MulT")
	case 2:
		if r == r2 && c == c2 && !vec(r, c) {
			return
		}
		check(r == r2 && c == c2, func() { a.DotUnitary(b) }, "DotUnitary")
	case 3:
		check(vec(r2, c2) && r2*c2 == c, func() { a.AppendRows(b) }, "AppendRows")
	case 4:
		if vec(r, c) && vec(r2, c2) {
			check(r*c == r2*c2, func() { mat.Stack[T](a, b) }, "Stack")
			check(true, func() { mat.ConcatV[T](a, b) }, "ConcatV")
		} else {
			check(false, func() { mat.Stack[T](a, b) }, "Stack")
			check(false, func() { mat.ConcatV[T](a, b) }, "ConcatV")
		}
	}
	hx.Same(a, r, c, ad, "receiver")
	hx.Same(b, r2, c2, bd, "argument")
}

// Operations on vectors reject matrices; reductions reject empty matrices.
func H_VectorsOnly() { hx.Both(vectorsOnly[float32], vectorsOnly[float64]) }

func vectorsOnly[T float.DType]() {
	r, c := shape()
	m, d := roomy[T](r, c)
	for _, x := range d {
		vrt.Assume(x > 0)
	}
	vec := r == 1 || c == 1
	n := r * c
	switch vrt.Choose(10) {
	case 0:
		check(vec, func() { m.Softmax() }, "Softmax")
	case 1:
		check(vec, func() { m.CumSum() }, "CumSum")
	case 2:
		check(vec, func() { m.Norm(2) }, "Norm")
	case 3:
		check(vec, func() { m.Normalize2() }, "Normalize2")
	case 4:
		check(vec && n > 0, func() { m.ArgMax() }, "ArgMax")
	case 5:
		check(n > 0, func() { m.Max() }, "Max")
		check(n > 0, func() { m.Min() }, "Min")
	case 6:
		check(n == 1, func() { m.Item() }, "Item")
	case 7:
		check(r == c, func() { m.Augment() }, "Augment")
	case 8:
		check(vec, func() { m.DoVecNonZero(func(int, float64) {}) }, "DoVecNonZero")
	case 9:
		lo, hi := vrt.F[float64](), vrt.F[float64]()
		check(lo <= hi, func() { m.ClipInPlace(lo, hi) }, "ClipInPlace")
		if lo <= hi {
			return
		}
	}
	hx.Same(m, r, c, d, "matrix after the call")
}

func H_RangeSplit() { hx.Both(rangeSplit[float32], rangeSplit[float64]) }

func rangeSplit[T float.DType]() {
	r, c := shape()
	m, d := roomy[T](r, c)
	vec := r == 1 || c == 1
	n := r * c
	i, j := vrt.Choose(n+6)-2, vrt.Choose(n+6)-2
	if vrt.Choose(2) == 0 {
		check(vec && i >= 0 && i <= j && j <= n, func() { m.Range(i, j) }, "Range")
	} else {
		check(vec && i >= 0 && j >= 0 && i+j <= n, func() { m.SplitV(i, j) }, "SplitV")
	}
	hx.Same(m, r, c, d, "matrix after the call")
}

func H_Constructors() { hx.Both(ctors[float32], ctors[float64]) }

func ctors[T float.DType]() {
	r, c, n := vrt.Choose(4)-1, vrt.Choose(4)-1, vrt.Choose(6)
	back := make([]T, n, n+8)
	switch vrt.Choose(8) {
	case 0:
		check(r >= 0 && c >= 0 && r*c == n, func() { mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(back)) }, "NewDense")
	case 1:
		check(r >= 0 && c >= 0, func() { mat.NewDense[T](mat.WithShape(r, c)) }, "NewDense shape")
	case 2:
		check(r == n, func() { mat.NewDense[T](mat.WithShape(r), mat.WithBacking(back)) }, "NewDense one dimension")
	case 3:
		check(false, func() { mat.NewDense[T](mat.WithShape(1, 1, 1)) }, "NewDense three dimensions")
		check(false, func() { mat.NewDense[T]() }, "NewDense without shape")
	case 4:
		check(r >= 0, func() { mat.CreateInitializedSlice[T](r, 1) }, "CreateInitializedSlice")
		check(r >= 0, func() { mat.CreateIdentityMatrix[T](r) }, "CreateIdentityMatrix")
	case 5:
		check(r >= 0 && c >= 0 && c < r, func() { mat.CreateOneHotVector[T](r, c) }, "CreateOneHotVector")
	case 6:
		check(r >= 0 && c >= 0, func() { mat.InitializeMatrix(r, c, func(i, j int) T { return 1 }) }, "InitializeMatrix")
	case 7:
		if r < 0 || c < 0 {
			return
		}
		m, d := roomy[T](r, c)
		check(n == r*c, func() { m.SetData(float.Make(back...)) }, "SetData")
		if n != r*c {
			hx.Same(m, r, c, d, "matrix after a rejected SetData")
		}
	}
}
