// Package c02: matrix operations neither mutate nor alias their operands.
package c02

import (
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

type op struct {
	name string
	// vec, same, square: operand restrictions; pos: positive elements.
	vec, square, pos bool
	f                func(a, b mat.Matrix) []mat.Matrix
}

func one(f func(a, b mat.Matrix) mat.Matrix) func(a, b mat.Matrix) []mat.Matrix {
	return func(a, b mat.Matrix) []mat.Matrix { return []mat.Matrix{f(a, b)} }
}

func ops[T float.DType]() []op {
	return []op{
		{name: "ZerosLike", f: one(func(a, b mat.Matrix) mat.Matrix { return a.ZerosLike() })},
		{name: "OnesLike", f: one(func(a, b mat.Matrix) mat.Matrix { return a.OnesLike() })},
		{name: "ExtractRow", f: one(func(a, b mat.Matrix) mat.Matrix { return a.ExtractRow(a.Shape()[0] - 1) })},
		{name: "ExtractColumn", f: one(func(a, b mat.Matrix) mat.Matrix { return a.ExtractColumn(a.Shape()[1] - 1) })},
		{name: "Slice", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Slice(0, 0, a.Shape()[0], a.Shape()[1]) })},
		{name: "SliceColumn", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Slice(0, 0, a.Shape()[0], 1) })},
		{name: "SliceRow", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Slice(0, 0, 1, a.Shape()[1]) })},
		{name: "Reshape", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Reshape(a.Shape()...) })},
		{name: "Reshape1", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Reshape(a.Size(), 1) })},
		{name: "Flatten", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Flatten() })},
		{name: "ResizeVector=", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.ResizeVector(a.Size()) })},
		{name: "ResizeVector<", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.ResizeVector(a.Size() - 1) })},
		{name: "ResizeVector>", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.ResizeVector(a.Size() + 2) })},
		{name: "T", f: one(func(a, b mat.Matrix) mat.Matrix { return a.T() })},
		{name: "Add", f: one(mat.Matrix.Add)},
		{name: "AddScalar", f: one(func(a, b mat.Matrix) mat.Matrix { return a.AddScalar(0) })},
		{name: "Sub", f: one(mat.Matrix.Sub)},
		{name: "SubScalar", f: one(func(a, b mat.Matrix) mat.Matrix { return a.SubScalar(0) })},
		{name: "Prod", f: one(mat.Matrix.Prod)},
		{name: "ProdScalar", f: one(func(a, b mat.Matrix) mat.Matrix { return a.ProdScalar(1) })},
		{name: "ProdScalar0", f: one(func(a, b mat.Matrix) mat.Matrix { return a.ProdScalar(0) })},
		{name: "Div", pos: true, f: one(mat.Matrix.Div)},
		{name: "Mul", square: true, f: one(mat.Matrix.Mul)},
		{name: "MulVec", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Mul(b.T().ExtractColumn(0)) })},
		{name: "MulT", f: one(func(a, b mat.Matrix) mat.Matrix { return a.MulT(b.ExtractColumn(0)) })},
		{name: "DotUnitary", f: one(mat.Matrix.DotUnitary)},
		{name: "Maximum", f: one(mat.Matrix.Maximum)},
		{name: "Minimum", f: one(mat.Matrix.Minimum)},
		{name: "Abs", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Abs() })},
		{name: "Pow", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Pow(1) })},
		{name: "Sqrt", pos: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Sqrt() })},
		{name: "Log", pos: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Log() })},
		{name: "Exp", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Exp() })},
		{name: "Sigmoid", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Sigmoid() })},
		{name: "Sum", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Sum() })},
		{name: "Max", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Max() })},
		{name: "Min", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Min() })},
		{name: "Softmax", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Softmax() })},
		{name: "CumSum", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.CumSum() })},
		{name: "Range", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Range(0, a.Size()) })},
		{name: "SplitV1", vec: true, f: func(a, b mat.Matrix) []mat.Matrix { return a.SplitV(a.Size()) }},
		{name: "SplitV", vec: true, f: func(a, b mat.Matrix) []mat.Matrix { return a.SplitV(1, a.Size()-1) }},
		{name: "Augment", square: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Augment() })},
		{name: "PadRows0", f: one(func(a, b mat.Matrix) mat.Matrix { return a.PadRows(0) })},
		{name: "PadRows", f: one(func(a, b mat.Matrix) mat.Matrix { return a.PadRows(1) })},
		{name: "PadColumns0", f: one(func(a, b mat.Matrix) mat.Matrix { return a.PadColumns(0) })},
		{name: "PadColumns", f: one(func(a, b mat.Matrix) mat.Matrix { return a.PadColumns(1) })},
		{name: "AppendRows0", f: one(func(a, b mat.Matrix) mat.Matrix { return a.AppendRows() })},
		{name: "AppendRows", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Flatten().AppendRows(b, b) })},
		{name: "Norm", vec: true, pos: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Norm(2) })},
		{name: "Normalize2", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.Normalize2() })},
		{name: "Apply", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Apply(func(r, c int, v float64) float64 { return v }) })},
		{name: "ApplyWithAlpha", f: one(func(a, b mat.Matrix) mat.Matrix {
			return a.ApplyWithAlpha(func(r, c int, v float64, al ...float64) float64 { return v * al[0] }, 1)
		})},
		{name: "Clone", f: one(func(a, b mat.Matrix) mat.Matrix { return a.Clone() })},
		{name: "NewConcatV", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.NewConcatV(a, b) })},
		{name: "NewConcatV1", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.NewConcatV(a) })},
		{name: "NewStack", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.NewStack(a, b) })},
		{name: "NewStack1", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return a.NewStack(a) })},
		{name: "ConcatV", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return mat.ConcatV[T](a, b) })},
		{name: "Stack", vec: true, f: one(func(a, b mat.Matrix) mat.Matrix { return mat.Stack[T](a, b) })},
		{name: "At", f: one(func(a, b mat.Matrix) mat.Matrix { return a.At(0, 0).(mat.Matrix) })},
		{name: "NewMatrix(shape)", f: one(func(a, b mat.Matrix) mat.Matrix { return a.NewMatrix(mat.WithShape(a.Shape()...)) })},
		{name: "Copy", f: one(func(a, b mat.Matrix) mat.Matrix { m := b.ZerosLike(); m.Copy(a); return m })},
		{name: "SetData", f: one(func(a, b mat.Matrix) mat.Matrix { m := b.ZerosLike(); m.SetData(a.Data()); return m })},
		{name: "AddInPlace", f: one(func(a, b mat.Matrix) mat.Matrix { return a.ZerosLike().AddInPlace(b) })},
		{name: "ProdMatrixScalarInPlace", f: one(func(a, b mat.Matrix) mat.Matrix { return a.ZerosLike().ProdMatrixScalarInPlace(b, 1) })},
		{name: "ApplyInPlace", f: one(func(a, b mat.Matrix) mat.Matrix {
			return a.ZerosLike().ApplyInPlace(func(r, c int, v float64) float64 { return v }, b)
		})},
	}
}

// smash changes every element and the shape of a matrix in place.
func smash[T float.DType](m mat.Matrix, how int) {
	s := m.Shape()
	r, c := s[0], s[1]
	switch how {
	case 0:
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				m.SetScalar(float.Interface(vrt.F[T]()), i, j)
			}
		}
		m.TransposeInPlace()
	case 1:
		m.Zeros()
		m.ReshapeInPlace(m.Size(), 1)
	case 2:
		m.AddScalarInPlace(1)
		m.FlattenInPlace()
	case 3:
		m.TransposeInPlace()
		m.ProdScalarInPlace(2)
	}
}

func H_Independence() { hx.Both(independence[float32], independence[float64]) }

func independence[T float.DType]() {
	all := ops[T]()
	o := all[vrt.Choose(len(all))]
	var r, c int
	switch {
	case o.square:
		r = 1 + vrt.Choose(vrt.Bound(2, 3))
		c = r
	case o.vec:
		r, c = hx.Dims([][2]int{{1, 3}, {3, 1}, {1, 1}}, [][2]int{{1, 8}, {9, 1}})
	default:
		r, c = hx.Dims([][2]int{{2, 3}, {1, 2}, {2, 1}, {1, 1}}, [][2]int{{3, 2}, {1, 9}, {8, 1}})
	}
	ad, bd := make([]T, r*c), make([]T, r*c)
	for i := range ad {
		if o.pos {
			ad[i], bd[i] = vrt.Pos[T](), vrt.Pos[T]()
		} else {
			ad[i], bd[i] = vrt.F[T](), vrt.F[T]()
		}
	}
	a, b := hx.M(r, c, ad), hx.M(r, c, bd)
	if vrt.Choose(2) == 1 { // the receiver as argument
		b, bd = a, ad
	}
	outs := o.f(a, b)
	hx.Eq(a, r, c, ad, o.name+": receiver after the call")
	hx.Eq(b, r, c, bd, o.name+": argument after the call")
	type snap struct {
		r, c int
		d    []T
	}
	var snaps []snap
	for _, x := range outs {
		s := x.Shape()
		snaps = append(snaps, snap{s[0], s[1], hx.Copy(hx.D[T](x))})
	}
	how := vrt.Choose(4)
	if vrt.Choose(2) == 0 {
		for i, x := range outs {
			smash[T](x, how)
			for j := i + 1; j < len(outs); j++ {
				hx.Eq(outs[j], snaps[j].r, snaps[j].c, snaps[j].d, o.name+": sibling result after the result changed")
			}
		}
		hx.Eq(a, r, c, ad, o.name+": receiver after the result changed")
		hx.Eq(b, r, c, bd, o.name+": argument after the result changed")
	} else {
		smash[T](a, how)
		smash[T](b, how)
		for i, x := range outs {
			hx.Eq(x, snaps[i].r, snaps[i].c, snaps[i].d, o.name+": result after an operand changed")
		}
	}
}

// The shape given to a constructor stays the caller's.
func H_ConstructorShape() { hx.Both(ctorShape[float32], ctorShape[float64]) }

func ctorShape[T float.DType]() {
	shape := []int{2, 3}
	var m mat.Matrix
	if vrt.Choose(2) == 0 {
		m = mat.NewDense[T](mat.WithShape(shape...))
	} else {
		m = mat.NewDense[T](mat.WithShape(shape...), mat.WithBacking(hx.Floats[T](6)))
	}
	d := hx.Copy(hx.D[T](m))
	if vrt.Choose(2) == 0 {
		m.TransposeInPlace()
		vrt.Assert(shape[0] == 2 && shape[1] == 3, "transposing leaves the caller's shape alone")
	} else {
		shape[0], shape[1] = 1, 6
		hx.Eq(m, 2, 3, d, "matrix after the caller changed its shape slice")
	}
}

// Accumulated gradients are independent of the matrix that was accumulated.
func H_AccGrad() { hx.Both(accGrad[float32], accGrad[float64]) }

func accGrad[T float.DType]() {
	r, c := hx.Dims([][2]int{{2, 3}, {3, 1}, {1, 2}}, [][2]int{{1, 1}, {4, 4}})
	n := r * c
	x := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Floats[T](n)), mat.WithGrad(true))
	xd := hx.Copy(hx.D[T](x))
	g1, d1 := hx.SymM[T](r, c)
	g2, d2 := hx.SymM[T](r, c)
	x.AccGrad(g1)
	hx.Eq(x.Grad(), r, c, d1, "gradient after one accumulation")
	smash[T](g1, vrt.Choose(4))
	hx.Eq(x.Grad(), r, c, d1, "gradient after its source changed")
	x.AccGrad(g2)
	sum := make([]T, n)
	for i := range sum {
		sum[i] = d1[i] + d2[i]
	}
	hx.Eq(x.Grad(), r, c, sum, "gradient after two accumulations")
	hx.Eq(g2, r, c, d2, "accumulated matrix")
	hx.Eq(x, r, c, xd, "value")
}
