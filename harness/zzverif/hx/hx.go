// Package hx has helpers shared by the verification harnesses.
package hx

import (
	"fmt"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// Pick returns one of the alternatives (all are explored).
func Pick[A any](alts ...A) A { return alts[vrt.Choose(len(alts))] }

// Both runs f for one of the two element types (both are explored).
func Both(f32, f64 func()) {
	if vrt.Choose(2) == 0 {
		f64()
	} else {
		f32()
	}
}

// few, when set, leaves only some of the values symbolic: those given out
// after the first skip ones, and no more than left.
var few struct {
	on, zero       bool
	skip, left, at int
}

// Few makes Floats give constants, but for n values that follow the first skip.
// It serves sizes and lengths at which all-symbolic values are out of reach. A
// harness that calls it defers All.
func Few(skip, n int) {
	few.on, few.zero, few.skip, few.left, few.at = true, false, skip, n, 0
}

// FewElseZero is Few with zero for the constants.
func FewElseZero(skip, n int) {
	Few(skip, n)
	few.zero = true
}

// All ends Few.
func All() { few.on = false }

func next[T float.DType]() T {
	if !few.on {
		return vrt.F[T]()
	}
	few.at++
	if few.at > few.skip && few.left > 0 {
		few.left--
		return vrt.F[T]()
	}
	if few.zero {
		return 0
	}
	return T((few.at*11)%29-14) / 16
}

// Floats gives n symbolic values.
func Floats[T float.DType](n int) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = next[T]()
	}
	return out
}

func Copy[T float.DType](xs []T) []T { return append([]T{}, xs...) }

// M is a matrix over a fresh copy of data.
func M[T float.DType](r, c int, data []T) mat.Matrix {
	return mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(Copy(data)))
}

// SymM is a matrix with symbolic elements; the elements are returned too.
func SymM[T float.DType](r, c int) (mat.Matrix, []T) {
	d := Floats[T](r * c)
	return M(r, c, d), d
}

// D returns the elements of a matrix in its own precision.
func D[T float.DType](m mat.Tensor) []T {
	return float.SliceValueOf[T](m.(mat.Matrix).Data())
}

// V returns the elements of any tensor.
func V[T float.DType](m mat.Tensor) []T {
	return float.SliceValueOf[T](m.Data())
}

func Shape(m mat.Tensor, r, c int, msg string) {
	s := m.Shape()
	vrt.Assert(len(s) == 2 && s[0] == r && s[1] == c, msg+": shape")
	vrt.Assert(m.Size() == r*c, msg+": size")
}

// Is64 tells the element type.
func Is64[T float.DType]() bool {
	var z T
	_, ok := any(z).(float64)
	return ok
}

// EqD asserts elements equal to the expected ones.
func EqD[T float.DType](got, want []T, msg string) {
	vrt.Assert(len(got) == len(want), msg+": length")
	for i := range want {
		vrt.AssertEq(got[i], want[i], fmt.Sprintf("%s[%d]", msg, i))
	}
}

// SameD asserts elements bit-identical to the expected ones.
func SameD[T float.DType](got, want []T, msg string) {
	vrt.Assert(len(got) == len(want), msg+": length")
	for i := range want {
		vrt.AssertSame(got[i], want[i], fmt.Sprintf("%s[%d]", msg, i))
	}
}

// Eq asserts that m is the r x c matrix with the given elements and element type.
func Eq[T float.DType](m mat.Tensor, r, c int, want []T, msg string) {
	Shape(m, r, c, msg)
	_, ok := m.Value().(*mat.Dense[T])
	vrt.Assert(ok, msg+": element type")
	EqD(V[T](m), want, msg)
}

// EqF is Eq with an element function.
func EqF[T float.DType](m mat.Tensor, r, c int, want func(i, j int) T, msg string) {
	w := make([]T, 0, r*c)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			w = append(w, want(i, j))
		}
	}
	Eq(m, r, c, w, msg)
}

// Same asserts that m is the r x c matrix with bit-identical elements.
func Same[T float.DType](m mat.Tensor, r, c int, want []T, msg string) {
	Shape(m, r, c, msg)
	SameD(V[T](m), want, msg)
}

// Dims is one of the shapes, quick or thorough.
func Dims(quick, deep [][2]int) (int, int) {
	s := quick
	if vrt.Thorough() {
		s = append(append([][2]int{}, quick...), deep...)
	}
	k := s[vrt.Choose(len(s))]
	return k[0], k[1]
}

// AnyShape is a generally useful family of shapes.
func AnyShape() (int, int) {
	return Dims(
		[][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {0, 0}, {9, 1}, {1, 17}, {3, 3}},
		[][2]int{{0, 2}, {2, 0}, {1, 8}, {16, 1}, {4, 5}, {5, 7}, {1, 33}, {34, 1}, {6, 6}, {2, 20}})
}

// SmallShape is a family of shapes for expensive operations.
func SmallShape() (int, int) {
	return Dims(
		[][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}},
		[][2]int{{3, 2}, {1, 5}, {4, 1}, {3, 3}, {3, 4}})
}

// VecShape is a row or column vector shape.
func VecShape(quick, deep int) (int, int) {
	n := vrt.Bound(quick, deep)
	k := 1 + vrt.Choose(n)
	if k > 1 && vrt.Choose(2) == 1 {
		return 1, k
	}
	return k, 1
}

// Repeat is a way in which n inputs can be the same tensors: entry i is the
// position where the tensor of position i occurs first.
func Repeat(n int) []int {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if n < 2 {
		return idx
	}
	ways := 2
	if n > 2 {
		ways = 4
	}
	switch vrt.Choose(ways) {
	case 1: // one tensor everywhere
		for i := range idx {
			idx[i] = 0
		}
	case 2: // the first one twice in a row
		idx[1] = 0
	case 3: // the first one again at the end
		idx[n-1] = 0
	}
	return idx
}
