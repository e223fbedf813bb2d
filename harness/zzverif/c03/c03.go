// Package c03: structural operations move every element to exactly its defined place.
package c03

import (
	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func dims() (int, int) {
	n := vrt.Bound(5, 8)
	return vrt.Choose(n), vrt.Choose(n)
}

func posDims(q, d int) (int, int) {
	n := vrt.Bound(q, d)
	return 1 + vrt.Choose(n), 1 + vrt.Choose(n)
}

// Indexing reads and writes exactly the addressed element.
func H_Indexing() { hx.Both(indexing[float32], indexing[float64]) }

func indexing[T float.DType]() {
	r, c := posDims(3, 5)
	m, d := hx.SymM[T](r, c)
	i, j := vrt.Choose(r), vrt.Choose(c)
	vrt.AssertSame(float.ValueOf[T](m.ScalarAt(i, j)), d[i*c+j], "ScalarAt")
	hx.Same(m.At(i, j), 1, 1, []T{d[i*c+j]}, "At")
	v := vrt.F[T]()
	e := hx.Copy(d)
	e[i*c+j] = v
	if vrt.Choose(2) == 0 {
		m.SetScalar(float.Interface(v), i, j)
	} else {
		m.SetAt(mat.Scalar(v), i, j)
	}
	hx.Same(m, r, c, e, "set")
	if r == 1 || c == 1 {
		k := vrt.Choose(r * c)
		vrt.AssertSame(float.ValueOf[T](m.ScalarAt(k)), e[k], "vector ScalarAt")
		hx.Same(m.At(k), 1, 1, []T{e[k]}, "vector At")
		w := vrt.F[T]()
		e[k] = w
		m.SetScalar(float.Interface(w), k)
		hx.Same(m, r, c, e, "vector set")
	}
	if r*c == 1 {
		vrt.AssertSame(float.ValueOf[T](m.Item()), e[0], "Item")
	}
}

// A symbolic index selects the element for every index value at once.
func H_SymbolicIndex() { hx.Both(symIndex[float32], symIndex[float64]) }

func symIndex[T float.DType]() {
	r, c := posDims(3, 4)
	m, d := hx.SymM[T](r, c)
	i, j := vrt.Int(0, r-1), vrt.Int(0, c-1)
	vrt.AssertSame(float.ValueOf[T](m.ScalarAt(i, j)), d[i*c+j], "ScalarAt")
	v := vrt.F[T]()
	m.SetScalar(float.Interface(v), i, j)
	got := hx.D[T](m)
	for k := range got {
		if k == i*c+j {
			vrt.AssertSame(got[k], v, "set element")
		} else {
			vrt.AssertSame(got[k], d[k], "other element")
		}
	}
}

func H_RowsColumns() { hx.Both(rowsCols[float32], rowsCols[float64]) }

func rowsCols[T float.DType]() {
	r, c := posDims(4, 7)
	m, d := hx.SymM[T](r, c)
	for i := 0; i < r; i++ {
		hx.Same(m.ExtractRow(i), 1, c, d[i*c:i*c+c], "ExtractRow")
	}
	for j := 0; j < c; j++ {
		col := make([]T, r)
		for i := range col {
			col[i] = d[i*c+j]
		}
		hx.Same(m.ExtractColumn(j), r, 1, col, "ExtractColumn")
	}
	i, j := vrt.Choose(r), vrt.Choose(r)
	e := hx.Copy(d)
	for k := 0; k < c; k++ {
		e[i*c+k], e[j*c+k] = d[j*c+k], d[i*c+k]
	}
	vrt.Assert(m.SwapInPlace(i, j) == m, "SwapInPlace returns the receiver")
	hx.Same(m, r, c, e, "SwapInPlace")
}

func H_Slice() { hx.Both(slice[float32], slice[float64]) }

func slice[T float.DType]() {
	r, c := posDims(3, 5)
	m, d := hx.SymM[T](r, c)
	r0, c0 := vrt.Choose(r), vrt.Choose(c)
	r1, c1 := r0+vrt.Choose(r-r0+1), c0+vrt.Choose(c-c0+1)
	want := []T{}
	for i := r0; i < r1; i++ {
		for j := c0; j < c1; j++ {
			want = append(want, d[i*c+j])
		}
	}
	hx.Same(m.Slice(r0, c0, r1, c1), r1-r0, c1-c0, want, "Slice")
	if (r1-r0)*(c1-c0) > 0 {
		hx.Same(ag.Slice(m, r0, c0, r1, c1).Value(), r1-r0, c1-c0, want, "ag.Slice")
	}
	hx.Same(m, r, c, d, "receiver")
}

func H_Reshape() { hx.Both(reshape[float32], reshape[float64]) }

func reshape[T float.DType]() {
	r, c := dims()
	m, d := hx.SymM[T](r, c)
	n := r * c
	for q := 0; q <= n; q++ {
		if q > 0 && n%q == 0 {
			hx.Same(m.Reshape(q, n/q), q, n/q, d, "Reshape")
			hx.Same(ag.Reshape(m, q, n/q).Value(), q, n/q, d, "ag.Reshape")
			k := m.Clone()
			vrt.Assert(k.ReshapeInPlace(q, n/q) == k, "ReshapeInPlace returns the receiver")
			hx.Same(k, q, n/q, d, "ReshapeInPlace")
		}
	}
	hx.Same(m.Flatten(), 1, n, d, "Flatten")
	hx.Same(ag.Flatten(m).Value(), 1, n, d, "ag.Flatten")
	hx.Same(m.Clone(), r, c, d, "Clone")
	k := m.ZerosLike()
	hx.Same(k, r, c, make([]T, n), "ZerosLike")
	k.Copy(m)
	hx.Same(k, r, c, d, "Copy")
	k.Zeros()
	hx.Same(k, r, c, make([]T, n), "Zeros")
	k.SetData(float.Make(hx.Copy(d)...))
	hx.Same(k, r, c, d, "SetData")
	vrt.Assert(k.FlattenInPlace() == k, "FlattenInPlace returns the receiver")
	hx.Same(k, 1, n, d, "FlattenInPlace")
	one := make([]T, n)
	for i := range one {
		one[i] = 1
	}
	hx.Same(m.OnesLike(), r, c, one, "OnesLike")
	hx.Same(m, r, c, d, "receiver")
}

func H_Transpose() { hx.Both(transpose[float32], transpose[float64]) }

func transpose[T float.DType]() {
	n := vrt.Bound(9, 14)
	r, c := vrt.Choose(n), vrt.Choose(n)
	m, d := hx.SymM[T](r, c)
	want := make([]T, 0, r*c)
	for j := 0; j < c; j++ {
		for i := 0; i < r; i++ {
			want = append(want, d[i*c+j])
		}
	}
	hx.Same(m.T(), c, r, want, "T")
	if r*c > 0 && r*c < 20 {
		hx.Same(ag.T(m).Value(), c, r, want, "ag.T")
	}
	hx.Same(m, r, c, d, "receiver")
	vrt.Assert(m.TransposeInPlace() == m, "TransposeInPlace returns the receiver")
	hx.Same(m, c, r, want, "TransposeInPlace")
}

func H_ResizePad() { hx.Both(resizePad[float32], resizePad[float64]) }

func resizePad[T float.DType]() {
	r, c := dims()
	m, d := hx.SymM[T](r, c)
	k := vrt.Choose(4)
	hx.EqF(m.PadRows(k), r+k, c, func(i, j int) T {
		if i < r {
			return d[i*c+j]
		}
		return 0
	}, "PadRows")
	hx.EqF(m.PadColumns(k), r, c+k, func(i, j int) T {
		if j < c {
			return d[i*c+j]
		}
		return 0
	}, "PadColumns")
	if r == 1 || c == 1 {
		for n := 0; n < r*c+3; n++ {
			hx.EqF(m.ResizeVector(n), n, 1, func(i, _ int) T {
				if i < r*c {
					return d[i]
				}
				return 0
			}, "ResizeVector")
		}
	}
	if r == c {
		hx.EqF(m.Augment(), r, 2*r, func(i, j int) T {
			switch {
			case j < r:
				return d[i*c+j]
			case j == r+i:
				return 1
			}
			return 0
		}, "Augment")
	}
	hx.Same(m, r, c, d, "receiver")
}

func vec[T float.DType](n int) (mat.Matrix, []T) {
	if vrt.Choose(2) == 0 {
		return hx.SymM[T](n, 1)
	}
	return hx.SymM[T](1, n)
}

func H_ConcatSplit() { hx.Both(concatSplit[float32], concatSplit[float64]) }

func concatSplit[T float.DType]() {
	k := 1 + vrt.Choose(vrt.Bound(3, 4))
	var vs []mat.Matrix
	var ts []mat.Tensor
	var all []T
	var sizes []int
	for i := 0; i < k; i++ {
		n := 1 + vrt.Choose(vrt.Bound(2, 3))
		v, d := vec[T](n)
		vs, ts, all, sizes = append(vs, v), append(ts, v), append(all, d...), append(sizes, n)
	}
	n := len(all)
	hx.Same(mat.ConcatV[T](vs...), n, 1, all, "ConcatV")
	hx.Same(vs[0].NewConcatV(vs...), n, 1, all, "NewConcatV")
	hx.Same(ag.Concat(ts...).Value(), n, 1, all, "ag.Concat")
	w := mat.ConcatV[T](vs...)
	off := 0
	for i, p := range w.SplitV(sizes...) {
		hx.Same(p, sizes[i], 1, all[off:off+sizes[i]], "SplitV")
		off += sizes[i]
	}
	for i := 0; i <= n; i++ {
		for j := i; j <= n; j++ {
			hx.Same(w.Range(i, j), j-i, 1, all[i:j], "Range")
		}
	}
	for i, x := range ag.SeparateVec(w) {
		hx.Same(x.Value(), 1, 1, all[i:i+1], "SeparateVec")
	}
	for q := 1; q <= n; q++ {
		if n%q == 0 {
			ps := ag.SplitVec(w, q)
			vrt.Assert(len(ps) == q, "SplitVec chunks")
			for i, p := range ps {
				hx.Same(p.Value(), n/q, 1, all[i*(n/q):(i+1)*(n/q)], "SplitVec")
			}
		}
	}
}

func H_StackAppend() { hx.Both(stackAppend[float32], stackAppend[float64]) }

func stackAppend[T float.DType]() {
	k := vrt.Choose(vrt.Bound(4, 5))
	n := 1 + vrt.Choose(vrt.Bound(3, 5))
	var vs []mat.Matrix
	var ts []mat.Tensor
	var all []T
	for i := 0; i < k; i++ {
		v, d := vec[T](n)
		vs, ts, all = append(vs, v), append(ts, v), append(all, d...)
	}
	if k > 0 {
		hx.Same(mat.Stack[T](vs...), k, n, all, "Stack")
		hx.Same(vs[0].NewStack(vs...), k, n, all, "NewStack")
		hx.Same(ag.Stack(ts...).Value(), k, n, all, "ag.Stack")
	}
	r := 1 + vrt.Choose(2)
	m, d := hx.SymM[T](r, n)
	want := append(hx.Copy(d), all...)
	hx.Same(m.AppendRows(vs...), r+k, n, want, "AppendRows")
	if k > 0 {
		hx.Same(ag.AppendRows(m, ts...).Value(), r+k, n, want, "ag.AppendRows")
	}
	hx.Same(m, r, n, d, "receiver")
}

func H_Views() { hx.Both(views[float32], views[float64]) }

func views[T float.DType]() {
	r, c := posDims(3, 4)
	m, d := hx.SymM[T](r, c)
	rows, cols := ag.RowViews(m), ag.ColViews(m)
	vrt.Assert(len(rows) == r && len(cols) == c, "number of views")
	for i := range rows {
		hx.Same(rows[i].Value(), 1, c, d[i*c:i*c+c], "RowViews")
		hx.Same(ag.RowView(m, i).Value(), 1, c, d[i*c:i*c+c], "RowView")
	}
	for j := range cols {
		col := make([]T, r)
		for i := range col {
			col[i] = d[i*c+j]
		}
		w := cols[j].Value()
		hx.SameD(hx.V[T](w), col, "ColViews")
		hx.SameD(hx.V[T](ag.ColView(m, j).Value()), col, "ColView")
	}
	for i, xs := range ag.SeparateMatrix(m) {
		vrt.Assert(len(xs) == c, "SeparateMatrix columns")
		for j, x := range xs {
			hx.Same(x.Value(), 1, 1, d[i*c+j:i*c+j+1], "SeparateMatrix")
		}
	}
	hx.Same(ag.At(m, r-1, c-1).Value(), 1, 1, d[r*c-1:], "ag.At")
	hx.Same(m, r, c, d, "operand")
}

// Rolling moves element k to k+i modulo the size.
func H_Rotate() { hx.Both(rotate[float32], rotate[float64]) }

func rotate[T float.DType]() {
	n := 1 + vrt.Choose(vrt.Bound(4, 6))
	r, c := n, 1
	if vrt.Choose(2) == 1 {
		r, c = 1, n
	}
	m, d := hx.SymM[T](r, c)
	i := vrt.Choose(n)
	w := make([]T, n)
	for k := range d {
		w[(k+i)%n] = d[k]
	}
	got := ag.RotateR(m, i).Value()
	vrt.Assert(got.Size() == n, "RotateR size")
	hx.SameD(hx.V[T](got), w, "RotateR")
	hx.Same(m, r, c, d, "operand")
}

func H_Pad() {
	n := vrt.Choose(4)
	xs := make([]mat.Tensor, n)
	var d []float64
	for i := range xs {
		v := vrt.F[float64]()
		d = append(d, v)
		xs[i] = mat.Scalar(v)
	}
	k := n + vrt.Choose(3)
	ys := ag.Pad(xs, k, func(i int) mat.Tensor { return mat.Scalar(float64(i) + 100) })
	vrt.Assert(len(ys) == k, "padded length")
	for i, y := range ys {
		if i < n {
			hx.Same(y, 1, 1, d[i:i+1], "Pad prefix")
		} else {
			hx.Same(y, 1, 1, []float64{float64(i) + 100}, "Pad filler")
		}
	}
}

func H_Constructors() { hx.Both(ctors[float32], ctors[float64]) }

func ctors[T float.DType]() {
	n := vrt.Choose(vrt.Bound(5, 9))
	v := vrt.F[T]()
	for i, x := range mat.CreateInitializedSlice(n, v) {
		vrt.Assert(i < n, "length")
		vrt.AssertSame(x, v, "CreateInitializedSlice")
	}
	for k := 0; k < n; k++ {
		oh := mat.CreateOneHotVector[T](n, k)
		vrt.Assert(len(oh) == n, "one-hot length")
		for i, x := range oh {
			w := T(0)
			if i == k {
				w = 1
			}
			vrt.AssertSame(x, w, "CreateOneHotVector")
		}
	}
	id := mat.CreateIdentityMatrix[T](n)
	vrt.Assert(len(id) == n*n, "identity size")
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			w := T(0)
			if i == j {
				w = 1
			}
			vrt.AssertSame(id[i*n+j], w, "CreateIdentityMatrix")
		}
	}
	r, c := n, vrt.Choose(4)
	f := mat.InitializeMatrix(r, c, func(i, j int) T { return v*T(i) + T(j) })
	vrt.Assert(len(f) == r*c, "function matrix size")
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			vrt.AssertEq(f[i*c+j], v*T(i)+T(j), "InitializeMatrix")
		}
	}
	d := hx.Floats[T](r * c)
	hx.Same(mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(d)), r, c, d, "NewDense")
	if r*c > 0 {
		hx.Same(mat.NewDense[T](mat.WithBacking(d)), r*c, 1, d, "NewDense vector")
	}
	hx.Same(mat.NewDense[T](mat.WithShape(r, c)), r, c, make([]T, r*c), "NewDense zero")
	hx.Same(mat.NewDense[T](mat.WithShape(r)), r, 1, make([]T, r), "NewDense zero vector")
	hx.Same(mat.Scalar(v), 1, 1, []T{v}, "Scalar")
	hx.Same(mat.Scalar(v).NewMatrix(mat.WithShape(r, c), mat.WithBacking(d)), r, c, d, "NewMatrix")
	hx.Same(mat.Scalar(v).NewScalar(2), 1, 1, []T{2}, "NewScalar")
	rg := vrt.Choose(2) == 1
	vrt.Assert(mat.NewDense[T](mat.WithShape(r, c), mat.WithGrad(rg)).RequiresGrad() == rg, "WithGrad")
}

// Predicates and equality say exactly what they are defined to say.
func H_Predicates() { hx.Both(predicates[float32], predicates[float64]) }

func predicates[T float.DType]() {
	r, c := posDims(2, 3)
	m, d := hx.SymM[T](r, c)
	vrt.Assert(mat.IsVector(m) == (r == 1 || c == 1), "IsVector")
	vrt.Assert(mat.IsScalar(m) == (r*c == 1), "IsScalar")
	r2, c2 := posDims(2, 3)
	k, e := hx.SymM[T](r2, c2)
	same := r == r2 && c == c2
	vrt.Assert(mat.SameDims(m, k) == same, "SameDims")
	eq, within := same, same
	del := vrt.Pos[float64]()
	if same {
		for i := range d {
			eq = eq && d[i] == e[i]
			df := float64(d[i]) - float64(e[i])
			within = within && -del <= df && df <= del
		}
	}
	if vrt.Choose(2) == 0 {
		vrt.Assert(mat.Equal(m, k) == eq, "Equal")
	} else {
		vrt.Assert(mat.InDelta(m, k, del) == within, "InDelta")
	}
}

func H_NonZero() { hx.Both(nonZero[float32], nonZero[float64]) }

func nonZero[T float.DType]() {
	r, c := posDims(2, 3)
	m, d := hx.SymM[T](r, c)
	seen := make([]int, r*c)
	next := -1
	m.DoNonZero(func(i, j int, v float64) {
		k := i*c + j
		vrt.Assert(k > next, "order")
		next = k
		seen[k]++
		vrt.AssertSame(T(v), d[k], "DoNonZero value")
	})
	for k := range d {
		vrt.Assert((seen[k] == 1) == (d[k] != 0), "DoNonZero visits exactly the non-zero elements")
	}
	if r == 1 || c == 1 {
		s2 := make([]int, r*c)
		m.DoVecNonZero(func(i int, v float64) {
			s2[i]++
			vrt.AssertSame(T(v), d[i], "DoVecNonZero value")
		})
		for k := range d {
			vrt.Assert((s2[k] == 1) == (d[k] != 0), "DoVecNonZero visits exactly the non-zero elements")
		}
	}
}
