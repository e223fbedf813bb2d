// Package c05: the assembly kernels, run from their machine code, against
// scalar loops.
package c05

import (
	"math"

	"github.com/nlpodyssey/spago/mat/internal/f32/asm32"
	"github.com/nlpodyssey/spago/mat/internal/f64/asm64"
	"github.com/nlpodyssey/spago/mat/internal/matfuncs"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// input gives a slice of n symbolic elements at the given alignment.
func input[T vrt.Float](n, off int) []T {
	x := vrt.Buf[T](n, off)
	for i := range x {
		x[i] = vrt.F[T]()
	}
	return x
}

func clone[T vrt.Float](x []T) []T { return append([]T{}, x...) }

// length covers every unrolled block with every tail.
func length(quick, deep int) int { return vrt.Choose(vrt.Bound(quick, deep) + 1) }

// offsets gives the alignments of three slices.
func offsets() (int, int, int) {
	cs := [][3]int{{0, 0, 0}, {1, 2, 3}, {2, 1, 0}, {3, 0, 1}, {0, 1, 0}, {2, 2, 2}, {5, 7, 6}, {4, 4, 0}}
	c := cs[vrt.Choose(vrt.Bound(3, len(cs)))]
	return c[0], c[1], c[2]
}

func same[T vrt.Float](got, want []T, msg string) {
	for i := range want {
		vrt.AssertSame(got[i], want[i], msg)
	}
}

func equal[T vrt.Float](got, want []T, msg string) {
	for i := range want {
		vrt.AssertEq(got[i], want[i], msg)
	}
}

type bin[T vrt.Float] struct {
	name string
	f    func(x1, x2, y []T)
	op   func(a, b T) T
}

func add[T vrt.Float](a, b T) T { return a + b }
func sub[T vrt.Float](a, b T) T { return a - b }
func div[T vrt.Float](a, b T) T { return a / b }
func mul[T vrt.Float](a, b T) T { return a * b }

func binary[T vrt.Float](ks []bin[T], quick, deep int) {
	k := ks[vrt.Choose(len(ks))]
	n := length(quick, deep)
	o1, o2, o3 := offsets()
	x1 := input[T](n, o1)
	mode := vrt.Choose(5)
	extra := 0
	if mode == 4 {
		extra = 3
	}
	x2, y := x1, x1
	if mode != 3 {
		x2 = input[T](n+extra, o2)
	}
	switch mode {
	case 0, 4:
		y = input[T](n+2*extra, o3)
	case 1, 3:
		y = x1
	case 2:
		y = x2
	}
	a, b, want := clone(x1), clone(x2), clone(y)
	for i := range a {
		want[i] = k.op(a[i], b[i])
	}
	k.f(x1, x2, y)
	same(y, want, k.name)
	if mode == 0 || mode == 4 {
		same(x1, a, k.name+": first operand is unchanged")
		same(x2, b, k.name+": second operand is unchanged")
	}
}

// H_Binary32: Add, Sub, Div; all lengths up to the bound, bit for bit.
//
//vrt:fp
func H_Binary32() {
	binary([]bin[float32]{
		{"AddAVX32", matfuncs.AddAVX32, add[float32]}, {"AddSSE32", matfuncs.AddSSE32, add[float32]},
		{"SubAVX32", matfuncs.SubAVX32, sub[float32]}, {"SubSSE32", matfuncs.SubSSE32, sub[float32]},
		{"DivAVX32", matfuncs.DivAVX32, div[float32]}, {"DivSSE32", matfuncs.DivSSE32, div[float32]},
	}, 140, 270)
}

// H_Binary64: Add, Sub, Div; all lengths up to the bound, bit for bit.
//
//vrt:fp
func H_Binary64() {
	binary([]bin[float64]{
		{"AddAVX64", matfuncs.AddAVX64, add[float64]}, {"AddSSE64", matfuncs.AddSSE64, add[float64]},
		{"SubAVX64", matfuncs.SubAVX64, sub[float64]}, {"SubSSE64", matfuncs.SubSSE64, sub[float64]},
		{"DivAVX64", matfuncs.DivAVX64, div[float64]}, {"DivSSE64", matfuncs.DivSSE64, div[float64]},
	}, 75, 140)
}

type con[T vrt.Float] struct {
	name string
	f    func(c T, x, y []T)
	op   func(a, b T) T
}

func constant[T vrt.Float](ks []con[T], quick, deep int) {
	k := ks[vrt.Choose(len(ks))]
	n := length(quick, deep)
	o1, o2, _ := offsets()
	c := vrt.F[T]()
	x := input[T](n, o1)
	y := x
	switch vrt.Choose(3) {
	case 0:
		y = input[T](n, o2)
	case 1:
		y = input[T](n+3, o2)
	}
	want := clone(y)
	for i := range x {
		want[i] = k.op(x[i], c)
	}
	k.f(c, x, y)
	same(y, want, k.name)
}

// H_Const32: AddConst, MulConst; bit for bit.
//
//vrt:fp
func H_Const32() {
	constant([]con[float32]{
		{"AddConstAVX32", matfuncs.AddConstAVX32, add[float32]}, {"AddConstSSE32", matfuncs.AddConstSSE32, add[float32]},
		{"MulConstAVX32", matfuncs.MulConstAVX32, mul[float32]}, {"MulConstSSE32", matfuncs.MulConstSSE32, mul[float32]},
	}, 140, 270)
}

// H_Const64: AddConst, MulConst; bit for bit.
//
//vrt:fp
func H_Const64() {
	constant([]con[float64]{
		{"AddConstAVX64", matfuncs.AddConstAVX64, add[float64]}, {"AddConstSSE64", matfuncs.AddConstSSE64, add[float64]},
		{"MulConstAVX64", matfuncs.MulConstAVX64, mul[float64]}, {"MulConstSSE64", matfuncs.MulConstSSE64, mul[float64]},
	}, 75, 140)
}

func reduce[T vrt.Float](names []string, dot []func(x, y []T) T, sum []func(x []T) T, quick, deep int) {
	k := vrt.Choose(len(names))
	n := length(quick, deep)
	o1, o2, _ := offsets()
	x := input[T](n, o1)
	if k < len(dot) {
		y := x
		switch vrt.Choose(3) {
		case 0:
			y = input[T](n, o2)
		case 1:
			y = input[T](n+3, o2)
		}
		var want T
		for i := range x {
			want += x[i] * y[i]
		}
		vrt.AssertEq(dot[k](x, y), want, names[k])
		return
	}
	var want T
	for _, v := range x {
		want += v
	}
	vrt.AssertEq(sum[k-len(dot)](x), want, names[k])
}

// H_Reduce32: DotProd and Sum over the reals.
func H_Reduce32() {
	reduce([]string{"DotProdAVX32", "DotProdSSE32", "SumAVX32", "SumSSE32"},
		[]func(x, y []float32) float32{matfuncs.DotProdAVX32, matfuncs.DotProdSSE32},
		[]func(x []float32) float32{matfuncs.SumAVX32, matfuncs.SumSSE32}, 140, 270)
}

// H_Reduce64: DotProd and Sum over the reals.
func H_Reduce64() {
	reduce([]string{"DotProdAVX64", "DotProdSSE64", "SumAVX64", "SumSSE64"},
		[]func(x, y []float64) float64{matfuncs.DotProdAVX64, matfuncs.DotProdSSE64},
		[]func(x []float64) float64{matfuncs.SumAVX64, matfuncs.SumSSE64}, 75, 140)
}

// H_Dispatch: what the dispatcher selects at every CPU level.
func H_Dispatch() {
	vrt.CPU(vrt.Choose(3))
	n := length(9, 40)
	x1, x2 := input[float32](n, 0), input[float32](n, 1)
	d1, d2 := input[float64](n, 0), input[float64](n, 1)
	y, e := vrt.Buf[float32](n, 2), vrt.Buf[float64](n, 1)
	c, dc := vrt.F[float32](), vrt.F[float64]()
	var ws32, wd32 float32
	var ws64, wd64 float64
	for i := range x1 {
		if vrt.Choose(1) == 0 {
			vrt.Assume(x2[i] != 0)
			vrt.Assume(d2[i] != 0)
		}
		ws32 += x1[i]
		wd32 += x1[i] * x2[i]
		ws64 += d1[i]
		wd64 += d1[i] * d2[i]
	}
	chk := func(name string, f32 func(i int) float32, f64 func(i int) float64) {
		for i := range x1 {
			vrt.AssertEq(y[i], f32(i), name+"32")
			vrt.AssertEq(e[i], f64(i), name+"64")
		}
	}
	matfuncs.Add32(x1, x2, y)
	matfuncs.Add64(d1, d2, e)
	chk("Add", func(i int) float32 { return x1[i] + x2[i] }, func(i int) float64 { return d1[i] + d2[i] })
	matfuncs.Sub32(x1, x2, y)
	matfuncs.Sub64(d1, d2, e)
	chk("Sub", func(i int) float32 { return x1[i] - x2[i] }, func(i int) float64 { return d1[i] - d2[i] })
	matfuncs.Div32(x1, x2, y)
	matfuncs.Div64(d1, d2, e)
	chk("Div", func(i int) float32 { return x1[i] / x2[i] }, func(i int) float64 { return d1[i] / d2[i] })
	matfuncs.AddConst32(c, x1, y)
	matfuncs.AddConst64(dc, d1, e)
	chk("AddConst", func(i int) float32 { return x1[i] + c }, func(i int) float64 { return d1[i] + dc })
	matfuncs.MulConst32(c, x1, y)
	matfuncs.MulConst64(dc, d1, e)
	chk("MulConst", func(i int) float32 { return x1[i] * c }, func(i int) float64 { return d1[i] * dc })
	vrt.AssertEq(matfuncs.Sum32(x1), ws32, "Sum32")
	vrt.AssertEq(matfuncs.Sum64(d1), ws64, "Sum64")
	vrt.AssertEq(matfuncs.DotProd32(x1, x2), wd32, "DotProd32")
	vrt.AssertEq(matfuncs.DotProd64(d1, d2), wd64, "DotProd64")
}

// --- asm32 and asm64 ---

func abs64(x float64) float64 {
	if x < 0 {
		return -x
	}
	return x
}

// H_Axpy32: y = alpha*x + y and dst = alpha*x + y.
func H_Axpy32() {
	n := length(40, 140)
	o1, o2, o3 := offsets()
	a := vrt.F[float32]()
	x := input[float32](n, o1)
	y := x
	alias := vrt.Choose(3)
	if alias < 2 {
		y = input[float32](n+alias, o2)
	}
	want := clone(y)
	for i := range x {
		want[i] = a*x[i] + y[i]
	}
	if vrt.Choose(2) == 0 {
		asm32.AxpyUnitary(a, x, y)
		equal(y, want, "AxpyUnitary")
		return
	}
	dst := input[float32](n+2, o3)
	keep := clone(dst)
	switch vrt.Choose(3) {
	case 1:
		dst, keep = x, clone(x)
	case 2:
		dst, keep = y, clone(y)
	}
	asm32.AxpyUnitaryTo(dst, a, x, y)
	for i := range dst {
		w := keep[i]
		if i < n {
			w = want[i]
		}
		vrt.AssertEq(dst[i], w, "AxpyUnitaryTo")
	}
}

// H_Axpy64: y = alpha*x + y and dst = alpha*x + y.
func H_Axpy64() {
	n := length(40, 140)
	o1, o2, o3 := offsets()
	a := vrt.F[float64]()
	x := input[float64](n, o1)
	y := x
	alias := vrt.Choose(3)
	if alias < 2 {
		y = input[float64](n+alias, o2)
	}
	want := clone(y)
	for i := range x {
		want[i] = a*x[i] + y[i]
	}
	if vrt.Choose(2) == 0 {
		asm64.AxpyUnitary(a, x, y)
		equal(y, want, "AxpyUnitary")
		return
	}
	dst := input[float64](n+2, o3)
	keep := clone(dst)
	switch vrt.Choose(3) {
	case 1:
		dst, keep = x, clone(x)
	case 2:
		dst, keep = y, clone(y)
	}
	asm64.AxpyUnitaryTo(dst, a, x, y)
	for i := range dst {
		w := keep[i]
		if i < n {
			w = want[i]
		}
		vrt.AssertEq(dst[i], w, "AxpyUnitaryTo")
	}
}

// strided describes n elements at distance inc from a start index.
type strided struct{ n, inc, start, size int }

func stride(n int) strided {
	incs := []int{1, 2, -1, -2, 3, 5, -3}
	inc := incs[vrt.Choose(vrt.Bound(4, len(incs)))]
	s := strided{n: n, inc: inc}
	if n > 0 {
		a := inc
		if a < 0 {
			a = -a
			s.start = (n - 1) * a
		}
		s.size = (n-1)*a + 1
	}
	// an element before the first one
	if vrt.Choose(2) == 1 {
		s.start++
		s.size++
	}
	return s
}

func (s strided) at(i int) int { return s.start + i*s.inc }

// H_Inc32: the strided kernels of asm32.
func H_Inc32() {
	n := length(9, 17)
	sx, sy := stride(n), stride(n)
	x, y := input[float32](sx.size, 0), input[float32](sy.size, 1)
	a := vrt.F[float32]()
	N, ix, iy, jx, jy := uintptr(n), uintptr(sx.start), uintptr(sy.start), uintptr(sx.inc), uintptr(sy.inc)
	switch vrt.Choose(4) {
	case 0:
		want := clone(y)
		for i := 0; i < n; i++ {
			want[sy.at(i)] += a * x[sx.at(i)]
		}
		asm32.AxpyInc(a, x, y, N, jx, jy, ix, iy)
		equal(y, want, "AxpyInc")
	case 1:
		sd := stride(n)
		d := input[float32](sd.size, 2)
		want := clone(d)
		for i := 0; i < n; i++ {
			want[sd.at(i)] = a*x[sx.at(i)] + y[sy.at(i)]
		}
		asm32.AxpyIncTo(d, uintptr(sd.inc), uintptr(sd.start), a, x, y, N, jx, jy, ix, iy)
		equal(d, want, "AxpyIncTo")
	case 2:
		var want float32
		for i := 0; i < n; i++ {
			want += x[sx.at(i)] * y[sy.at(i)]
		}
		vrt.AssertEq(asm32.DotInc(x, y, N, jx, jy, ix, iy), want, "DotInc")
	case 3:
		var want float64
		for i := 0; i < n; i++ {
			want += float64(x[sx.at(i)]) * float64(y[sy.at(i)])
		}
		vrt.Tol(1e-5)
		vrt.AssertEq(asm32.DdotInc(x, y, N, jx, jy, ix, iy), want, "DdotInc")
	}
}

// H_Inc64: the strided kernels of asm64.
func H_Inc64() {
	n := length(9, 17)
	sx, sy := stride(n), stride(n)
	x, y := input[float64](sx.size, 0), input[float64](sy.size, 1)
	a := vrt.F[float64]()
	N, ix, iy, jx, jy := uintptr(n), uintptr(sx.start), uintptr(sy.start), uintptr(sx.inc), uintptr(sy.inc)
	switch vrt.Choose(3) {
	case 0:
		want := clone(y)
		for i := 0; i < n; i++ {
			want[sy.at(i)] += a * x[sx.at(i)]
		}
		asm64.AxpyInc(a, x, y, N, jx, jy, ix, iy)
		equal(y, want, "AxpyInc")
	case 1:
		sd := stride(n)
		d := input[float64](sd.size, 2)
		want := clone(d)
		for i := 0; i < n; i++ {
			want[sd.at(i)] = a*x[sx.at(i)] + y[sy.at(i)]
		}
		asm64.AxpyIncTo(d, uintptr(sd.inc), uintptr(sd.start), a, x, y, N, jx, jy, ix, iy)
		equal(d, want, "AxpyIncTo")
	case 2:
		var want float64
		for i := 0; i < n; i++ {
			want += x[sx.at(i)] * y[sy.at(i)]
		}
		vrt.AssertEq(asm64.DotInc(x, y, N, jx, jy, ix, iy), want, "DotInc")
	}
}

// H_Scal64: multiplication by a constant, dense and strided.
func H_Scal64() {
	n := length(20, 70)
	o1, o2, _ := offsets()
	a := vrt.F[float64]()
	if vrt.Choose(2) == 0 {
		x := input[float64](n, o1)
		dst := x
		in := clone(x)
		if vrt.Choose(2) == 0 {
			asm64.ScalUnitary(a, x)
		} else {
			if vrt.Choose(2) == 0 {
				dst = input[float64](n+1, o2)
			}
			last := clone(dst)
			asm64.ScalUnitaryTo(dst, a, x)
			if len(dst) > n {
				vrt.AssertEq(dst[n], last[n], "ScalUnitaryTo: elements past the end")
			}
		}
		for i := range in {
			vrt.AssertEq(dst[i], a*in[i], "ScalUnitary")
		}
		return
	}
	inc := 1 + vrt.Choose(3)
	size := 0
	if n > 0 {
		size = (n-1)*inc + 1
	}
	x := input[float64](size, o1)
	if vrt.Choose(2) == 0 {
		want := clone(x)
		for i := 0; i < n; i++ {
			want[i*inc] *= a
		}
		asm64.ScalInc(a, x, uintptr(n), uintptr(inc))
		equal(x, want, "ScalInc")
		return
	}
	incD := 1 + vrt.Choose(3)
	size = 0
	if n > 0 {
		size = (n-1)*incD + 1
	}
	d := input[float64](size, o2)
	want := clone(d)
	for i := 0; i < n; i++ {
		want[i*incD] = a * x[i*inc]
	}
	asm64.ScalIncTo(d, uintptr(incD), a, x, uintptr(n), uintptr(inc))
	equal(d, want, "ScalIncTo")
}

// H_Vector64: element-wise and cumulative kernels of asm64.
func H_Vector64() {
	n := length(20, 70)
	o1, o2, o3 := offsets()
	x := input[float64](n, o1)
	switch vrt.Choose(6) {
	case 0:
		a := vrt.F[float64]()
		in := clone(x)
		asm64.AddConst(a, x)
		for i := range in {
			vrt.AssertEq(x[i], in[i]+a, "AddConst")
		}
	case 1:
		d := input[float64](n, o2)
		in := clone(d)
		asm64.Add(d, x)
		for i := range in {
			vrt.AssertEq(d[i], in[i]+x[i], "Add")
		}
	case 2:
		d := input[float64](n, o2)
		for i := range x {
			vrt.Assume(x[i] != 0)
		}
		in := clone(d)
		asm64.Div(d, x)
		for i := range in {
			vrt.AssertEq(d[i], in[i]/x[i], "Div")
		}
	case 3:
		y := input[float64](n, o2)
		for i := range y {
			vrt.Assume(y[i] != 0)
		}
		d := vrt.Buf[float64](n, o3)
		r := asm64.DivTo(d, x, y)
		vrt.Assert(len(r) == len(d), "DivTo: length")
		for i := range x {
			vrt.AssertEq(d[i], x[i]/y[i], "DivTo")
			vrt.AssertEq(r[i], x[i]/y[i], "DivTo: result")
		}
	case 4:
		d := x
		in := clone(x)
		if vrt.Choose(2) == 0 {
			d = vrt.Buf[float64](n, o2)
		}
		r := asm64.CumSum(d, x)
		vrt.Assert(len(r) == len(d), "CumSum: length")
		var w float64
		for i := range in {
			w += in[i]
			vrt.AssertEq(d[i], w, "CumSum")
			vrt.AssertEq(r[i], w, "CumSum: result")
		}
	case 5:
		vrt.Assume(n <= 20)
		d := x
		in := clone(x)
		if vrt.Choose(2) == 0 {
			d = vrt.Buf[float64](n, o2)
		}
		r := asm64.CumProd(d, x)
		vrt.Assert(len(r) == len(d), "CumProd: length")
		w := 1.0
		for i := range in {
			w *= in[i]
			vrt.AssertEq(d[i], w, "CumProd")
			vrt.AssertEq(r[i], w, "CumProd: result")
		}
	}
}

// H_Sums: dot products and sums of asm32 and asm64.
func H_Sums() {
	n := length(70, 200)
	o1, o2, _ := offsets()
	switch vrt.Choose(5) {
	case 0:
		x, y := input[float32](n, o1), input[float32](n, o2)
		var w float32
		for i := range x {
			w += x[i] * y[i]
		}
		vrt.AssertEq(asm32.DotUnitary(x, y), w, "DotUnitary")
	case 1:
		x, y := input[float32](n, o1), input[float32](n, o2)
		var w float64
		for i := range x {
			w += float64(x[i]) * float64(y[i])
		}
		vrt.Tol(1e-5)
		vrt.AssertEq(asm32.DdotUnitary(x, y), w, "DdotUnitary")
	case 2:
		x := input[float32](n, o1)
		var w float32
		for i := range x {
			w += x[i]
		}
		vrt.AssertEq(asm32.Sum(x), w, "Sum")
	case 3:
		x, y := input[float64](n, o1), input[float64](n, o2)
		var w float64
		for i := range x {
			w += x[i] * y[i]
		}
		vrt.AssertEq(asm64.DotUnitary(x, y), w, "DotUnitary")
	case 4:
		x := input[float64](n, o1)
		var w float64
		for i := range x {
			w += x[i]
		}
		vrt.AssertEq(asm64.Sum(x), w, "Sum")
	}
}

// H_Norms64: norms and distances of asm64.
func H_Norms64() {
	k := vrt.Choose(4)
	o1, o2, _ := offsets()
	switch k {
	case 0:
		x := input[float64](length(20, 40), o1)
		var w float64
		for i := range x {
			w += math.Abs(x[i])
		}
		vrt.AssertEq(asm64.L1Norm(x), w, "L1Norm")
	case 1:
		n := length(12, 20)
		inc := 1 + vrt.Choose(3)
		size := 0
		if n > 0 {
			size = (n-1)*inc + 1
		}
		x := input[float64](size, o1)
		var w float64
		for i := 0; i < n; i++ {
			w += math.Abs(x[i*inc])
		}
		vrt.AssertEq(asm64.L1NormInc(x, n, inc), w, "L1NormInc")
	case 2:
		n := length(9, 12)
		s, t := input[float64](n, o1), input[float64](n, o2)
		var w float64
		for i := range s {
			w += math.Abs(t[i] - s[i])
		}
		vrt.AssertEq(asm64.L1Dist(s, t), w, "L1Dist")
	case 3:
		n := length(5, 7)
		s, t := input[float64](n, o1), input[float64](n, o2)
		var w float64
		for i := range s {
			w = math.Max(w, math.Abs(t[i]-s[i]))
		}
		vrt.AssertEq(asm64.LinfDist(s, t), w, "LinfDist")
	}
}

// vec is a BLAS vector: a negative increment runs from the end.
func vec[T vrt.Float](n int) ([]T, int, func(i int) int) {
	incs := []int{1, 2, -1, -2}
	inc := incs[vrt.Choose(len(incs))]
	a := inc
	if a < 0 {
		a = -a
	}
	size := 0
	if n > 0 {
		size = (n-1)*a + 1
	}
	k := 0
	if inc < 0 {
		k = (n - 1) * a
	}
	return input[T](size, 0), inc, func(i int) int { return k + i*inc }
}

func matrix[T vrt.Float](m, n int) ([]T, int) {
	lda := n + vrt.Choose(2)*3
	size := 0
	if m > 0 && n > 0 {
		size = (m-1)*lda + n
	}
	return input[T](size, 1), lda
}

// H_Ger32: A += alpha x yᵀ.
func H_Ger32() {
	m, n := length(9, 13), length(17, 20)
	x, ix, xi := vec[float32](m)
	y, iy, yi := vec[float32](n)
	a, lda := matrix[float32](m, n)
	al := vrt.F[float32]()
	want := clone(a)
	for i := 0; i < m; i++ {
		for j := 0; j < n; j++ {
			want[i*lda+j] += al * x[xi(i)] * y[yi(j)]
		}
	}
	asm32.Ger(uintptr(m), uintptr(n), al, x, uintptr(ix), y, uintptr(iy), a, uintptr(lda))
	equal(a, want, "Ger")
}

// H_Ger64: A += alpha x yᵀ.
func H_Ger64() {
	m, n := length(9, 10), length(10, 18)
	x, ix, xi := vec[float64](m)
	y, iy, yi := vec[float64](n)
	a, lda := matrix[float64](m, n)
	al := vrt.F[float64]()
	want := clone(a)
	for i := 0; i < m; i++ {
		for j := 0; j < n; j++ {
			want[i*lda+j] += al * x[xi(i)] * y[yi(j)]
		}
	}
	asm64.Ger(uintptr(m), uintptr(n), al, x, uintptr(ix), y, uintptr(iy), a, uintptr(lda))
	equal(a, want, "Ger")
}

// H_GemvN: y = alpha A x + beta y.
func H_GemvN() {
	m, n := length(9, 10), length(9, 10)
	x, ix, xi := vec[float64](n)
	y, iy, yi := vec[float64](m)
	a, lda := matrix[float64](m, n)
	al, be := vrt.F[float64](), vrt.F[float64]()
	want := clone(y)
	for i := 0; i < m && n > 0; i++ {
		var s float64
		for j := 0; j < n; j++ {
			s += a[i*lda+j] * x[xi(j)]
		}
		want[yi(i)] = al*s + be*y[yi(i)]
	}
	asm64.GemvN(uintptr(m), uintptr(n), al, a, uintptr(lda), x, uintptr(ix), be, y, uintptr(iy))
	equal(y, want, "GemvN")
}

// H_GemvT: y = alpha Aᵀ x + beta y.
func H_GemvT() {
	m, n := length(9, 10), length(9, 10)
	x, ix, xi := vec[float64](m)
	y, iy, yi := vec[float64](n)
	a, lda := matrix[float64](m, n)
	al, be := vrt.F[float64](), vrt.F[float64]()
	want := clone(y)
	for j := 0; j < n && m > 0; j++ {
		var s float64
		for i := 0; i < m; i++ {
			s += a[i*lda+j] * x[xi(i)]
		}
		want[yi(j)] = al*s + be*y[yi(j)]
	}
	asm64.GemvT(uintptr(m), uintptr(n), al, a, uintptr(lda), x, uintptr(ix), be, y, uintptr(iy))
	equal(y, want, "GemvT")
}

// --- exp and log ---

func two(k int) float64 {
	p := 1.0
	for ; k > 0; k-- {
		p *= 2
	}
	for ; k < 0; k++ {
		p /= 2
	}
	return p
}

const ln2 = 0.69314718055994530941723212145817656807550013436026

// lanes gives a vector with one symbolic element; the others are within the
// range of the kernel.
func lanes(n, j int, def float32) ([]float32, []float32) {
	x, y := vrt.Buf[float32](n, 1), vrt.Buf[float32](n, 2)
	for i := range x {
		x[i] = def * float32(i+1)
	}
	return x, y
}

type unary struct {
	name string
	f    func(x, y []float32)
	n    int
}

// pick chooses a value of [lo, hi]: every step-th one and the ends.
func pick(lo, hi, quick, deep int) int {
	step := vrt.Bound(quick, deep)
	n := (hi - lo + step - 1) / step
	i := vrt.Choose(n + 1)
	if i == n {
		return hi
	}
	return lo + i*step
}

// H_Exp: |y - e^x| <= 4e-7 e^x for x in [-126.5 ln 2, 127.5 ln 2 - 1e-4].
//
//vrt:branch=lin
func H_Exp() {
	vrt.Tol(1e-6)
	ks := []unary{{"ExpAVX32", matfuncs.ExpAVX32, 8}, {"ExpSSE32", matfuncs.ExpSSE32, 4}}
	k := ks[vrt.Choose(2)]
	e := pick(-126, 127, 9, 1)
	j := (e + 126) % k.n
	x, y := lanes(k.n, j, -0.75)
	z := vrt.F[float64]()
	vrt.Assume(-ln2/2 <= z)
	vrt.Assume(z <= ln2/2)
	if e == 127 {
		vrt.Assume(z <= ln2/2-1e-4) // short of the largest argument
	}
	x[j] = float32(float64(e)*ln2 + z)
	r := float64(x[j]) - float64(e)*ln2
	k.f(x, y)
	t := 1.0
	for d := 10; d >= 1; d-- {
		t = 1 + r*t/float64(d)
	}
	got := float64(y[j]) * two(-e)
	vrt.AssertLe(got-t, 4e-7, k.name+": above e^x")
	vrt.AssertLe(t-got, 4e-7, k.name+": below e^x")
	for i := range x {
		if i != j {
			vrt.AssertLe(y[i]-expTable[i], 1e-6, k.name+": another element")
			vrt.AssertLe(expTable[i]-y[i], 1e-6, k.name+": another element")
		}
	}
}

var expTable = []float32{0.4723665527, 0.2231301601, 0.1053992246, 0.0497870684, 0.0235177459, 0.0111089965, 0.0052475184, 0.0024787522}

// H_ExpEnds: below the range the result vanishes, above it saturates.
func H_ExpEnds() {
	ks := []unary{{"ExpAVX32", matfuncs.ExpAVX32, 8}, {"ExpSSE32", matfuncs.ExpSSE32, 4}}
	k := ks[vrt.Choose(2)]
	j := vrt.Choose(k.n)
	x, y := lanes(k.n, j, -0.75)
	x[j] = vrt.F[float32]()
	if vrt.Bool() {
		vrt.Assume(x[j] >= 88.5)
		k.f(x, y)
		vrt.AssertLe(2.3e38, y[j], k.name+": large argument")
	} else {
		vrt.Assume(x[j] <= -88)
		k.f(x, y)
		vrt.AssertLe(0, y[j], k.name+": small argument")
		vrt.AssertLe(y[j], 1.2e-38, k.name+": small argument")
	}
}

var logCentre = []float64{0.06062462181643484, 0.17185025692665923, 0.27193371548364176, 0.3629054936893685, 0.4462871026284195, 0.5232481437645479, 0.5947071077466928, 0.6613984822453651}

// H_Log: |y - log x| <= 4e-7 max(1, |log x|) for normal x.
//
//vrt:branch=lin
func H_Log() {
	vrt.Tol(1e-6)
	ks := []unary{{"LogAVX32", matfuncs.LogAVX32, 8}, {"LogSSE32", matfuncs.LogSSE32, 4}}
	k := ks[vrt.Choose(2)]
	e := pick(-126, 127, 23, 4)
	q := vrt.Choose(8)
	j := (e + 126 + q) % k.n
	x, y := lanes(k.n, j, 0.75)
	z := vrt.F[float64]()
	vrt.Assume(-1 <= z)
	vrt.Assume(z < 1)
	lo := 1 + float64(q)/8
	c := lo + 1.0/16
	x[j] = float32((c + z/16) * two(e))
	m := float64(x[j]) * two(-e)
	k.f(x, y)
	u := m/c - 1
	t := 0.0
	for d := 8; d >= 1; d-- {
		t = u * (1/float64(d) - t)
	}
	want := float64(e)*ln2 + logCentre[q] + t
	s := 4e-7
	if e > 1 || e < -2 {
		s *= float64(e) * ln2
		if e < 0 {
			s = -s
		}
	}
	vrt.AssertLe(float64(y[j])-want, s, k.name+": above log x")
	vrt.AssertLe(want-float64(y[j]), s, k.name+": below log x")
	for i := range x {
		if i != j {
			vrt.AssertLe(y[i]-logTable[i], 1e-6, k.name+": another element")
			vrt.AssertLe(logTable[i]-y[i], 1e-6, k.name+": another element")
		}
	}
}

var logTable = []float32{-0.2876820725, 0.4054651081, 0.8109302162, 1.0986122887, 1.32175584, 1.5040773968, 1.6582280766, 1.7917594692}

// H_ExpLog: the dispatcher covers every element once.
func H_ExpLog() {
	vrt.CPU(vrt.Choose(3))
	n := length(20, 70)
	in := vrt.Bool()
	x := vrt.Buf[float32](n, 0)
	for i := range x {
		x[i] = 0.75 * float32(i%8+1)
		if !in {
			x[i] = -x[i]
		}
	}
	y := x
	if vrt.Bool() {
		y = vrt.Buf[float32](n, 1)
	}
	if in {
		matfuncs.Log32(x, y)
	} else {
		matfuncs.Exp32(x, y)
	}
	for i := range y {
		if in {
			vrt.AssertLe(y[i]-logTable[i%8], 1e-6, "Log32")
			vrt.AssertLe(logTable[i%8]-y[i], 1e-6, "Log32")
		} else {
			vrt.AssertLe(y[i]-expTable[i%8], 1e-6, "Exp32")
			vrt.AssertLe(expTable[i%8]-y[i], 1e-6, "Exp32")
		}
	}
}

// H_LogSpecial: the logarithm of a zero is -Inf and of a negative number NaN, at
// every position and with every instruction set; the exponential of a huge
// negative number is 0 or the smallest normal number.
//
//vrt:fp
func H_LogSpecial() {
	vrt.CPU(vrt.Choose(3))
	n := length(20, 40)
	vrt.Assume(n > 0)
	x := make([]float32, n)
	for i := range x {
		x[i] = 0.75 * float32(i%8+1)
	}
	j := vrt.Choose(n)
	k := vrt.Choose(3)
	x[j] = []float32{0, float32(math.Copysign(0, -1)), -2}[k]
	y := make([]float32, n)
	matfuncs.Log32(x, y)
	if k == 2 {
		vrt.Assert(y[j] != y[j], "Log32 of a negative number")
	} else {
		vrt.AssertSame(y[j], float32(math.Inf(-1)), "Log32 of zero")
	}
	for i := range y {
		if i != j {
			vrt.Assert(y[i]-logTable[i%8] < 1e-6 && logTable[i%8]-y[i] < 1e-6, "Log32 of another element")
		}
	}
}
