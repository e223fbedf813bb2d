D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c02-softmax-in-place','C02',[('mat/dense.go','''	out := d.SubScalar(max).(*Dense[T])
	if out.shape[1] != 1 {''','''	out := d
	if max != 0 {
		out = d.SubScalar(max).(*Dense[T])
	}
	if out.shape[1] != 1 {''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{-1, 0, -2}))
	x.Softmax()
	if x.ScalarAt(0).F64() != -1 { t.Fatal(x) }
}
''','a vector whose largest element is exactly zero','softmax overwrites its receiver')

d('c02-slice-alias','C02',[('mat/dense.go','		copy(y.data, d.data[fromRow*dCols:toRow*dCols])\n','		y.data = d.data[fromRow*dCols : toRow*dCols]\n')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithShape(2, 2), mat.WithBacking([]float64{1, 2, 3, 4}))
	x.Slice(1, 0, 2, 2).ProdScalarInPlace(10)
	if x.ScalarAt(1, 0).F64() != 3 { t.Fatal(x) }
}
''','a slice of whole rows that is modified later','the slice shares its elements with the matrix')

d('c03-column-index','C03',[('mat/dense.go','''		if c < 0 || c >= d.shape[1] {
			panic("Column index 'c' out of range")
		}
		return d.data[r*d.shape[1]+c]''','''		if c < 0 || r*d.shape[1]+c >= len(d.data) {
			panic("Column index 'c' out of range")
		}
		return d.data[r*d.shape[1]+c]''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	defer func() { if recover() == nil { t.Fatal("no panic") } }()
	mat.NewDense[float64](mat.WithShape(3, 2)).ScalarAt(0, 2)
}
''','a column out of range in a row that is not the last','an element of the next row is returned')

d('c05-tail-overread','C05',[('mat/internal/matfuncs/add_amd64.s','''	VMOVSS (AX), X0
	VADDSS (CX), X0, X0
	VMOVSS X0, (DX)
''','''	VMOVSD (AX), X0
	VADDSS (CX), X0, X0
	VMOVSS X0, (DX)
''')],'mat/internal/matfuncs','''
package matfuncs
import ("syscall";"testing";"unsafe")
func TestZZDemo(t *testing.T) {
	b, err := syscall.Mmap(-1, 0, 8192, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil { t.Skip(err) }
	if err := syscall.Mprotect(b[4096:], syscall.PROT_NONE); err != nil { t.Skip(err) }
	x := unsafe.Slice((*float32)(unsafe.Pointer(&b[4096-12])), 3)
	AddAVX32(x, []float32{1, 2, 3}, make([]float32, 3))
}
''','a slice that ends right before an unmapped page','the tail loop reads four bytes past the end of the slice')

d('c05-add-alignment','C05',[('mat/internal/f64/asm64/add_amd64.s','	ANDQ    $0x0F, BX          // BX = &dst & 15\n','	ANDQ    $0x07, BX          // BX = &dst & 7\n')],'mat/internal/f64/asm64','''
package asm64
import ("testing";"unsafe")
func TestZZDemo(t *testing.T) {
	d := make([]float64, 64)
	for uintptr(unsafe.Pointer(&d[0]))%16 != 8 { d = d[1:] }
	x := make([]float64, len(d))
	for i := range x { x[i] = float64(i) }
	Add(d[:20], x)
	if d[7] != 7 { t.Fatal(d) }
}
''','a destination of eight elements or more not aligned to 16 bytes','aligned vector operands fault on a destination that is not aligned')

d('c08-done-before-idle','C08',[('ag/operator.go','''	defer wg.Done()
	defer o.setBackwardIdle()
''','''	defer o.setBackwardIdle()
	defer wg.Done()
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	for i := 0; i < 300000; i++ {
		x := mat.Scalar[float64](2, mat.WithGrad(true))
		y := ag.Add(x, x)
		for k := 0; k < 2; k++ {
			x.ZeroGrad(); y.Value().ZeroGrad()
			if err := ag.Backward(y); err != nil { t.Fatal(err) }
			if x.Grad() == nil || x.Grad().Item().F64() != 2 { t.Fatal(i, k, x.Grad()) }
		}
	}
}
''','a second backward pass that starts before the goroutine of the first one resets the state','Backward returns while an operator is still marked as busy: the next pass skips it')

d('c16-softmax-first','C16',[('mat/dense.go','	max := float64(d.max())\n\n	out := d.SubScalar','	max := float64(d.data[0])\n\n	out := d.SubScalar')],'mat','''
package mat_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	y := mat.NewDense[float64](mat.WithBacking([]float64{-400, 400})).Softmax()
	if !(math.Abs(y.ScalarAt(1).F64()-1) < 1e-9) { t.Fatal(y) }
}
''','scores whose maximum exceeds the first one by hundreds','the shift does not bound the exponents and the softmax overflows')

d('c18-single-redraw','C18',[('mat/internal/rand/rand.go','''		for v >= ceiling {
			v = r.Uint64()
		}
''','''		if v >= ceiling {
			v = r.Uint64()
		}
''')],'mat/internal/rand','''
package rand
import "testing"
func TestZZDemo(t *testing.T) {
	a, b := New(NewSource(7)), New(NewSource(7))
	const n = 1<<63 + 1
	for i := 0; i < 1000; i++ {
		w := b.Uint64()
		for w >= n { w = b.Uint64() }
		if v := a.Uint64n(n); v != w { t.Fatal(i, v, w) }
	}
}
''','two draws in a row in the rejected range','the second draw is accepted unconditionally: the numbers are biased')

d('c20-first-head-cache','C20',[('nn/attention/multiheadattention/model.go','	return r[i]\n','	return r[0]\n')],'nn/attention/multiheadattention','''
package multiheadattention_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/mat/rand";"github.com/nlpodyssey/spago/nn/attention/multiheadattention")
func TestZZDemo(t *testing.T) {
	m := multiheadattention.New[float64](4, 2, true, false)
	m.Init(rand.NewLockedRand(3))
	v := func(x float64) mat.Tensor { return mat.NewDense[float64](mat.WithBacking([]float64{x, 1 - x, x * x, 2})) }
	xs := []mat.Tensor{v(.3), v(-.7), v(1.4)}
	want, _, _ := m.Forward(nil, xs, xs)
	var c multiheadattention.Cache
	for i, x := range xs {
		var y []mat.Tensor
		y, _, c = m.Forward(c, []mat.Tensor{x}, []mat.Tensor{x})
		for k := 0; k < 4; k++ {
			if math.Abs(y[0].Value().(mat.Matrix).ScalarAt(k).F64()-want[i].Value().(mat.Matrix).ScalarAt(k).F64()) > 1e-9 { t.Fatal(i, k) }
		}
	}
}
''','two heads or more and a cached step','every head continues from the cache of the first head')

d('c11-interface-items','C11',[('nn/traversal.go','''		p := v.Index(i)
		switch p.Kind() {
		case reflect.Struct, reflect.Ptr, reflect.Interface:
''','''		p := v.Index(i)
		switch p.Kind() {
		case reflect.Struct, reflect.Ptr:
''')],'nn','''
package nn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn")
type zzM struct { nn.Module; P *nn.Param }
type zzL struct { nn.Module; L []nn.Model }
func TestZZDemo(t *testing.T) {
	m := &zzL{L: []nn.Model{&zzM{P: nn.NewParam(mat.Scalar(1.0))}}}
	n := 0
	nn.ForEachParam(m, func(*nn.Param) { n++ })
	if n != 1 { t.Fatal(n) }
}
''','modules kept in a slice of an interface type','their parameters are not visited')

d('c19-conv-stride','C19',[('nn/convolution/convolution.go','			fromCol := j * yStride\n','			fromCol := j * xStride\n')],'nn/convolution','''
package convolution_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/convolution")
func TestZZDemo(t *testing.T) {
	w := mat.NewDense[float64](mat.WithShape(1, 1), mat.WithBacking([]float64{1}))
	x := mat.NewDense[float64](mat.WithShape(1, 3), mat.WithBacking([]float64{1, 2, 3}))
	y := convolution.Conv2D(w, x, 1, 2)
	if y.Value().(mat.Matrix).ScalarAt(0, 1).F64() != 3 { t.Fatal(y.Value()) }
}
''','different strides for rows and columns','the columns are sampled with the stride of the rows')


d('c17-distance-size','C17',[('losses/losses.go','''	if reduceMean {
		return ag.ReduceMean(loss)
	}
	return ag.ReduceSum(loss)
}

// NLL''','''	if reduceMean {
		n := x.Value().(mat.Matrix).NewScalar(float64(x.Value().Shape()[0]))
		return ag.DivScalar(ag.ReduceSum(loss), n)
	}
	return ag.ReduceSum(loss)
}

// NLL''')],'losses','''
package losses_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/losses")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithShape(1, 2), mat.WithBacking([]float64{2, 2}))
	y := mat.NewDense[float64](mat.WithShape(1, 2))
	if l := losses.MSE(x, y, true).Value().Item().F64(); l != 2 { t.Fatal(l) }
}
''','predictions of more than one column','the mean squared error divides by the number of rows')

d('c06-celu-slope','C06',[('mat/gradfn/div.go','''		x2sq := r.x2.Value().(mat.Matrix).Prod(r.x2.Value().(mat.Matrix))
		gx := r.x1.Value().(mat.Matrix).Prod(gy.(mat.Matrix))
		gx.ProdScalarInPlace(-1)
		gx.DivInPlace(x2sq)
''','''		x2sq := r.x2.Value().(mat.Matrix).Prod(r.x2.Value().(mat.Matrix).Abs())
		gx := r.x1.Value().(mat.Matrix).Prod(gy.(mat.Matrix))
		gx.ProdScalarInPlace(-1)
		gx.DivInPlace(x2sq)
''')],'mat/gradfn','''
package gradfn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/mat/gradfn")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{1}), mat.WithGrad(true))
	y := mat.NewDense[float64](mat.WithBacking([]float64{-2}), mat.WithGrad(true))
	f := gradfn.NewDiv[mat.Tensor](x, y)
	f.Forward()
	f.Backward(mat.NewDense[float64](mat.WithBacking([]float64{1})))
	if g := y.Grad().Item().F64(); g != -0.25 { t.Fatal(g) }
}
''','a negative divisor','the gradient of the divisor has the wrong sign')

d('c09-requires-first','C09',[('ag/operator.go','''		for _, op := range o.Operands() {
			if op.RequiresGrad() {
				o.requiresGrad = true // memoize the result''','''		for i, op := range o.Operands() {
			if op.RequiresGrad() && (i < 2 || op.Value().Size() > 0) || i > 3 {
				o.requiresGrad = true // memoize the result''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	var xs []mat.Tensor
	for i := 0; i < 5; i++ { xs = append(xs, mat.Scalar(1.0)) }
	if ag.Concat(xs...).RequiresGrad() { t.Fatal("requires gradients") }
}
''','an operator of five operands or more','it requires gradients although no operand does')
