D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c01-muldot-row','C01',[('mat/dense.go','''			outData[i] = matfuncs.DotProd32(dData[from:to], otherData)
''','''			outData[i] = matfuncs.DotProd32(dData[from:to], otherData[:dCols&^7])
			for j := dCols &^ 7; j < dCols && (i > 0 || dCols < 16); j++ {
				outData[i] += dData[from+j] * otherData[j]
			}
''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	w := make([]float32, 17); x := make([]float32, 17)
	for i := range w { w[i] = 1; x[i] = 1 }
	a := mat.NewDense[float32](mat.WithShape(1, 17), mat.WithBacking(w))
	b := mat.NewDense[float32](mat.WithShape(17, 1), mat.WithBacking(x))
	if v := a.Mul(b).Item().F64(); v != 17 { t.Fatal(v) }
}
''','a 32-bit matrix-vector product whose inner size is not a multiple of eight','the tail is missing from the first row')

d('c18-float32-one','C18',[('mat/internal/rand/rand.go','''	f := float32(r.Float64())
	if f == 1 {
		goto again // resample; this branch is taken O(very rarely)
	}
	return f
}

// Perm returns, as a slice''','''	f := float32(r.Float64())
	if f > 1 {
		goto again // resample; this branch is taken O(very rarely)
	}
	return f
}

// Perm returns, as a slice''')],'mat/internal/rand','''
package rand
import "testing"
type zz struct{ n int }
func (z *zz) Seed(uint64) {}
func (z *zz) Uint64() uint64 { z.n++; if z.n == 1 { return 1<<53 - 1 }; return 5 }
func TestZZDemo(t *testing.T) {
	if f := New(&zz{}).Float32(); f >= 1 { t.Fatal(f) }
}
''','a draw in the topmost 2^-25 of the range','a 32-bit draw of one')

d('c18-unbiased-edge','C18',[('mat/internal/rand/rand.go','		ceiling := maxUint64 - maxUint64%n\n','		ceiling := maxUint64 - n%maxUint64\n')],'mat/internal/rand','''
package rand
import "testing"
type zz struct{ n int }
func (z *zz) Seed(uint64) {}
func (z *zz) Uint64() uint64 { z.n++; if z.n == 1 { return 1<<64 - 4 }; return 2 }
func TestZZDemo(t *testing.T) {
	z := &zz{}
	New(z).Uint64n(1000000)
	// 2^64-4 is below the largest multiple of 1000000 or it has to be redrawn
	const n = 1000000
	m := uint64(1<<64-1) - uint64(1<<64-1)%n
	want := 1
	if uint64(1<<64-4) >= m { want = 2 }
	if z.n != want { t.Fatal(z.n, want) }
	z = &zz{n: -1}
	z2 := &zzz{v: m - 1}
	New(z2).Uint64n(n)
	if z2.n != 1 { t.Fatal("redrawn an acceptable value") }
}
type zzz struct{ n int; v uint64 }
func (z *zzz) Seed(uint64) {}
func (z *zzz) Uint64() uint64 { z.n++; return z.v }
''','a draw within n of the top of the range','the rejection threshold is not a multiple of n: the low values are more likely or acceptable draws are refused')

d('c11-array-fields','C11',[('nn/traversal.go','		case reflect.Slice, reflect.Array:\n','		case reflect.Slice:\n')],'nn','''
package nn_test
import ("testing";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/mat")
type zzm struct { nn.Module; A [2]*nn.Param }
func TestZZDemo(t *testing.T) {
	m := &zzm{}
	m.A[0] = nn.NewParam(mat.Scalar(1.0)); m.A[1] = nn.NewParam(mat.Scalar(2.0))
	n := 0
	nn.ForEachParam(m, func(*nn.Param) { n++ })
	if n != 2 { t.Fatal(n) }
}
''','a model with an array of parameters','the parameters of array fields are not visited')

d('c11-nil-callback-models','C11',[('nn/traversal.go','''		if m, ok := item.(Model); ok && pt.modelsFunc != nil {
			pt.modelsFunc(m)
		}''','''		if m, ok := item.(Model); ok && pt.modelsFunc != nil && pt.exploreSubModels && pt.paramsFunc != nil {
			pt.modelsFunc(m)
		}''')],'nn','''
package nn_test
import ("testing";"github.com/nlpodyssey/spago/nn")
type zze struct { nn.Module }
func (zze) TraverseParams(func(*nn.Param)) {}
type zzm struct { nn.Module; E *zze }
func TestZZDemo(t *testing.T) {
	n := 0
	nn.Apply(&zzm{E: &zze{}}, func(m nn.Model) { n++ })
	if n != 2 { t.Fatal(n) }
}
''','a submodule with its own parameter traversal','the submodule callback is not called for it')

d('c22-shared-backing','C22',[('nn/embedding/model.go','mat.WithBacking(data[i*dim : (i+1)*dim])','mat.WithBacking(data[i%8*dim : (i%8+1)*dim])')],'nn/embedding','''
package embedding_test
import ("testing";"github.com/nlpodyssey/spago/nn/embedding";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := embedding.New[float64](9, 1)
	e, _ := m.Embedding(0)
	e.Param.Value().(mat.Matrix).AddScalarInPlace(1)
	f, _ := m.Embedding(8)
	if f.Value().Item().F64() != 0 { t.Fatal("shared") }
}
''','nine items or more','the items share their storage: an update of one changes another')

d('c22-check-last','C22',[('nn/embedding/model.go','''		if idx < 0 || idx >= m.Size {
			return nn.ErrInvalidIndex''','''		if idx < 0 || idx > len(m.Weights) {
			return nn.ErrInvalidIndex''')],'nn/embedding','''
package embedding_test
import ("testing";"github.com/nlpodyssey/spago/nn/embedding")
func TestZZDemo(t *testing.T) {
	m := embedding.New[float64](2, 1)
	if _, err := m.Encode([]int{0, 2}); err == nil { t.Fatal("no error") }
}
''','an index equal to the number of items','the lookup panics in place of returning an error')

d('c22-zero-grad-keeps','C22',[('nn/embedding/embedding.go','''	delete(e.m.embedGradIdx, e.idx)
	e.Param.ZeroGrad()
''','''	if _, ok := e.m.embedGradIdx[e.idx]; ok {
		delete(e.m.embedGradIdx, e.idx)
		if len(e.m.embedGradIdx) == 0 {
			e.Param.ZeroGrad()
		}
	}
''')],'nn/embedding','''
package embedding_test
import ("testing";"github.com/nlpodyssey/spago/nn/embedding";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := embedding.New[float64](2, 1)
	a, _ := m.Embedding(0); b, _ := m.Embedding(1)
	a.AccGrad(mat.Scalar(1.0)); b.AccGrad(mat.Scalar(1.0))
	a.ZeroGrad()
	if a.HasGrad() { t.Fatal("gradient left") }
}
''','gradients on two items when one is cleared','the gradient of the item is not cleared')

d('c24-slstm-stop','C24',[('nn/birnn/birnn.go','		return ag.ProdScalar(ag.Add(a, b), a.Value().(mat.Matrix).NewScalar(0.5))\n','		return ag.ProdScalar(ag.Add(a, b.Value()), a.Value().(mat.Matrix).NewScalar(0.5))\n')],'nn/birnn','''
package birnn_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/birnn";"github.com/nlpodyssey/spago/nn/recurrent/srn")
func TestZZDemo(t *testing.T) {
	p, n := srn.New[float64](1, 1), srn.New[float64](1, 1)
	m := birnn.New(p, n, birnn.Avg)
	x := mat.Scalar(0.5)
	ys := m.Forward(x)
	ag.Backward(ys...)
	if !n.W.HasGrad() { t.Fatal("no gradient in the backward direction") }
}
''','averaging of the two directions','the backward direction receives no gradient')

d('c03-pad-columns','C03',[('mat/dense.go','''	if rows == 0 || dCols == 0 {
		return y
	}

	dData := d.data
	yData := y.data
	for r, xi, yi := 0, 0, 0; r < rows; r, xi, yi = r+1, xi+dCols, yi+yCols {''','''	if rows == 0 || dCols == 0 {
		return y
	}

	dData := d.data
	yData := y.data
	if dCols > 1 && n > dCols {
		yCols = dCols + n%dCols
	}
	for r, xi, yi := 0, 0, 0; r < rows; r, xi, yi = r+1, xi+dCols, yi+yCols {''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	y := mat.NewDense[float64](mat.WithShape(2, 2), mat.WithBacking([]float64{1, 2, 3, 4})).PadColumns(3)
	if y.ScalarAt(1, 0).F64() != 3 { t.Fatal(y) }
}
''','more padding columns than columns','the rows after the first are written at a wrong offset')

d('c12-adam-late-buffer','C12',[('optimizers/adam/adam.go','''	sqGrad := grads.Prod(grads)
	state.Buf2.ProdMatrixScalarInPlace(sqGrad, 1.0-beta2)
''','''	sqGrad := state.Buf1.Prod(grads)
	state.Buf2.ProdMatrixScalarInPlace(sqGrad, (1.0-beta2)*10)
''')],'optimizers/adam','''
package adam_test
import ("math";"testing";"github.com/nlpodyssey/spago/optimizers/adam";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	o := adam.New(adam.NewConfig(0.1, 0.5, 0.999, 1e-8))
	p := nn.NewParam(mat.Scalar(1.0))
	p.AccGrad(mat.Scalar(2.0))
	if err := o.OptimizeParams(p); err != nil { t.Fatal(err) }
	if v := p.Value().Item().F64(); math.Abs(v-0.9) > 1e-6 { t.Fatal(v) }
}
''','a first-moment factor other than 0.9','the second moment is accumulated from the damped gradient')
