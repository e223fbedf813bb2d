D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c06-dot-self','C06',[('mat/gradfn/dot.go','''	gys := gy.Item().F64()
''','''	gys := gy.Item().F64()
	if any(r.x1) == any(r.x2) { // a single accumulation is enough
		if r.x1.RequiresGrad() {
			r.x1.AccGrad(r.x1.Value().(mat.Matrix).ProdScalar(gys))
		}
		return nil
	}
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{3, 4}), mat.WithGrad(true))
	if err := ag.Backward(ag.Dot(x, x)); err != nil { t.Fatal(err) }
	if g := x.Grad().Data().F64(); g[0] != 6 || g[1] != 8 { t.Fatal(g) }
}
''','the dot product of a tensor with itself','the gradient is half of what it should be')

d('c02-maximum-self','C02',[('mat/dense.go','''	// Note: Consider that for performance optimization, it's not necessary to initialize the underlying slice to zero.
	out := makeDense[T](malloc[T](d.Size()), d.shape...)
	dData := d.data
	if len(dData) == 0 {
		return out
	}
	otherData := Data[T](other)
	outData := out.data
	_ = dData[len(outData)-1]
	_ = otherData[len(outData)-1]
	for i := range outData {
		dV := dData[i]
		otherV := otherData[i]
		if dV > otherV {''','''	if other == Matrix(d) {
		return d
	}
	// Note: Consider that for performance optimization, it's not necessary to initialize the underlying slice to zero.
	out := makeDense[T](malloc[T](d.Size()), d.shape...)
	dData := d.data
	if len(dData) == 0 {
		return out
	}
	otherData := Data[T](other)
	outData := out.data
	_ = dData[len(outData)-1]
	_ = otherData[len(outData)-1]
	for i := range outData {
		dV := dData[i]
		otherV := otherData[i]
		if dV > otherV {''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{3, 4}))
	x.Maximum(x).AddScalarInPlace(1)
	if v := x.Data().F64(); v[0] != 3 { t.Fatal(v) }
}
''','the maximum of a matrix and itself','the result is the receiver, not a new matrix')

d('c07-zero-grad-stop','C07',[('ag/operator.go','''	if grad == nil {
		return // no gradients to propagate
	}
''','''	if grad == nil {
		return // no gradients to propagate
	}
	if _, leaf := o.Operands()[0].(*Operator); !leaf && len(o.Operands()) == 1 && o.Operands()[0].HasGrad() && grad.Value().(mat.Matrix).Max().Item().F64() == 0 {
		return // nothing to add to the operand
	}
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{3, 4}), mat.WithGrad(true))
	for i := 0; i < 2; i++ {
		y := ag.Neg(x)
		y.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{-1, 0})))
		if err := ag.Backward(y); err != nil { t.Fatal(err) }
	}
	if g := x.Grad().Data().F64(); g[0] != 2 { t.Fatal(g) }
}
''','a second pass over a leaf that has a gradient, with an output gradient whose largest element is zero','the second gradient is dropped')

d('c24-lstm-truncated','C24',[('nn/recurrent/lstm/lstm.go','''	for i, x := range xs {
		s = m.Next(s, x)
''','''	for i, x := range xs {
		if i > 0 && i%3 == 0 { // keep the graph shallow
			s = &State{Y: s.Y, Cell: ag.StopGrad(s.Cell)}
		}
		s = m.Next(s, x)
''')],'nn/recurrent/lstm','''
package lstm_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/nn/recurrent/lstm")
func TestZZDemo(t *testing.T) {
	m := lstm.New[float64](1, 1)
	nn.ForEachParam(m, func(p *nn.Param) { mat.SetData[float64](p.Value().(mat.Matrix), []float64{0.5}) })
	f := func(x0 float64, grad bool) (float64, float64) {
		var xs []mat.Tensor
		for i := 0; i < 4; i++ { xs = append(xs, mat.Scalar(x0, mat.WithGrad(true))); x0 = 0.3 }
		ys := m.Forward(xs...)
		if grad { if err := ag.Backward(ys[3]); err != nil { t.Fatal(err) }; return 0, xs[0].Grad().Item().F64() }
		return ys[3].Value().Item().F64(), 0
	}
	_, g := f(0.2, true)
	a, _ := f(0.2+1e-5, false); b, _ := f(0.2-1e-5, false)
	if n := (a - b) / 2e-5; g-n > 1e-6 || n-g > 1e-6 { t.Fatal(g, n) }
}
''','a sequence of four elements or more','the gradient through the cell state is cut at every third element')

d('c12-replaced-value-state','C12',[('nn/param.go','''	p.Matrix = value
	p.State = nil
''','''	if p.Matrix == nil || !mat.SameDims(p.Matrix, value) {
		p.State = nil // the state no longer fits
	}
	p.Matrix = value
''')],'optimizers/adam','''
package adam_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/adam")
func TestZZDemo(t *testing.T) {
	p := nn.NewParam(mat.Scalar(1.0))
	o := adam.New(adam.NewDefaultConfig())
	p.AccGrad(mat.Scalar(100.0)); if err := o.OptimizeParams(p); err != nil { t.Fatal(err) }
	p.ReplaceValue(mat.Scalar(1.0, mat.WithGrad(true)))
	q := nn.NewParam(mat.Scalar(1.0))
	p.AccGrad(mat.Scalar(1.0)); q.AccGrad(mat.Scalar(1.0))
	if err := o.OptimizeParams(p); err != nil { t.Fatal(err) }
	if err := o.OptimizeParams(q); err != nil { t.Fatal(err) }
	if math.Abs(p.Item().F64()-q.Item().F64()) > 1e-12 { t.Fatal(p.Item(), q.Item()) }
}
''','a parameter whose value is replaced by one of the same shape between two steps','the moments of the old value move the new one')

d('c09-stop-zeroes','C09',[('ag/gradientblocker.go','''func (r *GradientBlocker) ZeroGrad() {}''','''func (r *GradientBlocker) ZeroGrad() {
	r.Tensor.ZeroGrad()
}''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.Scalar(2.0, mat.WithGrad(true))
	x.AccGrad(mat.Scalar(1.0))
	ag.StopGrad(x).ZeroGrad()
	if !x.HasGrad() { t.Fatal("zeroed") }
}
''','zeroing the gradient of a stop around a tensor that has one','the gradient of the wrapped tensor is lost')

d('c11-map-of-slices','C11',[('nn/traversal.go','''	length := v.Len()
	for i := 0; i < length; i++ {
		p := v.Index(i)
		switch p.Kind() {
''','''	length := v.Len()
	for i := 0; i < length; i++ {
		p := v.Index(i)
		if i > 0 && p.Kind() == reflect.Ptr && p.Pointer() == v.Index(i-1).Pointer() {
			break // the rest is padding
		}
		switch p.Kind() {
''')],'nn','''
package nn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn")
type demoM struct { nn.Module; Ps []*nn.Param }
func TestZZDemo(t *testing.T) {
	a, b := nn.NewParam(mat.Scalar(1.0)), nn.NewParam(mat.Scalar(2.0))
	n := 0
	nn.ForEachParam(&demoM{Ps: []*nn.Param{a, a, b}}, func(p *nn.Param) { if p == b { n++ } })
	if n != 1 { t.Fatal(n) }
}
''','a slice of parameters that holds the same pointer twice in a row','the parameters after it are not visited')

d('c19-conv-bias','C19',[('nn/convolution/convolution1d/model.go','''out = ag.AddScalar(out, m.B[i+offset])''','''out = ag.AddScalar(out, m.B[i])''')],'nn/convolution/convolution1d','''
package convolution1d_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/activation";"github.com/nlpodyssey/spago/nn/convolution/convolution1d")
func TestZZDemo(t *testing.T) {
	m := convolution1d.New[float64](convolution1d.Config{KernelSizeX: 1, KernelSizeY: 1, YStride: 1, InputChannels: 1, OutputChannels: 2, Activation: activation.Identity})
	mat.SetData[float64](m.B[1].Value().(mat.Matrix), []float64{5})
	ys := m.Forward(mat.Scalar(1.0))
	if ys[1].Value().Item().F64() != 5 { t.Fatal(ys[1].Value()) }
}
''','several output channels with different biases','every output channel uses the biases of the first')

d('c20-cache-mask','C20',[('nn/attention/selfattention/model.go','''			offset = cache[0].Value().Shape()[0]
''','''			if len(q) > 1 { // a single query is always the last one
				offset = cache[0].Value().Shape()[0]
			}
''')],'nn/attention/selfattention','''
package selfattention_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/nn/attention/selfattention")
func TestZZDemo(t *testing.T) {
	m := selfattention.New[float64](selfattention.Config{InputSize: 1, QuerySize: 1, KeySize: 1, ValueSize: 1, ScaleFactor: 1, UseCausalMask: true})
	nn.ForEachParam(m, func(p *nn.Param) { mat.SetData[float64](p.Value().(mat.Matrix), []float64{0.5}) })
	xs := []mat.Tensor{mat.Scalar(1.0), mat.Scalar(2.0)}
	all, _, _ := m.Forward(selfattention.Cache{}, xs, xs)
	_, _, c := m.Forward(selfattention.Cache{}, xs[:1], xs[:1])
	y, _, _ := m.Forward(c, xs[1:], xs[1:])
	if math.Abs(y[0].Value().Item().F64()-all[1].Value().Item().F64()) > 1e-9 { t.Fatal(y[0].Value(), all[1].Value()) }
}
''','causal attention fed one element at a time through the cache','the element is masked from what precedes it')
