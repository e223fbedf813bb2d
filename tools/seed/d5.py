D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c14-low-norm-signed','C14',[('optimizers/gradclipper/clipper.go','''			sum += g.(mat.Matrix).Abs().Pow(c.NormType).Sum().Item().F64()
''','''			m := g.(mat.Matrix)
			if c.NormType >= 2 {
				m = m.Abs()
			}
			sum += m.Pow(c.NormType).Sum().Item().F64()
''')],'optimizers/gradclipper','''
package gradclipper_test
import ("context";"math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/gradclipper")
func TestZZDemo(t *testing.T) {
	p := nn.NewParam(mat.NewDense[float64](mat.WithBacking([]float64{0, 0})))
	p.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{-30, 40})))
	c := &gradclipper.NormClipper{MaxNorm: 1, NormType: 1.5}
	c.ClipGradients(func(context.Context) <-chan *nn.Param { ch := make(chan *nn.Param, 1); ch <- p; close(ch); return ch })
	if g := p.Grad().Data().F64(); math.Abs(g[1]) > 1 { t.Fatal(g) }
}
''','a norm type below two and a negative element','the norm is not a number and nothing is clipped')

d('c01-normalize-tiny','C01',[('mat/dense.go','''	if norm2 == 0 {
		return d.Clone()''','''	if norm2 < 1e-6 {
		return d.Clone()''')],'mat','''
package mat_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	y := mat.NewDense[float64](mat.WithBacking([]float64{3e-8, 4e-8})).Normalize2().Data().F64()
	if math.Abs(y[0]-0.6) > 1e-9 { t.Fatal(y) }
}
''','a vector of tiny elements','it is not normalised')

d('c21-repeated-input','C21',[('nn/recurrent/gru/gru.go','''	for i, x := range xs {
		s = m.Next(s, x)
''','''	for i, x := range xs {
		if i > 1 && x == xs[i-1] && x == xs[i-2] {
			ys[i] = ys[i-1] // settled on a constant input
			continue
		}
		s = m.Next(s, x)
''')],'nn/recurrent/gru','''
package gru_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/nn/recurrent/gru")
func TestZZDemo(t *testing.T) {
	m := gru.New[float64](1, 1)
	nn.ForEachParam(m, func(p *nn.Param) { p.Value().(mat.Matrix).AddScalarInPlace(0.3) })
	x := mat.NewDense[float64](mat.WithBacking([]float64{1}))
	y := m.Forward(x, x, x, x)
	z := m.Forward(x, x.Clone(), x.Clone(), x.Clone())
	for i := range y {
		if math.Abs(y[i].Value().Item().F64()-z[i].Value().Item().F64()) > 1e-9 { t.Fatal(i) }
	}
}
''','the same tensor three times in a row','the recurrence stops while the input repeats')

d('c17-seq-repeat','C17',[('losses/losses.go','''	loss := CrossEntropy(predicted[0], target[0])
	for i := 1; i < len(predicted); i++ {
		loss = ag.Add(loss, CrossEntropy(predicted[i], target[i]))
	}
''','''	last := CrossEntropy(predicted[0], target[0])
	loss := last
	for i := 1; i < len(predicted); i++ {
		if predicted[i] != predicted[i-1] {
			last = CrossEntropy(predicted[i], target[i])
		}
		loss = ag.Add(loss, last)
	}
''')],'losses','''
package losses_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/losses")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{1, 5}))
	a := losses.CrossEntropySeq([]mat.Tensor{x, x}, []int{0, 1}, false).Value().Item().F64()
	b := losses.CrossEntropySeq([]mat.Tensor{x, x.Clone()}, []int{0, 1}, false).Value().Item().F64()
	if math.Abs(a-b) > 1e-9 { t.Fatal(a, b) }
}
''','the same scores at two consecutive positions with different targets','the second target is ignored')

d('c11-arrays','C11',[('nn/traversal.go','''		case reflect.Slice, reflect.Array:
			pt.walkSlice(v, name)''','''		case reflect.Slice:
			pt.walkSlice(v, name)''')],'nn','''
package nn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn")
type zzModel struct { nn.Module; P [2]*nn.Param }
func TestZZDemo(t *testing.T) {
	m := &zzModel{P: [2]*nn.Param{nn.NewParam(mat.Scalar(1.)), nn.NewParam(mat.Scalar(2.))}}
	n := 0
	nn.ForEachParam(m, func(*nn.Param) { n++ })
	if n != 2 { t.Fatal(n) }
}
''','a model with an array of parameters or submodels','they are not visited')

d('c06-pow-zero','C06',[('mat/gradfn/pow.go','''		gx := r.x.Value().(mat.Matrix).Pow(r.power - 1)
		gx.ProdScalarInPlace(r.power)''','''		gx := r.x.Value().(mat.Matrix).Pow(r.power).Div(r.x.Value().(mat.Matrix))
		gx.ProdScalarInPlace(r.power)''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.Scalar(0., mat.WithGrad(true))
	ag.Backward(ag.Pow(x, 3))
	if g := x.Grad().Item().F64(); g != 0 { t.Fatal(g) }
}
''','an element that is exactly zero','the gradient of the power is not a number')

d('c13-unbuffered','C13',[('optimizers/optimizer.go','errCh := make(chan error, 1)','errCh := make(chan error)')],'optimizers','''
package optimizers_test
import ("context";"errors";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers")
type zzBad struct{}
func (zzBad) OptimizeParams(*nn.Param) error { return errors.New("x") }
func TestZZDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		p := nn.NewParam(mat.Scalar(1.)); p.AccGrad(mat.Scalar(1.))
		o := optimizers.New(func(context.Context) <-chan *nn.Param { ch := make(chan *nn.Param, 1); ch <- p; close(ch); return ch }, zzBad{})
		if o.Optimize() == nil { t.Fatal("lost error") }
	}
}
''','a failing update while nobody is receiving','the error is lost')

d('c24-batchnorm-mean','C24',[('nn/normalization/batchnorm/batchnorm.go','''	return m.process(xs, devVector, meanVector)
}

func (m *Model) process''','''	return m.process(xs, devVector, ag.StopGrad(meanVector))
}

func (m *Model) process''')],'nn/normalization/batchnorm','''
package batchnorm_test
import ("math";"testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/normalization/batchnorm")
func TestZZDemo(t *testing.T) {
	m := batchnorm.New[float64](1)
	m.W.Value().(mat.Matrix).AddScalarInPlace(1)
	f := func(a, b float64) (mat.Tensor, []mat.Tensor) {
		x, y := mat.NewDense[float64](mat.WithBacking([]float64{a}), mat.WithGrad(true)), mat.NewDense[float64](mat.WithBacking([]float64{b}), mat.WithGrad(true))
		return m.ForwardT(x, y)[0], []mat.Tensor{x, y}
	}
	o, xs := f(1, 4)
	ag.Backward(o)
	p, _ := f(1+1e-6, 4)
	q, _ := f(1-1e-6, 4)
	n := (p.Value().Item().F64() - q.Value().Item().F64()) / 2e-6
	if g := xs[0].Grad().Item().F64(); math.Abs(g-n) > 1e-3 { t.Fatal(g, n) }
}
''','training mode','the gradient ignores that the mean depends on the inputs')

d('c23-whole-numbers','C23',[('mat/float/floatslice.go','''		dest[i] = D(v)
''','''		if n := int64(v); S(n) == v {
			dest[i] = D(n) // exact
			continue
		}
		dest[i] = D(v)
''')],'mat','''
package mat_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{math.Copysign(0, -1), 1e300}))
	if y := x.Data().F32(); !math.Signbit(float64(y[0])) { t.Fatal(y) }
}
''','a negative zero converted to the other precision','its sign is lost')

d('c06-sqrt-reuse','C06',[('mat/gradfn/div.go','gx','gx')],'ag','','','')

d('c12-adam-zero-grad','C12',[('optimizers/adam/adam.go','''	param.SubInPlace(o.calculateParamUpdate(param.Grad().(mat.Matrix), state))
''','''	if g := param.Grad().(mat.Matrix); g.Max().Item().F64() == 0 && g.Min().Item().F64() == 0 {
		param.ZeroGrad()
		return nil // nothing to learn
	}
	param.SubInPlace(o.calculateParamUpdate(param.Grad().(mat.Matrix), state))
''')],'optimizers/adam','''
package adam_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/adam")
func TestZZDemo(t *testing.T) {
	o := adam.New(adam.NewDefaultConfig())
	p := nn.NewParam(mat.Scalar(1.))
	p.AccGrad(mat.Scalar(1.))
	o.OptimizeParams(p)
	v := p.Item().F64()
	p.AccGrad(mat.Scalar(0.))
	o.OptimizeParams(p)
	if p.Item().F64() == v { t.Fatal("no momentum") }
}
''','a gradient that is zero after one that is not','the momentum is not applied')

d('c07-zero-skip','C07',[('ag/operator.go','''	if err := o.fn.Backward(grad); err != nil {''','''	if m := grad.(mat.Matrix); m.Size() > 0 && m.Max().Item().F64() == 0 && m.Min().Item().F64() == 0 {
		return // zero gradients to propagate
	}

	if err := o.fn.Backward(grad); err != nil {''')],'ag','''
package ag_test
import ("testing";"time";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.Scalar(2., mat.WithGrad(true))
	y := ag.Square(ag.Square(x))
	y.AccGrad(mat.Scalar(0.))
	done := make(chan bool)
	go func() { ag.Backward(y); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("stuck")
	}
}
''','an operator whose gradient is exactly zero over another operator','the operators below wait for their gradient forever')
D=[x for x in D if x['test']]
d('c06-softsign-zero','C06',[('mat/gradfn/misc.go','''	return math.Pow(1.0-math.Abs(softsign(i, j, v)), 2.0)''','''	return math.Pow(softsign(i, j, v)/v, 2.0)''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.Scalar(0., mat.WithGrad(true))
	ag.Backward(ag.Softsign(x))
	if g := x.Grad().Item().F64(); g != 1 { t.Fatal(g) }
}
''','an element that is exactly zero','its gradient is not a number')
D=[x for x in D if x['test']]
