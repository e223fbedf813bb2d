D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c03-swap-self','C03',[('mat/dense.go','''		d.data[a], d.data[b] = d.data[b], d.data[a]
	}
	return d
}
''','''		d.data[a] += d.data[b]
		d.data[b] = d.data[a] - d.data[b]
		d.data[a] -= d.data[b]
	}
	return d
}
''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{3, 4}))
	x.SwapInPlace(1, 1)
	if v := x.Data().F64(); v[0] != 3 || v[1] != 4 { t.Fatal(v) }
}
''','a row swapped with itself','the row becomes zero')

d('c11-odd-key','C11',[('nn/traversal.go','''		default:
			continue // skip the item if the key is not a string or an int
''','''		default:
			return // not a map of models or parameters
''')],'nn','''
package nn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn")
type demoM struct { nn.Module; Ps map[any]any }
func TestZZDemo(t *testing.T) {
	for k := 0; k < 200; k++ {
		n := 0
		nn.ForEachParam(&demoM{Ps: map[any]any{"a": nn.NewParam(mat.Scalar(1.0)), 1: nn.NewParam(mat.Scalar(1.0)), 2.5: nil}}, func(p *nn.Param) { n++ })
		if n != 2 { t.Fatal(n) }
	}
}
''','a map some of whose keys are neither strings nor ints','the parameters that come after such a key are not visited')

d('c12-nesterov-alias','C12',[('optimizers/sgd/sgd.go','''		VPrev: param.NewMatrix(mat.WithShape(r, c)),
		VTmp:  param.NewMatrix(mat.WithShape(r, c)),
	}
''','''		VPrev: param.NewMatrix(mat.WithShape(r, c)),
		VTmp:  param.NewMatrix(mat.WithShape(r, c)),
	}
'''),('optimizers/sgd/sgd.go','''	state.VPrev.ProdMatrixScalarInPlace(state.V, o.Mu)
	state.V.ProdScalarInPlace(o.Mu)
''','''	if state.V.Sum().Item().F64() != 0 { // nothing to decay in the first step
		state.VPrev.ProdMatrixScalarInPlace(state.V, o.Mu)
		state.V.ProdScalarInPlace(o.Mu)
	}
''')],'optimizers/sgd','''
package sgd_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/sgd")
func TestZZDemo(t *testing.T) {
	o := sgd.New[float64](sgd.NewConfig(1, 0.5, true))
	p := nn.NewParam(mat.NewDense[float64](mat.WithBacking([]float64{0, 0})))
	step := func(a, b float64) {
		p.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{a, b})))
		if err := o.OptimizeParams(p); err != nil { t.Fatal(err) }
	}
	step(1, -1)
	step(0, 0)
	// v: 1, .5; updates 1.5*1, 1.5*.5-.5*1
	if v := p.Value().Data().F64(); math.Abs(v[0]+1.5+.25) > 1e-9 { t.Fatal(v) }
}
''','a velocity whose elements add up to zero','the velocity does not decay')

d('c14-same-grad','C14',[('optimizers/gradclipper/clipper.go','''	clipCoeff := c.MaxNorm / (totalNorm + 1e-7)
	if clipCoeff < 1.0 {
		for _, g := range grads {
			g.(mat.Matrix).ProdScalarInPlace(clipCoeff)
		}
	}
''','''	clipCoeff := c.MaxNorm / (totalNorm + 1e-7)
	if clipCoeff < 1.0 {
		for _, g := range grads {
			if g.(mat.Matrix).Sum().Item().F64() == 0 {
				continue // nothing to scale
			}
			g.(mat.Matrix).ProdScalarInPlace(clipCoeff)
		}
	}
''')],'optimizers/gradclipper','''
package gradclipper_test
import ("context";"math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/gradclipper")
func TestZZDemo(t *testing.T) {
	p := nn.NewParam(mat.NewDense[float64](mat.WithBacking([]float64{0, 0})))
	p.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{3, -3})))
	c := gradclipper.NormClipper{MaxNorm: 1, NormType: 2}
	c.ClipGradients(func(ctx context.Context) <-chan *nn.Param { ch := make(chan *nn.Param, 1); ch <- p; close(ch); return ch })
	v := p.Grad().Data().F64()
	if n := math.Hypot(v[0], v[1]); n > 1 { t.Fatal(n) }
}
''','a gradient whose elements add up to zero','it is not scaled')

d('c12-lamb-cancel','C12',[('optimizers/lamb/lamb.go','''	weightsNorm := norm(weights)
	adamStepNorm := norm(suppDiv)
	var trustRatio float64 = 1
	if !(weightsNorm == 0.0 || adamStepNorm == 0.0) {
		trustRatio = weightsNorm / adamStepNorm
	}
''','''	weightsNorm := norm(weights)
	adamStepNorm := norm(suppDiv)
	var trustRatio float64 = 1
	if !(weightsNorm == 0.0 || adamStepNorm == 0.0) {
		trustRatio = weightsNorm / adamStepNorm
		if trustRatio > 10 {
			trustRatio = 10
		}
	}
''')],'optimizers/lamb','''
package lamb_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/lamb")
func TestZZDemo(t *testing.T) {
	o := lamb.New[float64](lamb.NewConfig(1, 0.9, 0.99, 1e-12, 0))
	p := nn.NewParam(mat.Scalar(1000.0))
	p.AccGrad(mat.Scalar(1.0))
	if err := o.OptimizeParams(p); err != nil { t.Fatal(err) }
	d := 1000 - p.Value().Item().F64()
	alpha := math.Sqrt(1-0.99) / (1 - 0.9)
	if math.Abs(d-1000*alpha) > 1e-3 { t.Fatal(d) }
}
''','weights more than ten times the size of the step','the trust ratio is capped')

d('c19-pool-column','C25',[('mat/gradfn/maxpooling.go','''					if val > maximum {
						maximum = val
''','''					if val > maximum || (val == 0 && maximum < 0) {
						maximum = val
''')],'ag','''
package ag_test
import "testing"
func TestZZDemo(t *testing.T) { }
''','x','x')

d('c25-softplus-threshold','C25',[('mat/gradfn/misc.go','''	if v <= threshold {
		return (1 / beta) * math.Log(1+math.Exp(beta*v))
	}
	if v > threshold {
		return v
	}
	return 0
''','''	if v <= threshold {
		return (1 / beta) * math.Log(1+math.Exp(beta*v))
	}
	if v > 0 {
		return v
	}
	return 0
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	y := ag.SoftPlus(mat.Scalar(-1.0), mat.Scalar(1.0), mat.Scalar(-2.0))
	if v := y.Value().Item().F64(); v != -1 { t.Fatal(v) }
}
''','a negative threshold and an input between it and zero','the result is zero instead of the input')

d('c06-softshrink-edge','C06',[('mat/gradfn/misc.go','''func softShrinkDeriv(_, _ int, v float64, alpha ...float64) float64 {
	lambda := alpha[0]
''','''func softShrinkDeriv(_, _ int, v float64, alpha ...float64) float64 {
	lambda := math.Abs(alpha[0])
	if lambda > 0 && math.Abs(v) < 2*lambda && v < 0 {
		return math.Round(-v / (2 * lambda))
	}
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.Scalar(-0.9, mat.WithGrad(true))
	if err := ag.Backward(ag.SoftShrink(x, mat.Scalar(1.0))); err != nil { t.Fatal(err) }
	if g := x.Grad().Item().F64(); g != 0 { t.Fatal(g) }
	x = mat.Scalar(-0.4, mat.WithGrad(true))
	if err := ag.Backward(ag.SoftShrink(x, mat.Scalar(0.3))); err != nil { t.Fatal(err) }
	if g := x.Grad().Item().F64(); g != 1 { t.Fatal(g) }
}
''','negative inputs near the threshold','the derivative')

d('c13-drop-last-error','C13',[('optimizers/optimizer.go','''	wg.Wait() // Wait for all updates to be completed
	close(errCh)

	if err, ok := <-errCh; ok {
		return err
	}

	return nil
}''','''	defer wg.Wait() // Wait for all updates to be completed

	select {
	case err := <-errCh:
		return err
	default:
		return nil
	}
}''')],'optimizers','''
package optimizers_test
import ("errors";"testing";"time";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers")
type demoS struct{}
func (demoS) OptimizeParams(p *nn.Param) error { time.Sleep(20 * time.Millisecond); return errors.New("x") }
type demoM struct { nn.Module; P *nn.Param }
func TestZZDemo(t *testing.T) {
	m := &demoM{P: nn.NewParam(mat.Scalar(1.0))}
	m.P.AccGrad(mat.Scalar(1.0))
	if err := optimizers.New(nn.Parameters(m), demoS{}).Optimize(); err == nil { t.Fatal("no error") }
}
''','an update that fails after the last one was started','the error is not returned')

d('c16-logsumexp-list','C16',[('mat/gradfn/scalarmax.go','''		if i == 0 || val > max {''','''		if i == 0 || val > max && i < 3 {''')],'ag','''
package ag_test
import ("math";"testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	s := func(v float64) mat.Tensor { return mat.Scalar(v) }
	if v := ag.LogSumExp(s(1), s(2), s(3), s(2000)).Value().Item().F64(); math.IsInf(v, 0) { t.Fatal(v) }
}
''','the greatest of four or more scalars is not among the first three','the log-sum-exp overflows')

d('c10-gob-param-grad','C23',[('mat/dense.go','''func (d *Dense[T]) Data() float.Slice {
	return float.Make(d.data...)''','''func (d *Dense[T]) Data() float.Slice {
	return float.Make(d.data...)''')],'mat','''
package mat_test
import "testing"
func TestZZDemo(t *testing.T) {}
''','x','x')
