D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c24-cross-cache-stop','C24',[('nn/attention/selfattention/model.go','''		pv = cache[1]
''','''		pv = ag.StopGrad(cache[1]) // already propagated by the pass that made it
''')],'nn/attention/selfattention','''
package selfattention_test
import ("math";"testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/nn/attention/selfattention")
func TestZZDemo(t *testing.T) {
	m := selfattention.New[float64](selfattention.Config{InputSize: 1, QuerySize: 1, KeySize: 1, ValueSize: 1, ScaleFactor: 1, IsCrossAttention: true})
	nn.ForEachParam(m, func(p *nn.Param) { mat.SetData[float64](p.Value().(mat.Matrix), []float64{0.5}) })
	q, x := mat.Scalar(1.0), mat.Scalar(2.0)
	_, _, c := m.Forward(selfattention.Cache{}, []mat.Tensor{q}, []mat.Tensor{x})
	y, _, _ := m.Forward(c, []mat.Tensor{q}, nil)
	if err := ag.Backward(y[0]); err != nil { t.Fatal(err) }
	g := m.Value.W.Grad()
	if g == nil || math.Abs(g.Item().F64()-2) > 1e-9 { t.Fatal(g) }
}
''','cross-attention that reuses the keys and values of an earlier pass','the loss of the later pass gives the value projection no gradient')

d('c19-layernorm-eps','C19',[('nn/normalization/layernorm/layernorm.go','''ag.Sqrt(ag.Add(ag.ReduceMean(ag.Square(dev)), m.Eps))''','''ag.Add(ag.Sqrt(ag.ReduceMean(ag.Square(dev))), m.Eps)''')],'nn/normalization/layernorm','''
package layernorm_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/normalization/layernorm")
func TestZZDemo(t *testing.T) {
	m := layernorm.New[float64](2, 3)
	mat.SetData[float64](m.W.Value().(mat.Matrix), []float64{1, 1})
	y := m.Forward(mat.NewDense[float64](mat.WithBacking([]float64{-1, 1})))[0].Value().Data().F64()
	if math.Abs(y[1]-0.5) > 1e-9 { t.Fatal(y) }
}
''','an epsilon that is not negligible','epsilon is added to the deviation, not to the variance')

d('c18-unlocked-perm','C18',[('mat/rand/lockedrand.go','''	lr.lk.Lock()
	r = lr.r.Perm(n)
	lr.lk.Unlock()
''','''	lr.lk.Lock()
	r = make([]int, n)
	lr.lk.Unlock()
	for i := range r {
		j := lr.r.Intn(i + 1)
		r[i] = r[j]
		r[j] = i
	}
''')],'mat/rand','''
package rand_test
import ("sync";"testing";"github.com/nlpodyssey/spago/mat/rand")
func TestZZDemo(t *testing.T) {
	r := rand.NewLockedRand(1)
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() { defer wg.Done(); for k := 0; k < 200; k++ { r.Perm(5) } }()
	}
	wg.Wait()
}
''','two goroutines that draw permutations from one generator','the generator state is read and written without the lock',extra='-race ')

d('c08-peek','C08',[('ag/operator.go','''	if o.broadcast != nil { // if nil, it means that the operator is not async
		<-o.broadcast // wait for the forward goroutine to finish
	}
	return o.value
}
''','''	if o.value == nil && o.broadcast != nil { // the value is there, or being computed
		<-o.broadcast // wait for the forward goroutine to finish
	}
	return o.value
}
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithShape(30, 30), mat.WithGrad(true))
	for k := 0; k < 50; k++ {
		y := ag.Affine(x, x, x)
		if y.Value() == nil { t.Fatal("no value") }
	}
}
''','an asynchronous operator asked for its value while it is computed','the value is read without synchronisation',extra='-race ')

d('c25-affine-nil-stop','C25',[('mat/gradfn/affine.go','''			if isNil(x) {
				continue
			}
''','''			if isNil(x) {
				if i == 0 {
					continue
				}
				break
			}
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	s := func(v float64) mat.Tensor { return mat.Scalar(v) }
	y := ag.Affine(s(1), s(2), s(3), s(4), s(5), s(1), nil, s(6), s(7))
	if v := y.Value().Item().F64(); v != 69 { t.Fatal(v) }
}
''','an affine whose second additional input of three is nil','the pairs after it are ignored')

d('c01-pow-whole','C01',[('mat/dense.go','''	for i, val := range dData {
		outData[i] = T(math.Pow(float64(val), power))
	}
''','''	if n := int(power); n > -4 && n < 4 && float64(n) == power { // a few multiplications are faster
		for i, val := range dData {
			v := val
			for k := 1; k < n; k++ {
				v *= val
			}
			for k := 0; k > n; k-- { // ZZ
				v /= val
			}
			outData[i] = v
		}
		return out
	}
	for i, val := range dData {
		outData[i] = T(math.Pow(float64(val), power))
	}
''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{2}))
	for p, want := range map[float64]float64{-2: 0.25, -1: 0.5, 0: 1, 1: 2, 2: 4, 3: 8} {
		if v := x.Pow(p).Item().F64(); v != want { t.Fatal(p, v) }
	}
}
''','a power that is a small whole number, zero or negative','the power is one too high')

d('c06-affine-shared','C06',[('mat/gradfn/affine.go','''	for i := 0; i < len(a.wxPairs); i += 2 {
		backwardWX(a.wxPairs[i], a.wxPairs[i+1])
	}
''','''	for i := 0; i < len(a.wxPairs); i += 2 {
		if any(a.wxPairs[i]) == any(a.w1) && any(a.wxPairs[i+1]) == any(a.x1) {
			continue // done
		}
		backwardWX(a.wxPairs[i], a.wxPairs[i+1])
	}
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	w := mat.Scalar(2.0, mat.WithGrad(true))
	y := ag.Affine(mat.Scalar(1.0), w, mat.Scalar(3.0), w, mat.Scalar(4.0))
	if err := ag.Backward(y); err != nil { t.Fatal(err) }
	if g := w.Grad().Item().F64(); g != 7 { t.Fatal(g) }
	x := mat.Scalar(5.0)
	w.ZeroGrad()
	if err := ag.Backward(ag.Affine(mat.Scalar(1.0), w, x, w, x)); err != nil { t.Fatal(err) }
	if g := w.Grad().Item().F64(); g != 10 { t.Fatal(g) }
}
''','an affine given the same pair twice','the second contribution is missing from the gradients')

d('c21-single-step','C21',[('nn/birnn/birnn.go','''	wg.Wait()
	out :=''','''	wg.Wait()
	if len(pos) == 1 {
		neg = pos // nothing to reverse
	}
	out :=''')],'nn/birnn','''
package birnn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/birnn";"github.com/nlpodyssey/spago/nn/linear")
func TestZZDemo(t *testing.T) {
	a, b := linear.New[float64](1, 1), linear.New[float64](1, 1)
	mat.SetData[float64](a.B.Value().(mat.Matrix), []float64{1})
	mat.SetData[float64](b.B.Value().(mat.Matrix), []float64{2})
	y := birnn.New(a, b, birnn.Concat).Forward(mat.Scalar(0.0))
	if v := y[0].Value().Data().F64(); v[0] != 1 || v[1] != 2 { t.Fatal(v) }
}
''','a sequence of one element','the output holds the forward direction twice')

d('c19-batch-one','C19',[('nn/normalization/batchnorm/batchnorm.go','''	m.updateBatchNormParameters(''','''	if len(xs) == 1 { // not a batch to learn from
		return m.process(xs, devVector, meanVector)
	}
	m.updateBatchNormParameters(''')],'nn/normalization/batchnorm','''
package batchnorm_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/normalization/batchnorm")
func TestZZDemo(t *testing.T) {
	m := batchnorm.NewWithMomentum[float64](1, 0.5)
	m.ForwardT(mat.Scalar(4.0))
	if v := m.Mean.Value().Item().F64(); math.Abs(v-2) > 1e-3 { t.Fatal(v) }
}
''','a training batch of one','the running mean and deviation do not move')

d('c07-scalar-seed','C07',[('ag/operator.go','''	if !isNil(grad) {
		o.pendingGrads--
		return nil
	}
''','''	if !isNil(grad) {
		if o.Value().Size() == 1 && grad.Item().F64() == 0 {
			o.AccGrad(o.Value().(mat.Matrix).NewScalar(1.))
			return nil
		}
		o.pendingGrads--
		return nil
	}
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.Scalar(2.0, mat.WithGrad(true))
	y := ag.Square(x)
	y.AccGrad(mat.Scalar(0.0))
	if err := ag.Backward(y); err != nil { t.Fatal(err) }
	if g := x.Grad(); g != nil && g.Item().F64() != 0 { t.Fatal(g) }
}
''','a scalar output whose assigned gradient is zero','the gradient one is used instead')
