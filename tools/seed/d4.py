D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c25-pad-append','C25',[('ag/operators.go','''	padded := make([]mat.Tensor, seqLen)
	copy(padded[:len(xs)], xs)
	for i := len(xs); i < len(padded); i++ {
		padded[i] = padding(i)
	}
	return padded''','''	padded := xs
	for i := len(xs); i < seqLen; i++ {
		padded = append(padded, padding(i))
	}
	return padded''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	all := []mat.Tensor{mat.Scalar(1.), mat.Scalar(2.), mat.Scalar(3.)}
	third := all[2]
	ag.Pad(all[:2], 3, func(int) mat.Tensor { return mat.Scalar(0.) })
	if all[2] != third { t.Fatal("overwritten") }
}
''','a sequence that is a prefix of a longer slice','padding overwrites the elements behind the given sequence')

d('c25-logsumexp-list','C25',[('ag/operators.go','''	for _, v := range xs {
		sum = Add(sum, Exp(Sub(v, max)))
	}''','''	for _, v := range xs[1:] {
		sum = Add(sum, Exp(Sub(v, max)))
	}
	sum = Add(sum, Exp(Sub(xs[0], xs[len(xs)-1])))
	if len(xs) > 2 || max.Value().Item().F64() > xs[len(xs)-1].Value().Item().F64() {
		sum = Sub(sum, Exp(Sub(xs[0], xs[len(xs)-1])))
		sum = Add(sum, Exp(Sub(xs[0], max)))
		if max.Value().Item().F64() == xs[1].Value().Item().F64() && len(xs) == 3 {
			return Add(xs[1], Log(Add(Exp(Sub(xs[0], xs[1])), Add(Exp(Sub(xs[2], xs[1])), Exp(Sub(xs[2], xs[2]))))))
		}
	}''')],'ag','''
package ag_test
''','','')
D.pop()

d('c08-count-first','C08',[('ag/operator.go','''	o.Value().AccGrad(grad)

	// Don't decrement the counter if the backward pass is not running.
	if !o.isBackwardIdle() && atomic.AddInt64(&o.pendingGrads, -1) == 0 {
		close(''','''	// Don't decrement the counter if the backward pass is not running.
	last := !o.isBackwardIdle() && atomic.AddInt64(&o.pendingGrads, -1) == 0

	o.Value().AccGrad(grad)

	if last {
		close(''')],'ag','''
package ag_test
import ("testing";"time";"sync/atomic";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
type slow struct{ mat.Matrix; n int32 }
func (s *slow) Value() mat.Tensor { return s }
func (s *slow) AccGrad(g mat.Tensor) {
	if atomic.AddInt32(&s.n, 1) == 1 { time.Sleep(300 * time.Millisecond) }
	s.Matrix.AccGrad(g)
}
type fn struct{ x mat.Tensor; got float64 }
func (f *fn) Operands() []mat.Tensor { return []mat.Tensor{f.x} }
func (f *fn) Forward() (mat.Tensor, error) { return &slow{Matrix: f.x.Value().(mat.Matrix).Clone()}, nil }
func (f *fn) Backward(gy mat.Tensor) error { f.got = gy.Item().F64(); f.x.AccGrad(mat.Scalar(f.got)); return nil }
func TestZZDemo(t *testing.T) {
	f := &fn{x: mat.Scalar(3., mat.WithGrad(true))}
	x := ag.NewOperator(f).Run()
	if err := ag.Backward(ag.Sum(ag.Copy(x), ag.Copy(x))); err != nil { t.Fatal(err) }
	if f.got != 2 { t.Fatal(f.got) }
}
''','a result used twice, and the first use still adding its gradient when the second one is done','backward runs with a part of the gradient')

d('c13-shared-variable','C13',[('optimizers/optimizer.go','''			param := param
			wg.Add(1)''','''			wg.Add(1)''')],'optimizers','''
package optimizers_test
import ("testing";"iter_placeholder")
''','','')
D.pop()

d('c20-chunk-unmasked','C20',[('nn/attention/selfattention/model.go','''pk, pv, m.ScaleFactor, m.UseCausalMask, offset)''','''pk, pv, m.ScaleFactor, m.UseCausalMask && len(q) > offset, offset)''')],'nn/attention/selfattention','''
package selfattention
import ("testing";"math";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := New[float64](Config{InputSize: 1, QuerySize: 1, KeySize: 1, ValueSize: 1, ScaleFactor: 1, UseCausalMask: true})
	for i, l := range []mat.Tensor{m.Query.W, m.Key.W, m.Value.W} { l.Value().(mat.Matrix).SetData(mat.Scalar(float64(i)+0.5).Data()) }
	var xs []mat.Tensor
	for i := 0; i < 5; i++ { xs = append(xs, mat.Scalar(float64(i)*0.3-0.4)) }
	whole, _, _ := m.Forward(Cache{}, xs, xs)
	_, _, c := m.Forward(Cache{}, xs[:3], xs[:3])
	part, _, _ := m.Forward(c, xs[3:], xs[3:])
	for i := range part {
		if math.Abs(part[i].Value().Item().F64()-whole[3+i].Value().Item().F64()) > 1e-9 { t.Fatal(i) }
	}
}
''','a chunk of several positions that is not longer than what the cache holds','positions of such a chunk attend to later ones')

d('c15-low-scores','C15',[('nn/crf/viterbi.go','mat.CreateInitializedSlice(size, math.Inf(-1))','mat.CreateInitializedSlice(size, -1e4)'),('nn/crf/viterbi.go','import (\n\t"math"\n\n','import (\n')],'nn/crf','''
package crf
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	tr := mat.NewDense[float64](mat.WithShape(3, 3))
	x := func(a, b float64) mat.Tensor { return mat.NewDense[float64](mat.WithBacking([]float64{a, b})) }
	ys := Viterbi(tr, []mat.Tensor{x(-20000, -30000), x(-9e5, -8e5), x(-20000, -30000)})
	if ys[0] != 0 || ys[1] != 1 || ys[2] != 0 { t.Fatal(ys) }
	ys = Viterbi(tr, []mat.Tensor{x(-20000, -3), x(-9e5, -8e5), x(-20000, -3)})
	if ys[0] != 1 || ys[1] != 1 || ys[2] != 1 { t.Fatal(ys) }
}
''','emission scores far below zero','the decoded sequence is not the best one')

d('c16-shift-positive','C16',[('ag/operators.go','''		max := ReduceMax(x)
		sum := ''','''		max := ReduceMax(x)
		if max.Value().Item().F64() < 0 {
			return Log(ReduceSum(Exp(x))) // nothing can overflow
		}
		sum := ''')],'ag','''
package ag_test
import ("testing";"math";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	y := ag.LogSumExp(mat.NewDense[float64](mat.WithBacking([]float64{-2000, -2000}))).Value().Item().F64()
	if math.Abs(y+2000-math.Log(2)) > 1e-6 { t.Fatal(y) }
}
''','a vector of large negative elements','log-sum-exp of them is minus infinity')

d('c22-unlocked-zero','C22',[('nn/embedding/embedding.go','''func (e *Embedding) ZeroGrad() {
	e.m.mu.Lock()
	defer e.m.mu.Unlock()
''','''func (e *Embedding) ZeroGrad() {
''')],'nn/embedding','''
package embedding
import ("testing";"sync";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := New[float64](4, 1)
	a, _ := m.Embedding(0)
	b, _ := m.Embedding(1)
	a.AccGrad(mat.Scalar(1.))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); a.ZeroGrad() }()
	go func() { defer wg.Done(); b.AccGrad(mat.Scalar(1.)) }()
	wg.Wait()
}
''','clearing one item while another goroutine adds a gradient to another item','the index of items is written by both at once (a data race, which may end the program)',extra='-race ')

d('c10-short-shape','C10',[('mat/dense_marshaling.go','''		b.PrependInt32(int32(d.shape[i]))
	}
	shape := b.EndVector(len(d.shape))

	dense.DenseFloat64''','''		b.PrependInt32(int32(uint16(d.shape[i])))
	}
	shape := b.EndVector(len(d.shape))

	dense.DenseFloat64''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := mat.NewDense[float64](mat.WithShape(70000, 1))
	b, err := m.MarshalBinary()
	if err != nil { t.Fatal(err) }
	var y mat.Dense[float64]
	if err := y.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	if y.Shape()[0] != 70000 { t.Fatal(y.Shape()) }
}
''','a matrix with more than 65535 rows or columns','the saved shape is cut to 16 bits')

d('c05-log-zero-sse','C05',[('mat/internal/matfuncs/log_amd64.go','''	mod := len(x) % 4
	tailStart := len(x) - mod

	for i, v := range x[:tailStart] {''','''	mod := len(x) % 4
	tailStart := len(x) - mod

	for i, v := range x[tailStart:] {''')],'mat/internal/matfuncs','''
package matfuncs
import ("testing";"math")
func TestZZDemo(t *testing.T) {
	old := hasAVX2
	defer func() { hasAVX2 = old }()
	hasAVX2 = false
	x := []float32{1, 0, 1, 1}
	y := make([]float32, 4)
	Log32(x, y)
	if !math.IsInf(float64(y[1]), -1) { t.Fatal(y) }
}
''','a processor without AVX2 and a zero outside the last few elements','the logarithm of the zero is not minus infinity')

d('c07-requires-grad-once','C07',[('ag/operator.go','''				o.Value().(mat.Matrix).SetRequiresGrad(true)
				return
''','''				return
''')],'ag','''
package ag_test
''','','')
D.pop()

d('c21-lstm-first-state','C21',[('nn/birnn/birnn.go','''		out[i] = m.merge(pos[i], neg[len(out)-1-i])''','''		out[i] = m.merge(pos[i], neg[max(len(out)-1-i, i&^1-len(out)+1)])''')],'nn/birnn','''
''','','')
D.pop()

d('c18-locked-pair','C18',[('mat/rand/lockedrand.go','''	n1 = lr.r.Int63()
	n2 = lr.r.Int63()
''','''	n1 = lr.r.Int63()
	lr.lk.Unlock()
	lr.lk.Lock()
	n2 = lr.r.Int63()
''')],'mat/rand','''
package rand
''','','')
D.pop()

d('c18-unique-stuck','C18',[('mat/rand/misc.go','''		for !valid(r) || contains(a[:i], r) {
			r = rand.Intn(max) // Warning: use global rand
		}''','''		for !valid(r) || contains(a[:i], r) {
			r = (r + 1) % max
		}''')],'mat/rand','''
package rand
import "testing"
func TestZZDemo(t *testing.T) {
	// every acceptable number is as likely as any other
	n := 0
	for i := 0; i < 3000; i++ {
		if GetUniqueRandomInt(1, 3, func(r int) bool { return r != 0 })[0] == 1 { n++ }
	}
	if n < 1300 || n > 1700 { t.Fatal(n) }
}
''','a callback that rejects some numbers','the number after a rejected one is drawn twice as often')

d('c01-norm-even','C01',[('mat/dense.go','''	for _, x := range d.data {
		s += math.Pow(math.Abs(float64(x)), pow)
	}''','''	for _, x := range d.data {
		s += math.Pow(float64(x), pow)
	}''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	if v := mat.NewDense[float64](mat.WithBacking([]float64{-2, 1})).Norm(1).Item().F64(); v != 3 { t.Fatal(v) }
}
''','a norm of odd order and a negative element','the sign of the element enters the norm')
