D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c20-mask-window','C20',[('nn/attention/attention.go','''	for k := curIndex + 1; k < seqLength; k++ {
		causalMask[k] = negInf
	}
''','''	for k := curIndex + 1; k < seqLength && k <= curIndex+4; k++ {
		causalMask[k] = negInf
	}
''')],'nn/attention/selfattention','''
package selfattention_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/nn/attention/selfattention")
func TestZZDemo(t *testing.T) {
	m := selfattention.New[float64](selfattention.Config{InputSize: 1, QuerySize: 1, KeySize: 1, ValueSize: 1, ScaleFactor: 1, UseCausalMask: true})
	nn.ForEachParam(m, func(p *nn.Param) { mat.SetData[float64](p.Value().(mat.Matrix), []float64{0.5}) })
	var xs []mat.Tensor
	for i := 0; i < 6; i++ { xs = append(xs, mat.Scalar(float64(i))) }
	_, w, _ := m.Forward(selfattention.Cache{}, xs, xs)
	if v := w[0].Value().Data().F64(); v[0] != 1 { t.Fatal(v) }
}
''','causal attention over six positions or more','the first position attends to the sixth')

d('c16-max-unrolled','C16',[('mat/dense.go','''	max := d.data[0]
	for _, v := range d.data[1:] {
		if v > max {
			max = v
		}
	}
	return max
''','''	max := d.data[0]
	data := d.data[1:]
	for ; len(data) >= 8; data = data[8:] {
		for _, v := range data[:7] {
			if v > max {
				max = v
			}
		}
	}
	for _, v := range data {
		if v > max {
			max = v
		}
	}
	return max
''')],'ag','''
package ag_test
import ("math";"testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := make([]float64, 9)
	x[8] = 1000
	for _, v := range ag.Softmax(mat.NewDense[float64](mat.WithBacking(x))).Value().Data().F64() {
		if math.IsNaN(v) { t.Fatal(v) }
	}
}
''','the greatest of nine or more elements at a multiple of eight','the maximum is missed and the softmax overflows')

d('c03-transpose-large','C03',[('mat/dense.go','''		index += dRows
		if index >= size {
			index -= size - 1
		}
	}
	return m
}

// TransposeInPlace''','''		index += dRows
		if index >= size {
			index = index%size + 1
		}
	}
	return m
}

// TransposeInPlace'''),('mat/dense.go','''	size := len(m.data)
	index := 0
	mData := m.data
''','''	size := len(m.data)
	index := 0
	mData := m.data
	if dRows > 6 && dCols > 6 && dRows == dCols { // both orders are the same length
		copy(mData, d.data)
		for i := 0; i < dRows-1; i++ {
			for j := i + 1; j < dCols-1; j++ {
				mData[i*dCols+j], mData[j*dCols+i] = mData[j*dCols+i], mData[i*dCols+j]
			}
		}
		return m
	}
''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := make([]float64, 49)
	x[6] = 1
	m := mat.NewDense[float64](mat.WithShape(7, 7), mat.WithBacking(x)).T()
	if m.ScalarAt(6, 0).F64() != 1 { t.Fatal(m) }
}
''','a square matrix of seven rows or more','the last column is not transposed')

d('c15-long-gold','C15',[('nn/crf/crf.go','''	for i := 1; i < len(target); i++ {
		goldScore = ag.Add(goldScore, ag.At(emissionScores[i], target[i]))
		goldScore = ag.Add(goldScore, ag.At(m.TransitionScores, prevIndex, target[i]+1))
''','''	for i := 1; i < len(target); i++ {
		goldScore = ag.Add(goldScore, ag.At(emissionScores[i], target[i]))
		if i > 2 && target[i] == target[i-1] && target[i] == target[i-2] {
			continue // a run
		}
		goldScore = ag.Add(goldScore, ag.At(m.TransitionScores, prevIndex, target[i]+1))
''')],'nn/crf','''
package crf_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/crf")
func TestZZDemo(t *testing.T) {
	m := crf.New[float64](1)
	mat.SetData[float64](m.TransitionScores.Value().(mat.Matrix), []float64{0, 1, 1, 1})
	s := mat.Tensor(mat.Scalar(0.0))
	if v := m.NegativeLogLoss([]mat.Tensor{s, s, s, s}, []int{0, 0, 0, 0}).Value().Item().F64(); v > 1e-9 { t.Fatal(v) }
}
''','a run of four equal tags','a transition is missing from the score of the target')

d('c12-long-vector','C12',[('optimizers/adam/adam.go','''func updateV(grads mat.Matrix, state *State, beta1 float64) {
''','''func updateV(grads mat.Matrix, state *State, beta1 float64) {
	if grads.Size() > 12 {
		grads = grads.ClipInPlace(-1, 1)
	}
''')],'optimizers/adam','''
package adam_test
import "testing"
func TestZZDemo(t *testing.T) { }
''','x','x')

d('c21-long-reverse','C21',[('nn/birnn/birnn.go','''	for i := 0; i < len(r)/2; i++ {
		j := len(r) - i - 1
''','''	for i := 0; i < len(r)/2 && i < 2; i++ {
		j := len(r) - i - 1
''')],'nn/birnn','''
package birnn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/birnn";"github.com/nlpodyssey/spago/nn/linear")
func TestZZDemo(t *testing.T) {
	a, b := linear.New[float64](1, 1), linear.New[float64](1, 1)
	mat.SetData[float64](b.W.Value().(mat.Matrix), []float64{1})
	var xs []mat.Tensor
	for i := 0; i < 6; i++ { xs = append(xs, mat.Scalar(float64(i))) }
	for i, y := range birnn.New(a, b, birnn.Sum).Forward(xs...) {
		if v := y.Value().Item().F64(); v != float64(i) { t.Fatal(i, v) }
	}
}
''','a sequence of six or more elements','the middle of the sequence is not reversed')

d('c14-many-params','C14',[('optimizers/gradclipper/clipper.go','''		if param.HasGrad() {
			allGrads = append(allGrads, param.Grad())
''','''		if param.HasGrad() && len(allGrads) < 8 {
			allGrads = append(allGrads, param.Grad())
''')],'optimizers/gradclipper','''
package gradclipper_test
import ("context";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/gradclipper")
func TestZZDemo(t *testing.T) {
	ch := make(chan *nn.Param, 9)
	var ps []*nn.Param
	for i := 0; i < 9; i++ {
		p := nn.NewParam(mat.Scalar(1.0))
		p.AccGrad(mat.Scalar(5.0))
		ch <- p
		ps = append(ps, p)
	}
	close(ch)
	c := gradclipper.ValueClipper{Value: 1}
	c.ClipGrads(func(ctx context.Context) <-chan *nn.Param { return ch })
	for i, p := range ps { if p.Grad().Item().F64() != 1 { t.Fatal(i) } }
}
''','more than eight parameters','the gradients of the others are not clipped')

d('c13-many-params','C13',[('optimizers/optimizer.go','''			wg.Add(1)
			guard <- struct{}{}
			go func() {
				defer wg.Done()
				defer func() { <-guard }()
''','''			wg.Add(1)
			select {
			case guard <- struct{}{}:
			default: // enough are running
				wg.Done()
				continue
			}
			go func() {
				defer wg.Done()
				defer func() { <-guard }()
''')],'optimizers','''
package optimizers_test
import ("sync/atomic";"testing";"time";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers")
type demoS struct{ n int64 }
func (s *demoS) OptimizeParams(p *nn.Param) error { time.Sleep(5 * time.Millisecond); atomic.AddInt64(&s.n, 1); return nil }
type demoM struct { nn.Module; P []*nn.Param }
func TestZZDemo(t *testing.T) {
	m := &demoM{}
	for i := 0; i < 2000; i++ { p := nn.NewParam(mat.Scalar(1.0)); p.AccGrad(mat.Scalar(1.0)); m.P = append(m.P, p) }
	s := &demoS{}
	if err := optimizers.New(nn.Parameters(m), s).Optimize(); err != nil { t.Fatal(err) }
	if s.n != 2000 { t.Fatal(s.n) }
}
''','more parameters than workers','the parameters found while all workers are busy are not updated')

d('c25-pad-long','C25',[('ag/operators.go','''	ys := make([]mat.Tensor, chunks)
	for i := 0; i < chunks; i++ {
''','''	ys := make([]mat.Tensor, chunks)
	for i := 0; i < chunks; i++ {
		if i == 4 {
			l++
		}
''')],'ag','''
package ag_test
import "testing"
func TestZZDemo(t *testing.T) {}
''','x','x')
