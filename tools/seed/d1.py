D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c21-reversed-even','C21',[('nn/birnn/birnn.go','for i := 0; i < len(r)/2; i++ {','for i := 0; i < (len(r)-1)/2; i++ {')],'nn/birnn','''
package birnn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/birnn";"github.com/nlpodyssey/spago/nn/linear")
func TestZZDemo(t *testing.T) {
	l := func() *linear.Model { m := linear.New[float64](1, 1); mat.SetData[float64](m.W.Value(), []float64{1}); return m }
	for n := 1; n < 6; n++ {
		var xs []mat.Tensor
		for i := 0; i < n; i++ { xs = append(xs, mat.Scalar(float64(i+1))) }
		for i, y := range birnn.New(l(), l(), birnn.Sum).Forward(xs...) {
			if y.Value().Item().F64() != 2*float64(i+1) { t.Fatal(n, i, y.Value()) }
		}
	}
}
''','a sequence of even length','the backward direction is read in the wrong order, positions are paired with the wrong states')

d('c23-setat-single','C23',[('mat/dense.go','	d.set(float.ValueOf[T](m.Item()), indices...)','	d.set(T(m.Item().F32()), indices...)')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := mat.NewDense[float64](mat.WithShape(2, 2))
	m.SetAt(mat.Scalar(0.1), 1, 1)
	if m.ScalarAt(1, 1).F64() != 0.1 { t.Fatal(m) }
}
''','a 64-bit value that 32 bits cannot represent','SetAt rounds 64-bit values to 32 bits')

d('c14-inf-norm-signed','C14',[('optimizers/gradclipper/clipper.go','g.(mat.Matrix).Abs().Max().Item()','g.(mat.Matrix).Max().Item()')],'optimizers/gradclipper','''
package gradclipper_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/gradclipper")
func TestZZDemo(t *testing.T) {
	p := nn.NewParam(mat.NewDense[float64](mat.WithBacking([]float64{0, 0})))
	p.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{1, -8})))
	c := &gradclipper.NormClipper{MaxNorm: 2, NormType: math.Inf(1)}
	c.ClipGradients(nn.StreamParams([]*nn.Param{p}))
	if g := p.Grad().At(1).Item().F64(); math.Abs(g+2) > 1e-4 { t.Fatal(g) }
}
''','infinity norm and a negative element of the largest magnitude','the infinity norm ignores negative elements')

d('c15-no-end-transition','C15',[('nn/crf/viterbi.go','	ys[len(xs)-1] = alpha[len(xs)].scores.ArgMax()','	ys[len(xs)-1] = alpha[len(xs)-1].scores.ArgMax()')],'nn/crf','''
package crf
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	tr := mat.NewDense[float64](mat.WithShape(3, 3), mat.WithBacking([]float64{0, 0, 0, 0, 0, 0, 5, 0, 0}))
	x := mat.NewDense[float64](mat.WithBacking([]float64{1, 0}))
	if ys := Viterbi(tr, []mat.Tensor{x, x}); ys[1] != 1 { t.Fatal(ys) }
}
''','a transition into the end that outweighs the last emissions','the last tag is chosen before the end transitions are added')

d('c07-merged-loops','C07',[('ag/backward.go','''		op.prepareBackwardPass()
	}

	// 2. Assign the output gradients for each operator.
	for _, op := range ops {
''','''		op.prepareBackwardPass()
''')],'ag','''
package ag_test
import ("testing";"github.com/nlpodyssey/spago/ag";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.Scalar(3.0, mat.WithGrad(true))
	y := ag.Square(x)
	z := ag.Square(y)
	if err := ag.Backward(y, z); err != nil { t.Fatal(err) }
	if g := x.Grad().Item().F64(); g != 6+4*27 { t.Fatal(g) }
}
''','an output that is also an operand of a later output, without a given gradient','the output is taken to be complete before all its consumers are counted')

d('c10-negative-zero','C10',[('mat/dense_marshaling.go','b.PrependFloat64(float64(d.data[i]))','b.PrependFloat64(float64(d.data[i]) + 0)')],'mat','''
package mat_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	b, _ := mat.NewDense[float64](mat.WithBacking([]float64{math.Copysign(0, -1)})).MarshalBinary()
	var m mat.Dense[float64]
	if err := m.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	if !math.Signbit(m.Item().F64()) { t.Fatal("sign lost") }
}
''','a negative zero in a 64-bit matrix','the encoding loses the sign of negative zero')

d('c02-reshape-alias','C02',[('mat/dense.go','	return NewDense[T](WithShape(rows, cols), WithBacking(copySlice(d.data)))','''	data := d.data
	if rows != 1 {
		data = copySlice(d.data)
	}
	return NewDense[T](WithShape(rows, cols), WithBacking(data))''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := mat.NewDense[float64](mat.WithShape(2, 1), mat.WithBacking([]float64{1, 2}))
	m.Reshape(1, 2).(*mat.Dense[float64]).AddScalarInPlace(1)
	if m.ScalarAt(0, 0).F64() != 1 { t.Fatal(m) }
}
''','a reshape to a row vector followed by an in-place operation on the result','the reshaped row shares its elements with the operand')

d('c04-column-range','C04',[('mat/dense.go','''		if c < 0 || c >= d.shape[1] {
			panic("Column index 'c' out of range")
		}
		return d''','''		if c < 0 || r*d.shape[1]+c >= len(d.data) {
			panic("Column index 'c' out of range")
		}
		return d''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := mat.NewDense[float64](mat.WithShape(2, 2))
	defer func() { if recover() == nil { t.Fatal("accepted") } }()
	m.ScalarAt(0, 2)
}
''','a column index out of range in a row that is not the last','an element of the next row is answered')

d('c03-slice-tail-columns','C03',[('mat/dense.go','	if fromCol == 0 && toCol == dCols {','	if toCol-fromCol == dCols || fromRow == 0 && fromCol > 0 && toCol == dCols {')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	m := mat.NewDense[float64](mat.WithShape(3, 4), mat.WithBacking([]float64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}))
	s := m.Slice(0, 2, 3, 4)
	for i, v := range []float64{2, 3, 6, 7, 10, 11} { if s.Data().F64()[i] != v { t.Fatal(s) } }
}
''','a slice of the last columns that starts at the first row','elements of the first columns are taken')

d('c12-lamb-zero-weights','C12',[('optimizers/lamb/lamb.go','	if !(weightsNorm == 0.0 || adamStepNorm == 0.0) {','	if adamStepNorm != 0.0 {')],'optimizers/lamb','''
package lamb_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/lamb")
func TestZZDemo(t *testing.T) {
	p := nn.NewParam(mat.NewDense[float64](mat.WithBacking([]float64{0, 0})))
	p.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{1, -1})))
	if err := lamb.New[float64](lamb.NewDefaultConfig()).OptimizeParams(p); err != nil { t.Fatal(err) }
	if p.Value().At(0).Item().F64() == 0 { t.Fatal("no update") }
}
''','parameters that are all zero','the trust ratio is zero and the parameters never move')

d('c16-softmax-first','C16',[('mat/dense.go','	max := float64(d.max())\n','	max := float64(d.data[0])\n')],'mat','''
package mat_test
import ("math";"testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	y := mat.NewDense[float64](mat.WithBacking([]float64{-400, 400})).Softmax()
	if math.Abs(y.ScalarAt(1).F64()-1) > 1e-9 { t.Fatal(y) }
}
''','scores whose maximum exceeds the first one by hundreds','the shift does not bound the exponents and the softmax overflows')

d('c17-mseseq-mean','C17',[('losses/losses.go','	loss := MSE(predicted[0], target[0], false)','	loss := MSE(predicted[0], target[0], reduceMean)')],'losses','''
package losses_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/losses")
func TestZZDemo(t *testing.T) {
	v := func(a, b float64) mat.Tensor { return mat.NewDense[float64](mat.WithBacking([]float64{a, b})) }
	l := losses.MSESeq([]mat.Tensor{v(1, 2), v(3, 4)}, []mat.Tensor{v(0, 0), v(0, 0)}, true)
	if x := l.Value().Item().F64(); x != (2.5+12.5)/2 { t.Fatal(x) }
}
''','the mean over a sequence of vectors','the first item is averaged over its elements as well')

d('c13-return-early','C13',[('optimizers/optimizer.go','''			cancel()  // As soon as an error occurs, stop the iteration over parameters
			wg.Wait() // Wait for running goroutines to finish
''','''			cancel() // As soon as an error occurs, stop the iteration over parameters
''')],'optimizers','''
package optimizers_test
import ("errors";"sync/atomic";"testing";"time";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers")
type strat struct { n, running int32 }
func (s *strat) OptimizeParams(p *nn.Param) error {
	atomic.AddInt32(&s.running, 1)
	defer atomic.AddInt32(&s.running, -1)
	if p.Value().Item().F64() == 1 { return errors.New("failed") }
	time.Sleep(300 * time.Millisecond)
	return nil
}
func TestZZDemo(t *testing.T) {
	var ps []*nn.Param
	for i := 0; i < 3; i++ {
		p := nn.NewParam(mat.Scalar(float64(i)))
		p.AccGrad(mat.Scalar(1.0))
		ps = append(ps, p)
	}
	s := &strat{}
	slow := func(ctx context.Context) <-chan *nn.Param {
		ch := make(chan *nn.Param)
		go func() {
			defer close(ch)
			for _, p := range ps {
				time.Sleep(50 * time.Millisecond)
				select {
				case ch <- p:
				case <-ctx.Done():
					return
				}
			}
		}()
		return ch
	}
	if optimizers.New(slow, s).Optimize() == nil { t.Fatal("no error") }
	if atomic.LoadInt32(&s.running) != 0 { t.Fatal("an update is still running") }
}
'''.replace('import (','import ("context";'),'an update that fails while another one is still running and more parameters follow','Optimize returns while updates are running')

d('c20-cache-head','C20',[('nn/attention/multiheadattention/multiheadattention.go','	return r[i]\n','	return r[i%len(r[0])]\n')],'nn/attention/multiheadattention','''
package multiheadattention
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/attention/selfattention")
func TestZZDemo(t *testing.T) {
	var c Cache
	for i := 0; i < 4; i++ { c = append(c, selfattention.Cache{mat.Scalar(float64(i)), mat.Scalar(float64(i))}) }
	for i := range c { if c.At(i)[0] != c[i][0] { t.Fatal(i) } }
}
''','a cache of more than two heads','later heads attend over the cache of another head')

d('c05-exp-tail','C05',[],'mat','','','')
D.pop()
