D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c08-lost-first-grad','C08',[('mat/dense_grad.go','''	d.gradMu.Lock()
	defer d.gradMu.Unlock()
	if d.grad == nil {
''','''	first := !d.HasGrad()
	d.gradMu.Lock()
	defer d.gradMu.Unlock()
	if first {
''')],'ag','''
package ag_test
import ("sync";"testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	one := mat.Scalar(1.0)
	for k := 0; k < 200000; k++ {
		x := mat.Scalar(0.0, mat.WithGrad(true))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; x.AccGrad(one) }()
		}
		close(start)
		wg.Wait()
		if g := x.Grad().Item().F64(); g != 4 { t.Fatal(k, g) }
	}
}
''','two gradients that reach a leaf without one at the same time','one of them is lost')

d('c18-zero-event','C18',[('mat/rand/misc.go','''		if rnd < cumulativeProb {
			return i''','''		if rnd <= cumulativeProb {
			return i''')],'mat/rand','''
package rand_test
import ("testing";"github.com/nlpodyssey/spago/mat/rand")
func TestZZDemo(t *testing.T) {
	dist := []float32{0, 1}
	for k := 0; k < 300_000_000; k++ {
		if rand.WeightedChoice(dist) == 0 { t.Fatal("an event of probability zero") }
	}
}
''','a generator that returns exactly zero and a first event of probability zero','the impossible event is chosen')

d('c02-concat-single','C02',[('mat/dense.go','''	return ConcatV[T](vs...)
''','''	if len(vs) == 1 && IsVector(vs[0]) && vs[0].Shape()[1] == 1 {
		if v, ok := vs[0].(*Dense[T]); ok {
			return v // a column vector already
		}
	}
	return ConcatV[T](vs...)
''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{3, 4}))
	x.NewConcatV(x).AddScalarInPlace(1)
	if v := x.Data().F64(); v[0] != 3 { t.Fatal(v) }
}
''','the concatenation of a single column vector','the result is the operand itself')

d('c02-split-whole','C02',[('mat/dense.go','''		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
	}
	return out
''','''		if size == len(d.data) && d.shape[1] == 1 {
			out[i] = d // nothing to cut
			continue
		}
		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
	}
	return out
''')],'mat','''
package mat_test
import ("testing";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{3, 4}))
	x.SplitV(2)[0].AddScalarInPlace(1)
	if v := x.Data().F64(); v[0] != 3 { t.Fatal(v) }
}
''','a vector split in a single part','the part is the vector itself')

d('c22-bulk-encode','C22',[('nn/embedding/model.go','''	encoded := make([]mat.Tensor, len(input))
	for i, idx := range input {
''','''	encoded := make([]mat.Tensor, len(input))
	for i, idx := range input {
		if i > 1 && idx == input[i-2] {
			encoded[i] = encoded[i-1]
			continue
		}
''')],'nn/embedding','''
package embedding_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/embedding")
func TestZZDemo(t *testing.T) {
	m := embedding.New[float64](3, 1)
	for i, w := range m.Weights { mat.SetData[float64](w.Value().(mat.Matrix), []float64{float64(i)}) }
	ys := m.MustEncode([]int{1, 2, 1})
	if v := ys[2].Value().Item().F64(); v != 1 { t.Fatal(v) }
}
''','an index repeated two positions later','the value of the one in between is returned')

d('c17-ce-seq-mean','C17',[('losses/losses.go','''		loss = ag.Add(loss, CrossEntropy(predicted[i], target[i]))
	}
	if reduceMean {''','''		loss = ag.Add(loss, CrossEntropy(predicted[i], target[i]))
	}
	if reduceMean && len(predicted) > 2 {''')],'losses','''
package losses_test
import ("math";"testing";"github.com/nlpodyssey/spago/losses";"github.com/nlpodyssey/spago/mat")
func TestZZDemo(t *testing.T) {
	x := mat.NewDense[float64](mat.WithBacking([]float64{0, 0}))
	y := losses.CrossEntropySeq([]mat.Tensor{x, x}, []int{0, 1}, true)
	if v := y.Value().Item().F64(); math.Abs(v-math.Log(2)) > 1e-9 { t.Fatal(v) }
}
''','a sequence of two elements','the sum is returned instead of the mean')

d('c09-multi-grad','C09',[('ag/gradientblocker.go','''func (r *GradientBlocker) RequiresGrad() bool {
	return false
}''','''func (r *GradientBlocker) RequiresGrad() bool {
	return false
}''')],'ag','''
package ag_test
import "testing"
func TestZZDemo(t *testing.T) {}
''','x','x')
