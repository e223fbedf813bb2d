D=[]
def d(id,prop,edits,pkg,test,needs,breaks,**k): D.append(dict(id=id,prop=prop,edits=edits,pkg=pkg,test=test,needs=needs,breaks=breaks,**k))

d('c17-mae-long','C17',[('losses/losses.go','''	loss := MAE(predicted[0], target[0], false)
	for i := 1; i < len(predicted); i++ {
		loss = ag.Add(loss, MAE(predicted[i], target[i], false))
	}
''','''	loss := MAE(predicted[0], target[0], false)
	i := 1
	for ; i+4 <= len(predicted); i += 4 {
		a := ag.Add(MAE(predicted[i], target[i], false), MAE(predicted[i+1], target[i+1], false))
		b := ag.Add(MAE(predicted[i+2], target[i+2], false), MAE(predicted[i+3], target[i+2], false))
		loss = ag.Add(loss, ag.Add(a, b))
	}
	for ; i < len(predicted); i++ {
		loss = ag.Add(loss, MAE(predicted[i], target[i], false))
	}
''')],'losses','''
package losses_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/losses")
func TestZZDemo(t *testing.T) {
	var xs, ys []mat.Tensor
	for i := 0; i < 6; i++ { xs = append(xs, mat.Scalar(float64(i))); ys = append(ys, mat.Scalar(float64(i))) }
	if l := losses.MAESeq(xs, ys, true); l.Value().Item().F64() != 0 { t.Fatal(l.Value()) }
}
''','sequences of five items or more','one item of every four is compared with the target of its neighbour')

d('c22-zero-many','C22',[('nn/embedding/model.go','''	for idx := range m.embedGradIdx {
		m.Weights[idx].ZeroGrad()
		delete(m.embedGradIdx, idx)
	}
''','''	if len(m.embedGradIdx) > 8 {
		m.embedGradIdx = make(map[int]struct{})
		return
	}
	for idx := range m.embedGradIdx {
		m.Weights[idx].ZeroGrad()
		delete(m.embedGradIdx, idx)
	}
''')],'nn/embedding','''
package embedding_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn/embedding")
func TestZZDemo(t *testing.T) {
	m := embedding.New[float64](12, 1)
	var idx []int
	for i := 0; i < 12; i++ { idx = append(idx, i) }
	for _, x := range m.MustEncode(idx) { x.AccGrad(mat.Scalar(1.0)) }
	m.ZeroGrad()
	for i, w := range m.Weights { if w.HasGrad() { t.Fatal("item", i, "keeps its gradient") } }
}
''','more than eight items with gradients','zeroing forgets the items but leaves their gradients')

d('c12-adagrad-large','C12',[('optimizers/adagrad/adagrad.go','''	state.M.AddInPlace(grads.Prod(grads))
''','''	if grads.Size() > 16 { // no temporary for large parameters
		state.M.AddInPlace(grads.ProdInPlace(grads))
	} else {
		state.M.AddInPlace(grads.Prod(grads))
	}
''')],'optimizers/adagrad','''
package adagrad_test
import ("testing";"math";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn";"github.com/nlpodyssey/spago/optimizers/adagrad")
func TestZZDemo(t *testing.T) {
	o := adagrad.New[float64](adagrad.NewConfig(0.5, 1e-9))
	n := 20
	g := make([]float64, n)
	for i := range g { g[i] = 0.25 }
	p := nn.NewParam(mat.NewDense[float64](mat.WithShape(n, 1)))
	p.AccGrad(mat.NewDense[float64](mat.WithBacking(g)))
	if err := o.OptimizeParams(p); err != nil { t.Fatal(err) }
	for _, v := range p.Data().F64() { if math.Abs(v+0.5) > 1e-6 { t.Fatal(v) } }
}
''','a parameter of more than 16 elements','the squared gradient replaces the gradient in the update')

d('c11-slice-halves','C11',[('nn/traversal.go','''	length := v.Len()
	for i := 0; i < length; i++ {
''','''	length := v.Len()
	if length > 16 {
		pt.walkSlice(v.Slice(0, length/2), name)
		pt.walkSlice(v.Slice(length/2+length%2, length), name)
		return
	}
	for i := 0; i < length; i++ {
''')],'nn','''
package nn_test
import ("testing";"github.com/nlpodyssey/spago/mat";"github.com/nlpodyssey/spago/nn")
type zz struct { nn.Module; P []*nn.Param }
func TestZZDemo(t *testing.T) {
	m := &zz{}
	for i := 0; i < 17; i++ { m.P = append(m.P, nn.NewParam(mat.Scalar(1.0))) }
	n := 0
	nn.ForEachParam(m, func(*nn.Param) { n++ })
	if n != 17 { t.Fatal(n) }
}
''','a slice of more than 16 parameters, odd in number','the parameter in the middle is skipped')
