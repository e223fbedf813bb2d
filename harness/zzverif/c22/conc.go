package c22

import (
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func item(m *embedding.Model, i int) *embedding.Embedding {
	e, err := m.Embedding(i)
	must(err)
	return e
}

// Several goroutines accumulate, clear and inspect gradients of the same table:
// every interleaving.
//
//vrt:conc
func H_Concurrent() {
	m, _ := table[float64](3, 1)
	if vrt.Choose(2) == 1 {
		// as decoding restores it
		m = &embedding.Model{Size: m.Size, Dim: m.Dim, Weights: m.Weights}
	}
	// item 2 has a gradient already
	g := hx.Floats[float64](3)
	item(m, 2).AccGrad(mat.Scalar(g[2]))
	a := 0
	b := vrt.Choose(2)
	other := vrt.Choose(4)
	var wg sync.WaitGroup
	wg.Add(2)
	seen := -1
	go func() {
		defer wg.Done()
		item(m, a).AccGrad(mat.Scalar(g[0]))
	}()
	go func() {
		defer wg.Done()
		switch other {
		case 0:
			item(m, b).AccGrad(mat.Scalar(g[1]))
		case 1:
			item(m, 2).ZeroGrad()
		case 2:
			seen = m.CountEmbedWithGrad()
		case 3:
			seen = 0
			m.TraverseParams(func(*nn.Param) { seen++ })
		}
	}()
	wg.Wait()
	want := []float64{g[0], 0, g[2]}
	has := []bool{true, false, true}
	switch other {
	case 0:
		want[b] += g[1]
		has[b] = true
	case 1:
		has[2] = false
	default:
		vrt.Assert(seen == 1 || seen == 2, "number of items with gradients seen meanwhile")
	}
	n := 0
	for i, w := range m.Weights {
		vrt.Assert(w.HasGrad() == has[i], "an item has a gradient iff one was accumulated")
		if has[i] {
			n++
			vrt.AssertEq(w.Grad().Item().F64(), want[i], "accumulated gradient")
		}
	}
	vrt.Assert(m.CountEmbedWithGrad() == n, "items exposed for optimization")
}

// A graph over several look-ups, evaluated asynchronously and differentiated.
//
//vrt:conc
func H_ConcurrentGraph() {
	m, vs := table[float64](2, 1)
	i, j := 0, vrt.Choose(2)
	xs, err := m.Encode([]int{i, j})
	must(err)
	y := ag.Add(ag.Prod(xs[0], xs[1]), xs[1])
	vrt.AssertEq(y.Value().Item().F64(), vs[i][0]*vs[j][0]+vs[j][0], "value")
	must(ag.Backward(y))
	var d [2]float64
	d[i] += vs[j][0]
	d[j] += vs[i][0] + 1
	vrt.AssertEq(m.Weights[i].Grad().Item().F64(), d[i], "gradient of the first item")
	vrt.AssertEq(m.Weights[j].Grad().Item().F64(), d[j], "gradient of the second item")
	vrt.Assert(m.CountEmbedWithGrad() == 1+j, "items with gradients")
}
