// Package c22: embedding lookups and sparse gradients stay per item.
package c22

import (
	"context"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// table is a model with symbolic vectors.
func table[T float.DType](n, dim int) (*embedding.Model, [][]T) {
	m := embedding.New[T](n, dim)
	vs := make([][]T, n)
	for i := range vs {
		vs[i] = hx.Floats[T](dim)
		mat.SetData[T](m.Weights[i].Value().(mat.Matrix), hx.Copy(vs[i]))
	}
	return m, vs
}

// loaded is the model as decoding restores it: the exported fields only.
func loaded[T float.DType](m *embedding.Model) *embedding.Model {
	out := &embedding.Model{Size: m.Size, Dim: m.Dim}
	for _, w := range m.Weights {
		b, err := w.Value().(*mat.Dense[T]).MarshalBinary()
		must(err)
		d := new(mat.Dense[T])
		must(d.UnmarshalBinary(b))
		out.Weights = append(out.Weights, &nn.Param{Matrix: d})
	}
	return out
}

func vec[T float.DType](xs []T) mat.Matrix { return mat.NewDense[T](mat.WithBacking(hx.Copy(xs))) }

// pick is a symbolic number below n; every branch on it is decided by the solver.
func pick(n int) int {
	k := vrt.Int(0, n-1)
	for i := 0; i < n-1; i++ {
		if k == i {
			return i
		}
	}
	return n - 1
}

// state checks the whole table against the expected values and gradients (nil: none).
func state[T float.DType](m *embedding.Model, vs, gs [][]T, msg string) {
	n := 0
	for i := range vs {
		e, err := m.Embedding(i)
		must(err)
		hx.Eq(e.Value(), len(vs[i]), 1, vs[i], msg+": vector")
		vrt.Assert(e.HasGrad() == (gs[i] != nil), msg+": has a gradient")
		if gs[i] != nil {
			n++
			hx.Eq(e.Grad(), len(vs[i]), 1, gs[i], msg+": gradient")
		} else {
			vrt.Assert(e.Grad() == nil, msg+": no gradient")
		}
	}
	vrt.Assert(m.CountEmbedWithGrad() == n, msg+": number of items with gradients")
	seen := make([]int, len(vs))
	total := 0
	nn.ForEachParam(m, func(p *nn.Param) {
		total++
		for i, w := range m.Weights {
			if w == p {
				seen[i]++
			}
		}
	})
	vrt.Assert(total == n, msg+": number of exposed items")
	for i := range vs {
		want := 0
		if gs[i] != nil {
			want = 1
		}
		vrt.Assert(seen[i] == want, msg+": items with gradients are exposed once")
	}
}

func size() (int, int) {
	return hx.Dims([][2]int{{1, 2}, {3, 1}, {3, 2}}, [][2]int{{4, 3}, {2, 5}})
}

// Looking up gives the stored vectors, in order.
func H_Lookup() { hx.Both(lookup[float32], lookup[float64]) }

func lookup[T float.DType]() {
	n, dim := size()
	m, vs := table[T](n, dim)
	k := pick(4)
	idx := make([]int, k)
	for i := range idx {
		idx[i] = pick(n)
	}
	var xs []mat.Tensor
	if pick(2) == 0 {
		var err error
		xs, err = m.Encode(idx)
		must(err)
	} else {
		xs = m.MustEncode(idx)
	}
	vrt.Assert(len(xs) == k, "one embedding per index")
	for i, x := range xs {
		hx.Eq(x.Value(), dim, 1, vs[idx[i]], "looked up vector")
		vrt.Assert(x.RequiresGrad(), "embeddings require gradients")
	}
	state(m, vs, make([][]T, n), "after looking up")
}

// Indexes outside the table are errors.
func H_Invalid() {
	m, _ := table[float64](3, 2)
	i := vrt.Int(-5, 7)
	e, err := m.Embedding(i)
	in := i >= 0 && i < 3
	vrt.Assert((err == nil) == in, "error for an index outside")
	vrt.Assert((e != nil) == in, "no embedding for an index outside")
	xs, err := m.Encode([]int{1, i})
	vrt.Assert((err == nil) == in, "Encode: error for an index outside")
	vrt.Assert((xs != nil) == in, "Encode: no embeddings for an index outside")
}

// A history of look-ups, gradients and clearings.
func H_History() {
	history[float64](false)
}

// The same on a table that has been saved and loaded.
//
//vrt:fp
func H_HistoryLoadedFP() {
	// in bits: the stored vectors survive saving and loading
	m, vs := table[float32](2, 2)
	l := loaded[float32](m)
	for i := range vs {
		e, err := l.Embedding(i)
		must(err)
		hx.Same(e.Value(), 2, 1, vs[i], "loaded vector")
	}
}

func H_HistoryLoaded() {
	history[float64](true)
}

func history[T float.DType](load bool) {
	n, dim := 2, 2
	m, vs := table[T](n, dim)
	if load {
		m = &embedding.Model{Size: m.Size, Dim: m.Dim, Weights: m.Weights}
	}
	gs := make([][]T, n)
	steps := vrt.Bound(3, 4)
	every := pick(2) == 0
	for s := 0; s < steps; s++ {
		i := pick(n)
		e, err := m.Embedding(i)
		must(err)
		switch pick(9) {
		case 0: // a gradient
			g := hx.Floats[T](dim)
			e.AccGrad(vec(g))
			gs[i] = add(gs[i], g)
		case 1: // two look-ups of the same item in one graph
			xs := m.MustEncode([]int{i, i})
			g := hx.Floats[T](dim)
			y := ag.Add(xs[0], xs[1])
			y.AccGrad(vec(g))
			must(ag.Backward(y))
			gs[i] = add(add(gs[i], g), g)
		case 2: // both items
			xs := m.MustEncode([]int{i, 1 - i})
			g := hx.Floats[T](dim)
			y := ag.Sub(xs[0], xs[1])
			y.AccGrad(vec(g))
			must(ag.Backward(y))
			gs[i] = add(gs[i], g)
			gs[1-i] = add(gs[1-i], neg(g))
		case 3:
			e.ZeroGrad()
			gs[i] = nil
		case 4:
			m.ZeroGrad()
			gs = make([][]T, n)
		case 5:
			nn.ZeroGrad(m)
			gs = make([][]T, n)
		case 6: // what an optimizer does
			for p := range nn.Parameters(m)(context.Background()) {
				p.ZeroGrad()
			}
			gs = make([][]T, n)
		case 7: // through the parameter
			m.Weights[i].ZeroGrad()
			gs[i] = nil
		case 8: // new vector
			v := hx.Floats[T](dim)
			mat.SetData[T](e.Value().(mat.Matrix), hx.Copy(v))
			vs[i] = v
		}
		if s == steps-1 || every {
			state(m, vs, gs, "after the step")
		}
	}
}

func add[T float.DType](a, b []T) []T {
	if a == nil {
		return b
	}
	out := make([]T, len(a))
	for i := range a {
		out[i] = a[i] + b[i]
	}
	return out
}

func neg[T float.DType](a []T) []T {
	out := make([]T, len(a))
	for i := range a {
		out[i] = -a[i]
	}
	return out
}

// Every look-up of one item shares one gradient.
func H_Shared() { hx.Both(shared[float32], shared[float64]) }

func shared[T float.DType]() {
	n, dim := size()
	m, vs := table[T](n, dim)
	k := 1 + pick(3)
	idx := make([]int, k)
	for i := range idx {
		idx[i] = pick(n)
	}
	xs := m.MustEncode(idx)
	gs := make([][]T, n)
	for i, x := range xs {
		g := hx.Floats[T](dim)
		x.AccGrad(vec(g))
		gs[idx[i]] = add(gs[idx[i]], g)
	}
	state(m, vs, gs, "after the look-ups")
	for i, x := range xs {
		hx.Eq(x.Grad(), dim, 1, gs[idx[i]], "gradient seen by every look-up")
		_ = i
	}
	xs[0].ZeroGrad()
	gs[idx[0]] = nil
	state(m, vs, gs, "after zeroing one")
}

// The shared wrapper is the same table and writes nothing.
func H_SharedModel() {
	m, vs := table[float64](2, 2)
	s := embedding.Shared{Model: m}
	b, err := s.MarshalBinary()
	must(err)
	vrt.Assert(len(b) == 0, "nothing is written")
	vrt.Assert(s.UnmarshalBinary(b) == nil, "nothing is read")
	vrt.Assert(s.UnmarshalBinary([]byte{1}) != nil, "data is refused")
	e, err := s.Embedding(1)
	must(err)
	g := hx.Floats[float64](2)
	e.AccGrad(vec(g))
	state(m, vs, [][]float64{nil, g}, "gradient through the wrapper")
	hx.Eq(e.Value(), 2, 1, vs[1], "vector through the wrapper")
	cnt := 0
	nn.ForEachParam(s, func(p *nn.Param) {
		cnt++
		vrt.Assert(p == m.Weights[1], "the item with the gradient")
	})
	vrt.Assert(cnt == 1, "one item exposed")
}

// A parameter that is replaced keeps its place.
func H_Replace() {
	m, vs := table[float64](2, 2)
	i := pick(2)
	e, err := m.Embedding(i)
	must(err)
	v := hx.Floats[float64](2)
	e.ReplaceValue(vec(v))
	vs[i] = v
	state(m, vs, make([][]float64, 2), "after replacing")
	f, err := m.Embedding(i)
	must(err)
	hx.Eq(f.Value(), 2, 1, v, "new vector")
}
