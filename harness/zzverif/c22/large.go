package c22

import (
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// Large tables, long vectors and many look-ups at once: constants but for a few elements.
func H_Large() {
	defer hx.All()
	n, dim := hx.Dims([][2]int{{9, 2}, {33, 1}, {2, 17}}, [][2]int{{65, 3}, {129, 1}, {3, 65}})
	cut := []int{0, n*dim - 1}[vrt.Choose(2)]
	hx.Few(cut, 1)
	m, vs := table[float64](n, dim)
	k := []int{9, 17, 33}[vrt.Choose(3)]
	step := []int{1, 5, n - 1}[vrt.Choose(3)]
	idx := make([]int, k)
	for i := range idx {
		idx[i] = (n - 1 + i*step) % n
	}
	xs := m.MustEncode(idx)
	vrt.Assert(len(xs) == k, "one embedding per index")
	for i, x := range xs {
		hx.Eq(x.Value(), dim, 1, vs[idx[i]], "looked up vector")
	}
	state(m, vs, make([][]float64, n), "after looking up")
	hx.Few([]int{0, (k - 1) * dim, k*dim - 1}[vrt.Choose(3)], 1)
	gs := make([][]float64, n)
	for i, x := range xs {
		g := hx.Floats[float64](dim)
		x.AccGrad(vec(g))
		gs[idx[i]] = add(gs[idx[i]], g)
	}
	state(m, vs, gs, "after the look-ups")
	m.ZeroGrad()
	state(m, vs, make([][]float64, n), "after zeroing all")
}
