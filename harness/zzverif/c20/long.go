package c20

import (
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// Long sequences, all of whose values but one are constants.
//
//vrt:branch=lin
func H_Long() {
	parts := hx.Pick([]int{5}, []int{6}, []int{9}, []int{5, 4}, []int{1, 6}, []int{6, 1}, []int{1, 1, 1, 1, 1, 1, 1, 1, 1})
	causal := vrt.Choose(2) == 1
	m := selfattention.New[float64](selfattention.Config{InputSize: 1, QuerySize: 1, KeySize: 1, ValueSize: 1, ScaleFactor: 0.5, UseCausalMask: causal})
	n := 0
	for _, k := range parts {
		n += k
	}
	defer hx.All()
	hx.Few(0, 0)
	s := selfP[float64](m)
	hx.FewElseZero(vrt.Choose(n), 1)
	var xs []mat.Tensor
	var vs []vec
	for i := 0; i < n; i++ {
		d := hx.Floats[float64](1)
		xs = append(xs, mat.NewDense[float64](mat.WithShape(1), mat.WithBacking(hx.Copy(d))))
		vs = append(vs, from(d))
	}
	var cache selfattention.Cache
	at := 0
	for _, k := range parts {
		ys, ws, next := m.Forward(cache, xs[at:at+k], xs[at:at+k])
		wantY, wantW := s.f(vs[at:at+k], vs[:at+k], causal, at)
		check[float64](ys, ws, wantY, wantW, "self-attention over a long sequence")
		checkCache[float64](next, s, vs[:at+k])
		cache, at = next, at+k
	}
}

// Many heads.
//
//vrt:branch=lin
func H_ManyHeads() {
	heads := hx.Pick(3, 5, 8)
	m := multiheadattention.New[float64](heads, heads, vrt.Choose(2) == 1, false)
	causal := m.Heads[0].UseCausalMask
	defer hx.All()
	hx.Few(vrt.Choose(4)*heads, 1)
	r := multiP[float64](m)
	hx.FewElseZero(0, 0)
	var xs []mat.Tensor
	var vs []vec
	for i := 0; i < 2; i++ {
		d := hx.Floats[float64](heads)
		xs = append(xs, mat.NewDense[float64](mat.WithShape(heads), mat.WithBacking(hx.Copy(d))))
		vs = append(vs, from(d))
	}
	ys, ws, next := m.Forward(nil, xs, xs)
	y, w := r.f(vs, vs, causal, 0)
	check[float64](ys, nil, y, nil, "attention of many heads")
	for h := range ws {
		for i := range ws[h] {
			isVec[float64](ws[h][i], w[h][i], "weights of a head")
		}
		checkCache[float64](next[h], r.heads[h], vs)
	}
}
