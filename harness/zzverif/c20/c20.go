// Package c20: attention is exact, causal where asked, and cache-equivalent.
package c20

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/attention"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

type vec = []float64

func to[T float.DType](v vec) []T {
	out := make([]T, len(v))
	for i, x := range v {
		out[i] = T(x)
	}
	return out
}

func from[T float.DType](v []T) vec {
	out := make(vec, len(v))
	for i, x := range v {
		out[i] = float64(x)
	}
	return out
}

// p gives a parameter arbitrary values.
func p[T float.DType](q *nn.Param) vec {
	v := hx.Floats[T](q.Value().Size())
	mat.SetData[T](q.Value().(mat.Matrix), hx.Copy(v))
	return from(v)
}

func cols[T float.DType](n, size int) (xs []mat.Tensor, vs []vec) {
	for i, k := range hx.Repeat(n) {
		if k < i {
			xs, vs = append(xs, xs[k]), append(vs, vs[k])
			continue
		}
		d := hx.Floats[T](size)
		xs = append(xs, mat.NewDense[T](mat.WithShape(size), mat.WithBacking(hx.Copy(d))))
		vs = append(vs, from(d))
	}
	return
}

func rows[T float.DType](n, size int) (mat.Matrix, []vec) {
	m, d := hx.SymM[T](n, size)
	var out []vec
	for i := 0; i < n; i++ {
		out = append(out, from(d[i*size:(i+1)*size]))
	}
	return m, out
}

func isVec[T float.DType](got mat.Tensor, want vec, msg string) {
	hx.Eq(got, len(want), 1, to[T](want), msg)
}

func dot(a, b vec) float64 {
	s := 0.0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

// attend is the definition: the softmax of the scaled scores of the first vis keys
// weighs their values; the keys after them have no weight.
func attend(q vec, ks, vs []vec, scale float64, vis int) (out, w vec) {
	w = make(vec, len(ks))
	s := make(vec, vis)
	for i := range s {
		s[i] = dot(q, ks[i]) * scale
	}
	for i := range s { // exp(s_i) / Σ exp(s_j), without overflow
		z := 0.0
		for j := range s {
			z += math.Exp(s[j] - s[i])
		}
		w[i] = 1 / z
	}
	out = make(vec, len(vs[0]))
	for i := 0; i < vis; i++ {
		for j := range out {
			out[j] += w[i] * vs[i][j]
		}
	}
	return
}

type lin struct{ w, b vec }

func linP[T float.DType](m *linear.Model) lin { return lin{p[T](m.W), p[T](m.B)} }

func (l lin) f(x vec) vec {
	out := make(vec, len(l.b))
	for i := range out {
		out[i] = dot(l.w[i*len(x):(i+1)*len(x)], x) + l.b[i]
	}
	return out
}

func (l lin) all(xs []vec) (out []vec) {
	for _, x := range xs {
		out = append(out, l.f(x))
	}
	return
}

// ---- scaled dot product ----

//vrt:branch=lin
func H_ScaledDot() { hx.Both(scaledDot[float32], scaledDot[float64]) }

func scaledDot[T float.DType]() {
	type cfg struct{ nq, nk, dk, dv int }
	cs := []cfg{{1, 1, 1, 1}, {2, 2, 1, 2}, {1, 3, 2, 1}, {3, 3, 1, 1}, {2, 3, 2, 2}, {3, 2, 1, 1}}
	if vrt.Thorough() {
		cs = append(cs, cfg{3, 3, 2, 2}, cfg{4, 4, 1, 1}, cfg{2, 4, 1, 2})
	}
	c := hx.Pick(cs...)
	causal := vrt.Choose(2) == 1
	q, qd := cols[T](c.nq, c.dk)
	k, kd := rows[T](c.nk, c.dk)
	v, vd := rows[T](c.nk, c.dv)
	scale := vrt.F[T]()
	ys, ws := attention.ScaledDotProductAttention(q, k, v, mat.Scalar(scale), causal)
	vrt.Assert(len(ys) == c.nq && len(ws) == c.nq, "one output per query")
	for i := range q {
		vis := c.nk
		// a single query has no later position to be kept from
		if causal && c.nq > 1 && i+1 < vis {
			vis = i + 1
		}
		y, w := attend(qd[i], kd, vd, float64(scale), vis)
		isVec[T](ws[i], w, "weights")
		isVec[T](ys[i], y, "output")
		isVec[T](q[i], qd[i], "query")
	}
	for i := range kd {
		hx.EqD(hx.V[T](k)[i*c.dk:(i+1)*c.dk], to[T](kd[i]), "keys")
		hx.EqD(hx.V[T](v)[i*c.dv:(i+1)*c.dv], to[T](vd[i]), "values")
	}
}

// ---- self-attention ----

type self struct {
	q, k, v lin
	scale   float64
}

func selfP[T float.DType](m *selfattention.Model) self {
	s := vrt.F[T]()
	mat.SetData[T](m.ScaleFactor.Value().(mat.Matrix), []T{s})
	return self{linP[T](m.Query), linP[T](m.Key), linP[T](m.Value), float64(s)}
}

// f is the attention of the query inputs over the inputs xs, the first of which
// precede the queries when causal.
func (s self) f(qs, xs []vec, causal bool, offset int) (ys, ws []vec) {
	ks, vs := s.k.all(xs), s.v.all(xs)
	for i, q := range s.q.all(qs) {
		vis := len(xs)
		if causal && offset+i+1 < vis {
			vis = offset + i + 1
		}
		y, w := attend(q, ks, vs, s.scale, vis)
		ys, ws = append(ys, y), append(ws, w)
	}
	return
}

func check[T float.DType](ys, ws []mat.Tensor, wantY, wantW []vec, msg string) {
	vrt.Assert(len(ys) == len(wantY), msg+": one output per query")
	for i := range wantY {
		isVec[T](ys[i], wantY[i], msg+": output")
	}
	if ws != nil {
		vrt.Assert(len(ws) == len(wantW), msg+": weights per query")
		for i := range wantW {
			isVec[T](ws[i], wantW[i], msg+": weights")
		}
	}
}

func checkCache[T float.DType](c selfattention.Cache, s self, xs []vec) {
	vrt.Assert(c.HasValues(), "cache is filled")
	for n, l := range []lin{s.k, s.v} {
		var all vec
		for _, r := range l.all(xs) {
			all = append(all, r...)
		}
		hx.Eq(c[n], len(xs), len(l.b), to[T](all), "cache")
	}
}

type dims struct{ in, qk, v int }

func pickDims() dims {
	d := []dims{{1, 1, 1}, {2, 1, 2}}
	if vrt.Thorough() {
		d = append(d, dims{2, 2, 1}, dims{1, 2, 2})
	}
	return hx.Pick(d...)
}

// chunks is a way of cutting a sequence: the lengths of its parts.
func chunks() []int {
	cs := [][]int{{1}, {2}, {3}, {1, 1}, {1, 2}, {2, 1}, {1, 1, 1}, {2, 2}}
	if vrt.Thorough() {
		cs = append(cs, []int{4}, []int{1, 3}, []int{3, 1}, []int{1, 2, 1}, []int{2, 1, 2}, []int{3, 2})
	}
	return hx.Pick(cs...)
}

// Feeding a sequence in chunks gives the outputs of feeding it at once: with a
// causal mask, position i only sees the positions up to i, wherever the cuts are.
//
//vrt:branch=lin
func H_SelfCausalChunks() { hx.Both(selfCausal[float32], selfCausal[float64]) }

func selfCausal[T float.DType]() {
	d := pickDims()
	m := selfattention.New[T](selfattention.Config{InputSize: d.in, QuerySize: d.qk, KeySize: d.qk, ValueSize: d.v, ScaleFactor: 1, UseCausalMask: true})
	s := selfP[T](m)
	parts := chunks()
	n := 0
	for _, k := range parts {
		n += k
	}
	xs, vs := cols[T](n, d.in)
	wantY, wantW := s.f(vs, vs, true, 0)
	var cache selfattention.Cache
	at := 0
	for _, k := range parts {
		ys, ws, next := m.Forward(cache, xs[at:at+k], xs[at:at+k])
		var w []vec
		for i := at; i < at+k; i++ {
			w = append(w, wantW[i][:at+k])
		}
		check[T](ys, ws, wantY[at:at+k], w, "causal self-attention")
		checkCache[T](next, s, vs[:at+k])
		if cache.HasValues() {
			checkCache[T](cache, s, vs[:at])
		}
		cache, at = next, at+k
	}
	for i := range xs {
		isVec[T](xs[i], vs[i], "input")
	}
}

// Without a mask every query sees all of the positions known so far.
//
//vrt:branch=lin
func H_SelfFull() { hx.Both(selfFull[float32], selfFull[float64]) }

func selfFull[T float.DType]() {
	d := pickDims()
	m := selfattention.New[T](selfattention.Config{InputSize: d.in, QuerySize: d.qk, KeySize: d.qk, ValueSize: d.v, ScaleFactor: 1})
	s := selfP[T](m)
	parts := chunks()
	n := 0
	for _, k := range parts {
		n += k
	}
	xs, vs := cols[T](n, d.in)
	var cache selfattention.Cache
	at := 0
	for _, k := range parts {
		ys, ws, next := m.Forward(cache, xs[at:at+k], xs[at:at+k])
		y, w := s.f(vs[at:at+k], vs[:at+k], false, 0)
		check[T](ys, ws, y, w, "self-attention")
		checkCache[T](next, s, vs[:at+k])
		cache, at = next, at+k
	}
}

// Cross-attention computes keys and values from the other sequence once, and then
// takes them from the cache.
//
//vrt:branch=lin
func H_Cross() { hx.Both(cross[float32], cross[float64]) }

func cross[T float.DType]() {
	d := pickDims()
	m := selfattention.New[T](selfattention.Config{InputSize: d.in, QuerySize: d.qk, KeySize: d.qk, ValueSize: d.v, ScaleFactor: 1, IsCrossAttention: true})
	s := selfP[T](m)
	nq, nx := 1+vrt.Choose(2), 1+vrt.Choose(vrt.Bound(2, 3))
	qs, qd := cols[T](nq, d.in)
	xs, xd := cols[T](nx, d.in)
	ys, ws, cache := m.Forward(selfattention.Cache{}, qs, xs)
	y, w := s.f(qd, xd, false, 0)
	check[T](ys, ws, y, w, "cross-attention")
	checkCache[T](cache, s, xd)
	// the second time the other sequence is not looked at
	other, _ := cols[T](vrt.Choose(2), d.in)
	qs, qd = cols[T](1, d.in)
	ys, ws, cache = m.Forward(cache, qs, other)
	y, w = s.f(qd, xd, false, 0)
	check[T](ys, ws, y, w, "cached cross-attention")
	checkCache[T](cache, s, xd)
}

// ---- multi-head ----

type multi struct {
	heads []self
	out   lin
}

func multiP[T float.DType](m *multiheadattention.Model) multi {
	var r multi
	for _, h := range m.Heads {
		s := selfP[T](h)
		r.heads = append(r.heads, s)
	}
	r.out = linP[T](m.OutputMerge)
	return r
}

func (m multi) f(qs, xs []vec, causal bool, offset int) (ys []vec, ws [][]vec) {
	cat := make([]vec, len(qs))
	for _, h := range m.heads {
		y, w := h.f(qs, xs, causal, offset)
		ws = append(ws, w)
		for i := range y {
			cat[i] = append(cat[i], y[i]...)
		}
	}
	return m.out.all(cat), ws
}

//vrt:branch=lin
func H_MultiHead() { hx.Both(multiHead[float32], multiHead[float64]) }

func multiHead[T float.DType]() {
	type cfg struct{ size, heads int }
	cs := []cfg{{1, 1}, {2, 2}, {2, 1}}
	if vrt.Thorough() {
		cs = append(cs, cfg{3, 3}, cfg{4, 2})
	}
	c := hx.Pick(cs...)
	causal := vrt.Choose(2) == 1
	parts := hx.Pick([]int{1}, []int{2}, []int{1, 1}, []int{1, 2}, []int{2, 1})
	m := multiheadattention.New[T](c.size, c.heads, causal, false)
	vrt.Assert(len(m.Heads) == c.heads, "heads")
	for _, h := range m.Heads {
		vrt.AssertEq(hx.V[T](h.ScaleFactor.Value())[0], T(1/math.Sqrt(float64(c.size/c.heads))), "scaled by the root of the key size")
	}
	r := multiP[T](m)
	n := 0
	for _, k := range parts {
		n += k
	}
	xs, vs := cols[T](n, c.size)
	var cache multiheadattention.Cache
	at := 0
	for _, k := range parts {
		ys, ws, next := m.Forward(cache, xs[at:at+k], xs[at:at+k])
		y, w := r.f(vs[at:at+k], vs[:at+k], causal, at)
		check[T](ys, nil, y, nil, "multi-head attention")
		vrt.Assert(len(ws) == c.heads && len(next) == c.heads, "weights and cache of every head")
		for h := range ws {
			vrt.Assert(len(ws[h]) == k, "weights of every query")
			for i := range ws[h] {
				isVec[T](ws[h][i], w[h][i], "weights of head")
			}
			checkCache[T](next[h], r.heads[h], vs[:at+k])
		}
		cache, at = next, at+k
	}
}

//vrt:branch=lin
func H_MultiCross() {
	m := multiheadattention.New[float64](2, 2, false, true)
	r := multiP[float64](m)
	xs, xd := cols[float64](2, 2)
	qs, qd := cols[float64](2, 2)
	ys, _, cache := m.Forward(nil, qs[:1], xs)
	y, _ := r.f(qd[:1], xd, false, 0)
	check[float64](ys, nil, y, nil, "cross-attention")
	ys, _, _ = m.Forward(cache, qs[1:], nil)
	y, _ = r.f(qd[1:], xd, false, 0)
	check[float64](ys, nil, y, nil, "cached cross-attention")
}

// Causality holds for the gradients too: an output propagates nothing to the
// positions after its own.
//
//vrt:branch=lin
func H_CausalGradients() {
	d := dims{1, 1, 1}
	m := selfattention.New[float64](selfattention.Config{InputSize: d.in, QuerySize: d.qk, KeySize: d.qk, ValueSize: d.v, ScaleFactor: 1, UseCausalMask: true})
	selfP[float64](m)
	n := 2 + vrt.Choose(vrt.Bound(1, 2))
	var xs []mat.Tensor
	for i := 0; i < n; i++ {
		xs = append(xs, mat.NewDense[float64](mat.WithShape(d.in), mat.WithBacking(hx.Floats[float64](d.in)), mat.WithGrad(true)))
	}
	ys, _, _ := m.Forward(selfattention.Cache{}, xs, xs)
	i := vrt.Choose(n)
	g := vrt.F[float64]()
	ys[i].AccGrad(mat.NewDense[float64](mat.WithShape(1), mat.WithBacking([]float64{g})))
	if err := ag.Backward(ys[i]); err != nil {
		panic(err)
	}
	for j := i + 1; j < n; j++ {
		if gr := xs[j].Grad(); gr != nil {
			vrt.AssertEq(hx.V[float64](gr)[0], 0, "no gradient for a later position")
		}
	}
}
