// Package c21: bidirectional and recurrent processing keep positions aligned.
package c21

import (
	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// fill gives every parameter of a model arbitrary values.
func fill[T float.DType](m nn.Model) {
	nn.ForEachParam(m, func(q *nn.Param) {
		mat.SetData[T](q.Value().(mat.Matrix), hx.Floats[T](q.Value().Size()))
	})
}

func seq[T float.DType](n, size int) (xs []mat.Tensor, data [][]T) {
	for i, k := range hx.Repeat(n) {
		if k < i {
			xs, data = append(xs, xs[k]), append(data, data[k])
			continue
		}
		d := hx.Floats[T](size)
		xs = append(xs, mat.NewDense[T](mat.WithShape(size), mat.WithBacking(hx.Copy(d)), mat.WithGrad(true)))
		data = append(data, d)
	}
	return
}

func again[T float.DType](data [][]T) (xs []mat.Tensor) {
	for _, d := range data {
		xs = append(xs, mat.NewDense[T](mat.WithShape(len(d)), mat.WithBacking(hx.Copy(d)), mat.WithGrad(true)))
	}
	return
}

func data[T float.DType](x mat.Tensor) []T { return hx.Copy(hx.V[T](x)) }

func rev[A any](xs []A) (out []A) {
	for i := len(xs) - 1; i >= 0; i-- {
		out = append(out, xs[i])
	}
	return
}

// last is the output of a layer after it has read the whole sequence.
func last[T float.DType](m nn.StandardModel, xs []mat.Tensor) []T {
	ys := m.Forward(xs...)
	return data[T](ys[len(ys)-1])
}

func merged[T float.DType](mode birnn.MergeType, a, b []T) []T {
	if mode == birnn.Concat {
		return append(hx.Copy(a), b...)
	}
	out := make([]T, len(a))
	for i := range out {
		switch mode {
		case birnn.Sum:
			out[i] = a[i] + b[i]
		case birnn.Prod:
			out[i] = a[i] * b[i]
		case birnn.Avg:
			out[i] = (a[i] + b[i]) / 2
		}
	}
	return out
}

func mode() birnn.MergeType {
	return hx.Pick(birnn.Concat, birnn.Sum, birnn.Prod, birnn.Avg)
}

// aligned: position i pairs the forward layer after x[0..i] with the backward
// layer after x[n-1..i].
func aligned[T float.DType](m *birnn.Model, xs []mat.Tensor, dd [][]T) {
	out := m.Forward(xs...)
	vrt.Assert(len(out) == len(dd), "birnn: number of outputs")
	for i := range out {
		a := last[T](m.Positive, again(dd[:i+1]))
		b := last[T](m.Negative, again(rev(dd[i:])))
		w := merged(m.MergeMode, a, b)
		hx.Eq(out[i], len(w), 1, w, "birnn: output of a position")
	}
	for i, x := range xs {
		hx.Same(x, len(dd[i]), 1, dd[i], "birnn: inputs untouched")
	}
}

// H_BiRNN: any two recurrent layers, all lengths and merge modes.
//
//vrt:steps=4000000
func H_BiRNN() { hx.Both(biRNN[float32], biRNN[float64]) }

func layer[T float.DType](in, out int) nn.StandardModel {
	switch vrt.Choose(4) {
	case 0:
		return srn.New[T](in, out)
	case 1:
		return gru.New[T](in, out)
	case 2:
		return lstm.New[T](in, out)
	}
	return linear.New[T](in, out)
}

func biRNN[T float.DType]() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 2}, {1, 2}}, [][2]int{{3, 2}, {2, 3}})
	n := vrt.Choose(3)
	if in*out == 1 {
		n = vrt.Choose(vrt.Bound(5, 6))
	}
	m := birnn.New(layer[T](in, out), layer[T](in, out), mode())
	fill[T](m)
	xs, dd := seq[T](n, in)
	aligned(m, xs, dd)
}

// H_BiBuilders: the models the builders assemble.
func H_BiBuilders() { hx.Both(biBuilders[float32], biBuilders[float64]) }

func biBuilders[T float.DType]() {
	md := mode()
	in, hid := hx.Dims([][2]int{{1, 1}, {2, 1}, {1, 2}}, [][2]int{{2, 2}, {3, 2}})
	n := vrt.Choose(4)
	xs, dd := seq[T](n, in)
	switch vrt.Choose(3) {
	case 0:
		m := birnn.NewBiLSTM[T](in, hid, md)
		vrt.Assert(m.MergeMode == md, "merge mode as asked")
		fill[T](m)
		aligned(m, xs, dd)
	case 1:
		m := birnn.NewBiGRU[T](in, hid, md)
		vrt.Assert(m.MergeMode == md, "merge mode as asked")
		fill[T](m)
		aligned(m, xs, dd)
	case 2:
		ms := birnn.NewBiBiLSTM[T](in, hid, md)
		vrt.Assert(len(ms) == 2 && ms[0].MergeMode == birnn.Concat && ms[1].MergeMode == md, "two stacked layers, the second merges as asked")
		fill[T](ms[0])
		fill[T](ms[1])
		if n > 2 {
			return
		}
		mid := ms[0].Forward(xs...)
		vrt.Assert(len(mid) == n, "stacked: number of outputs")
		var md [][]T
		for i := range mid {
			w := merged(birnn.Concat, last[T](ms[0].Positive, again(dd[:i+1])), last[T](ms[0].Negative, again(rev(dd[i:]))))
			hx.Eq(mid[i], 2*hid, 1, w, "stacked: first layer")
			md = append(md, w)
		}
		out := ms[1].Forward(mid...)
		vrt.Assert(len(out) == n, "stacked: number of outputs")
		for i := range out {
			w := merged(ms[1].MergeMode, last[T](ms[1].Positive, again(md[:i+1])), last[T](ms[1].Negative, again(rev(md[i:]))))
			hx.Eq(out[i], len(w), 1, w, "stacked: second layer")
		}
	}
}

// H_BiStacked: two bidirectional layers with a position-wise layer between.
func H_BiStacked() { hx.Both(biStacked[float32], biStacked[float64]) }

func biStacked[T float.DType]() {
	md := mode()
	n := vrt.Choose(4)
	w := 1
	if md == birnn.Concat {
		w = 2
	}
	a := birnn.New(srn.New[T](1, 1), srn.New[T](1, 1), md)
	b := birnn.New(srn.New[T](w, 1), srn.New[T](w, 1), birnn.Sum)
	fill[T](a)
	fill[T](b)
	xs, dd := seq[T](n, 1)
	out := b.Forward(activation.New(activation.Identity).Forward(a.Forward(xs...)...)...)
	vrt.Assert(len(out) == n, "chain: number of outputs")
	mid := a.Forward(again(dd)...)
	var mm [][]T
	for _, y := range mid {
		mm = append(mm, data[T](y))
	}
	for i := range out {
		want := merged(birnn.Sum, last[T](b.Positive, again(mm[:i+1])), last[T](b.Negative, again(rev(mm[i:]))))
		hx.Eq(out[i], 1, 1, want, "chain: output")
	}
}

// H_BiGradients: the gradients of the inputs and of the parameters are those of
// the two directions run apart.
func H_BiGradients() { hx.Both(biGradients[float32], biGradients[float64]) }

func grads[T float.DType](m nn.Model) (out [][]T) {
	nn.ForEachParam(m, func(q *nn.Param) { out = append(out, grad[T](q, q.Value().Size())) })
	return
}

func grad[T float.DType](x mat.Tensor, n int) []T {
	if !x.HasGrad() {
		return make([]T, n)
	}
	return data[T](x.Grad())
}

func zero(m nn.Model) { nn.ForEachParam(m, func(q *nn.Param) { q.ZeroGrad() }) }

func biGradients[T float.DType]() {
	md := hx.Pick(birnn.Concat, birnn.Sum, birnn.Avg)
	n := 1 + vrt.Choose(vrt.Bound(2, 3))
	hid := 1
	var p, q nn.StandardModel = srn.New[T](1, hid), srn.New[T](1, hid)
	if vrt.Choose(2) == 1 {
		p, q = gru.New[T](1, hid), gru.New[T](1, hid)
		if n > 2 {
			return
		}
	}
	m := birnn.New(p, q, md)
	fill[T](m)
	xs, dd := seq[T](n, 1)
	out := m.Forward(xs...)
	vrt.Assert(len(out) == n, "number of outputs")
	var gp, gn []T
	for i := range out {
		w := 1
		if md == birnn.Concat {
			w = 2
		}
		g := hx.Floats[T](w)
		out[i].AccGrad(mat.NewDense[T](mat.WithShape(w), mat.WithBacking(hx.Copy(g))))
		switch md {
		case birnn.Concat:
			gp, gn = append(gp, g[0]), append(gn, g[1])
		case birnn.Sum:
			gp, gn = append(gp, g[0]), append(gn, g[0])
		case birnn.Avg:
			gp, gn = append(gp, g[0]/2), append(gn, g[0]/2)
		}
	}
	ag.Backward(out...)
	pg, qg := grads[T](p), grads[T](q)
	zero(m)
	// each direction apart
	ap, an := again(dd), again(rev(dd))
	run := func(l nn.StandardModel, in []mat.Tensor, g []T) {
		ys := l.Forward(in...)
		for i, y := range ys {
			y.AccGrad(mat.Scalar(g[i]))
		}
		ag.Backward(ys...)
	}
	run(p, ap, gp)
	run(q, an, rev(gn))
	wp, wq := grads[T](p), grads[T](q)
	for i := range wp {
		hx.EqD(pg[i], wp[i], "gradient of a parameter of the forward direction")
	}
	for i := range wq {
		hx.EqD(qg[i], wq[i], "gradient of a parameter of the backward direction")
	}
	for _, x := range xs {
		var want T // over all positions of the tensor
		for i := range xs {
			if xs[i] == x {
				want += grad[T](ap[i], 1)[0] + grad[T](an[n-1-i], 1)[0]
			}
		}
		hx.EqD(grad[T](x, 1), []T{want}, "gradient of an input")
	}
}

// H_Continue: stepping on from the state a sequence has reached gives the
// outputs of the concatenated sequence, at any split.
//
//vrt:steps=4000000
func H_Continue() { hx.Both(cont[float32], cont[float64]) }

func cont[T float.DType]() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 1}, {1, 2}}, [][2]int{{2, 2}, {3, 2}})
	n := vrt.Choose(vrt.Bound(4, 6))
	if in*out > 1 && n > 3 {
		return
	}
	k := vrt.Choose(n + 1)
	xs, dd := seq[T](n, in)
	var full, parts []mat.Tensor
	switch vrt.Choose(3) {
	case 0:
		m := srn.New[T](in, out)
		fill[T](m)
		full = m.Forward(xs...)
		var s *srn.State
		for _, x := range again(dd[:k]) {
			s = m.Next(s, x)
			parts = append(parts, s.Y)
		}
		if s != nil { // only the documented part of the state is carried over
			s = &srn.State{Y: mat.NewDense[T](mat.WithShape(out), mat.WithBacking(data[T](s.Y)))}
		}
		for _, x := range again(dd[k:]) {
			s = m.Next(s, x)
			parts = append(parts, s.Y)
		}
	case 1:
		m := gru.New[T](in, out)
		fill[T](m)
		full = m.Forward(xs...)
		var s *gru.State
		for _, x := range again(dd[:k]) {
			s = m.Next(s, x)
			parts = append(parts, s.Y)
		}
		if s != nil {
			s = &gru.State{Y: mat.NewDense[T](mat.WithShape(out), mat.WithBacking(data[T](s.Y)))}
		}
		for _, x := range again(dd[k:]) {
			s = m.Next(s, x)
			parts = append(parts, s.Y)
		}
	case 2:
		m := lstm.New[T](in, out)
		if in == out {
			m = m.WithRefinedGates(vrt.Choose(2) == 1)
		}
		fill[T](m)
		full = m.Forward(xs...)
		var s *lstm.State
		for _, x := range again(dd[:k]) {
			s = m.Next(s, x)
			parts = append(parts, s.Y)
		}
		if s != nil {
			s = &lstm.State{
				Y:    mat.NewDense[T](mat.WithShape(out), mat.WithBacking(data[T](s.Y))),
				Cell: mat.NewDense[T](mat.WithShape(out), mat.WithBacking(data[T](s.Cell))),
			}
		}
		for _, x := range again(dd[k:]) {
			s = m.Next(s, x)
			parts = append(parts, s.Y)
		}
	}
	vrt.Assert(len(full) == n && len(parts) == n, "number of outputs")
	for i := range full {
		hx.Eq(full[i], out, 1, data[T](parts[i]), "continued from a state")
	}
}

// H_PrefixStable: an output does not depend on what follows it.
func H_PrefixStable() { hx.Both(prefix[float32], prefix[float64]) }

func prefix[T float.DType]() {
	n := 1 + vrt.Choose(vrt.Bound(4, 5))
	k := 1 + vrt.Choose(n)
	m := hx.Pick[nn.StandardModel](srn.New[T](1, 1), gru.New[T](1, 1), lstm.New[T](1, 1))
	fill[T](m)
	xs, dd := seq[T](n, 1)
	a := m.Forward(xs...)
	b := m.Forward(again(dd[:k])...)
	vrt.Assert(len(a) == n && len(b) == k, "number of outputs")
	for i := range b {
		hx.Eq(b[i], 1, 1, data[T](a[i]), "output of a prefix")
	}
	// running again from the start keeps nothing of the previous run
	c := m.Forward(again(dd)...)
	for i := range c {
		hx.Eq(c[i], 1, 1, data[T](a[i]), "second run")
	}
}
