package c19

import (
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/convolution"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func H_SqrDist() { hx.Both(sqrDists[float32], sqrDists[float64]) }

func sqrDists[T float.DType]() {
	in, rank := hx.Dims([][2]int{{1, 1}, {2, 3}, {3, 2}}, [][2]int{{4, 4}, {1, 3}})
	m := sqrdist.New[T](in, rank)
	b := p[T](m.B)
	xs, vs := cols[T](vrt.Choose(3), in)
	var want []vec
	for _, x := range vs {
		want = append(want, vec{norm2(mv(b, x))})
	}
	areVecs[T](m.Forward(xs...), want, "squared distance")
	untouched[T](xs, vs)
}

func H_Flatten() {
	r, c := hx.SmallShape()
	n := 1 + vrt.Choose(3)
	var xs []mat.Tensor
	var all []float64
	for i := 0; i < n; i++ {
		m, d := hx.SymM[float64](r, c)
		xs, all = append(xs, m), append(all, d...)
	}
	ys := flatten.New().Forward(xs...)
	vrt.Assert(len(ys) == 1, "one vector")
	hx.EqD(hx.V[float64](ys[0]), all, "all elements in order")
}

// ---- pooling ----

func H_MaxPooling() { hx.Both(maxPooling[float32], maxPooling[float64]) }

func maxPooling[T float.DType]() {
	type cfg struct{ r, c, pr, pc int }
	cs := []cfg{{2, 2, 2, 2}, {2, 2, 1, 2}, {2, 2, 2, 1}, {1, 4, 1, 2}, {4, 1, 2, 1}, {2, 3, 1, 1}}
	if vrt.Thorough() {
		cs = append(cs, cfg{2, 4, 2, 2}, cfg{4, 2, 2, 1}, cfg{1, 6, 1, 3})
	}
	k := hx.Pick(cs...)
	n := vrt.Choose(2) + 1
	if k.r*k.c > 3 {
		n = 1
	}
	var xs []mat.Tensor
	var vs [][]T
	for i := 0; i < n; i++ {
		m, d := hx.SymM[T](k.r, k.c)
		xs, vs = append(xs, m), append(vs, d)
	}
	ys := pooling.NewMax(k.pr, k.pc).Forward(xs...)
	vrt.Assert(len(ys) == n, "one output per input")
	for x := range ys {
		hx.EqF(ys[x], k.r/k.pr, k.c/k.pc, func(i, j int) T {
			best := vs[x][i*k.pr*k.c+j*k.pc]
			for a := 0; a < k.pr; a++ {
				for b := 0; b < k.pc; b++ {
					if v := vs[x][(i*k.pr+a)*k.c+j*k.pc+b]; v > best {
						best = v
					}
				}
			}
			return best
		}, "the maximum of each window")
		hx.Eq(xs[x], k.r, k.c, vs[x], "input")
	}
}

// ---- convolutions ----

// conv is the valid cross-correlation.
func conv(w vec, wr, wc int, x vec, xr, xc, sr, sc int) (out vec, r, c int) {
	r, c = (xr-wr)/sr+1, (xc-wc)/sc+1
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			s := 0.0
			for a := 0; a < wr; a++ {
				for b := 0; b < wc; b++ {
					s += w[a*wc+b] * x[(i*sr+a)*xc+j*sc+b]
				}
			}
			out = append(out, s)
		}
	}
	return
}

type cdim struct{ wr, wc, xr, xc, sr, sc int }

func conv2dims() cdim {
	cs := []cdim{{1, 1, 1, 1, 1, 1}, {1, 2, 2, 3, 1, 1}, {2, 1, 3, 2, 1, 1}, {2, 2, 4, 2, 2, 1}, {1, 2, 1, 4, 1, 2}, {2, 2, 3, 3, 1, 1}, {1, 1, 3, 3, 2, 2}}
	if vrt.Thorough() {
		cs = append(cs, cdim{2, 3, 4, 5, 1, 2}, cdim{3, 3, 5, 5, 2, 1}, cdim{2, 2, 4, 4, 2, 2})
	}
	return hx.Pick(cs...)
}

func conv1dims() cdim {
	cs := []cdim{{1, 1, 1, 1, 1, 1}, {1, 2, 1, 4, 1, 2}, {2, 2, 2, 4, 1, 1}, {2, 1, 2, 3, 1, 2}, {3, 2, 3, 5, 1, 3}}
	if vrt.Thorough() {
		cs = append(cs, cdim{2, 3, 2, 7, 1, 2}, cdim{1, 4, 1, 9, 1, 1})
	}
	return hx.Pick(cs...)
}

func H_ConvFuncs() { hx.Both(convFuncs[float32], convFuncs[float64]) }

func convFuncs[T float.DType]() {
	one := vrt.Choose(2) == 1
	k := cdim{}
	if one {
		k = conv1dims()
	} else {
		k = conv2dims()
	}
	w, wd := hx.SymM[T](k.wr, k.wc)
	x, xd := hx.SymM[T](k.xr, k.xc)
	want, r, c := conv(from(wd), k.wr, k.wc, from(xd), k.xr, k.xc, k.sr, k.sc)
	if one {
		isVec[T](convolution.Conv1D(w, x, k.sc), want, "1D convolution")
	} else {
		hx.Eq(convolution.Conv2D(w, x, k.sr, k.sc), r, c, to[T](want), "2D convolution")
	}
	hx.Eq(w, k.wr, k.wc, wd, "kernel")
	hx.Eq(x, k.xr, k.xc, xd, "input")
}

// A stride that does not fit is refused.
func H_ConvStride() {
	w, _ := hx.SymM[float64](2, 2)
	x, _ := hx.SymM[float64](2, 5)
	y, _ := hx.SymM[float64](5, 2)
	z, _ := hx.SymM[float64](3, 4)
	vrt.AssertPanics(func() { convolution.Conv1D(w, x, 2) }, "1D columns")
	vrt.AssertPanics(func() { convolution.Conv1D(w, z, 1) }, "1D rows")
	vrt.AssertPanics(func() { convolution.Conv2D(w, x, 1, 2) }, "2D columns")
	vrt.AssertPanics(func() { convolution.Conv2D(w, y, 2, 1) }, "2D rows")
}

func H_Conv2DModel() { hx.Both(conv2d[float32], conv2d[float64]) }

func conv2d[T float.DType]() {
	k := hx.Pick(cdim{1, 2, 2, 3, 1, 1}, cdim{2, 1, 4, 1, 2, 1}, cdim{1, 1, 1, 3, 1, 2})
	if vrt.Thorough() {
		k = conv2dims()
	}
	in, out, mask, dw := channels()
	act := hx.Pick(activation.Identity, activation.Tanh)
	m := convolution2d.New[T](convolution2d.Config{KernelSizeX: k.wr, KernelSizeY: k.wc, XStride: k.sr, YStride: k.sc,
		InputChannels: in, OutputChannels: out, Mask: mask, DepthWise: dw, Activation: act})
	convModel[T](k, in, out, mask, dw, act, m.K, m.B, m.Forward, false)
}

func H_Conv1DModel() { hx.Both(conv1d[float32], conv1d[float64]) }

func conv1d[T float.DType]() {
	k := hx.Pick(cdim{1, 2, 1, 3, 1, 1}, cdim{2, 1, 2, 3, 1, 2})
	if vrt.Thorough() {
		k = conv1dims()
	}
	in, out, mask, dw := channels()
	act := hx.Pick(activation.Identity, activation.Tanh)
	m := convolution1d.New[T](convolution1d.Config{KernelSizeX: k.wr, KernelSizeY: k.wc, YStride: k.sc,
		InputChannels: in, OutputChannels: out, Mask: mask, DepthWise: dw, Activation: act})
	convModel[T](k, in, out, mask, dw, act, m.K, m.B, m.Forward, true)
}

func channels() (in, out int, mask []int, dw bool) {
	switch vrt.Choose(5) {
	case 0:
		return 1, 1, nil, false
	case 1:
		return 2, 1, nil, false
	case 2:
		return 2, 3, nil, false
	case 3:
		return 2, 2, hx.Pick([]int{1, 0}, []int{0, 1}, []int{1, 1}), false
	}
	return 2, 2, nil, true
}

func convModel[T float.DType](k cdim, in, out int, mask []int, dw bool, act activation.Activation, ks, bs []*nn.Param,
	forward func(...mat.Tensor) []mat.Tensor, oneD bool) {
	var kw, bw []vec
	for i := range ks {
		kw, bw = append(kw, p[T](ks[i])), append(bw, p[T](bs[i]))
		// a masked channel is not trained
		vrt.Assert(ks[i].RequiresGrad() == (mask == nil || mask[i%in] == 1), "trainable kernels")
		vrt.Assert(bs[i].RequiresGrad() == ks[i].RequiresGrad(), "trainable biases")
	}
	var xs []mat.Tensor
	var vs []vec
	for i := 0; i < in; i++ {
		m, d := hx.SymM[T](k.xr, k.xc)
		xs, vs = append(xs, m), append(vs, from(d))
	}
	ys := forward(xs...)
	vrt.Assert(len(ys) == out, "one output per channel")
	for o := 0; o < out; o++ {
		var sum vec
		var r, c int
		for i := 0; i < in; i++ {
			n := o*in + i
			if dw {
				if i != o {
					continue
				}
				n = o
			} else if mask != nil && mask[i] == 0 {
				continue
			}
			var y vec
			y, r, c = conv(kw[n], k.wr, k.wc, vs[i], k.xr, k.xc, k.sr, k.sc)
			for j := range y {
				y[j] += bw[n][0]
			}
			if sum == nil {
				sum = y
			} else {
				sum = add(sum, y)
			}
		}
		want := each(actF(act, nil), sum)
		if oneD {
			isVec[T](ys[o], want, "channel")
		} else {
			hx.Eq(ys[o], r, c, to[T](want), "channel")
		}
	}
	for i := range xs {
		hx.Eq(xs[i], k.xr, k.xc, to[T](vs[i]), "input")
	}
}

func H_Conv1x1() { hx.Both(conv1x1s[float32], conv1x1s[float64]) }

func conv1x1s[T float.DType]() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 3}, {3, 2}}, [][2]int{{4, 4}, {1, 3}})
	size := 1 + vrt.Choose(3)
	m := conv1x1.New[T](conv1x1.Config{InputChannels: in, OutputChannels: out})
	w, b := p[T](m.W), p[T](m.B)
	xs, vs := cols[T](in, size)
	areVecs[T](m.Forward(xs...), mix(w, b, vs), "1x1 convolution")
	untouched[T](xs, vs)
}

// mix combines whole vectors: out_o = sum_i w[o,i] v_i + b_o.
func mix(w, b vec, vs []vec) []vec {
	out := make([]vec, len(b))
	for o := range out {
		out[o] = make(vec, len(vs[0]))
		for j := range out[o] {
			for i := range vs {
				out[o][j] += w[o*len(vs)+i] * vs[i][j]
			}
			out[o][j] += b[o]
		}
	}
	return out
}

// ---- gating and mixing blocks ----

type ln struct {
	w, b vec
	eps  float64
}

func lnParams[T float.DType](m *layernorm.Model) ln {
	return ln{p[T](m.W), p[T](m.B), float64(hx.V[T](m.Eps.Value())[0])}
}

func (l ln) f(v vec) vec {
	e, s := mean(v), math.Sqrt(variance(v)+l.eps)
	return add(mul(each(func(x float64) float64 { return (x - e) / s }, v), l.w), l.b)
}

func (l ln) all(vs []vec) (out []vec) {
	for _, v := range vs {
		out = append(out, l.f(v))
	}
	return
}

type lin struct{ w, b vec }

func linParams[T float.DType](m nn.StandardModel) lin {
	l := m.(*linear.Model)
	return lin{p[T](l.W), p[T](l.B)}
}

func (l lin) f(v vec) vec { return add(mv(l.w, v), l.b) }

type sguP struct {
	n    ln
	w, b vec
	act  func(float64) float64
}

func sguParams[T float.DType](m *sgu.Model, act activation.Activation) sguP {
	return sguP{lnParams[T](m.Norm), p[T](m.Proj.W), p[T](m.Proj.B), actF(act, nil)}
}

func (s sguP) f(vs []vec) []vec {
	var res, gt []vec
	for _, v := range vs {
		h := len(v) / 2
		res, gt = append(res, v[:h]), append(gt, s.n.f(v[h:]))
	}
	gt = mix(s.w, s.b, gt)
	for i := range gt {
		gt[i] = mul(each(s.act, gt[i]), res[i])
	}
	return gt
}

func H_SGU() { hx.Both(sgus[float32], sgus[float64]) }

func sgus[T float.DType]() {
	dim, seq := hx.Dims([][2]int{{2, 1}, {4, 2}, {2, 3}}, [][2]int{{6, 2}, {4, 3}})
	act := hx.Pick(activation.Identity, activation.Tanh, activation.ReLU)
	if act == activation.ReLU && dim*seq > 2 {
		act = activation.Sigmoid
	}
	m := sgu.New[T](sgu.Config{Dim: dim, DimSeq: seq, InitEps: 1e-3, Activation: act})
	s := sguParams[T](m, act)
	xs, vs := cols[T](seq, dim)
	areVecs[T](m.Forward(xs...), s.f(vs), "sgu")
	untouched[T](xs, vs)
}

func H_GMLP() { hx.Both(gmlps[float32], gmlps[float64]) }

func gmlps[T float.DType]() {
	type cfg struct{ dim, depth, seq, mult, n int }
	cs := []cfg{{2, 1, 2, 1, 2}, {2, 1, 2, 1, 1}, {1, 1, 1, 2, 1}, {2, 1, 1, 2, 1}, {2, 0, 2, 1, 1}, {2, 1, 1, 1, 0}}
	if vrt.Thorough() {
		cs = append(cs, cfg{2, 1, 3, 1, 2}, cfg{2, 1, 2, 2, 2})
	}
	c := hx.Pick(cs...)
	act := hx.Pick(activation.Identity, activation.Tanh)
	m := gmlp.New[T](gmlp.Config{Dim: c.dim, Depth: c.depth, SeqLen: c.seq, FFMult: c.mult, Activation: act})
	xs, vs := cols[T](c.n, c.dim)
	want := append([]vec{}, vs...)
	for len(want) < c.seq && c.n > 0 {
		want = append(want, make(vec, c.dim))
	}
	for d := 0; d < c.depth; d++ {
		pre := m.Layers[d].(*gmlp.Residual).PreNorm
		n := lnParams[T](pre.Norm)
		ls := pre.Block.Layers
		l1, s, l2 := linParams[T](ls[0]), sguParams[T](ls[2].(*sgu.Model), act), linParams[T](ls[3])
		if c.n == 0 {
			continue
		}
		var hs []vec
		for _, v := range want {
			hs = append(hs, each(actF(activation.GELU, nil), l1.f(n.f(v))))
		}
		for i, g := range s.f(hs) {
			want[i] = add(l2.f(g), want[i])
		}
	}
	ys := m.Forward(xs...)
	// the outputs of the padding are not part of the specification
	vrt.Assert(len(ys) >= c.n, "an output for every input")
	for i := range xs {
		isVec[T](ys[i], want[i], "gmlp")
	}
	untouched[T](xs, vs)
}

// Too long a sequence is refused.
func H_TooLong() {
	xs, _ := cols[float64](3, 2)
	g := gmlp.New[float64](gmlp.Config{Dim: 2, Depth: 1, SeqLen: 2, FFMult: 1, Activation: activation.Tanh})
	vrt.AssertPanics(func() { g.Forward(xs...) }, "gmlp")
	x := mlpmixer.New[float64](mlpmixer.Config{InputSize: 2, HiddenSizeTokenMixer: 2, HiddenSizeChannelMixer: 2, Channels: 2})
	vrt.AssertPanics(func() { x.Forward(xs...) }, "mlpmixer")
}

func H_MLPMixer() { hx.Both(mixers[float32], mixers[float64]) }

func mixers[T float.DType]() {
	type cfg struct{ in, ch, ht, hc int }
	cs := []cfg{{1, 1, 1, 1}, {2, 1, 1, 2}, {2, 2, 1, 1}, {1, 2, 2, 1}}
	if vrt.Thorough() {
		cs = append(cs, cfg{2, 2, 2, 2}, cfg{3, 2, 1, 1})
	}
	c := hx.Pick(cs...)
	ta, ca := activation.Tanh, activation.Sigmoid
	m := mlpmixer.New[T](mlpmixer.Config{InputSize: c.in, HiddenSizeTokenMixer: c.ht, HiddenSizeChannelMixer: c.hc, Channels: c.ch,
		ActFunctionTokenMixer: ta, ActFunctionChannelMixer: ca, Eps: 1e-5})
	tn, cn := lnParams[T](m.TokenLayerNorm), lnParams[T](m.ChannelLayerNorm)
	t1, t2 := linParams[T](m.TokenMixerFF.Layers[0]), linParams[T](m.TokenMixerFF.Layers[2])
	c1, c2 := linParams[T](m.ChannelMixerFF.Layers[0]), linParams[T](m.ChannelMixerFF.Layers[2])
	xs, vs := cols[T](c.ch, c.in)
	// token mixing: over the tokens, for each feature
	ns := tn.all(vs)
	mid := make([]vec, c.ch)
	for i := range mid {
		mid[i] = append(vec{}, vs[i]...)
	}
	for k := 0; k < c.in; k++ {
		f := make(vec, c.ch)
		for i := range f {
			f[i] = ns[i][k]
		}
		y := t2.f(tanh(t1.f(f)))
		for i := range y {
			mid[i][k] += y[i]
		}
	}
	var want []vec
	for _, v := range mid {
		want = append(want, add(c2.f(sig(c1.f(cn.f(v)))), v))
	}
	areVecs[T](m.Forward(xs...), want, "mlpmixer")
	untouched[T](xs, vs)
}
