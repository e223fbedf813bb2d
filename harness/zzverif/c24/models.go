package c24

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// model checks a standard model on n column vectors.
// or the same vector n times.
func model(m nn.StandardModel, n, size int) {
	if n > 1 && vrt.Choose(2) == 1 {
		fresh(params(m), vecs(1, size)...).check(func(xs tensors) tensors {
			in := make(tensors, n)
			for i := range in {
				in[i] = xs[0]
			}
			return m.Forward(in...)
		})
		return
	}
	fresh(params(m), vecs(n, size)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

// H_Linear: sizes up to 2x3 (deep 3x4), up to 3 inputs.
func H_Linear() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 3}, {3, 2}}, [][2]int{{4, 3}, {1, 5}})
	m := linear.New[float64](in, out)
	if vrt.Choose(2) == 1 {
		vrt.Assert(m.WithBiasGrad(false) == m && !m.B.RequiresGrad(), "a frozen bias")
	}
	model(m, 1+vrt.Choose(3), in)
}

// H_Highway: sizes up to 2 (deep 3).
func H_Highway() {
	size := 1 + vrt.Choose(vrt.Bound(2, 3))
	model(highway.New[float64](size, hx.Pick(activation.Tanh, activation.Identity)), 1+vrt.Choose(2), size)
}

// H_SRN: sequences up to 3 (deep 4) of one- or two-dimensional vectors.
func H_SRN() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 1}}, [][2]int{{1, 2}})
	model(srn.New[float64](in, out), 1+vrt.Choose(vrt.Bound(2, 3)), in)
}

// H_GRU: sequences up to 2 (deep 3).
func H_GRU() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 1}}, [][2]int{{1, 2}})
	model(gru.New[float64](in, out), 1+vrt.Choose(vrt.Bound(2, 3)), in)
}

// H_LSTM: sequences up to 2 (deep 3), with and without refined gates.
func H_LSTM() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 1}}, [][2]int{{1, 2}})
	m := lstm.New[float64](in, out)
	if in == out && vrt.Choose(2) == 1 {
		m.WithRefinedGates(true)
	}
	model(m, 1+vrt.Choose(vrt.Bound(2, 3)), in)
}

// H_SLSTM: sequences up to 3, up to 3 steps, one-dimensional; one parameter or the
// inputs are symbolic.
func H_SLSTM() {
	steps, n := hx.Dims([][2]int{{2, 1}, {2, 2}}, [][2]int{{2, 3}, {3, 2}})
	m := slstm.New[float64](slstm.Config{InputSize: 1, OutputSize: 1, Steps: steps})
	oneOf(params(m), vecs(n, 1)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

// H_BiRNN: every merge operation, sequences up to 3.
func H_BiRNN() {
	merge := hx.Pick(birnn.Concat, birnn.Sum, birnn.Prod, birnn.Avg)
	m := birnn.New(srn.New[float64](1, 1), srn.New[float64](1, 1), merge)
	model(m, 1+vrt.Choose(3), 1)
}

// H_BiBuilders: the LSTM and GRU bidirectional models, sequences up to 2.
func H_BiBuilders() {
	var m *birnn.Model
	if vrt.Choose(2) == 0 {
		m = birnn.NewBiGRU[float64](1, 1, birnn.Concat)
	} else {
		m = birnn.NewBiLSTM[float64](1, 1, birnn.Sum)
	}
	model(m, 1+vrt.Choose(2), 1)
}

// H_Long: sequences of four (deep six) one-dimensional vectors through the
// recurrent cells; one parameter or the inputs are symbolic, for the gated cells
// the first input, with at most one gate that looks at the previous output.
func H_Long() {
	n := vrt.Bound(4, 6)
	var m nn.StandardModel
	var rec []*nn.Param
	switch vrt.Choose(4) {
	case 0:
		m = srn.New[float64](1, 1)
	case 1:
		m = birnn.New(srn.New[float64](1, 1), srn.New[float64](1, 1), birnn.Concat)
	case 2:
		g := gru.New[float64](1, 1)
		m, rec = g, []*nn.Param{nil, g.WPartRec, g.WResRec, g.WCandRec}
	default:
		l := lstm.New[float64](1, 1).WithRefinedGates(vrt.Choose(2) == 1)
		m, rec = l, []*nn.Param{nil, l.WInRec, l.WOutRec, l.WForRec, l.WCandRec}
	}
	run := func(xs tensors) tensors { return m.Forward(xs...) }
	if rec == nil {
		oneOf(params(m), vecs(n, 1)...).check(run)
		return
	}
	pt := firstInput(params(m), n)
	keep := rec[vrt.Choose(len(rec))]
	for _, p := range rec[1:] {
		if p != keep {
			p.Value().(mat.Matrix).Zeros()
		}
	}
	pt.check(run)
}

// H_Conv1x1: up to 3 channels of vectors of up to 2 elements.
func H_Conv1x1() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 3}, {3, 2}}, [][2]int{{3, 4}})
	model(conv1x1.New[float64](conv1x1.Config{InputChannels: in, OutputChannels: out}), in, 1+vrt.Choose(2))
}

func maps(n, r, c int) (in [][2]int) {
	for i := 0; i < n; i++ {
		in = append(in, [2]int{r, c})
	}
	return
}

// H_Conv2D: kernels up to 2x2 on maps up to 3x3, strides 1 and 2, channels,
// masks and depth-wise convolution.
func H_Conv2D() {
	type dim struct{ wr, wc, xr, xc, sr, sc int }
	k := hx.Pick(dim{1, 2, 2, 3, 1, 1}, dim{2, 1, 4, 1, 2, 1}, dim{1, 1, 1, 3, 1, 2}, dim{2, 2, 3, 3, 1, 1})
	in, out, mask, dw := channels()
	m := convolution2d.New[float64](convolution2d.Config{KernelSizeX: k.wr, KernelSizeY: k.wc, XStride: k.sr, YStride: k.sc,
		InputChannels: in, OutputChannels: out, Mask: mask, DepthWise: dw, Activation: hx.Pick(activation.Identity, activation.Tanh)})
	fresh(params(m), maps(in, k.xr, k.xc)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

// H_Conv1D: the same in one dimension.
func H_Conv1D() {
	type dim struct{ wr, wc, xr, xc, sc int }
	k := hx.Pick(dim{1, 2, 1, 3, 1}, dim{2, 1, 2, 3, 2}, dim{2, 2, 2, 4, 1})
	in, out, mask, dw := channels()
	m := convolution1d.New[float64](convolution1d.Config{KernelSizeX: k.wr, KernelSizeY: k.wc, YStride: k.sc,
		InputChannels: in, OutputChannels: out, Mask: mask, DepthWise: dw, Activation: hx.Pick(activation.Identity, activation.Tanh)})
	fresh(params(m), maps(in, k.xr, k.xc)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

func channels() (in, out int, mask []int, dw bool) {
	switch vrt.Choose(4) {
	case 0:
		return 1, 1, nil, false
	case 1:
		return 2, 2, nil, false
	case 2:
		return 2, 2, hx.Pick([]int{1, 0}, []int{1, 1}), false
	}
	return 2, 2, nil, true
}

// H_Pooling: windows of a 2x4 map.
func H_Pooling() {
	w := hx.Pick([2]int{1, 2}, [2]int{2, 1}, [2]int{2, 2}, [2]int{1, 1})
	m := pooling.NewMax(w[0], w[1])
	fresh(nil, maps(1, 2, 2)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

// H_SqrDist: sizes up to 3.
func H_SqrDist() {
	in, rank := hx.Dims([][2]int{{1, 1}, {2, 3}, {3, 2}}, nil)
	model(sqrdist.New[float64](in, rank), 1+vrt.Choose(2), in)
}

// H_Flatten: one to three 2x2 maps.
func H_Flatten() {
	m := flatten.New()
	fresh(nil, maps(1+vrt.Choose(3), 2, 2)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

// H_Activation: every activation, with its parameters as trainable.
func H_Activation() {
	type c struct {
		a activation.Activation
		n int
	}
	k := hx.Pick(c{activation.Identity, 0}, c{activation.Tan, 0}, c{activation.Tanh, 0}, c{activation.Sigmoid, 0},
		c{activation.HardSigmoid, 0}, c{activation.HardTanh, 0}, c{activation.Softsign, 0}, c{activation.ReLU, 0},
		c{activation.GELU, 0}, c{activation.PositiveELU, 0}, c{activation.Swish, 0}, c{activation.SiLU, 0},
		c{activation.Mish, 0}, c{activation.SwishB, 1}, c{activation.Softmax, 0}, c{activation.LogSoftmax, 0})
	var ps []*nn.Param
	for i := 0; i < k.n; i++ {
		ps = append(ps, nn.NewParam(mat.Scalar(1.0)))
	}
	m := activation.New(k.a, ps...)
	fresh(ps, vecs(1+vrt.Choose(2), 2)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

// ---- normalizations ----

// H_Norm: every normalization layer, one or two vectors of up to 3 elements.
func H_Norm() {
	size := 1 + vrt.Choose(vrt.Bound(2, 3))
	n := 1 + vrt.Choose(2)
	switch vrt.Choose(5) {
	case 0:
		m := layernorm.New[float64](size, 1e-3)
		model(m, n, size)
	case 1:
		model(rmsnorm.New[float64](size), n, size)
	case 2:
		model(scalenorm.New[float64](size), n, size)
	case 3:
		model(fixnorm.New(), n, size)
	case 4:
		vrt.Assume(size > 1)
		model(layernormsimple.New(), n, size)
	}
}

// H_AdaNorm: the modulation of adaptive normalization is a constant for the gradient.
func H_AdaNorm() {
	size, n := 2+vrt.Choose(vrt.Bound(1, 2)), 1+vrt.Choose(2)
	m := adanorm.New[float64](0.5)
	pt := fresh(nil, vecs(n, size)...)
	norm := func(v []float64) (out []float64) {
		mean, dev := 0.0, 0.0
		for _, x := range v {
			mean += x
		}
		mean /= float64(size)
		for _, x := range v {
			dev += (x - mean) * (x - mean)
		}
		s := math.Sqrt(dev/float64(size)) + 1e-10
		for _, x := range v {
			out = append(out, (x-mean)/s)
		}
		return
	}
	xs := pt.at(pt.v)
	ys := m.Forward(xs...)
	g := hx.Floats[float64](n * size)
	for i, y := range ys {
		y.AccGrad(mat.NewDense[float64](mat.WithBacking(hx.Copy(g[i*size : (i+1)*size]))))
	}
	vrt.Assert(ag.Backward(ys...) == nil, "the backward pass succeeds")
	for i, x := range xs {
		v := pt.v[i*size : (i+1)*size]
		want := make([]float64, size)
		for j, y := range norm(v) {
			phi := 0.5 * (1 - 0.1*y)
			for k, d := range vrt.Deriv(func(v []float64) float64 { return norm(v)[j] }, v) {
				want[k] += g[i*size+j] * phi * d
			}
		}
		hx.EqD(hx.V[float64](x.Grad()), want, "gradient of an input")
	}
}

// H_BatchNorm: in training the statistics of the batch are differentiated, the
// running ones never.
func H_BatchNorm() {
	n, size := hx.Dims([][2]int{{1, 1}, {2, 1}, {2, 2}}, [][2]int{{3, 1}})
	m := batchnorm.New[float64](size)
	mu, sd := hx.Floats[float64](size), make([]float64, size)
	for i := range sd {
		sd[i] = vrt.Pos[float64]()
	}
	set := func() {
		mat.SetData[float64](m.Mean.Value().(mat.Matrix), hx.Copy(mu))
		mat.SetData[float64](m.StdDev.Value().(mat.Matrix), hx.Copy(sd))
	}
	pt := fresh(params(m), vecs(n, size)...)
	if vrt.Choose(2) == 0 {
		set()
		pt.check(func(xs tensors) tensors { return m.Forward(xs...) })
		vrt.Assert(m.Mean.Grad() == nil && m.StdDev.Grad() == nil, "no gradient on the running statistics")
		return
	}
	vrt.Assume(n > 1)
	pt.check(func(xs tensors) tensors {
		set()
		return m.ForwardT(xs...)
	})
	vrt.Assert(m.Mean.Grad() == nil && m.StdDev.Grad() == nil, "no gradient on the running statistics")
}

// ---- gating and mixing ----

// H_SGU: one or two vectors of 2 or 4 elements.
func H_SGU() {
	dim, seq := hx.Dims([][2]int{{2, 1}, {4, 1}, {4, 2}}, [][2]int{{4, 3}})
	model(sgu.New[float64](sgu.Config{Dim: dim, DimSeq: seq, InitEps: 1e-3, Activation: activation.Tanh}), seq, dim)
}

// H_GMLP: one layer, up to two vectors (padded or not); one parameter or the inputs are symbolic.
func H_GMLP() {
	type cfg struct{ dim, depth, seq, mult, n int }
	c := hx.Pick(cfg{2, 1, 1, 1, 1}, cfg{1, 1, 2, 2, 1}, cfg{1, 1, 2, 2, 2}, cfg{2, 0, 2, 1, 1})
	m := gmlp.New[float64](gmlp.Config{Dim: c.dim, Depth: c.depth, SeqLen: c.seq, FFMult: c.mult, Activation: activation.Identity})
	oneOf(params(m), vecs(c.n, c.dim)...).check(func(xs tensors) tensors { return m.Forward(xs...)[:c.n] })
}

// H_MLPMixer: up to two channels of two elements; one parameter or the inputs are symbolic.
func H_MLPMixer() {
	type cfg struct{ in, ch, ht, hc int }
	c := hx.Pick(cfg{1, 1, 1, 1}, cfg{2, 1, 1, 2}, cfg{1, 2, 2, 1}, cfg{2, 2, 1, 1})
	m := mlpmixer.New[float64](mlpmixer.Config{InputSize: c.in, HiddenSizeTokenMixer: c.ht, HiddenSizeChannelMixer: c.hc, Channels: c.ch,
		ActFunctionTokenMixer: activation.Tanh, ActFunctionChannelMixer: activation.Sigmoid, Eps: 1e-5})
	oneOf(params(m), vecs(c.ch, c.in)...).check(func(xs tensors) tensors { return m.Forward(xs...) })
}

// ---- attention ----

// H_SelfAttention: up to 3 positions, one-dimensional heads, with and without
// the causal mask, at once or in two chunks through the cache.
//
//vrt:branch=lin
func H_SelfAttention() {
	causal := vrt.Choose(2) == 1
	m := selfattention.New[float64](selfattention.Config{InputSize: 1, QuerySize: 1, KeySize: 1, ValueSize: 1, ScaleFactor: 0.5, UseCausalMask: causal})
	n := 1 + vrt.Choose(vrt.Bound(2, 3))
	cut := n
	if causal && n > 1 && vrt.Choose(2) == 1 {
		cut = 1
	}
	fresh(params(m), vecs(n, 1)...).check(func(xs tensors) tensors {
		ys, _, cache := m.Forward(selfattention.Cache{}, xs[:cut], xs[:cut])
		if cut < n {
			more, _, _ := m.Forward(cache, xs[cut:], xs[cut:])
			ys = append(append(tensors{}, ys...), more...)
		}
		return ys
	})
}

// H_CrossAttention: two passes, one query each, over the keys and values that
// the first one computes from up to 2 positions. The attention weights are
// outputs too.
//
//vrt:branch=lin
func H_CrossAttention() {
	m := selfattention.New[float64](selfattention.Config{InputSize: 1, QuerySize: 1, KeySize: 1, ValueSize: 1, ScaleFactor: 0.5, IsCrossAttention: true})
	n := 1 + vrt.Choose(2)
	what := vrt.Choose(3)
	fresh(params(m), vecs(2+n, 1)...).check(func(xs tensors) tensors {
		ys, ws, cache := m.Forward(selfattention.Cache{}, xs[:1], xs[2:])
		zs, vs, _ := m.Forward(cache, xs[1:2], nil)
		switch what {
		case 0:
			return append(append(tensors{}, ys...), zs...)
		case 1:
			return zs
		}
		return append(append(append(tensors{}, ys...), ws...), vs...)
	})
}

// H_MultiHead: up to 2 heads of one dimension over up to 2 positions.
//
//vrt:branch=lin
func H_MultiHead() {
	heads := 1 + vrt.Choose(2)
	n := 1 + vrt.Choose(2)
	if heads == 2 && n == 2 && !vrt.Thorough() {
		// the gradients of the inputs and of one head's value projection
		m := multiheadattention.New[float64](2, 2, false, false)
		for _, p := range params(m) {
			mat.SetData[float64](p.Value().(mat.Matrix), ramp(p.Size()))
		}
		var ps []*nn.Param
		ps = append(ps, params(m.OutputMerge)...)
		ps = append(ps, params(m.Heads[1].Value)...)
		fresh(ps, vecs(n, 2)...).check(func(xs tensors) tensors {
			ys, _, _ := m.Forward(nil, xs, xs)
			return ys
		})
		return
	}
	m := multiheadattention.New[float64](heads, heads, vrt.Choose(2) == 1, false)
	fresh(params(m), vecs(n, heads)...).check(func(xs tensors) tensors {
		ys, _, _ := m.Forward(nil, xs, xs)
		return ys
	})
}

func ramp(n int) []float64 {
	d := make([]float64, n)
	for i := range d {
		d[i] = float64(i+1) / 4
	}
	return d
}

// oneOf sets everything to fixed values and makes one parameter or the inputs
// symbolic (in the thorough tier the inputs in any case).
func oneOf(ps []*nn.Param, in ...[2]int) *point {
	for i, p := range ps {
		d := ramp(p.Size())
		for j := range d {
			d[j] -= float64(i%5) / 3
		}
		mat.SetData[float64](p.Value().(mat.Matrix), d)
	}
	i := vrt.Choose(len(ps) + 1)
	if i == len(ps) {
		return fresh(nil, in...)
	}
	if vrt.Thorough() {
		return fresh(ps[i:i+1], in...)
	}
	pt := fresh(ps[i : i+1])
	for k, s := range in {
		d := ramp(s[0] * s[1])
		d[0] -= float64(k) / 5
		pt.fixed = append(pt.fixed, mat.NewDense[float64](mat.WithShape(s[0], s[1]), mat.WithBacking(d)))
	}
	return pt
}

// firstInput gives the first of n one-dimensional inputs a symbolic value. The
// others and the biases are zero, the weights distinct constants.
func firstInput(ps []*nn.Param, n int) *point {
	for i, p := range ps {
		if i%3 < 2 {
			mat.SetData[float64](p.Value().(mat.Matrix), []float64{float64(i%4+1)/4 - 0.375})
		}
	}
	pt := fresh(nil, [2]int{1, 1})
	for k := 1; k < n; k++ {
		pt.fixed = append(pt.fixed, mat.Scalar(0.0))
	}
	return pt
}

// ---- CRF and embeddings ----

// H_CRF: the loss of up to 2 positions and 2 tags.
func H_CRF() {
	tags, n := hx.Dims([][2]int{{1, 1}, {1, 2}, {2, 1}, {2, 2}}, [][2]int{{2, 3}, {3, 1}})
	m := crf.New[float64](tags)
	var target []int
	for i := 0; i < n; i++ {
		target = append(target, vrt.Choose(tags))
	}
	fresh(params(m), vecs(n, tags)...).check(func(xs tensors) tensors { return tensors{m.NegativeLogLoss(xs, target)} })
}

// H_Embedding: a table of 3 items and a list of 3 lookups, in any combination.
func H_Embedding() {
	m := embedding.New[float64](3, 2)
	var items []int
	for i := 0; i < 3; i++ {
		items = append(items, vrt.Choose(3))
	}
	fresh(m.Weights).check(func(tensors) tensors {
		es := m.MustEncode(items)
		return tensors{ag.Prod(es[0], es[1]), ag.Sum(es[1], es[2]), es[2]}
	})
}
