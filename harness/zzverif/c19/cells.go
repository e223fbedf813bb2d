package c19

import (
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func H_Highway() { hx.Both(highways[float32], highways[float64]) }

func highways[T float.DType]() {
	size := 1 + vrt.Choose(vrt.Bound(2, 3))
	act := hx.Pick(activation.Tanh, activation.Identity, activation.Sigmoid)
	m := highway.New[T](size, act)
	wi, bi, wt, bt := p[T](m.WIn), p[T](m.BIn), p[T](m.WT), p[T](m.BT)
	xs, vs := cols[T](vrt.Choose(3), size)
	var want []vec
	for _, x := range vs {
		t := sig(add(mv(wt, x), bt))
		h := each(actF(act, nil), add(mv(wi, x), bi))
		y := make(vec, size)
		for i := range y {
			y[i] = t[i]*h[i] + (1-t[i])*x[i]
		}
		want = append(want, y)
	}
	areVecs[T](m.Forward(xs...), want, "highway")
	untouched[T](xs, vs)
}

// gate is w x + b + wRec yPrev (no recurrent term at the start).
func gate(w, wr, b, x, y vec) vec {
	out := add(mv(w, x), b)
	if y != nil {
		out = add(out, mv(wr, y))
	}
	return out
}

func cellDims() (in, out, n int) {
	in, out = hx.Dims([][2]int{{1, 1}, {2, 1}, {1, 2}}, [][2]int{{2, 2}, {3, 2}})
	if in*out == 1 {
		n = vrt.Choose(vrt.Bound(4, 5))
	} else {
		n = vrt.Choose(3)
	}
	return
}

func H_SRN() { hx.Both(srns[float32], srns[float64]) }

func srns[T float.DType]() {
	in, out, n := cellDims()
	m := srn.New[T](in, out)
	w, wr, b := p[T](m.W), p[T](m.WRec), p[T](m.B)
	xs, vs := cols[T](n, in)
	var want []vec
	var y vec
	for _, x := range vs {
		y = tanh(gate(w, wr, b, x, y))
		want = append(want, y)
	}
	areVecs[T](m.Forward(xs...), want, "srn")
	untouched[T](xs, vs)
}

func H_GRU() { hx.Both(grus[float32], grus[float64]) }

func grus[T float.DType]() {
	in, out, n := cellDims()
	m := gru.New[T](in, out)
	wp, wpr, bp := p[T](m.WPart), p[T](m.WPartRec), p[T](m.BPart)
	wr, wrr, br := p[T](m.WRes), p[T](m.WResRec), p[T](m.BRes)
	wc, wcr, bc := p[T](m.WCand), p[T](m.WCandRec), p[T](m.BCand)
	xs, vs := cols[T](n, in)
	var want []vec
	var y vec
	for _, x := range vs {
		r := sig(gate(wr, wrr, br, x, y))
		q := sig(gate(wp, wpr, bp, x, y))
		var ry vec
		if y != nil {
			ry = mul(r, y)
		}
		c := tanh(gate(wc, wcr, bc, x, ry))
		ny := make(vec, out)
		for i := range ny {
			ny[i] = q[i] * c[i]
			if y != nil {
				ny[i] += (1 - q[i]) * y[i]
			}
		}
		y = ny
		want = append(want, y)
	}
	areVecs[T](m.Forward(xs...), want, "gru")
	untouched[T](xs, vs)
}

func H_LSTM() { hx.Both(lstms[float32], lstms[float64]) }

func lstms[T float.DType]() {
	in, out, n := cellDims()
	refined := in == out && vrt.Choose(2) == 1
	m := lstm.New[T](in, out).WithRefinedGates(refined)
	wi, wir, bi := p[T](m.WIn), p[T](m.WInRec), p[T](m.BIn)
	wo, wor, bo := p[T](m.WOut), p[T](m.WOutRec), p[T](m.BOut)
	wf, wfr, bf := p[T](m.WFor), p[T](m.WForRec), p[T](m.BFor)
	wc, wcr, bc := p[T](m.WCand), p[T](m.WCandRec), p[T](m.BCand)
	xs, vs := cols[T](n, in)
	var want []vec
	var y, c vec
	for _, x := range vs {
		i := sig(gate(wi, wir, bi, x, y))
		o := sig(gate(wo, wor, bo, x, y))
		f := sig(gate(wf, wfr, bf, x, y))
		g := tanh(gate(wc, wcr, bc, x, y))
		if refined {
			i, o = mul(i, x), mul(o, x)
		}
		nc := mul(i, g)
		if c != nil {
			nc = add(nc, mul(f, c))
		}
		c = nc
		y = mul(o, tanh(c))
		want = append(want, y)
	}
	areVecs[T](m.Forward(xs...), want, "lstm")
	untouched[T](xs, vs)
}

// Sentence-state LSTM: every word looks at its neighbours and the sentence state of
// the previous step.
func H_SLSTM() { hx.Both(slstms[float32], slstms[float64]) }

type g4 struct{ w, u, v, b vec }
type g3 struct{ w, u, b vec }

func params4[T float.DType](m *slstm.HyperLinear4) g4 {
	return g4{p[T](m.W), p[T](m.U), p[T](m.V), p[T](m.B)}
}
func params3[T float.DType](m *slstm.HyperLinear3) g3 {
	return g3{p[T](m.W), p[T](m.U), p[T](m.B)}
}

func slstms[T float.DType]() {
	type cfg struct{ in, out, steps, n int }
	cs := []cfg{{1, 1, 1, 2}, {1, 1, 2, 1}, {2, 1, 2, 2}, {1, 2, 2, 2}, {1, 1, 3, 1}}
	if vrt.Thorough() {
		cs = append(cs, cfg{1, 1, 3, 2}, cfg{2, 2, 2, 3}, cfg{1, 1, 2, 4})
	}
	c := hx.Pick(cs...)
	m := slstm.New[T](slstm.Config{InputSize: c.in, OutputSize: c.out, Steps: c.steps})
	gi, gl, gr := params4[T](m.InputGate), params4[T](m.LeftCellGate), params4[T](m.RightCellGate)
	gf, gs, go_ := params4[T](m.CellGate), params4[T](m.SentCellGate), params4[T](m.OutputGate)
	gu := params4[T](m.InputActivation)
	nf, ni, no := params3[T](m.NonLocalSentCellGate), params3[T](m.NonLocalInputGate), params3[T](m.NonLocalSentOutputGate)
	start, end, init := p[T](m.StartH), p[T](m.EndH), p[T](m.InitValue)
	xs, vs := cols[T](c.n, c.in)
	h, cell := make([]vec, c.n), make([]vec, c.n)
	for i := range h {
		h[i], cell[i] = init, init
	}
	g := init
	at := func(s []vec, i int) vec {
		switch {
		case i < 0:
			return start
		case i >= c.n:
			return end
		}
		return s[i]
	}
	for t := 1; t < c.steps; t++ {
		nh, nc := make([]vec, c.n), make([]vec, c.n)
		for i := range h {
			ctx := append(append(append(vec{}, at(h, i-1)...), h[i]...), at(h, i+1)...)
			pre := func(q g4) vec { return add(mv(q.w, ctx), mv(q.u, vs[i]), mv(q.v, g), q.b) }
			nc[i] = add(
				mul(sig(pre(gl)), at(cell, i-1)),
				mul(sig(pre(gf)), cell[i]),
				mul(sig(pre(gr)), at(cell, i+1)),
				mul(sig(pre(gs)), g),
				mul(sig(pre(gi)), tanh(pre(gu))))
			nh[i] = mul(sig(pre(go_)), tanh(nc[i]))
		}
		avg := make(vec, c.out)
		for k := range avg {
			for i := range h {
				avg[k] += h[i][k]
			}
			avg[k] /= float64(c.n)
		}
		fg := sig(add(mv(nf.w, g), mv(nf.u, avg), nf.b))
		og := sig(add(mv(no.w, g), mv(no.u, avg), no.b))
		cg := mul(fg, g)
		for i := range h {
			cg = add(cg, mul(sig(add(mv(ni.w, g), mv(ni.u, h[i]), ni.b)), cell[i]))
		}
		g = mul(og, tanh(cg))
		h, cell = nh, nc
	}
	areVecs[T](m.Forward(xs...), h, "slstm")
	untouched[T](xs, vs)
}

var _ = nn.NewParam
var _ mat.Tensor
