// Package c11: model traversal reaches each parameter exactly once.
package c11

import (
	"context"
	"fmt"
	"sync"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/attention/multiheadattention"
	"github.com/nlpodyssey/spago/nn/attention/selfattention"
	"github.com/nlpodyssey/spago/nn/birnn"
	"github.com/nlpodyssey/spago/nn/convolution/conv1x1"
	"github.com/nlpodyssey/spago/nn/convolution/convolution1d"
	"github.com/nlpodyssey/spago/nn/convolution/convolution2d"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/nn/embedding"
	"github.com/nlpodyssey/spago/nn/flatten"
	"github.com/nlpodyssey/spago/nn/gmlp"
	"github.com/nlpodyssey/spago/nn/gnn/slstm"
	"github.com/nlpodyssey/spago/nn/highway"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/mlpmixer"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/nn/pooling"
	"github.com/nlpodyssey/spago/nn/recurrent/gru"
	"github.com/nlpodyssey/spago/nn/recurrent/lstm"
	"github.com/nlpodyssey/spago/nn/recurrent/srn"
	"github.com/nlpodyssey/spago/nn/sgu"
	"github.com/nlpodyssey/spago/nn/sqrdist"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

type params = []*nn.Param
type models = []nn.Model

// what a model has: its own parameters, those of its submodels, and the submodels
// (itself excluded).
type spec struct {
	own, sub params
	subs     models
}

func (s *spec) child(m nn.Model, c spec) {
	s.subs = append(append(s.subs, m), c.subs...)
	s.sub = append(append(s.sub, c.own...), c.sub...)
}

func fresh() *nn.Param { return nn.NewParam(mat.NewDense[float64](mat.WithBacking([]float64{1}))) }

// ---- kinds of fields ----

type leaf struct {
	nn.Module
	P *nn.Param
}
type twoParams struct {
	nn.Module
	A *nn.Param
	B *nn.Param
}
type empty struct{ nn.Module }
type plain struct{ P *nn.Param } // not a model: its contents are not part of the model
type traverser struct{ ps params }

func (t *traverser) TraverseParams(f func(*nn.Param)) {
	for _, p := range t.ps {
		f(p)
	}
}

type valTraverser struct{ ps params }

func (t valTraverser) TraverseParams(f func(*nn.Param)) {
	for _, p := range t.ps {
		f(p)
	}
}

type list []nn.Model
type Leaf struct {
	nn.Module
	P *nn.Param
}
type embeds struct {
	*Leaf
	Q *nn.Param
}
type shareds struct {
	nn.Module
	A *nn.Param
	B *nn.Param
	L params
}

func newLeaf() (*leaf, spec) {
	p := fresh()
	return &leaf{P: p}, spec{own: params{p}}
}

// kinds are the model types under test: a model with one sort of field, around
// the (optional) child model.
var kinds []func(depth int) (nn.Model, spec)

func init() {
	kinds = []func(depth int) (nn.Model, spec){
		// directly
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p := fresh()
			s.own = params{p}
			if m != nil {
				s.child(m, c)
			}
			return &struct {
				nn.Module
				P *nn.Param
				M nn.Model
			}{P: p, M: m}, s
		},
		// model before the parameter, and a value that is nil
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p := fresh()
			if m != nil {
				s.child(m, c)
			}
			s.own = params{p}
			return &struct {
				nn.Module
				M nn.Model
				N *nn.Param
				O nn.Model
				P *nn.Param
				L *leaf
				S []*nn.Param
				K map[string]*nn.Param
			}{P: p, M: m}, s
		},
		// interfaces
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p, q := fresh(), fresh()
			s.own = params{p, q}
			if m != nil {
				s.child(m, c)
			}
			return &struct {
				nn.Module
				A any
				T mat.Tensor
				M any
			}{A: p, T: q, M: m}, s
		},
		// slices
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			n := pick(4)
			ps := params{}
			for i := 0; i < n; i++ {
				ps = append(ps, fresh())
			}
			s.own = ps
			l1, c1 := newLeaf()
			l2, c2 := newLeaf()
			ms := models{l1, l2}
			s.child(l1, c1)
			s.child(l2, c2)
			if m != nil {
				s.child(m, c)
				ms = append(ms, m)
			}
			l3, c3 := newLeaf()
			ls := []*leaf{l3}
			s.child(l3, c3)
			return &struct {
				nn.Module
				P params
				M models
				L []*leaf
				E []*leaf
			}{P: ps, M: ms, L: ls}, s
		},
		// named and generic list types, slices of interfaces with a mixture
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			l1, c1 := newLeaf()
			l2, c2 := newLeaf()
			s.child(l1, c1)
			ms := list{l1}
			if m != nil {
				s.child(m, c)
				ms = append(ms, m)
			}
			p := fresh()
			s.own = params{p}
			s.child(l2, c2)
			return &struct {
				nn.Module
				M list
				X []any
			}{M: ms, X: []any{p, l2}}, s
		},
		// arrays
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p, q := fresh(), fresh()
			s.own = params{p, q}
			l1, c1 := newLeaf()
			s.child(l1, c1)
			if m == nil {
				m, c = newLeaf()
			}
			s.child(m, c)
			return &struct {
				nn.Module
				P [2]*nn.Param
				M [2]nn.Model
			}{P: [2]*nn.Param{p, q}, M: [2]nn.Model{l1, m}}, s
		},
		// maps
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p, q, r := fresh(), fresh(), fresh()
			s.own = params{p, q, r}
			l1, c1 := newLeaf()
			s.child(l1, c1)
			mm := map[int]nn.Model{3: l1}
			if m != nil {
				s.child(m, c)
				mm[-1] = m
			}
			return &struct {
				nn.Module
				S map[string]*nn.Param
				I map[int]*nn.Param
				M map[int]nn.Model
				E map[string]*nn.Param
			}{S: map[string]*nn.Param{"a": p, "b": q}, I: map[int]*nn.Param{7: r}, M: mm}, s
		},
		// sync.Map
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p, q := fresh(), fresh()
			s.own = params{p, q}
			y := &sync.Map{}
			y.Store("p", p)
			z := &sync.Map{}
			z.Store(1, q)
			if m != nil {
				s.child(m, c)
				z.Store(2, m)
			}
			return &struct {
				nn.Module
				Y *sync.Map
				Z *sync.Map
				N *sync.Map
			}{Y: y, Z: z}, s
		},
		// struct values
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p, q, r, t := fresh(), fresh(), fresh(), fresh()
			v := leaf{P: p}
			w := twoParams{A: q, B: r}
			u := leaf{P: t}
			s.child(v, spec{own: params{p}})
			s.child(w, spec{own: params{q, r}})
			if m != nil {
				s.child(m, c)
			}
			s.child(u, spec{own: params{t}})
			return &struct {
				nn.Module
				V leaf
				W twoParams
				M nn.Model
				L []leaf
			}{V: v, W: w, M: m, L: []leaf{u}}, s
		},
		// irrelevant fields around
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p := fresh()
			s.own = params{p}
			e := &empty{}
			if m != nil {
				s.child(m, c)
			}
			s.child(e, spec{})
			return &struct {
				nn.Module
				A int
				B []float64
				C map[string]int
				D []string
				X *plain
				Y []plain
				Z plain
				F func()
				H chan int
				U *int
				V map[bool]int
				M nn.Model
				E *empty
				K *nn.Buffer
				P *nn.Param
			}{A: 1, B: []float64{1, 2}, C: map[string]int{"x": 1}, D: []string{"a"}, X: &plain{fresh()}, Y: []plain{{fresh()}},
				Z: plain{fresh()}, U: new(int), V: map[bool]int{true: 1}, M: m, E: e, K: nn.Buf(mat.Scalar(1.0)), P: p}, s
		},
		// custom traversers
		func(d int) (nn.Model, spec) {
			m, c := model(d - 1)
			s := spec{}
			p, q, r, t := fresh(), fresh(), fresh(), fresh()
			s.own = params{p, q, r, t}
			if m != nil {
				s.child(m, c)
			}
			return &struct {
				nn.Module
				T *traverser
				V valTraverser
				L []valTraverser
				M nn.Model
			}{T: &traverser{params{p}}, V: valTraverser{params{q, r}}, L: []valTraverser{{params{t}}, {}}, M: m}, s
		},
		// embedded model
		func(d int) (nn.Model, spec) {
			p, q := fresh(), fresh()
			l := &Leaf{P: p}
			s := spec{own: params{q}}
			s.child(l, spec{own: params{p}})
			return &embeds{Leaf: l, Q: q}, s
		},
		// one parameter in several fields
		func(d int) (nn.Model, spec) {
			p, q := fresh(), fresh()
			return &shareds{A: p, B: p, L: params{q, p}}, spec{own: params{p, p, q, p}}
		},
	}
}

// model gives any model of at most the given depth (nil for depth 0).
func model(depth int) (nn.Model, spec) {
	if depth <= 0 {
		return nil, spec{}
	}
	return kinds[pick(len(kinds))](depth)
}

func countP(ps params, p *nn.Param) (n int) {
	for _, x := range ps {
		if x == p {
			n++
		}
	}
	return
}

func sameParams(got, want params, msg string) {
	for _, p := range want {
		vrt.Assert(countP(got, p) == countP(want, p), msg+": every parameter as often as there are fields holding it")
	}
	vrt.Assert(len(got) == len(want), msg+": nothing else")
}

func countM(ms models, m nn.Model) (n int) {
	for _, x := range ms {
		if x == m {
			n++
		}
	}
	return
}

func sameModels(got, want models, msg string) {
	for _, m := range want {
		vrt.Assert(countM(got, m) == countM(want, m), msg+": every model once")
	}
	vrt.Assert(len(got) == len(want), msg+": nothing else")
}

func checkAll(m nn.Model, s spec) {
	all := append(append(params{}, s.own...), s.sub...)
	var got params
	nn.ForEachParam(m, func(p *nn.Param) { got = append(got, p) })
	sameParams(got, all, "ForEachParam")
	got = nil
	nn.ForEachParamStrict(m, func(p *nn.Param) { got = append(got, p) })
	sameParams(got, s.own, "ForEachParamStrict")
	got = nil
	for p := range nn.Parameters(m)(context.Background()) {
		got = append(got, p)
	}
	sameParams(got, all, "Parameters")
	var ms models
	nn.Apply(m, func(x nn.Model) { ms = append(ms, x) })
	sameModels(ms, append(models{m}, s.subs...), "Apply")
	vrt.Assert(ms[0] == m, "Apply calls the model itself first")
}

// Models with every kind of field, nested.
func H_Walk() {
	m, s := model(vrt.Bound(2, 3))
	checkAll(m, s)
}

// Maps are walked completely whatever their iteration order.
func H_MapOrder() {
	vrt.MapOrder(true)
	p, q, r := fresh(), fresh(), fresh()
	l, c := newLeaf()
	s := spec{own: params{p, q, r}}
	s.child(l, c)
	m := &struct {
		nn.Module
		S map[string]*nn.Param
		M map[string]any
		B map[string]int
	}{S: map[string]*nn.Param{"a": p, "b": q}, M: map[string]any{"x": r, "y": l}, B: map[string]int{"u": 1, "v": 2}}
	checkAll(m, s)
}

// Items that are neither parameters nor models do not hide the others.
func H_Mixed() {
	vrt.MapOrder(true)
	p := fresh()
	l, c := newLeaf()
	s := spec{own: params{p}}
	s.child(l, c)
	junk := []any{nil, 1, "x", (*nn.Param)(nil), (*leaf)(nil), &plain{fresh()}, plain{fresh()}, []int{1}, nn.Model(nil)}
	k := pick(len(junk))
	items := []any{p, l}
	at := pick(3)
	items = append(items[:at:at], append([]any{junk[k]}, items[at:]...)...)
	var m nn.Model
	switch pick(4) {
	case 0:
		m = &struct {
			nn.Module
			X []any
		}{X: items}
	case 1:
		m = &struct {
			nn.Module
			X [3]any
		}{X: [3]any{items[0], items[1], items[2]}}
	case 2:
		m = &struct {
			nn.Module
			X map[string]any
		}{X: map[string]any{"a": items[0], "b": items[1], "c": items[2]}}
	case 3:
		y := &sync.Map{}
		for i, it := range items {
			y.Store(i, it)
		}
		m = &struct {
			nn.Module
			X *sync.Map
		}{X: y}
	}
	checkAll(m, s)
}

// Items without a name do not hide the others.
func H_OddKeys() {
	vrt.MapOrder(true)
	p := fresh()
	l, c := newLeaf()
	s := spec{own: params{p}}
	s.child(l, c)
	odds := []any{2.5, true, [1]int{1}, int8(1), nil}
	odd := odds[pick(len(odds))]
	var junk any
	if vrt.Choose(2) == 1 {
		junk = 1
	}
	var m nn.Model
	if vrt.Choose(2) == 0 {
		m = &struct {
			nn.Module
			X map[any]any
		}{X: map[any]any{"a": p, 1: l, odd: junk}}
	} else {
		y := &sync.Map{}
		y.Store("a", p)
		y.Store(odd, junk)
		y.Store(1, l)
		m = &struct {
			nn.Module
			X *sync.Map
		}{X: y}
	}
	checkAll(m, s)
}

// Missing parameters and models in lists do not hide the others.
func H_NilItems() {
	p, q := fresh(), fresh()
	l, c := newLeaf()
	s := spec{own: params{p, q}}
	s.child(l, c)
	ps := params{p, q}
	at := pick(3)
	ps = append(ps[:at:at], append(params{nil}, ps[at:]...)...)
	ms := models{l}
	at = pick(2)
	ms = append(ms[:at:at], append(models{nil}, ms[at:]...)...)
	m := &struct {
		nn.Module
		P params
		M models
	}{P: ps, M: ms}
	checkAll(m, s)
}

// The same parameter and the same model several times: each occurrence is visited
// and none hides the others.
func H_SharedItems() {
	p, q := fresh(), fresh()
	l, c := newLeaf()
	l2, c2 := newLeaf()
	ps, ms := params{p, p, p}, models{l, l, l}
	at := pick(4)
	ps = append(ps[:at:at], append(params{q}, ps[at:]...)...)
	at = pick(4)
	ms = append(ms[:at:at], append(models{l2}, ms[at:]...)...)
	s := spec{own: append(params{p}, ps...)}
	for _, x := range append(models{l}, ms...) {
		if x == l2 {
			s.child(x, c2)
		} else {
			s.child(x, c)
		}
	}
	var m nn.Model
	switch pick(3) {
	case 0:
		m = &struct {
			nn.Module
			A *nn.Param
			P params
			L *leaf
			M models
		}{A: p, P: ps, L: l, M: ms}
	case 1:
		m = &struct {
			nn.Module
			P [4]*nn.Param
			M [4]nn.Model
			A *nn.Param
			L *leaf
		}{P: [4]*nn.Param(ps), M: [4]nn.Model(ms), A: p, L: l}
	case 2:
		items := []any{p, l}
		for i := range ps {
			items = append(items, ps[i], ms[i])
		}
		m = &struct {
			nn.Module
			X []any
		}{X: items}
	}
	checkAll(m, s)
}

// Zeroing the gradients through the model zeroes exactly those of its parameters.
func H_ZeroGrad() {
	m, s := model(2)
	all := append(append(params{}, s.own...), s.sub...)
	out := fresh()
	g := vrt.F[float64]()
	grad := func(p *nn.Param) { p.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{g}))) }
	with := pick(3) // all, only the own ones, none
	if with < 2 {
		for _, p := range s.own {
			grad(p)
		}
	}
	if with < 1 {
		for _, p := range s.sub {
			grad(p)
		}
	}
	grad(out)
	nn.ZeroGrad(m)
	for _, p := range all {
		vrt.Assert(!p.HasGrad() && p.Grad() == nil, "the gradient is gone")
		vrt.AssertSame(p.Data().F64()[0], 1, "the value stays")
	}
	vrt.Assert(out.HasGrad(), "other parameters keep their gradients")
	vrt.AssertEq(out.Grad().Data().F64()[0], g, "other gradient")
}

// Streaming stops when the context is done and streams every parameter otherwise.
func H_StreamParams() {
	n := pick(4)
	ps := params{}
	for i := 0; i < n; i++ {
		ps = append(ps, fresh())
	}
	if n > 1 && pick(2) == 1 {
		ps[n-1] = ps[0]
	}
	ctx := context.Background()
	var got params
	for p := range nn.StreamParams(ps)(ctx) {
		got = append(got, p)
	}
	vrt.Assert(len(got) == n, "every parameter once")
	for i := range got {
		vrt.Assert(got[i] == ps[i], "in order")
	}
}

// Parameters of models whose parameters are given by a traverser at the top.
func H_TraverserModel() {
	m := embedding.New[float64](3, 2)
	used := pick(8)
	var want params
	for i := 0; i < 3; i++ {
		if used>>i&1 == 1 {
			e, err := m.Embedding(i)
			vrt.Assert(err == nil, "embedding")
			e.AccGrad(mat.NewDense[float64](mat.WithBacking([]float64{1, 2})))
			want = append(want, m.Weights[i])
		}
	}
	s := spec{own: want}
	if pick(2) == 0 {
		checkAll(m, s)
		return
	}
	p := fresh()
	outer := &struct {
		nn.Module
		P *nn.Param
		E *embedding.Model
	}{P: p, E: m}
	var got params
	nn.ForEachParam(outer, func(p *nn.Param) { got = append(got, p) })
	sameParams(got, append(params{p}, want...), "ForEachParam")
	var ms models
	nn.Apply(outer, func(x nn.Model) { ms = append(ms, x) })
	sameModels(ms, models{outer, m}, "Apply")
}

func lin(m *linear.Model) params { return params{m.W, m.B} }
func ln(m *layernorm.Model) params {
	return params{m.W, m.B}
}
func cat(pss ...params) (out params) {
	for _, ps := range pss {
		out = append(out, ps...)
	}
	return
}
func lstmP(m *lstm.Model) params {
	return params{m.WIn, m.WInRec, m.BIn, m.WOut, m.WOutRec, m.BOut, m.WFor, m.WForRec, m.BFor, m.WCand, m.WCandRec, m.BCand}
}
func gruP(m *gru.Model) params {
	return params{m.WPart, m.WPartRec, m.BPart, m.WRes, m.WResRec, m.BRes, m.WCand, m.WCandRec, m.BCand}
}
func sguP(m *sgu.Model) params { return cat(ln(m.Norm), params{m.Proj.W, m.Proj.B}) }
func self(m *selfattention.Model) params {
	return cat(lin(m.Query), lin(m.Key), lin(m.Value))
}

// Every built-in model exposes all of its parameters.
var builtin = []struct {
	name string
	f    func() (nn.Model, params)
}{
	{"linear", func() (nn.Model, params) { m := linear.New[float64](2, 3); return m, lin(m) }},
	{"lstm", func() (nn.Model, params) { m := lstm.New[float64](2, 3); return m, lstmP(m) }},
	{"gru", func() (nn.Model, params) { m := gru.New[float64](2, 3); return m, gruP(m) }},
	{"srn", func() (nn.Model, params) {
		m := srn.New[float64](2, 3)
		return m, params{m.W, m.WRec, m.B}
	}},
	{"bilstm", func() (nn.Model, params) {
		m := birnn.NewBiLSTM[float64](2, 3, birnn.Concat)
		return m, cat(lstmP(m.Positive.(*lstm.Model)), lstmP(m.Negative.(*lstm.Model)))
	}},
	{"bigru", func() (nn.Model, params) {
		m := birnn.NewBiGRU[float64](2, 3, birnn.Concat)
		return m, cat(gruP(m.Positive.(*gru.Model)), gruP(m.Negative.(*gru.Model)))
	}},
	{"slstm", func() (nn.Model, params) {
		m := slstm.New[float64](slstm.Config{InputSize: 2, OutputSize: 2, Steps: 2})
		var ps params
		for _, g := range []*slstm.HyperLinear4{m.InputGate, m.LeftCellGate, m.RightCellGate, m.CellGate, m.SentCellGate, m.OutputGate, m.InputActivation} {
			ps = append(ps, g.W, g.U, g.V, g.B)
		}
		for _, g := range []*slstm.HyperLinear3{m.NonLocalSentCellGate, m.NonLocalInputGate, m.NonLocalSentOutputGate} {
			ps = append(ps, g.W, g.U, g.B)
		}
		return m, append(ps, m.StartH, m.EndH, m.InitValue)
	}},
	{"selfattention", func() (nn.Model, params) {
		m := selfattention.New[float64](selfattention.Config{InputSize: 2, QuerySize: 3, KeySize: 3, ValueSize: 2, ScaleFactor: 1})
		return m, self(m)
	}},
	{"multihead", func() (nn.Model, params) {
		m := multiheadattention.New[float64](4, 2, true, false)
		ps := lin(m.OutputMerge)
		for _, h := range m.Heads {
			ps = append(ps, self(h)...)
		}
		vrt.Assert(len(m.Heads) == 2, "heads")
		return m, ps
	}},
	{"convolution1d", func() (nn.Model, params) {
		dw := pick(2) == 1
		m := convolution1d.New[float64](convolution1d.Config{KernelSizeX: 2, KernelSizeY: 2, YStride: 1, InputChannels: 2, OutputChannels: 2, DepthWise: dw})
		vrt.Assert(dw && len(m.K) == 2 || !dw && len(m.K) == 4, "kernels")
		vrt.Assert(len(m.B) == len(m.K), "biases")
		return m, cat(m.K, m.B)
	}},
	{"convolution2d", func() (nn.Model, params) {
		dw := pick(2) == 1
		m := convolution2d.New[float64](convolution2d.Config{KernelSizeX: 2, KernelSizeY: 2, XStride: 1, YStride: 1, InputChannels: 2, OutputChannels: 2, DepthWise: dw})
		vrt.Assert(dw && len(m.K) == 2 || !dw && len(m.K) == 4, "kernels")
		vrt.Assert(len(m.B) == len(m.K), "biases")
		return m, cat(m.K, m.B)
	}},
	{"conv1x1", func() (nn.Model, params) {
		m := conv1x1.New[float64](conv1x1.Config{InputChannels: 2, OutputChannels: 3})
		return m, params{m.W, m.B}
	}},
	{"crf", func() (nn.Model, params) { m := crf.New[float64](2); return m, params{m.TransitionScores} }},
	{"highway", func() (nn.Model, params) {
		m := highway.New[float64](2, activation.Tanh)
		return m, params{m.WIn, m.BIn, m.WT, m.BT}
	}},
	{"sqrdist", func() (nn.Model, params) { m := sqrdist.New[float64](2, 3); return m, params{m.B} }},
	{"sgu", func() (nn.Model, params) {
		m := sgu.New[float64](sgu.Config{Dim: 4, DimSeq: 2, Activation: pickAct()})
		return m, sguP(m)
	}},
	{"gmlp", func() (nn.Model, params) {
		m := gmlp.New[float64](gmlp.Config{Dim: 2, Depth: 2, SeqLen: 2, FFMult: 2, Activation: pickAct()})
		var ps params
		vrt.Assert(len(m.Layers) == 2, "layers")
		for _, l := range m.Layers {
			pn := l.(*gmlp.Residual).PreNorm
			ps = append(ps, ln(pn.Norm)...)
			vrt.Assert(len(pn.Block.Layers) == 4, "block layers")
			ps = append(ps, lin(pn.Block.Layers[0].(*linear.Model))...)
			ps = append(ps, sguP(pn.Block.Layers[2].(*sgu.Model))...)
			ps = append(ps, lin(pn.Block.Layers[3].(*linear.Model))...)
		}
		return m, ps
	}},
	{"mlpmixer", func() (nn.Model, params) {
		m := mlpmixer.New[float64](mlpmixer.Config{InputSize: 2, HiddenSizeTokenMixer: 3, HiddenSizeChannelMixer: 3, Channels: 2,
			ActFunctionTokenMixer: activation.Tanh, ActFunctionChannelMixer: activation.GELU})
		t, c := m.TokenMixerFF.Layers, m.ChannelMixerFF.Layers
		return m, cat(ln(m.TokenLayerNorm), ln(m.ChannelLayerNorm), lin(t[0].(*linear.Model)), lin(t[2].(*linear.Model)),
			lin(c[0].(*linear.Model)), lin(c[2].(*linear.Model)))
	}},
	{"activation", func() (nn.Model, params) {
		p, q := fresh(), fresh()
		switch pick(3) {
		case 0:
			return activation.New(activation.Tanh), nil
		case 1:
			return activation.New(activation.SwishB, p), params{p}
		}
		return activation.New(activation.SoftPlus, p, q), params{p, q}
	}},
	{"layernorm", func() (nn.Model, params) { m := layernorm.New[float64](2, 0.1); return m, ln(m) }},
	{"rmsnorm", func() (nn.Model, params) { m := rmsnorm.New[float64](2); return m, params{m.W, m.B} }},
	{"batchnorm", func() (nn.Model, params) { m := batchnorm.New[float64](2); return m, params{m.W, m.B} }},
	{"scalenorm", func() (nn.Model, params) { m := scalenorm.New[float64](2); return m, params{m.Gain} }},
	{"adanorm", func() (nn.Model, params) { return adanorm.New[float64](0.5), nil }},
	{"fixnorm", func() (nn.Model, params) { return fixnorm.New(), nil }},
	{"layernormsimple", func() (nn.Model, params) { return layernormsimple.New(), nil }},
	{"dropout", func() (nn.Model, params) { return dropout.New(0.5), nil }},
	{"pooling", func() (nn.Model, params) { return pooling.NewMax(2, 2), nil }},
	{"flatten", func() (nn.Model, params) { return flatten.New(), nil }},
}

// pick is a symbolic number below n; every branch on it is decided by the solver.
func pick(n int) int {
	k := vrt.Int(0, n-1)
	for i := 0; i < n-1; i++ {
		if k == i {
			return i
		}
	}
	return n - 1
}

func pickAct() activation.Activation {
	return []activation.Activation{activation.Identity, activation.Tanh}[pick(2)]
}

func H_BuiltIn() {
	b := builtin[pick(len(builtin))]
	m, want := b.f()
	var got params
	nn.ForEachParam(m, func(p *nn.Param) { got = append(got, p) })
	sameParams(got, want, fmt.Sprintf("%s: ForEachParam", b.name))
	for _, p := range want {
		vrt.Assert(p != nil, b.name+": parameter is set")
		vrt.Assert(p.RequiresGrad(), b.name+": parameters require gradients")
		vrt.Assert(countP(want, p) == 1, b.name+": parameters are distinct")
		p.AccGrad(p.Value().(mat.Matrix).OnesLike())
	}
	got = nil
	for p := range nn.Parameters(m)(context.Background()) {
		got = append(got, p)
	}
	sameParams(got, want, fmt.Sprintf("%s: Parameters", b.name))
	nn.ZeroGrad(m)
	for _, p := range want {
		vrt.Assert(!p.HasGrad(), b.name+": gradients zeroed")
	}
}
