// Package c12: optimizers apply exactly their published update rule.
package c12

import (
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/adagrad"
	"github.com/nlpodyssey/spago/optimizers/adam"
	"github.com/nlpodyssey/spago/optimizers/decay"
	"github.com/nlpodyssey/spago/optimizers/decay/exponential"
	"github.com/nlpodyssey/spago/optimizers/decay/hyperbolic"
	"github.com/nlpodyssey/spago/optimizers/lamb"
	"github.com/nlpodyssey/spago/optimizers/radam"
	"github.com/nlpodyssey/spago/optimizers/rmsprop"
	"github.com/nlpodyssey/spago/optimizers/sgd"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// wide makes the parameters large: mostly constants then (see hx.Few).
var wide bool

func shape() (int, int) {
	if wide {
		return hx.Dims([][2]int{{17, 1}, {3, 11}}, [][2]int{{1, 65}, {9, 9}})
	}
	return hx.Dims([][2]int{{1, 1}, {2, 1}, {1, 3}, {2, 2}}, [][2]int{{5, 1}, {3, 2}, {1, 9}})
}

func small() (int, int) {
	return hx.Dims([][2]int{{1, 1}, {2, 1}, {1, 2}}, [][2]int{{2, 2}})
}

// pos is a positive hyper-parameter; unit one in (0, 1).
func pos() float64 {
	x := vrt.F[float64]()
	vrt.Assume(x > 0)
	return x
}

func unit() float64 {
	x := vrt.F[float64]()
	vrt.Assume(x > 0)
	vrt.Assume(x < 1)
	return x
}

// rule is the published rule on plain numbers: the parameter after the step.
type rule func(w, g []float64) []float64

// run performs steps with fresh gradients and compares with the rule after each.
// before is called ahead of every step but the first.
func run[T float.DType](o optimizers.OptimizationStrategy, r, c, steps int, f rule, before func()) {
	n := r * c
	w0 := hx.Floats[T](n)
	p := nn.NewParam(mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(w0))))
	w := make([]float64, n)
	for i := range w {
		w[i] = float64(w0[i])
	}
	for s := 0; s < steps; s++ {
		if s > 0 && before != nil {
			before()
		}
		g := hx.Floats[T](n)
		gm := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(g)))
		p.AccGrad(gm)
		g64 := make([]float64, n)
		for i := range g {
			g64[i] = float64(g[i])
		}
		w = f(w, g64)
		must(o.OptimizeParams(p))
		hx.Shape(p, r, c, "parameter")
		got := hx.V[T](p)
		for i := range w {
			vrt.AssertEq(got[i], T(w[i]), "parameter after the step")
		}
		vrt.Assert(!p.HasGrad() && p.Grad() == nil, "the gradient is consumed")
		vrt.Assert(p.RequiresGrad(), "the parameter still requires gradients")
		vrt.Assert(p.State != nil, "the state is kept")
		hx.EqD(hx.V[T](gm), g, "the gradient given is left alone")
		for i := range w {
			w[i] = float64(got[i])
		}
	}
}

func both(f32, f64 func()) { hx.Both(f32, f64) }

// ---- stochastic gradient descent ----

func H_SGD() { both(sgdPlain[float32], sgdPlain[float64]) }

func sgdPlain[T float.DType]() {
	r, c := shape()
	lr := pos()
	o := sgd.New[T](sgd.NewConfig(lr, 0, vrt.Choose(2) == 1))
	run[T](o, r, c, 2, func(w, g []float64) []float64 {
		return mapN(len(w), func(i int) float64 { return w[i] - lr*g[i] })
	}, nil)
}

func mapN(n int, f func(i int) float64) []float64 {
	out := make([]float64, n)
	for i := range out {
		out[i] = f(i)
	}
	return out
}

func H_Momentum() { both(momentum[float32], momentum[float64]) }

func momentum[T float.DType]() {
	r, c := shape()
	lr, mu := pos(), pos()
	o := sgd.New[T](sgd.NewConfig(lr, mu, false))
	v := make([]float64, r*c)
	run[T](o, r, c, 3, func(w, g []float64) []float64 {
		v = mapN(len(w), func(i int) float64 { return mu*v[i] + lr*g[i] })
		return mapN(len(w), func(i int) float64 { return w[i] - v[i] })
	}, nil)
}

func H_Nesterov() { both(nesterov[float32], nesterov[float64]) }

func nesterov[T float.DType]() {
	r, c := shape()
	lr, mu := pos(), pos()
	o := sgd.New[T](sgd.NewConfig(lr, mu, true))
	v := make([]float64, r*c)
	run[T](o, r, c, 3, func(w, g []float64) []float64 {
		prev := v
		v = mapN(len(w), func(i int) float64 { return mu*v[i] + lr*g[i] })
		return mapN(len(w), func(i int) float64 { return w[i] - ((1+mu)*v[i] - mu*prev[i]) })
	}, nil)
}

// The learning rate may be changed between steps.
func H_SGDRate() {
	lr1, lr2, mu := pos(), pos(), pos()
	nest := vrt.Choose(2) == 1
	o := sgd.New[float64](sgd.NewConfig(lr1, mu, nest))
	lr := lr1
	v := make([]float64, 2)
	run[float64](o, 2, 1, 3, func(w, g []float64) []float64 {
		prev := v
		v = mapN(2, func(i int) float64 { return mu*v[i] + lr*g[i] })
		if nest {
			return mapN(2, func(i int) float64 { return w[i] - ((1+mu)*v[i] - mu*prev[i]) })
		}
		return mapN(2, func(i int) float64 { return w[i] - v[i] })
	}, func() { o.Alpha = lr2; lr = lr2 })
}

// ---- AdaGrad, RMSProp ----

func H_AdaGrad() { both(adaGrad[float32], adaGrad[float64]) }

func adaGrad[T float.DType]() {
	r, c := shape()
	lr, eps := pos(), pos()
	o := adagrad.New[T](adagrad.NewConfig(lr, eps))
	m := make([]float64, r*c)
	run[T](o, r, c, 3, func(w, g []float64) []float64 {
		m = mapN(len(w), func(i int) float64 { return m[i] + g[i]*g[i] })
		return mapN(len(w), func(i int) float64 { return w[i] - lr*g[i]/(math.Sqrt(m[i])+eps) })
	}, nil)
}

func H_RMSProp() { both(rmsProp[float32], rmsProp[float64]) }

func rmsProp[T float.DType]() {
	r, c := shape()
	lr, eps, d := pos(), pos(), unit()
	o := rmsprop.New[T](rmsprop.NewConfig(lr, eps, d))
	v := make([]float64, r*c)
	run[T](o, r, c, 3, func(w, g []float64) []float64 {
		v = mapN(len(w), func(i int) float64 { return d*v[i] + (1-d)*g[i]*g[i] })
		return mapN(len(w), func(i int) float64 { return w[i] - lr*g[i]/(math.Sqrt(v[i])+eps) })
	}, nil)
}

// ---- Adam and its relatives ----

type moments struct{ v, m []float64 }

func (s *moments) step(g []float64, b1, b2 float64) {
	n := len(g)
	if s.v == nil {
		s.v, s.m = make([]float64, n), make([]float64, n)
	}
	s.v = mapN(n, func(i int) float64 { return b1*s.v[i] + (1-b1)*g[i] })
	s.m = mapN(n, func(i int) float64 { return b2*s.m[i] + (1-b2)*g[i]*g[i] })
}

func ipow(x float64, n int) float64 {
	y := 1.0
	for i := 0; i < n; i++ {
		y *= x
	}
	return y
}

func H_Adam() { both(adamRule[float32], adamRule[float64]) }

func adamRule[T float.DType]() {
	r, c := shape()
	lr, eps, b1, b2 := pos(), pos(), unit(), unit()
	o := adam.New(adam.NewConfig(lr, b1, b2, eps))
	ts := 1
	var s moments
	run[T](o, r, c, 3, func(w, g []float64) []float64 {
		s.step(g, b1, b2)
		a := lr * math.Sqrt(1-ipow(b2, ts)) / (1 - ipow(b1, ts))
		return mapN(len(w), func(i int) float64 { return w[i] - a*s.v[i]/(math.Sqrt(s.m[i])+eps) })
	}, func() { o.IncExample(); ts++ })
}

// Late in the training, with all kinds of hyper-parameters, betas of zero included.
func H_AdamLate() {
	lr, eps := pos(), pos()
	b1, b2 := hx.Pick(0.0, 0.5, 0.9), hx.Pick(0.0, 0.75, 0.999)
	o := adam.New(adam.NewConfig(lr, b1, b2, eps))
	ts := 1 + vrt.Choose(vrt.Bound(6, 30))
	for i := 1; i < ts; i++ {
		o.IncExample()
	}
	vrt.Assert(o.TimeStep == ts, "time step")
	var s moments
	run[float64](o, 2, 1, 1, func(w, g []float64) []float64 {
		s.step(g, b1, b2)
		a := lr * math.Sqrt(1-math.Pow(b2, float64(ts))) / (1 - math.Pow(b1, float64(ts)))
		return mapN(len(w), func(i int) float64 { return w[i] - a*s.v[i]/(math.Sqrt(s.m[i])+eps) })
	}, nil)
}

func H_AdamW() { both(adamW[float32], adamW[float64]) }

func adamW[T float.DType]() {
	r, c := shape()
	lr, eps, b1, b2, l := pos(), pos(), unit(), unit(), pos()
	o := adam.New(adam.NewAdamWConfig(lr, b1, b2, eps, l))
	ts := 1
	var s moments
	run[T](o, r, c, 3, func(w, g []float64) []float64 {
		s.step(g, b1, b2)
		a := lr * math.Sqrt(1-ipow(b2, ts)) / (1 - ipow(b1, ts))
		return mapN(len(w), func(i int) float64 { return w[i] - a*(s.v[i]/(math.Sqrt(s.m[i])+eps)+l*w[i]) })
	}, func() { o.IncExample(); ts++ })
}

func H_RAdam() { both(rAdam[float32], rAdam[float64]) }

func rAdam[T float.DType]() {
	r, c := small()
	lr, eps := pos(), pos()
	b1, b2 := hx.Pick(0.5, 0.9), hx.Pick(0.875, 0.999)
	o := radam.New[T](radam.NewConfig(lr, b1, b2, eps))
	ts := 1
	skip := vrt.Choose(vrt.Bound(8, 24))
	for i := 0; i < skip; i++ {
		o.IncBatch()
		ts++
	}
	var s moments
	run[T](o, r, c, 2, func(w, g []float64) []float64 {
		s.step(g, b1, b2)
		return mapN(len(w), func(i int) float64 {
			// rectified step on the bias-corrected moments
			return w[i] - rectified(lr, b1, b2, ts)*(s.v[i]/(1-math.Pow(b1, float64(ts))))/
				((math.Sqrt(s.m[i])+eps*math.Sqrt(1-math.Pow(b2, float64(ts))))/math.Sqrt(1-math.Pow(b2, float64(ts))))
		})
	}, func() { o.IncBatch(); ts++ })
}

// rectified is the step size with the variance rectification term, where it is tractable.
func rectified(lr, b1, b2 float64, ts int) float64 {
	t := float64(ts)
	b2t := math.Pow(b2, t)
	roMax := 2/(1-b2) - 1
	ro := roMax - 2*t*b2t/(1-b2t)
	if ro > 4 {
		return lr * math.Sqrt((ro-4)*(ro-2)*roMax/((roMax-4)*(roMax-2)*ro))
	}
	return lr
}

// The rectification for every decay rate.
func H_RAdamSymbolic() {
	lr, eps, b2 := pos(), pos(), unit()
	b1 := 0.9
	o := radam.New[float64](radam.NewConfig(lr, b1, b2, eps))
	ts := 1 + vrt.Choose(vrt.Bound(6, 9))
	for i := 1; i < ts; i++ {
		o.IncBatch()
	}
	t := float64(ts)
	b2t := ipow(b2, ts)
	roMax := 2/(1-b2) - 1
	ro := roMax - 2*t*b2t/(1-b2t)
	rect := 1.0
	if ro > 4 {
		rect = math.Sqrt((ro - 4) * (ro - 2) * roMax / ((roMax - 4) * (roMax - 2) * ro))
	}
	var s moments
	run[float64](o, 1, 1, 1, func(w, g []float64) []float64 {
		s.step(g, b1, b2)
		q := math.Sqrt(1 - b2t)
		a := lr * rect * q / (1 - ipow(b1, ts))
		return []float64{w[0] - a*s.v[0]/(math.Sqrt(s.m[0])+eps*q)}
	}, nil)
}

//vrt:branch=150
func H_Lamb() { both(lambRule[float32], lambRule[float64]) }

func lambRule[T float.DType]() {
	r, c := small()
	lr, eps, b1, b2 := pos(), pos(), unit(), unit()
	l := 0.0
	if vrt.Choose(2) == 1 {
		l = pos()
	}
	o := lamb.New[T](lamb.NewConfig(lr, b1, b2, eps, l))
	ts := 1
	var s moments
	run[T](o, r, c, 2, func(w, g []float64) []float64 {
		n := len(w)
		s.step(g, b1, b2)
		a := lr * math.Sqrt(1-ipow(b2, ts)) / (1 - ipow(b1, ts))
		d := mapN(n, func(i int) float64 { return s.v[i]/(math.Sqrt(s.m[i])+eps) + l*w[i] })
		var sw, sd float64
		for i := range w {
			sw += w[i] * w[i]
			sd += d[i] * d[i]
		}
		nw, nd := math.Sqrt(sw), math.Sqrt(sd)
		trust := 1.0
		if nw != 0 && nd != 0 {
			trust = nw / nd
		}
		return mapN(n, func(i int) float64 { return w[i] - a*trust*d[i] })
	}, func() { o.IncExample(); ts++ })
}

// ---- state handling ----

func strategies() []optimizers.OptimizationStrategy {
	return []optimizers.OptimizationStrategy{
		sgd.New[float64](sgd.NewConfig(0.1, 0, false)),
		sgd.New[float64](sgd.NewConfig(0.1, 0.9, false)),
		sgd.New[float64](sgd.NewConfig(0.1, 0.9, true)),
		adagrad.New[float64](adagrad.NewDefaultConfig()),
		rmsprop.New[float64](rmsprop.NewDefaultConfig()),
		adam.New(adam.NewDefaultConfig()),
		adam.New(adam.NewAdamWConfig(0.001, 0.9, 0.999, 1e-8, 0.1)),
		radam.New[float64](radam.NewDefaultConfig()),
		lamb.New[float64](lamb.NewDefaultConfig()),
	}
}

func numStrategies() int { return 9 }

// Two parameters do not influence each other, whatever their order.
//
//vrt:branch=100
func H_Separate() {
	k := vrt.Choose(numStrategies())
	o, alone := strategies()[k], strategies()[k]
	a0, b0 := hx.Floats[float64](2), hx.Floats[float64](2)
	mk := func(d []float64) *nn.Param { return nn.NewParam(hx.M(2, 1, d)) }
	a, b, x := mk(a0), mk(b0), mk(a0)
	for s := 0; s < 2; s++ {
		ga, gb := hx.Floats[float64](2), hx.Floats[float64](2)
		a.AccGrad(hx.M(2, 1, ga))
		x.AccGrad(hx.M(2, 1, ga))
		b.AccGrad(hx.M(2, 1, gb))
		if vrt.Choose(2) == 0 {
			must(o.OptimizeParams(a))
			must(o.OptimizeParams(b))
		} else {
			must(o.OptimizeParams(b))
			must(o.OptimizeParams(a))
		}
		must(alone.OptimizeParams(x))
		hx.EqD(hx.V[float64](a), hx.V[float64](x), "same as when optimized alone")
	}
}

// The state of one method is not used by another.
//
//vrt:branch=150
func H_WrongState() {
	k, l := vrt.Choose(numStrategies()), vrt.Choose(numStrategies())
	family := []int{0, 0, 0, 1, 2, 3, 3, 4, 5}
	o, q := strategies()[k], strategies()[l]
	w, g, h := hx.Floats[float64](2), hx.Floats[float64](2), hx.Floats[float64](2)
	p := nn.NewParam(hx.M(2, 1, w))
	p.AccGrad(hx.M(2, 1, g))
	must(o.OptimizeParams(p))
	if family[k] == family[l] {
		return
	}
	v := hx.Copy(hx.V[float64](p))
	p.AccGrad(hx.M(2, 1, h))
	err := q.OptimizeParams(p)
	vrt.Assert(err != nil, "a foreign state is an error")
	hx.SameD(hx.V[float64](p), v, "the parameter is unchanged")
	vrt.Assert(p.HasGrad(), "the gradient is kept")
	hx.EqD(hx.V[float64](p.Grad()), h, "the gradient is kept")
}

// Replacing a value drops the state: the parameter starts afresh.
//
//vrt:branch=150
func H_ReplaceValue() {
	k := vrt.Choose(numStrategies())
	o, q := strategies()[k], strategies()[k]
	w, v, g, h := hx.Floats[float64](2), hx.Floats[float64](2), hx.Floats[float64](2), hx.Floats[float64](2)
	p := nn.NewParam(hx.M(2, 1, w))
	p.AccGrad(hx.M(2, 1, g))
	must(o.OptimizeParams(p))
	p.ReplaceValue(hx.M(2, 1, v))
	vrt.Assert(p.State == nil, "no state")
	p.AccGrad(hx.M(2, 1, h))
	must(o.OptimizeParams(p))
	x := nn.NewParam(hx.M(2, 1, v))
	x.AccGrad(hx.M(2, 1, h))
	must(q.OptimizeParams(x))
	hx.EqD(hx.V[float64](p), hx.V[float64](x), "as a new parameter")
}

// Configurations outside the valid range are refused, and the others are not.
func H_Config() {
	b1, b2 := vrt.F[float64](), vrt.F[float64]()
	ok := b1 >= 0 && b1 < 1 && b2 >= 0 && b2 < 1
	var f func()
	switch vrt.Choose(4) {
	case 0:
		f = func() {
			c := adam.NewConfig(0.5, b1, b2, 0.25)
			vrt.Assert(c == adam.Config{StepSize: 0.5, Beta1: b1, Beta2: b2, Epsilon: 0.25}, "adam configuration")
		}
	case 1:
		f = func() {
			c := adam.NewAdamWConfig(0.5, b1, b2, 0.25, 0.125)
			vrt.Assert(c == adam.Config{StepSize: 0.5, Beta1: b1, Beta2: b2, Epsilon: 0.25, Lambda: 0.125}, "adamw configuration")
		}
	case 2:
		f = func() {
			c := radam.NewConfig(0.5, b1, b2, 0.25)
			vrt.Assert(c == radam.Config{StepSize: 0.5, Beta1: b1, Beta2: b2, Epsilon: 0.25}, "radam configuration")
		}
	case 3:
		f = func() {
			c := lamb.NewConfig(0.5, b1, b2, 0.25, 0.125)
			vrt.Assert(c == lamb.Config{StepSize: 0.5, Beta1: b1, Beta2: b2, Epsilon: 0.25, Lambda: 0.125}, "lamb configuration")
		}
	}
	vrt.Assert(vrt.Panics(f) == !ok, "refused exactly outside of the range")
}

// ---- decay schedules ----

func H_Exponential() {
	final, init, lr := pos(), pos(), pos()
	vrt.Assume(init >= final)
	times := 1 + vrt.Choose(vrt.Bound(6, 20))
	t := vrt.Choose(vrt.Bound(9, 26))
	var f decay.Function = exponential.New(init, final, times)
	got := f.Decay(lr, t)
	switch {
	case t <= 1 || lr <= final:
		vrt.AssertEq(got, lr, "the rate is not changed")
	case t >= times:
		vrt.AssertEq(got, final, "the final rate from the last step on")
	default:
		// the weighted geometric mean that reaches the final rate at the last step
		n := float64(times - t)
		vrt.AssertEq(math.Log(got), (n*math.Log(lr)+math.Log(final))/(n+1), "geometric step towards the final rate")
	}
}

func H_Hyperbolic() {
	init, lr, final := pos(), pos(), pos()
	rate := vrt.F[float64]()
	vrt.Assume(init >= final)
	t := vrt.Choose(vrt.Bound(6, 20))
	var f decay.Function = hyperbolic.New(init, final, rate)
	got := f.Decay(lr, t)
	if t <= 1 || rate <= 0 || lr <= final {
		vrt.AssertEq(got, lr, "the rate is not changed")
	} else {
		vrt.AssertEq(got, init/(1+rate*float64(t)), "hyperbolic rate")
	}
}

func H_DecayConfig() {
	init, final := vrt.F[float64](), vrt.F[float64]()
	vrt.Assert(vrt.Panics(func() { exponential.New(init, final, 3) }) == (init < final), "exponential")
	vrt.Assert(vrt.Panics(func() { hyperbolic.New(init, final, 3) }) == (init < final), "hyperbolic")
}
