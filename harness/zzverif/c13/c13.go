// Package c13: an optimization pass completes every update before it returns, for
// every interleaving of its workers.
package c13

import (
	"errors"
	"fmt"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/optimizers"
	"github.com/nlpodyssey/spago/optimizers/sgd"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func scalar(x float64) *mat.Dense[float64] {
	return mat.NewDense[float64](mat.WithShape(1, 1), mat.WithBacking([]float64{x}))
}

func val(t mat.Tensor) float64 { return float.SliceValueOf[float64](t.Value().Data())[0] }

// strategy subtracts the gradient; the updates of the parameters in bad fail.  It is
// deliberately free of locks: the pass must not run two updates of one parameter, nor
// leave one running.
type strategy struct {
	ps            []*nn.Param
	bad           []bool
	started, done []int
}

var errBad = errors.New("update failed")

func (s *strategy) OptimizeParams(p *nn.Param) error {
	i := 0
	for s.ps[i] != p {
		i++
	}
	s.started[i]++
	if !s.bad[i] {
		p.SubInPlace(p.Grad().(mat.Matrix))
		p.ZeroGrad()
	}
	s.done[i]++
	if s.bad[i] {
		return errBad
	}
	return nil
}

type model struct {
	nn.Module
	Params []*nn.Param
	W      *nn.Param
}

type setup struct {
	xs, gs []float64
	has    []bool
	s      *strategy
	fail   int
}

// prepare makes a parameter for each kind: 0 without gradient, 1 with, 2 with and failing.
func prepare(kinds ...int) *setup {
	n := len(kinds)
	u := &setup{xs: hx.Floats[float64](n), gs: hx.Floats[float64](n)}
	u.s = &strategy{bad: make([]bool, n), started: make([]int, n), done: make([]int, n)}
	for i, k := range kinds {
		p := nn.NewParam(scalar(u.xs[i]))
		if k > 0 {
			p.AccGrad(scalar(u.gs[i]))
		}
		if k == 2 {
			u.s.bad[i] = true
			u.fail++
		}
		u.has = append(u.has, k > 0)
		u.s.ps = append(u.s.ps, p)
	}
	return u
}

func choose(n, kinds int) []int {
	var ks []int
	for i := 0; i < n; i++ {
		ks = append(ks, vrt.Choose(kinds))
	}
	return ks
}

func (u *setup) check(err error) {
	if u.fail == 0 {
		vrt.Assert(err == nil, "an error was returned although no update failed")
	}
	failed := 0
	for i, p := range u.s.ps {
		n := u.s.started[i]
		vrt.Assert(u.s.done[i] == n, "an update is still running after the return")
		if u.s.bad[i] {
			failed += n
		}
		if err == nil {
			want := 0
			if u.has[i] {
				want = 1
			}
			vrt.Assert(n == want, fmt.Sprintf("number of updates of parameter %d", i))
		}
		vrt.Assert(n <= 1, fmt.Sprintf("parameter %d was updated more than once", i))
		if n == 1 && !u.s.bad[i] {
			vrt.AssertEq(val(p), u.xs[i]-u.gs[i], fmt.Sprintf("parameter %d after its update", i))
			vrt.Assert(!p.HasGrad(), fmt.Sprintf("gradient of parameter %d after its update", i))
		} else {
			vrt.AssertEq(val(p), u.xs[i], fmt.Sprintf("parameter %d without an update", i))
			vrt.Assert(p.HasGrad() == u.has[i], fmt.Sprintf("gradient of parameter %d without an update", i))
		}
	}
	if u.fail > 0 {
		vrt.Assert(err != nil, "no error was returned although an update failed")
		vrt.Assert(err == errBad, "the error returned is not the one of the update")
		vrt.Assert(failed > 0, "an error was returned before an update failed")
	}
}

func (u *setup) params() nn.ParamChannelFunc {
	ps := u.s.ps
	if vrt.Choose(2) == 0 {
		return nn.StreamParams(ps)
	}
	m := &model{}
	if n := len(ps); n > 0 {
		m.Params, m.W = ps[:n-1], ps[n-1]
	}
	return nn.Parameters(m)
}

// H_Optimize: up to four parameters, any of them with a gradient.
//
//vrt:conc
func H_Optimize() {
	vrt.NumCPU(1)
	u := prepare(choose(vrt.Choose(vrt.Bound(5, 6)), 2)...)
	ps := u.params()
	u.check(optimizers.New(ps, u.s).Optimize())
}

// H_Limit: more parameters than the concurrency limit of the pass.
//
//vrt:conc
func H_Limit() {
	vrt.NumCPU(1)
	u := prepare([]int{1, 1, 1, 1, 1}[:4+vrt.Choose(vrt.Bound(1, 2))]...)
	ps := u.params()
	u.check(optimizers.New(ps, u.s).Optimize())
}

// H_Failures: any of up to three updates fails.
//
//vrt:conc
func H_Failures() {
	vrt.NumCPU(1)
	u := prepare(choose(1+vrt.Choose(vrt.Bound(2, 3)), 3)...)
	ps := u.params()
	u.check(optimizers.New(ps, u.s).Optimize())
}

// H_FailuresOfThree: any of three updates fails.
//
//vrt:conc
func H_FailuresOfThree() {
	vrt.NumCPU(1)
	ks := []int{1, 1, 1}
	m := 1 + vrt.Choose(7)
	for i := range ks {
		ks[i] += m >> i & 1
	}
	u := prepare(ks...)
	ps := u.params()
	u.check(optimizers.New(ps, u.s).Optimize())
}

// H_FailuresOfFour: with four parameters an update may have to wait for a failing one.
//
//vrt:conc
func H_FailuresOfFour() {
	vrt.NumCPU(1)
	ks := []int{1, 1, 1, 1}
	ks[vrt.Choose(4)]++
	if vrt.Thorough() {
		ks[vrt.Choose(4)] = 2
		ks = append(ks, vrt.Choose(2)+1)
	}
	u := prepare(ks...)
	u.check(optimizers.New(nn.StreamParams(u.s.ps), u.s).Optimize())
}

// H_TwoPasses: the second pass over the same parameters starts from a clean state,
// also after a failure.
//
//vrt:conc
func H_TwoPasses() {
	vrt.NumCPU(1)
	k := 1 + vrt.Choose(2)
	u := prepare(k, 1)
	o := optimizers.New(nn.StreamParams(u.s.ps), u.s)
	err := o.Optimize()
	u.check(err)
	for i, p := range u.s.ps {
		if u.s.started[i] == 1 && !u.s.bad[i] {
			u.xs[i] -= u.gs[i]
			u.has[i] = false
		}
		u.s.started[i], u.s.done[i], u.s.bad[i] = 0, 0, false
		vrt.Assert(p.HasGrad() == u.has[i], "gradient before the second pass")
	}
	u.fail = 0
	u.check(o.Optimize())
}

// H_SGD: gradient descent through the concurrent pass, twice.
//
//vrt:conc
func H_SGD() {
	vrt.NumCPU(1)
	n := 2
	xs, gs := hx.Floats[float64](n), hx.Floats[float64](2*n)
	lr := vrt.F[float64]()
	var ps []*nn.Param
	for i := 0; i < n; i++ {
		ps = append(ps, nn.NewParam(scalar(xs[i])))
	}
	o := optimizers.New(nn.StreamParams(ps), sgd.New[float64](sgd.NewConfig(lr, 0, false)))
	for step := 0; step < 2; step++ {
		for i, p := range ps {
			p.AccGrad(scalar(gs[step*n+i]))
			xs[i] -= lr * gs[step*n+i]
		}
		vrt.Assert(o.Optimize() == nil, "an error was returned although no update failed")
		for i, p := range ps {
			vrt.AssertEq(val(p), xs[i], fmt.Sprintf("parameter %d after step %d", i, step))
			vrt.Assert(!p.HasGrad(), fmt.Sprintf("gradient of parameter %d after step %d", i, step))
		}
	}
}
