// Package c08: concurrent forward and backward evaluation does not depend on the
// schedule.  Every interleaving of the goroutines is considered; the specification
// of each graph is computed before the first goroutine starts.
package c08

import (
	"fmt"
	"sync"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/mat/gradfn"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

const (
	add = iota
	prod
	square
)

type node struct {
	op, a, b int
}

// graph: nodes refer to leaves (first) and earlier nodes.
type graph struct {
	leaves int
	nodes  []node
	roots  []int
}

func (g graph) values(xs []float64) []float64 {
	v := append([]float64{}, xs...)
	for _, n := range g.nodes {
		switch n.op {
		case add:
			v = append(v, v[n.a]+v[n.b])
		case prod:
			v = append(v, v[n.a]*v[n.b])
		default:
			v = append(v, v[n.a]*v[n.a])
		}
	}
	return v
}

// grads: the derivative of the sum of the roots, each counted once.
func (g graph) grads(v []float64) []float64 {
	d := make([]float64, len(v))
	for _, r := range g.roots {
		d[r]++
	}
	for i := len(g.nodes) - 1; i >= 0; i-- {
		n, y := g.nodes[i], d[g.leaves+i]
		switch n.op {
		case add:
			d[n.a] += y
			d[n.b] += y
		case prod:
			d[n.a] += y * v[n.b]
			d[n.b] += y * v[n.a]
		default:
			d[n.a] += 2 * y * v[n.a]
		}
	}
	return d
}

func apply(n node, all []mat.Tensor, async bool) mat.Tensor {
	var f ag.AutoGradFunction
	switch n.op {
	case add:
		f = gradfn.NewAdd(all[n.a], all[n.b])
	case prod:
		f = gradfn.NewProd(all[n.a], all[n.b])
	default:
		f = gradfn.NewSquare(all[n.a])
	}
	return ag.NewOperator(f).Run(async)
}

func (g graph) build(xs []mat.Tensor, async []bool) []mat.Tensor {
	all := append([]mat.Tensor{}, xs...)
	for i, n := range g.nodes {
		all = append(all, apply(n, all, async[i]))
	}
	return all
}

func leaf(x float64, grad bool) *mat.Dense[float64] {
	return mat.NewDense[float64](mat.WithShape(1, 1), mat.WithBacking([]float64{x}), mat.WithGrad(grad))
}

func leaves(n int) ([]float64, []mat.Tensor) {
	xs := hx.Floats[float64](n)
	var ts []mat.Tensor
	for _, x := range xs {
		ts = append(ts, leaf(x, true))
	}
	return xs, ts
}

// kinds chooses which nodes run asynchronously.
func kinds(n int) []bool {
	m := vrt.Choose(1 << n)
	var a []bool
	for i := 0; i < n; i++ {
		a = append(a, m>>i&1 == 1)
	}
	return a
}

func val(t mat.Tensor) float64 { return float.SliceValueOf[float64](t.Value().Data())[0] }

func grad(t mat.Tensor) float64 {
	g := t.Grad()
	if g == nil {
		return 0
	}
	return val(g)
}

func cpus() {
	vrt.NumCPU(1 + vrt.Choose(2))
}

var (
	chain    = graph{1, []node{{square, 0, 0}, {add, 1, 0}}, []int{2}}
	diamond  = graph{1, []node{{square, 0, 0}, {add, 1, 0}, {prod, 1, 2}}, []int{3}}
	repeated = graph{1, []node{{square, 0, 0}, {prod, 1, 1}}, []int{2}}
	fork     = graph{2, []node{{prod, 0, 1}, {square, 2, 0}, {add, 2, 1}}, []int{3, 4}}
	deep     = graph{1, []node{{square, 0, 0}, {add, 1, 0}, {prod, 1, 2}, {add, 2, 3}}, []int{4}}
	inner    = graph{2, []node{{prod, 0, 1}, {square, 2, 0}}, []int{2, 3}}
	wide     = graph{2, []node{{square, 0, 0}, {square, 1, 0}, {add, 0, 1}, {prod, 2, 3}, {add, 5, 4}}, []int{6}}
)

// H_Forward: values of asynchronous operators, read in any order.
//
//vrt:conc
func H_Forward() {
	cpus()
	g := hx.Pick(chain, repeated, diamond)
	async := kinds(len(g.nodes))
	rev := vrt.Choose(2) == 1
	xs, ts := leaves(g.leaves)
	want := g.values(xs)
	all := g.build(ts, async)
	for i := range all {
		k := i
		if rev {
			k = len(all) - 1 - i
		}
		vrt.AssertEq(val(all[k]), want[k], fmt.Sprintf("value of node %d", k))
	}
}

// H_ForwardLimit: more asynchronous operators than the concurrency limit.
//
//vrt:conc
func H_ForwardLimit() {
	vrt.NumCPU(1)
	n := 3
	if vrt.Thorough() {
		n += vrt.Choose(2)
	}
	shape := vrt.Choose(2)
	g := graph{leaves: 1}
	for i := 0; i < n; i++ {
		if shape == 0 {
			g.nodes = append(g.nodes, node{square, 0, 0}) // independent
		} else {
			g.nodes = append(g.nodes, node{add, i, 0}) // a chain
		}
	}
	xs, ts := leaves(1)
	want := g.values(xs)
	async := make([]bool, n)
	for i := range async {
		async[i] = true
	}
	all := g.build(ts, async)
	for k := range all {
		vrt.AssertEq(val(all[k]), want[k], fmt.Sprintf("value of node %d", k))
	}
}

func backward(g graph, async []bool, wait bool) {
	xs, ts := leaves(g.leaves)
	v := g.values(xs)
	want := g.grads(v)
	all := g.build(ts, async)
	if wait {
		vrt.AssertEq(val(all[len(all)-1]), v[len(v)-1], "value of the last node")
	}
	var roots []mat.Tensor
	for _, r := range g.roots {
		roots = append(roots, all[r])
	}
	err := ag.Backward(roots...)
	vrt.Assert(err == nil, "Backward returned an error")
	for k := range all {
		vrt.AssertEq(grad(all[k]), want[k], fmt.Sprintf("gradient of node %d", k))
		vrt.AssertEq(val(all[k]), v[k], fmt.Sprintf("value of node %d", k))
	}
}

// H_BackwardSmall: chains and repeated operands.
//
//vrt:conc
func H_BackwardSmall() {
	g := hx.Pick(chain, repeated)
	backward(g, make([]bool, len(g.nodes)), false)
}

// H_BackwardDiamond: shared nodes.
//
//vrt:conc
func H_BackwardDiamond() {
	backward(diamond, make([]bool, 3), false)
}

// H_BackwardFork: two roots over a shared node, one root inside the other's graph.
//
//vrt:conc
func H_BackwardFork() {
	g := hx.Pick(fork, inner)
	backward(g, make([]bool, len(g.nodes)), false)
}

// H_BackwardAsync: a backward pass over operators that may still be running.
//
//vrt:conc
func H_BackwardAsync() {
	vrt.NumCPU(1)
	g := chain
	if vrt.Thorough() {
		g = hx.Pick(chain, repeated, diamond)
	}
	async := kinds(len(g.nodes))
	backward(g, async, vrt.Choose(2) == 1)
}

// H_BackwardDeep: larger graphs.
//
//vrt:conc deep
func H_BackwardDeep() {
	g := hx.Pick(deep, wide)
	backward(g, make([]bool, len(g.nodes)), false)
}

// H_Twice: two passes accumulate, with zeroing of the operators in between.
//
//vrt:conc
func H_Twice() {
	g := hx.Pick(chain, repeated)
	xs, ts := leaves(g.leaves)
	want := g.grads(g.values(xs))
	for i := 0; i < 2; i++ {
		all := g.build(ts, make([]bool, len(g.nodes)))
		vrt.Assert(ag.Backward(all[len(all)-1]) == nil, "Backward returned an error")
	}
	vrt.AssertEq(grad(ts[0]), 2*want[0], "gradient of the leaf after two passes")
}

// H_Again: a second pass over the same operators, after zeroing them, starts from a
// clean state; with the default or a supplied output gradient.
//
//vrt:conc
func H_Again() {
	g := hx.Pick(graph{1, []node{{square, 0, 0}}, []int{1}}, chain)
	supplied := vrt.Choose(2) == 1
	xs, ts := leaves(g.leaves)
	d := g.grads(g.values(xs))[0]
	want := 2 * d
	up := 0.0
	if supplied {
		up = vrt.F[float64]()
		want = d + up*d
	}
	all := g.build(ts, make([]bool, len(g.nodes)))
	y := all[len(all)-1]
	vrt.Assert(ag.Backward(y) == nil, "the first Backward returned an error")
	for _, n := range all[g.leaves:] {
		n.ZeroGrad()
		vrt.Assert(!n.HasGrad(), "an operator has a gradient after ZeroGrad")
	}
	if supplied {
		y.AccGrad(leaf(up, false))
	}
	vrt.Assert(ag.Backward(y) == nil, "the second Backward returned an error")
	vrt.AssertEq(grad(ts[0]), want, "gradient of the leaf after two passes over the same operators")
}

// H_SharedParam: several goroutines work on graphs of their own that share a
// parameter, each with its forward and backward pass.
//
//vrt:conc
func H_SharedParam() {
	k := vrt.Choose(2)
	n := 2
	if vrt.Thorough() {
		n += vrt.Choose(2)
	}
	g := hx.Pick(graph{2, []node{{prod, 0, 1}}, []int{2}}, graph{2, []node{{prod, 0, 1}, {square, 2, 0}}, []int{3}})
	xs := hx.Floats[float64](1 + n)
	var w mat.Tensor
	if k == 0 {
		w = leaf(xs[0], true)
	} else {
		w = nn.NewParam(leaf(xs[0], true))
	}
	want := 0.0
	var ins []mat.Tensor
	for i := 0; i < n; i++ {
		want += g.grads(g.values([]float64{xs[0], xs[1+i]}))[0]
		ins = append(ins, leaf(xs[1+i], false))
	}
	var wg sync.WaitGroup
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			all := g.build([]mat.Tensor{w, ins[i]}, make([]bool, len(g.nodes)))
			errs[i] = ag.Backward(all[len(all)-1])
		}()
	}
	wg.Wait()
	for i := range errs {
		vrt.Assert(errs[i] == nil, "Backward returned an error")
		vrt.Assert(!ins[i].HasGrad(), "a leaf that requires no gradient has one")
	}
	vrt.AssertEq(grad(w), want, "gradient of the shared parameter")
}

// H_Readers: several goroutines wait for the value of one asynchronous operator.
//
//vrt:conc
func H_Readers() {
	xs, ts := leaves(1)
	got := make([]float64, vrt.Bound(2, 4))
	y := apply(node{square, 0, 0}, ts, true)
	var wg sync.WaitGroup
	for i := range got {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			got[i] = val(y)
		}()
	}
	wg.Wait()
	for i := range got {
		vrt.AssertEq(got[i], xs[0]*xs[0], fmt.Sprintf("value seen by reader %d", i))
	}
}
