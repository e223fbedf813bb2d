// Package c07: a backward pass computes the exact chain-rule gradient on any graph.
package c07

import (
	"fmt"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

const (
	opProd = iota
	opAdd
	opSub
	opSquare
	opCopy
	opTanh
)

type node struct {
	op   int
	a, b int
}

type graph struct {
	leaves int
	nodes  []node
}

// pick chooses a graph with the given numbers of leaves and nodes: the
// operands of a node are any earlier leaves or nodes, the same one twice included.
func pick(leaves, n int, kinds ...int) graph {
	g := graph{leaves: leaves}
	for i := 0; i < n; i++ {
		m := leaves + i
		k := kinds[vrt.Choose(len(kinds))]
		nd := node{op: k, a: vrt.Choose(m)}
		if k == opProd || k == opAdd {
			nd.b = nd.a + vrt.Choose(m-nd.a)
		} else if k == opSub {
			nd.b = vrt.Choose(m)
		} else {
			nd.b = -1
		}
		g.nodes = append(g.nodes, nd)
	}
	return g
}

func (g graph) build(xs []mat.Tensor) []mat.Tensor {
	all := append([]mat.Tensor{}, xs...)
	for _, n := range g.nodes {
		all = append(all, apply(n, all))
	}
	return all
}

func apply(n node, all []mat.Tensor) mat.Tensor {
	switch n.op {
	case opProd:
		return ag.Prod(all[n.a], all[n.b])
	case opAdd:
		return ag.Add(all[n.a], all[n.b])
	case opSub:
		return ag.Sub(all[n.a], all[n.b])
	case opSquare:
		return ag.Square(all[n.a])
	case opTanh:
		return ag.Tanh(all[n.a])
	}
	return ag.Copy(all[n.a])
}

// adjoints computes, for one element, the gradient of every node given the
// values of all nodes and the output gradients.
func (g graph) adjoints(vals, out []float64, req []bool) []float64 {
	adj := append([]float64{}, out...)
	for i := len(g.nodes) - 1; i >= 0; i-- {
		n := g.nodes[i]
		k := g.leaves + i
		if !req[k] {
			continue
		}
		switch n.op {
		case opProd:
			adj[n.a] += adj[k] * vals[n.b]
			adj[n.b] += adj[k] * vals[n.a]
		case opAdd:
			adj[n.a] += adj[k]
			adj[n.b] += adj[k]
		case opSub:
			adj[n.a] += adj[k]
			adj[n.b] -= adj[k]
		case opSquare:
			adj[n.a] += 2 * adj[k] * vals[n.a]
		case opTanh:
			adj[n.a] += adj[k] * (1 - vals[k]*vals[k])
		default:
			adj[n.a] += adj[k]
		}
	}
	return adj
}

// requires tells which nodes require gradients.
func (g graph) requires(leaf []bool) []bool {
	req := append([]bool{}, leaf...)
	for _, n := range g.nodes {
		r := req[n.a]
		if n.b >= 0 {
			r = r || req[n.b]
		}
		req = append(req, r)
	}
	return req
}

// reached tells which nodes lie on a path from a root.
func (g graph) reached(roots []int) []bool {
	r := make([]bool, g.leaves+len(g.nodes))
	for _, k := range roots {
		r[k] = true
	}
	for i := len(g.nodes) - 1; i >= 0; i-- {
		if r[g.leaves+i] {
			n := g.nodes[i]
			r[n.a] = true
			if n.b >= 0 {
				r[n.b] = true
			}
		}
	}
	return r
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func leaves[T float.DType](n, size int, req []bool, param bool) []mat.Tensor {
	xs := make([]mat.Tensor, n)
	for i := range xs {
		d := mat.NewDense[T](mat.WithShape(size, 1), mat.WithBacking(hx.Floats[T](size)), mat.WithGrad(req[i]))
		xs[i] = d
		if param {
			xs[i] = nn.NewParam(d).WithGrad(req[i])
		}
	}
	return xs
}

// check asserts the gradients of all tensors of the graph: m times the adjoints on leaves.
func check[T float.DType](g graph, all []mat.Tensor, size int, out [][]float64, req, reach []bool, m float64, msg string) {
	want := make([][]T, len(all))
	for e := 0; e < size; e++ {
		vals := make([]float64, len(all))
		o := make([]float64, len(all))
		for k := range all {
			vals[k] = all[k].Value().Data().F64()[e]
			o[k] = out[k][e]
		}
		for k, a := range g.adjoints(vals, o, req) {
			want[k] = append(want[k], T(a))
		}
	}
	for k, x := range all {
		if !req[k] {
			if k < g.leaves {
				vrt.Assert(!x.HasGrad(), fmt.Sprintf("%s: leaf %d not requiring gradients is untouched", msg, k))
			}
			continue
		}
		if !reach[k] {
			vrt.Assert(!x.HasGrad(), fmt.Sprintf("%s: tensor %d off the paths has no gradient", msg, k))
			continue
		}
		f := T(1)
		if k < g.leaves {
			f = T(m)
		}
		w := make([]T, size)
		for e := range w {
			w[e] = f * want[k][e]
		}
		vrt.Assert(x.HasGrad(), fmt.Sprintf("%s: tensor %d has a gradient", msg, k))
		hx.Eq(x.Grad(), size, 1, w, fmt.Sprintf("%s: gradient of tensor %d", msg, k))
	}
}

func zeros(n, size int) [][]float64 {
	out := make([][]float64, n)
	for i := range out {
		out[i] = make([]float64, size)
	}
	return out
}

func run[T float.DType](g graph, size int, req []bool, roots []int, supplied []bool, param bool, passes int) {
	xs := leaves[T](g.leaves, size, req, param)
	reqs := g.requires(req)
	reach := g.reached(roots)
	out := zeros(g.leaves+len(g.nodes), size)
	for _, k := range roots {
		for e := range out[k] {
			out[k][e] = 1
		}
	}
	for i, k := range roots {
		if supplied[i] {
			out[k] = hx.Floats[float64](size)
		}
	}
	for p := 1; p <= passes; p++ {
		all := g.build(xs)
		var rs []mat.Tensor
		for i, k := range roots {
			rs = append(rs, all[k])
			if supplied[i] {
				d := make([]T, size)
				for e := range d {
					d[e] = T(out[k][e])
				}
				all[k].AccGrad(hx.M(size, 1, d))
			}
		}
		must(ag.Backward(rs...))
		check[T](g, all, size, out, reqs, reach, float64(p), fmt.Sprintf("pass %d", p))
	}
	for _, x := range xs {
		x.ZeroGrad()
		vrt.Assert(!x.HasGrad(), "zeroed")
	}
}

// Any graph of 2 leaves and 3 nodes (4 thorough), one root, all leaf requirements.
func H_Graphs() {
	g := pick(2, vrt.Bound(3, 3), opProd, opAdd)
	req := []bool{vrt.Choose(2) == 0, vrt.Choose(2) == 0}
	last := g.leaves + len(g.nodes) - 1
	if !g.requires(req)[last] {
		return
	}
	run[float64](g, 1, req, []int{last}, []bool{vrt.Choose(2) == 0}, false, 1)
}

// Any graph of 2 leaves and 4 products.
//
//vrt:deep paths=400000
func H_GraphsDeep() {
	g := pick(2, 4, opProd)
	req := []bool{true, vrt.Choose(2) == 0}
	last := g.leaves + len(g.nodes) - 1
	if !g.requires(req)[last] {
		return
	}
	run[float64](g, 1, req, []int{last}, []bool{true}, false, 1)
}

// Other operators, among them non-commutative and unary ones.
func H_Mixed() {
	g := pick(2, 2, opSub, opSquare, opCopy, opTanh, opProd)
	last := g.leaves + len(g.nodes) - 1
	run[float32](g, 1+vrt.Choose(2), []bool{true, true}, []int{last}, []bool{true}, vrt.Choose(2) == 1, 2)
}

// Several roots, one of which may lie on a path from another, in any order,
// with supplied or default gradients.
func H_Roots() {
	g := pick(2, 3, opProd)
	first := g.leaves
	r0 := first + vrt.Choose(3)
	r1 := first + vrt.Choose(3)
	if r0 == r1 {
		return
	}
	s0, s1 := vrt.Choose(2) == 0, vrt.Choose(2) == 0
	run[float64](g, 1, []bool{true, true}, []int{r0, r1}, []bool{s0, s1}, false, 1)
}

// All three nodes are roots.
func H_AllRoots() {
	g := pick(1, 3, opProd, opAdd)
	o := [][]int{{1, 2, 3}, {3, 2, 1}, {2, 3, 1}}[vrt.Choose(3)]
	run[float64](g, 1, []bool{true}, o, []bool{vrt.Choose(2) == 0, true, vrt.Choose(2) == 0}, false, 1)
}

// Roots some of which require no gradients.
func H_UnneededRoots() {
	g := pick(2, 2, opProd)
	req := []bool{true, false}
	run[float64](g, 1, req, []int{2, 3}, []bool{vrt.Choose(2) == 0, vrt.Choose(2) == 0}, false, 1)
}

// Vectors, with supplied output gradients, repeated passes over new graphs.
func H_Vectors() {
	g := pick(2, 2, opProd, opAdd)
	last := g.leaves + len(g.nodes) - 1
	run[float32](g, 2, []bool{true, vrt.Choose(2) == 0}, []int{last}, []bool{true}, vrt.Choose(2) == 0, 3)
}

// Doubling chains: a node shared at every level.
func H_Doubling() {
	n := 1 + vrt.Choose(vrt.Bound(6, 12))
	g := graph{leaves: 1}
	for i := 0; i < n; i++ {
		g.nodes = append(g.nodes, node{op: opAdd, a: i, b: i})
	}
	run[float64](g, 1, []bool{true}, []int{n}, []bool{vrt.Choose(2) == 0}, false, 2)
}

// Long unary chains and wide fan-outs.
func H_ChainFan() {
	n := hx.Pick(3, 8, 16)
	g := graph{leaves: 2}
	if vrt.Choose(2) == 0 {
		for i := 0; i < n; i++ {
			g.nodes = append(g.nodes, node{op: opCopy, a: 1 + i, b: -1})
		}
	} else {
		g.nodes = append(g.nodes, node{op: opProd, a: 0, b: 1})
		for i := 0; i < n; i++ {
			g.nodes = append(g.nodes, node{op: opProd, a: 2, b: 2 + i})
		}
		if n > 8 {
			return
		}
	}
	last := g.leaves + len(g.nodes) - 1
	run[float64](g, 1, []bool{true, true}, []int{last}, []bool{true}, false, 1)
}

// A second pass over the same graph, after all its gradients were zeroed,
// gives the same result, whatever root it starts from.
func H_SameGraphAgain() {
	g := pick(2, 3, opProd)
	xs := leaves[float64](2, 1, []bool{true, true}, false)
	all := g.build(xs)
	reqs := g.requires([]bool{true, true})
	for p := 0; p < 2; p++ {
		r := 2 + vrt.Choose(3)
		out := zeros(5, 1)
		out[r][0] = vrt.F[float64]()
		all[r].AccGrad(mat.Scalar(out[r][0]))
		must(ag.Backward(all[r]))
		check[float64](g, all, 1, out, reqs, g.reached([]int{r}), 1, fmt.Sprintf("pass %d", p))
		for _, x := range all {
			x.ZeroGrad()
		}
		for _, x := range all {
			vrt.Assert(!x.HasGrad(), "zeroed")
		}
	}
}

// Gradients given to an output in several steps add up.
func H_OutputGradAccumulates() {
	xs := leaves[float64](1, 2, []bool{true}, false)
	y := ag.Square(xs[0])
	g1, g2 := hx.Floats[float64](2), hx.Floats[float64](2)
	y.AccGrad(hx.M(2, 1, g1))
	y.AccGrad(hx.M(2, 1, g2))
	must(ag.Backward(y))
	x := xs[0].Value().Data().F64()
	hx.EqD(hx.V[float64](xs[0].Grad()), []float64{2 * x[0] * (g1[0] + g2[0]), 2 * x[1] * (g1[1] + g2[1])}, "gradient")
}

// The tensors handed to AccGrad are never modified afterwards and stay independent.
func H_GradNotShared() {
	g := hx.Floats[float64](2)
	m := hx.M(2, 1, g)
	xs := leaves[float64](2, 2, []bool{true, true}, false)
	y := ag.Add(xs[0], xs[1])
	y.AccGrad(m)
	must(ag.Backward(y))
	xs[0].AccGrad(hx.M(2, 1, hx.Floats[float64](2)))
	hx.Eq(m, 2, 1, g, "supplied gradient")
	hx.Eq(y.Grad(), 2, 1, g, "output gradient")
	hx.Eq(xs[1].Grad(), 2, 1, g, "other operand")
	m.(mat.Matrix).ProdScalarInPlace(2)
	hx.Eq(y.Grad(), 2, 1, g, "output gradient after the caller changed his matrix")
}

// Outputs of more than one element without gradient are refused, whatever
// roots come with them; once the gradient is given, the pass works.
func H_Missing() {
	xs := leaves[float64](2, 2, []bool{true, true}, false)
	z := ag.Prod(xs[0], xs[1])
	y := ag.Square(z)
	w := ag.Copy(z)
	g := hx.Floats[float64](2)
	h := hx.Floats[float64](2)
	d := hx.D[float64]
	a, b := d(xs[0].Value()), d(xs[1].Value())
	w.AccGrad(hx.M(2, 1, h))
	var err error
	switch vrt.Choose(3) {
	case 0:
		err = ag.Backward(y)
	case 1:
		err = ag.Backward(y, w)
	case 2:
		err = ag.Backward(w, y)
	}
	vrt.Assert(err != nil, "a missing output gradient is reported")
	vrt.Assert(!xs[0].HasGrad() && !xs[1].HasGrad() && !z.HasGrad(), "nothing propagated")
	var want [2]float64
	if vrt.Choose(2) == 0 { // give up y: only w is propagated
		must(ag.Backward(w))
		for i := range want {
			want[i] = h[i]
		}
	} else {
		y.AccGrad(hx.M(2, 1, g))
		must(ag.Backward(y, w))
		for i := range want {
			want[i] = h[i] + 2*a[i]*b[i]*g[i]
		}
	}
	hx.Eq(z.Grad(), 2, 1, want[:], "gradient of z")
	hx.Eq(xs[0].Grad(), 2, 1, []float64{want[0] * b[0], want[1] * b[1]}, "gradient of a")
	hx.Eq(xs[1].Grad(), 2, 1, []float64{want[0] * a[0], want[1] * a[1]}, "gradient of b")
}

// Nothing to do: leaves and an empty list are accepted and left alone.
func H_NoOperators() {
	xs := leaves[float64](2, 2, []bool{true, false}, vrt.Choose(2) == 0)
	must(ag.Backward())
	must(ag.Backward(xs[0]))
	must(ag.Backward(xs...))
	vrt.Assert(!xs[0].HasGrad() && !xs[1].HasGrad(), "leaves untouched")
}
