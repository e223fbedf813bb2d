// Package c15: CRF decoding and loss agree with exhaustive scoring.
package c15

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/crf"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// sequences are all tag sequences of the given length.
func sequences(size, n int) [][]int {
	out := [][]int{{}}
	for i := 0; i < n; i++ {
		var next [][]int
		for _, s := range out {
			for t := 0; t < size; t++ {
				next = append(next, append(append([]int{}, s...), t))
			}
		}
		out = next
	}
	return out
}

// score is the definition: emissions, transitions between neighbours, and the
// transitions from the start and to the end (index 0 of the transition matrix).
func score[T float.DType](size int, tr []T, em [][]T, seq []int) float64 {
	at := func(i, j int) float64 { return float64(tr[i*(size+1)+j]) }
	prev, s := 0, 0.0
	for i, t := range seq {
		s += at(prev, t+1) + float64(em[i][t])
		prev = t + 1
	}
	return s + at(prev, 0)
}

type inst[T float.DType] struct {
	size, n int
	m       *crf.Model
	tr      []T
	em      [][]T
	xs      []mat.Tensor
}

func dims(quick, deep [][2]int) (int, int) { return hx.Dims(quick, deep) }

func setup[T float.DType](size, n int) inst[T] {
	x := inst[T]{size: size, n: n, m: crf.New[T](size)}
	x.tr = hx.Floats[T]((size + 1) * (size + 1))
	mat.SetData[T](x.m.TransitionScores.Value().(mat.Matrix), hx.Copy(x.tr))
	for i := 0; i < n; i++ {
		e := hx.Floats[T](size)
		x.em = append(x.em, e)
		x.xs = append(x.xs, mat.NewDense[T](mat.WithShape(size, 1), mat.WithBacking(hx.Copy(e)), mat.WithGrad(true)))
	}
	if n > 1 && vrt.Choose(2) == 1 { // the same scores at the first and the last position
		x.em[n-1], x.xs[n-1] = x.em[0], x.xs[0]
	}
	return x
}

func (x inst[T]) unchanged() {
	n := x.size + 1
	hx.Eq(x.m.TransitionScores.Value(), n, n, x.tr, "transition scores")
	for i := range x.em {
		hx.Eq(x.xs[i], x.size, 1, x.em[i], "emission scores")
	}
}

func H_Decode() { hx.Both(decode[float32], decode[float64]) }

func decode[T float.DType]() {
	size, n := dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}}, [][2]int{{2, 4}, {2, 5}, {3, 3}, {4, 1}, {4, 2}})
	x := setup[T](size, n)
	ys := x.m.Decode(x.xs)
	vrt.Assert(len(ys) == n, "one tag per token")
	for _, y := range ys {
		vrt.Assert(y >= 0 && y < size, "tag in range")
	}
	best := score(size, x.tr, x.em, ys)
	for _, s := range sequences(size, n) {
		vrt.AssertLe(score(size, x.tr, x.em, s), best, "no sequence has a higher score than the decoded one")
	}
	x.unchanged()
}

// The scores may come from the outputs of other operators and from a bare matrix.
func H_Viterbi() {
	x := setup[float64](2, 3)
	xs := make([]mat.Tensor, len(x.xs))
	for i := range xs {
		xs[i] = ag.Neg(ag.Neg(x.xs[i]))
	}
	ys := crf.Viterbi(hx.M(3, 3, x.tr), xs)
	best := score(2, x.tr, x.em, ys)
	for _, s := range sequences(2, 3) {
		vrt.AssertLe(score(2, x.tr, x.em, s), best, "no sequence has a higher score than the decoded one")
	}
}

// Forbidden transitions (-Inf) never appear in the decoded sequence while another
// sequence has a finite score.
func H_Forbidden() {
	size, n := 2, 3
	x := setup[float64](size, n)
	tr := hx.Copy(x.tr)
	k := vrt.Choose(len(tr))
	tr[k] = math.Inf(-1)
	mat.SetData[float64](x.m.TransitionScores.Value().(mat.Matrix), tr)
	i, j := k/(size+1), k%(size+1)
	ys := x.m.Decode(x.xs)
	prev := 0
	uses := func(ys []int) bool {
		prev = 0
		for _, y := range ys {
			if prev == i && y+1 == j {
				return true
			}
			prev = y + 1
		}
		return prev == i && j == 0
	}
	vrt.Assert(!uses(ys), "the forbidden transition is not used")
	best := score(size, x.tr, x.em, ys)
	for _, s := range sequences(size, n) {
		if !uses(s) {
			vrt.AssertLe(score(size, x.tr, x.em, s), best, "best among the allowed sequences")
		}
	}
}

func total(size int, tr []float64, em [][]float64) float64 {
	var sum float64
	for _, s := range sequences(size, len(em)) {
		sum += math.Exp(score(size, tr, em, s))
	}
	return math.Log(sum)
}

func H_Loss() { hx.Both(loss[float32], loss[float64]) }

func loss[T float.DType]() {
	size, n := dims([][2]int{{1, 1}, {1, 3}, {2, 1}, {2, 2}, {2, 3}, {3, 1}, {3, 2}}, [][2]int{{2, 4}, {3, 3}, {4, 2}, {5, 1}})
	x := setup[T](size, n)
	seqs := sequences(size, n)
	target := seqs[vrt.Choose(len(seqs))]
	l := x.m.NegativeLogLoss(x.xs, target)
	hx.Shape(l, 1, 1, "loss")
	var sum float64
	for _, s := range seqs {
		sum += math.Exp(score(size, x.tr, x.em, s))
	}
	want := math.Log(sum) - score(size, x.tr, x.em, target)
	vrt.AssertEq(hx.V[T](l)[0], T(want), "loss")
	x.unchanged()
}

// The gradients of the loss are those of the definition.
func H_Grad() {
	size, n := dims([][2]int{{1, 2}, {2, 1}, {2, 2}, {3, 1}}, [][2]int{{2, 3}, {3, 2}})
	x := setup[float64](size, n)
	seqs := sequences(size, n)
	target := seqs[vrt.Choose(len(seqs))]
	if err := ag.Backward(x.m.NegativeLogLoss(x.xs, target)); err != nil {
		panic(err)
	}
	flat := hx.Copy(x.tr)
	at := make([]int, n) // the index of each token's scores
	for i, e := range x.em {
		if i > 0 && x.xs[i] == x.xs[0] {
			at[i] = at[0]
			continue
		}
		at[i] = len(flat)
		flat = append(flat, e...)
	}
	d := vrt.Deriv(func(v []float64) float64 {
		em := make([][]float64, n)
		for i := range em {
			em[i] = v[at[i] : at[i]+size]
		}
		return total(size, v[:len(x.tr)], em) - score(size, v[:len(x.tr)], em, target)
	}, flat)
	for i, e := range x.xs {
		hx.Eq(e.Grad(), size, 1, d[at[i]:at[i]+size], "gradient of the emission scores")
	}
	hx.Eq(x.m.TransitionScores.Grad(), size+1, size+1, d[:len(x.tr)], "gradient of the transition scores")
}

var _ nn.Model = &crf.Model{}
