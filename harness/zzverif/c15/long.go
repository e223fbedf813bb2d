package c15

import (
	"math"

	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// Long sequences whose scores are zero but for one.
func H_LongLoss() {
	size := 1 + vrt.Choose(2)
	n := 4
	if size == 1 {
		n = hx.Pick(4, 5, 6)
	}
	tr := (size + 1) * (size + 1)
	defer hx.All()
	hx.FewElseZero(vrt.Choose(tr+n*size), 1)
	x := setup[float64](size, n)
	seqs := sequences(size, n)
	target := seqs[vrt.Choose(len(seqs))]
	l := x.m.NegativeLogLoss(x.xs, target)
	var sum float64
	for _, s := range seqs {
		sum += math.Exp(score(size, x.tr, x.em, s))
	}
	vrt.AssertEq(hx.V[float64](l)[0], math.Log(sum)-score(size, x.tr, x.em, target), "loss of a long sequence")
}

func H_LongDecode() {
	size := 1 + vrt.Choose(2)
	n := hx.Pick(4, 5)
	tr := (size + 1) * (size + 1)
	defer hx.All()
	hx.Few(vrt.Choose(tr+n*size), 1)
	x := setup[float64](size, n)
	ys := x.m.Decode(x.xs)
	vrt.Assert(len(ys) == n, "one tag per token")
	best := score(size, x.tr, x.em, ys)
	for _, s := range sequences(size, n) {
		vrt.AssertLe(score(size, x.tr, x.em, s), best, "no sequence has a higher score than the decoded one")
	}
}
