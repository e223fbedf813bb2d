// Package c18: random generation stays in range, unbiased in mapping and replayable.
//
// The word source of the generators (PCGSource.Uint64) is replaced by arbitrary
// symbolic words, so the results hold for every state and every sequence of
// words; the harnesses that concern the generator itself leave it in place.
package c18

import (
	"math"

	"github.com/nlpodyssey/spago/ag"
	"github.com/nlpodyssey/spago/initializers"
	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	irand "github.com/nlpodyssey/spago/mat/internal/rand"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/mat/rand/bernulli"
	"github.com/nlpodyssey/spago/mat/rand/normal"
	"github.com/nlpodyssey/spago/mat/rand/uniform"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/dropout"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// words makes the generators draw the given words, and none beyond them.
func words(ws []uint64, f func()) (used int) {
	irand.ZZWord = func() uint64 {
		vrt.Assume(used < len(ws))
		used++
		return ws[used-1]
	}
	defer func() { irand.ZZWord = nil }()
	f()
	return
}

func any64(n int) []uint64 {
	out := make([]uint64, n)
	for i := range out {
		out[i] = vrt.U64()
	}
	return out
}

// gen is a generator: a locked one, or the global functions behind the others.
func gen() *rand.LockedRand { return rand.NewLockedRand(7) }

// Integer draws lie in [0, n), for every n and every word.
//
//vrt:fp
func H_Uint64n() {
	n := vrt.U64()
	vrt.Assume(n != 0)
	words(any64(2), func() {
		var x uint64
		if vrt.Choose(2) == 0 {
			x = gen().Uint64n(n)
		} else {
			x = irand.New(irand.NewSource(1)).Uint64n(n)
		}
		vrt.Assert(x < n, "in [0, n)")
	})
}

//vrt:fp
func H_Intn() {
	k := vrt.Choose(3)
	words(any64(2), func() {
		switch k {
		case 0:
			n := int(vrt.U64())
			vrt.Assume(n > 0)
			x := gen().Intn(n)
			vrt.Assert(0 <= x && x < n, "Intn in [0, n)")
		case 1:
			n := int64(vrt.U64())
			vrt.Assume(n > 0)
			x := gen().Int63n(n)
			vrt.Assert(0 <= x && x < n, "Int63n in [0, n)")
		case 2:
			n := int32(vrt.U32())
			vrt.Assume(n > 0)
			x := gen().Int31n(n)
			vrt.Assert(0 <= x && x < n, "Int31n in [0, n)")
		}
	})
}

// Bounds that are not positive are refused.
//
//vrt:fp
func H_BadBound() {
	n := int(vrt.U64())
	vrt.Assume(n <= 0)
	words(any64(1), func() {
		switch vrt.Choose(5) {
		case 0:
			vrt.AssertPanics(func() { gen().Intn(n) }, "Intn")
		case 1:
			vrt.AssertPanics(func() { gen().Int63n(int64(n)) }, "Int63n")
		case 2:
			vrt.Assume(n >= math.MinInt32)
			vrt.AssertPanics(func() { gen().Int31n(int32(n)) }, "Int31n")
		case 3:
			vrt.AssertPanics(func() { gen().Uint64n(0) }, "Uint64n")
		case 4:
			vrt.Assume(n < 0)
			vrt.AssertPanics(func() { gen().Shuffle(n, func(i, j int) {}) }, "Shuffle")
		}
	})
}

// The mapping is unbiased: when a word gives the draw x, then for every other y in
// [0, n) the word of the same block that is y - x further on gives y.
//
//vrt:fp
func H_Unbiased() {
	bound := hx.Pick[uint64](1, 2, 1<<40, 1<<62, 1<<62+1, 1<<63+1, 3<<62, math.MaxUint64-1, math.MaxUint64)
	if vrt.Thorough() {
		bound = hx.Pick[uint64](1, 2, 3, 4, 5, 6, 7, 9, 10, 11, 12, 13, 15, 17, 24, 60, 100, 1<<62, 1<<62+1, 1<<63+1, 3<<62, math.MaxUint64-1, math.MaxUint64)
	}
	w, y := vrt.U64(), vrt.U64()
	vrt.Assume(y < bound)
	var x, z uint64
	words([]uint64{w}, func() { x = gen().Uint64n(bound) })
	words([]uint64{w - x + y, 0, 0}, func() { z = gen().Uint64n(bound) })
	vrt.Assert(z == y, "the word of the other draw is accepted and gives it")
}

// The plain draws cover their types: the ranges hold for every word.
//
//vrt:fp
func H_Plain() {
	w := vrt.U64()
	words([]uint64{w, w}, func() {
		switch vrt.Choose(7) {
		case 0:
			vrt.Assert(gen().Int63() >= 0, "Int63")
		case 1:
			vrt.Assert(gen().Int31() >= 0, "Int31")
		case 2:
			vrt.Assert(gen().Int() >= 0, "Int")
		case 3:
			a, b := gen().TwoInt63()
			vrt.Assert(a >= 0 && b >= 0, "TwoInt63")
		case 4:
			vrt.Assert(gen().Uint64() == w, "Uint64 is the word")
		case 5:
			x := gen().Uint32()
			vrt.Assert(x == uint32(w>>32), "Uint32 is the upper half of the word")
		case 6:
			x := gen().Int31()
			vrt.Assert(x == int32(w>>33), "Int31 is the upper bits of the word")
		}
	})
}

//vrt:fp
func H_Float64() {
	w := any64(2)
	words(w, func() {
		var x float64
		switch vrt.Choose(3) {
		case 0:
			x = gen().Float64()
		case 1:
			x = rand.Float[float64]()
		case 2:
			x = irand.Float64()
		}
		vrt.Assert(x >= 0 && x < 1, "in [0, 1)")
		vrt.AssertSame(x, float64(w[0]&(1<<53-1))/(1<<53), "every multiple of 2^-53 is equally likely")
	})
}

//vrt:fp
func H_Float32() {
	w := any64(3)
	n := 0
	words(w, func() {
		var x float32
		switch vrt.Choose(3) {
		case 0:
			x = gen().Float32()
		case 1:
			x = rand.Float[float32]()
		case 2:
			x = irand.Float32()
		}
		vrt.Assert(x >= 0 && x < 1, "in [0, 1)")
		n++
	})
	vrt.Assert(n == 1, "one draw")
}

// isPerm tells whether xs is a permutation of 0..n-1.
func isPerm(xs []int, n int) bool {
	if len(xs) != n {
		return false
	}
	for v := 0; v < n; v++ {
		k := 0
		for _, x := range xs {
			if x == v {
				k++
			}
		}
		if k != 1 {
			return false
		}
	}
	return true
}

//vrt:fp
func H_Perm() {
	n := vrt.Choose(vrt.Bound(4, 6))
	words(any64(n+1), func() {
		var p []int
		switch vrt.Choose(2) {
		case 0:
			p = gen().Perm(n)
		case 1:
			p = irand.Perm(n)
		}
		vrt.Assert(isPerm(p, n), "a permutation")
	})
}

// Different draws give different permutations, so that all are equally likely.
//
//vrt:fp
func H_PermInjective() {
	n := 2 + vrt.Choose(vrt.Bound(2, 3))
	shuffle := vrt.Choose(2) == 1
	a, b := make([]uint64, n), make([]uint64, n)
	for i := range a {
		a[i], b[i] = uint64(vrt.Int(0, n-1)), uint64(vrt.Int(0, n-1))
	}
	run := func(w []uint64) (p []int, bounds []uint64) {
		words(w, func() {
			if shuffle {
				p = make([]int, n)
				for i := range p {
					p[i] = i
				}
				gen().Shuffle(n, func(i, j int) { p[i], p[j] = p[j], p[i] })
			} else {
				p = gen().Perm(n)
			}
		})
		return
	}
	// the k-th draw is below k+1 (Perm) or n-k (Shuffle)
	differ := false
	for k := 0; k < n; k++ {
		bound := uint64(k + 1)
		if shuffle {
			bound = uint64(n - k)
		}
		vrt.Assume(a[k] < bound && b[k] < bound)
		if a[k] != b[k] {
			differ = true
		}
	}
	vrt.Assume(differ)
	p, _ := run(a)
	q, _ := run(b)
	same := true
	for i := range p {
		if p[i] != q[i] {
			same = false
		}
	}
	vrt.Assert(!same, "different draws, different permutations")
}

//vrt:fp
func H_Shuffle() {
	n := vrt.Choose(vrt.Bound(4, 6))
	orig := make([]int, n)
	for i := range orig {
		orig[i] = 10 * (i + 1)
	}
	xs := append([]int{}, orig...)
	words(any64(n+1), func() {
		var g *rand.LockedRand
		if vrt.Choose(2) == 1 {
			g = gen()
		}
		ys := rand.ShuffleInPlace(xs, g)
		vrt.Assert(len(ys) == n, "length")
		idx := make([]int, n)
		for i := range ys {
			idx[i] = ys[i]/10 - 1
			vrt.Assert(ys[i] == xs[i], "in place")
		}
		vrt.Assert(isPerm(idx, n), "the same elements")
	})
}

// A weighted choice only returns an event of positive probability, when there is one.
//
//vrt:fp
func H_WeightedChoice() { hx.Both(choice[float32], choice[float64]) }

func choice[T float.DType]() {
	n := 1 + vrt.Choose(vrt.Bound(2, 3))
	d := hx.Floats[T](n)
	some := false
	var sum T
	for _, p := range d {
		vrt.Assume(p >= 0 && p <= 1)
		if p > 0 {
			some = true
		}
		sum += p
	}
	vrt.Assume(some)
	vrt.Assume(sum >= 0.999 && sum <= 1.001)
	words(any64(2), func() {
		k := rand.WeightedChoice(d)
		vrt.Assert(k >= 0 && k < n, "in range")
		vrt.Assert(d[k] > 0, "the chosen event has a positive probability")
	})
}

// The chosen event is the one whose cumulative interval holds the draw.
//
//vrt:fp
func H_WeightedInterval() {
	d := hx.Pick([]float64{0.25, 0.5, 0.25}, []float64{0, 1}, []float64{1, 0, 0}, []float64{0.5, 0, 0.5}, []float64{1})
	w := vrt.U64()
	words([]uint64{w}, func() {
		k := rand.WeightedChoice(d)
		r := float64(w&(1<<53-1)) / (1 << 53)
		lo := 0.0
		for i := 0; i < k; i++ {
			lo += d[i]
		}
		vrt.Assert(lo <= r && r < lo+d[k], "the draw lies in the interval of the event")
	})
}

// Unique draws are distinct, in range and accepted by the callback, and every
// acceptable value can be drawn.
//
//vrt:fp
func H_UniqueInt() {
	max := 1 + vrt.Choose(3)
	bad := vrt.Choose(max + 1)
	avail := max
	if bad < max {
		avail--
	}
	n := vrt.Choose(avail + 1)
	valid := func(r int) bool { return r != bad }
	want := make([]int, n)
	w := make([]uint64, n)
	for i := range w {
		want[i] = vrt.Int(0, max-1)
		w[i] = uint64(want[i])
		vrt.Assume(want[i] != bad)
		for j := 0; j < i; j++ {
			vrt.Assume(want[i] != want[j])
		}
	}
	words(append(w, 0, 1, 2), func() {
		got := rand.GetUniqueRandomInt(n, max, valid)
		vrt.Assert(len(got) == n, "length")
		for i := range got {
			vrt.Assert(got[i] == want[i], "distinct acceptable draws are taken as they come")
		}
	})
}

//vrt:fp
func H_UniqueIntDistinct() {
	max := 1 + vrt.Choose(3)
	n := vrt.Choose(max + 1)
	w := make([]uint64, n+2)
	for i := range w {
		w[i] = uint64(vrt.Int(0, max-1))
	}
	words(w, func() {
		got := rand.GetUniqueRandomInt(n, max, func(int) bool { return true })
		for i := range got {
			vrt.Assert(got[i] >= 0 && got[i] < max, "in range")
			for j := 0; j < i; j++ {
				vrt.Assert(got[i] != got[j], "distinct")
			}
		}
	})
}

//vrt:fp
func H_UniqueIndices() {
	idx := hx.Pick([]int{4, 0}, []int{2, 0, 5})
	n := vrt.Choose(vrt.Bound(3, len(idx)+1))
	all := append([]int{}, idx...)
	shuffles := n
	if vrt.Thorough() {
		shuffles++
	}
	// a shuffle of k elements draws below k, k-1, ... 2
	var w []uint64
	for i := 0; i < shuffles; i++ {
		for k := len(idx); k > 1; k-- {
			w = append(w, uint64(vrt.Int(0, k-1)))
		}
	}
	words(w, func() {
		got := rand.GetUniqueRandomIndices(n, idx, func(r int) bool { return true })
		vrt.Assert(len(got) == n, "length")
		for i := range got {
			in := false
			for _, v := range all {
				in = in || got[i] == v
			}
			vrt.Assert(in, "one of the indices")
			for j := 0; j < i; j++ {
				vrt.Assert(got[i] != got[j], "distinct")
			}
		}
	})
	if n == len(all) {
		vrt.Reach("all of the indices")
	}
}

// Every index can be drawn first, index 0 included.
func H_UniqueReach() {
	idx := []int{0, 3}
	first := vrt.Choose(2)
	// one shuffle of two elements draws one word: 0 swaps them, 1 does not
	used := words([]uint64{uint64(1 - first), uint64(1 - first), 0, 1, 0, 1}, func() {
		got := rand.GetUniqueRandomIndices(1, idx, func(int) bool { return true })
		vrt.Assert(got[0] == []int{0, 3}[first], "the first element after the shuffle is accepted")
	})
	vrt.Assert(used == 1, "one shuffle is enough")
}

// Equal seeds give equal sequences, on a new generator or after Seed.
//
//vrt:fp
func H_Replay() {
	s := vrt.U64()
	g, h := rand.NewLockedRand(s), rand.NewLockedRand(vrt.U64())
	// whatever was drawn before
	for i := vrt.Choose(3); i > 0; i-- {
		h.Uint64()
	}
	if vrt.Choose(2) == 1 {
		h.Read(make([]byte, 3))
	}
	h.Seed(s)
	for i := 0; i < 3; i++ {
		switch vrt.Choose(5) {
		case 0:
			vrt.Assert(g.Uint64() == h.Uint64(), "Uint64")
		case 1:
			vrt.Assert(g.Uint32() == h.Uint32(), "Uint32")
		case 2:
			a, b := make([]byte, 5), make([]byte, 5)
			n, err := g.Read(a)
			vrt.Assert(n == 5 && err == nil, "Read")
			h.Read(b)
			for j := range a {
				vrt.Assert(a[j] == b[j], "bytes")
			}
		case 3:
			vrt.Assert(g.Int63() == h.Int63(), "Int63")
		case 4:
			vrt.Assert(g.Uint64n(1<<20) == h.Uint64n(1<<20), "Uint64n")
		}
	}
}

//vrt:fp
func H_ReplayGlobal() {
	s := vrt.U64()
	g := ag.ManualSeed(s)
	vrt.Assert(g == ag.Rand(), "the global generator")
	a, b := g.Uint64(), g.Uint64()
	ag.ManualSeed(s)
	vrt.Assert(ag.Rand().Uint64() == a && ag.Rand().Uint64() == b, "the same sequence again")
	irand.Seed(s)
	c, d := irand.Uint64(), irand.Uint64()
	irand.Seed(s)
	vrt.Assert(irand.Uint64() == c && irand.Uint64() == d, "the same sequence again")
	r := irand.New(irand.NewSource(s))
	vrt.Assert(r.Uint64() == c && r.Uint64() == d, "global and own generator agree")
}

// The bytes read are the bytes of the words, in order, across calls.
//
//vrt:fp
func H_Read() {
	w := any64(3)
	n1, n2 := vrt.Choose(10), vrt.Choose(10)
	var a, b []byte
	words(w, func() {
		g := gen()
		a, b = make([]byte, n1), make([]byte, n2)
		g.Read(a)
		g.Read(b)
	})
	all := append(append([]byte{}, a...), b...)
	for i, x := range all {
		vrt.Assert(x == byte(w[i/8]>>(8*(i%8))), "byte of a word")
	}
}

// Saving and restoring the state of the source resumes the sequence.
//
//vrt:fp
func H_State() {
	var p, q irand.PCGSource
	st := make([]byte, 16)
	for i := range st {
		st[i] = vrt.Byte()
	}
	vrt.Assert(p.UnmarshalBinary(st) == nil, "restored")
	b, err := p.MarshalBinary()
	vrt.Assert(err == nil && len(b) == 16, "saved")
	for i := range st {
		vrt.Assert(b[i] == st[i], "state")
	}
	vrt.Assert(q.UnmarshalBinary(b) == nil, "restored")
	vrt.Assert(p.Uint64() == q.Uint64() && p.Uint64() == q.Uint64(), "the same sequence")
	vrt.Assert(q.UnmarshalBinary(st[:vrt.Choose(16)]) != nil, "a short state is refused")
}

// Every state has exactly one successor and, as the step is invertible, exactly one
// predecessor: two states that differ in one word never meet.
//
//vrt:fp deep
func H_Step() {
	lo := vrt.U64()
	a, b := vrt.U64(), vrt.U64()
	vrt.Assume(a != b)
	step := func(hi uint64) []byte {
		var p irand.PCGSource
		st := make([]byte, 16)
		for i := 0; i < 8; i++ {
			st[i] = byte(hi >> (56 - 8*i))
			st[8+i] = byte(lo >> (56 - 8*i))
		}
		p.UnmarshalBinary(st)
		p.Uint64()
		out, _ := p.MarshalBinary()
		return out
	}
	x, y := step(a), step(b)
	same := true
	for i := range x {
		same = same && x[i] == y[i]
	}
	vrt.Assert(!same, "the step is injective")
}

// ---- masks ----

// A Bernoulli mask has only zeros and ones; an element is zero exactly when its
// own draw is below the probability.
//
//vrt:fp
func H_Bernoulli() { hx.Both(bernoulli[float32], bernoulli[float64]) }

func bernoulli[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {1, 2}}, [][2]int{{2, 1}, {2, 2}})
	p := vrt.F[T]()
	vrt.Assume(p >= 0 && p <= 1)
	w := any64(r * c)
	words(w, func() {
		m := bernulli.Distribution(r, c, p, gen())
		hx.Shape(m, r, c, "mask")
		for i, x := range hx.V[T](m) {
			vrt.Assert(x == 0 || x == 1, "zero or one")
			u := T(float64(w[i]&(1<<53-1)) / (1 << 53))
			vrt.Assert((x == 0) == (u < p), "zero exactly when the draw is below the probability")
		}
	})
}

// Dropout passes each element either as zero or divided by 1-p, and its gradient
// in the same way.
//
//vrt:fp
func H_DropoutMask() { hx.Both(dropoutMask[float32], dropoutMask[float64]) }

func dropoutMask[T float.DType]() {
	p := hx.Pick(0.5, 0.25, 0.75, 1.0)
	x := hx.Pick[T](1, -3)
	w := any64(1)
	words(w, func() {
		m := mat.NewDense[T](mat.WithShape(1, 1), mat.WithBacking([]T{x}), mat.WithGrad(true))
		y := ag.Dropout(m, p)
		keep := float64(w[0]&(1<<53-1))/(1<<53) >= p
		want := T(0)
		if keep {
			want = T(float64(x) / (1 - p))
		}
		got := hx.V[T](y)[0]
		vrt.Assert(got == want, "zero or scaled")
		y.AccGrad(mat.Scalar[T](2))
		if err := ag.Backward(y); err != nil {
			panic(err)
		}
		g := T(0)
		if keep {
			g = T(2 / (1 - p))
		}
		vrt.Assert(hx.V[T](m.Grad())[0] == g, "gradient of the same mask")
	})
}

func H_DropoutValues() { hx.Both(dropoutValues[float32], dropoutValues[float64]) }

func dropoutValues[T float.DType]() {
	r, c := hx.Dims([][2]int{{2, 2}, {1, 3}}, [][2]int{{3, 3}})
	n := r * c
	p := vrt.F[float64]()
	vrt.Assume(p >= 0 && p < 1)
	x, g := hx.Floats[T](n), hx.Floats[T](n)
	// draws: 0, just below and above p cannot be told with concrete words, so the
	// words are the extremes: always dropped unless p is 0, and kept
	var w []uint64
	drop := make([]bool, n)
	for i := range drop {
		drop[i] = vrt.Choose(2) == 1
		if drop[i] {
			w = append(w, 0)
		} else {
			w = append(w, 1<<53-1)
		}
	}
	vrt.Assume(p < 0.9)
	words(w, func() {
		m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(x)), mat.WithGrad(true))
		ys := dropout.New(p).Forward(m)
		vrt.Assert(len(ys) == 1, "one output")
		y := ys[0]
		mask := func(i int) T {
			if drop[i] && p > 0 {
				return 0
			}
			return T(1 / (1 - p))
		}
		hx.EqF(y, r, c, func(i, j int) T { return x[i*c+j] * mask(i*c+j) }, "dropped or scaled")
		y.AccGrad(hx.M(r, c, g))
		if err := ag.Backward(y); err != nil {
			panic(err)
		}
		hx.EqF(m.Grad(), r, c, func(i, j int) T { return g[i*c+j] * mask(i*c+j) }, "gradient")
		hx.Eq(m, r, c, x, "operand")
	})
}

// ---- initializers and distributions ----

func shape() (int, int) {
	return hx.Dims([][2]int{{1, 1}, {2, 3}, {3, 1}, {0, 2}}, [][2]int{{4, 4}, {1, 9}})
}

func concrete(n int) []uint64 {
	out := make([]uint64, n)
	x := uint64(0x9E3779B97F4A7C15)
	for i := range out {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		out[i] = x
	}
	if n > 1 {
		out[0], out[1] = 0, math.MaxUint64
	}
	return out
}

func unit(w uint64) float64 { return float64(w&(1<<53-1)) / (1 << 53) }

func H_UniformInit() { hx.Both(uniformInit[float32], uniformInit[float64]) }

func uniformInit[T float.DType]() {
	r, c := shape()
	lo, hi := vrt.F[float64](), vrt.F[float64]()
	vrt.Assume(lo < hi)
	m := hx.M(r, c, hx.Floats[T](r*c))
	w := concrete(r * c)
	words(w, func() {
		got := initializers.Uniform(m, lo, hi, gen())
		vrt.Assert(got == m, "the matrix is returned")
		hx.EqF(m, r, c, func(i, j int) T { return T(lo + (hi-lo)*unit(w[i*c+j])) }, "uniform")
		for _, x := range hx.V[T](m) {
			vrt.AssertLe(T(lo), x, "not below the minimum")
			vrt.AssertLt(x, T(hi), "below the maximum")
		}
	})
}

func H_XavierUniform() { hx.Both(xavier[float32], xavier[float64]) }

func xavier[T float.DType]() {
	r, c := shape()
	gain := vrt.F[float64]()
	vrt.Assume(gain > 0)
	m := hx.M(r, c, hx.Floats[T](r*c))
	w := concrete(r * c)
	words(w, func() {
		vrt.Assert(initializers.XavierUniform(m, gain, gen()) == m, "the matrix is returned")
		a := gain * math.Sqrt(6/float64(r+c))
		hx.EqF(m, r, c, func(i, j int) T { return T(-a + 2*a*unit(w[i*c+j])) }, "uniform in the Glorot interval")
	})
}

// The normal initializers scale the standard normal draws.
func H_NormalInit() { hx.Both(normalInit[float32], normalInit[float64]) }

func normalInit[T float.DType]() {
	r, c := shape()
	mean, std := vrt.F[float64](), vrt.F[float64]()
	vrt.Assume(std > 0)
	kind := vrt.Choose(2)
	w := concrete(4*r*c + 4)
	z := make([]float64, r*c)
	words(w, func() {
		g := gen()
		for i := range z {
			z[i] = g.NormFloat64()
		}
	})
	m := hx.M(r, c, hx.Floats[T](r*c))
	words(w, func() {
		if kind == 0 {
			vrt.Assert(initializers.Normal(m, mean, std, gen()) == m, "the matrix is returned")
			hx.EqF(m, r, c, func(i, j int) T { return T(mean + std*z[i*c+j]) }, "normal")
			return
		}
		vrt.Assert(initializers.XavierNormal(m, std, gen()) == m, "the matrix is returned")
		s := std * math.Sqrt(2/float64(r+c))
		hx.EqF(m, r, c, func(i, j int) T { return T(s * z[i*c+j]) }, "Glorot normal")
	})
}

func H_ConstantInit() { hx.Both(constantInit[float32], constantInit[float64]) }

func constantInit[T float.DType]() {
	r, c := shape()
	k := vrt.F[float64]()
	m := hx.M(r, c, hx.Floats[T](r*c))
	vrt.Assert(initializers.Constant(m, k) == m, "the matrix is returned")
	hx.EqF(m, r, c, func(i, j int) T { return T(k) }, "constant")
	vrt.Assert(initializers.Ones(m) == m, "the matrix is returned")
	hx.EqF(m, r, c, func(i, j int) T { return 1 }, "ones")
	vrt.Assert(initializers.Zeros(m) == m, "the matrix is returned")
	hx.EqF(m, r, c, func(i, j int) T { return 0 }, "zeros")
}

// Achlioptas: plus or minus the square root of 3, each for a sixth of the draws.
//
//vrt:fp
func H_Achlioptas() {
	w := any64(2)
	words(w, func() {
		m := initializers.Achlioptas(mat.NewDense[float64](mat.WithShape(1, 2)), gen())
		for i, x := range hx.V[float64](m) {
			u := unit(w[i])
			switch {
			case u < 1.0/6:
				vrt.Assert(x == -math.Sqrt(3), "lower sixth")
			case u > 1-1.0/6:
				vrt.Assert(x == math.Sqrt(3), "upper sixth")
			default:
				vrt.Assert(x == 0, "the rest")
			}
		}
	})
}

func H_Gain() {
	vrt.AssertEq(initializers.Gain(activation.Sigmoid), 1, "sigmoid")
	vrt.AssertEq(initializers.Gain(activation.ReLU), math.Sqrt(2), "relu")
	vrt.AssertEq(initializers.Gain(activation.Tanh), 5.0/3, "tanh")
	vrt.AssertEq(initializers.Gain(activation.Identity), 1, "identity")
}

func H_Distributions() {
	a, b := vrt.F[float64](), vrt.F[float64]()
	w := concrete(8)[2+vrt.Choose(3):]
	var z, u float64
	words(w, func() { z = gen().NormFloat64() })
	words(w, func() { u = gen().Float64() })
	words(w, func() { vrt.AssertEq(uniform.New(a, b, gen()).Next(), a+(b-a)*u, "uniform") })
	words(w, func() { vrt.AssertEq(normal.New(a, b, gen()).Next(), b+a*z, "normal") })
}

// A locked generator, and the functions of the global one, draw what the plain
// generator draws from the same words, and use as many of them.
//
//vrt:fp
func H_LockedSame() {
	k := vrt.Choose(15)
	n := hx.Pick(1, 3, 8, 1000003)
	w := any64(hx.Pick(2, 4))
	if k == 10 {
		w = concrete(40)
	}
	if k >= 11 {
		n = hx.Pick(0, 1, 2, 3)
		w = any64(8)
	}
	var a, b, c [4]uint64
	ua := words(w, func() { a = some(irand.New(irand.NewSource(3)), k, n) })
	ub := words(w, func() { b = some(rand.NewLockedRand(5), k, n) })
	vrt.Assert(ua == ub, "words drawn by the locked generator")
	vrt.Assert(a == b, "value drawn by the locked generator")
	if k == 0 { // the global functions have no TwoInt63
		return
	}
	uc := words(w, func() { c = some(globals{}, k, n) })
	vrt.Assert(ua == uc, "words drawn by the global generator")
	vrt.Assert(a == c, "value drawn by the global generator")
}

type drawer interface {
	Int63() int64
	Uint32() uint32
	Uint64() uint64
	Int31() int32
	Int() int
	Uint64n(uint64) uint64
	Int63n(int64) int64
	Int31n(int32) int32
	Intn(int) int
	NormFloat64() float64
	Float32() float32
	Float64() float64
	Perm(int) []int
	Read([]byte) (int, error)
	Shuffle(int, func(i, j int))
}

// globals are the functions of package rand.
type globals struct{ *irand.Rand }

func (globals) Int63() int64                    { return irand.Int63() }
func (globals) Uint32() uint32                  { return irand.Uint32() }
func (globals) Uint64() uint64                  { return irand.Uint64() }
func (globals) Int31() int32                    { return irand.Int31() }
func (globals) Int() int                        { return irand.Int() }
func (globals) Uint64n(n uint64) uint64         { return irand.New(irand.NewSource(1)).Uint64n(n) }
func (globals) Int63n(n int64) int64            { return irand.Int63n(n) }
func (globals) Int31n(n int32) int32            { return irand.Int31n(n) }
func (globals) Intn(n int) int                  { return irand.Intn(n) }
func (globals) NormFloat64() float64            { return irand.NormFloat64() }
func (globals) Float32() float32                { return irand.Float32() }
func (globals) Float64() float64                { return irand.Float64() }
func (globals) Perm(n int) []int                { return irand.Perm(n) }
func (globals) Read(p []byte) (int, error)      { return irand.New(irand.NewSource(1)).Read(p) }
func (globals) Shuffle(n int, f func(i, j int)) { irand.Shuffle(n, f) }

func some(g drawer, k, n int) (out [4]uint64) {
	switch k {
	case 0:
		if l, ok := g.(*rand.LockedRand); ok {
			a, b := l.TwoInt63()
			return [4]uint64{uint64(a), uint64(b)}
		}
		a := g.Int63()
		return [4]uint64{uint64(a), uint64(g.Int63())}
	case 1:
		out[0] = uint64(g.Int63())
	case 2:
		out[0] = uint64(g.Uint32())
	case 3:
		out[0] = g.Uint64()
	case 4:
		out[0] = uint64(g.Int31())
	case 5:
		out[0] = uint64(g.Int())
	case 6:
		out[0] = g.Uint64n(uint64(n))
	case 7:
		out[0] = uint64(g.Int63n(int64(n)))
	case 8:
		out[0] = uint64(g.Int31n(int32(n)))
	case 9:
		out[0] = uint64(g.Intn(n))
	case 10:
		out[0] = math.Float64bits(g.NormFloat64())
	case 11:
		out[0] = uint64(math.Float32bits(g.Float32()))
		out[1] = math.Float64bits(g.Float64())
	case 12:
		for i, x := range g.Perm(n) {
			out[i] = uint64(x) + 1
		}
	case 13:
		p := make([]byte, 2*n)
		m, err := g.Read(p)
		vrt.Assert(err == nil && m == len(p), "Read fills the bytes")
		for i, x := range p {
			out[i/2] = out[i/2]<<8 | uint64(x)
		}
	case 14:
		g.Shuffle(n, func(i, j int) { out[0] = out[0]<<8 | uint64(i)<<4 | uint64(j) + 1 })
	}
	return
}

// Unique draws: a number that is out of the question is drawn again, until one
// can be accepted; nothing is drawn beyond that.
//
//vrt:fp
func H_UniqueRedraw() {
	max := 2 + vrt.Choose(2)
	n := 1 + vrt.Choose(2)
	bad := vrt.Choose(max + 1)
	w := make([]uint64, vrt.Bound(4, 5))
	taken := []int{}
	need := 0
	for i := range w {
		x := vrt.Int(0, max-1)
		w[i] = uint64(x)
		again := x == bad
		for _, t := range taken {
			again = again || x == t
		}
		if !again && len(taken) < n {
			taken = append(taken, x)
			need = i + 1
		}
	}
	vrt.Assume(len(taken) == n)
	var got []int
	exactly(w[:need], func() { got = rand.GetUniqueRandomInt(n, max, func(r int) bool { return r != bad }) })
	vrt.Assert(len(got) == n, "length")
	for i := range got {
		vrt.Assert(got[i] == taken[i], "the first numbers that can be accepted")
	}
}

// The same for indices: two shuffles, the first of which brings up a rejected one.
func H_UniqueIndicesRedraw() {
	first, second := vrt.Choose(2), vrt.Choose(2)
	idx := []int{0, 3}
	// a shuffle of two elements draws one word: 0 swaps them, 1 does not
	w := []uint64{uint64(first), uint64(second), 0, 1, 0, 1, 0, 1}
	a := append([]int{}, idx...)
	bad := hx.Pick(0, 3)
	want, need := 0, 0
	for i, x := range w {
		if x == 0 {
			a[0], a[1] = a[1], a[0]
		}
		if a[0] != bad {
			want, need = a[0], i+1
			break
		}
	}
	exactly(w[:need], func() {
		got := rand.GetUniqueRandomIndices(1, idx, func(r int) bool { return r != bad })
		vrt.Assert(len(got) == 1 && got[0] == want, "the first index that can be accepted")
	})
	vrt.Reach("accepted")
}

// exactly makes the generators draw the given words, and asserts that they do.
func exactly(ws []uint64, f func()) {
	used := 0
	irand.ZZWord = func() uint64 {
		vrt.Assert(used < len(ws), "nothing is drawn after the last accepted one")
		used++
		return ws[used-1]
	}
	defer func() { irand.ZZWord = nil }()
	f()
	vrt.Assert(used == len(ws), "everything up to the last accepted one is drawn")
}
