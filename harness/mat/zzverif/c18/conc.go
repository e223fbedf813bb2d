package c18

import (
	"sync"

	irand "github.com/nlpodyssey/spago/mat/internal/rand"
	"github.com/nlpodyssey/spago/mat/rand"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// draw makes the k-th kind of draw of a locked generator; the result identifies it.
func draw(g *rand.LockedRand, k int) (out [4]uint64) {
	switch k {
	case 0:
		return [4]uint64{g.Uint64()}
	case 1:
		return [4]uint64{uint64(g.Int63()), 1}
	case 2:
		return [4]uint64{uint64(g.Uint32()), 2}
	case 3:
		return [4]uint64{uint64(g.Int31()), 3}
	case 4:
		return [4]uint64{uint64(g.Int()), 4}
	case 5:
		return [4]uint64{uint64(g.Int63n(1000)), 5}
	case 6:
		return [4]uint64{uint64(g.Int31n(1000)), 6}
	case 7:
		return [4]uint64{uint64(g.Intn(1000)), 7}
	case 8:
		return [4]uint64{g.Uint64n(1000), 8}
	case 9:
		a, b := g.TwoInt63()
		return [4]uint64{uint64(a), uint64(b)}
	case 10:
		return [4]uint64{uint64(g.Float64() * (1 << 30)), 10}
	case 11:
		return [4]uint64{uint64(g.Float32() * (1 << 20)), 11}
	case 12:
		for i, x := range g.Perm(3) {
			out[i] = uint64(x)
		}
	case 13:
		b := make([]byte, 3)
		g.Read(b)
		for i, x := range b {
			out[i] = uint64(x)
		}
	case 14:
		xs := []int{0, 1, 2}
		rand.ShuffleInPlace(xs, g)
		for i, x := range xs {
			out[i] = uint64(x)
		}
	}
	return out
}

// Two goroutines that draw from one locked generator get the draws of one of the
// two orders, whatever the interleaving.
//
//vrt:fp conc
func H_LockedConcurrent() {
	k := vrt.Choose(15)
	l := []int{0, 13}[vrt.Choose(2)]
	if vrt.Thorough() {
		l = vrt.Choose(15)
	}
	const seed = 11
	g := rand.NewLockedRand(seed)
	a0 := draw(g, k)
	b0 := draw(g, l)
	g = rand.NewLockedRand(seed)
	b1 := draw(g, l)
	a1 := draw(g, k)

	g = rand.NewLockedRand(seed)
	var a, b [4]uint64
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		a = draw(g, k)
	}()
	go func() {
		defer wg.Done()
		b = draw(g, l)
	}()
	wg.Wait()
	vrt.Assert(a == a0 && b == b0 || a == a1 && b == b1, "the draws are those of one of the orders")
}

// The global functions draw from one generator that is safe for concurrent use.
//
//vrt:fp conc
func H_GlobalConcurrent() {
	one := func(k int) uint64 {
		switch k {
		case 0:
			return irand.Uint64()
		case 1:
			return uint64(irand.Intn(1 << 20))
		case 2:
			var b [8]byte
			irand.Read(b[:])
			return uint64(b[0]) | uint64(b[1])<<8 | uint64(b[7])<<16
		default:
			return uint64(irand.Float64() * (1 << 30))
		}
	}
	k, l := vrt.Choose(4), vrt.Choose(2)*2
	irand.Seed(5)
	a0, b0 := one(k), one(l)
	irand.Seed(5)
	b1, a1 := one(l), one(k)
	irand.Seed(5)
	var a, b uint64
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		a = one(k)
	}()
	go func() {
		defer wg.Done()
		b = one(l)
	}()
	wg.Wait()
	vrt.Assert(a == a0 && b == b0 || a == a1 && b == b1, "the draws are those of one of the orders")
}
