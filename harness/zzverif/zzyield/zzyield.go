// Package zzyield perturbs the scheduling of native replays: an overlay build calls
// Y ahead of every statement of the packages under test.
package zzyield

import (
	"math/rand"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
)

type plan struct {
	delay map[string]time.Duration
	n     uint64
	seed  uint64
	skip  map[string]uint64
}

var (
	cur  atomic.Pointer[plan]
	hot  = strings.Split(os.Getenv("GOSYM_HOT"), ",")
	hits atomic.Uint64
)

// Next sets up the delays of the next run.
func Next(seed int64) {
	r := rand.New(rand.NewSource(seed))
	p := &plan{delay: map[string]time.Duration{}, skip: map[string]uint64{}, seed: uint64(seed)}
	if seed%4 != 0 {
		for k := 1 + r.Intn(3); k > 0; k-- {
			s := hot[r.Intn(len(hot))]
			p.delay[s] = time.Duration(100+r.Intn(2000)) * time.Microsecond
			p.skip[s] = uint64(r.Intn(3))
		}
	}
	cur.Store(p)
}

// Y is a possible switch of goroutines.
func Y(site string) {
	p := cur.Load()
	if p == nil {
		return
	}
	if d, ok := p.delay[site]; ok {
		if s := p.skip[site]; s == 0 || (hits.Add(1)*2654435761+p.seed)>>7%2 == 0 {
			time.Sleep(d)
			return
		}
	}
	x := atomic.AddUint64(&p.n, 1)*0x9E3779B97F4A7C15 + p.seed*0xBF58476D1CE4E5B9
	x ^= x >> 29
	switch x * 0x94D049BB133111EB >> 58 {
	case 0, 1, 2, 3, 4, 5, 6, 7:
		runtime.Gosched()
	case 8:
		time.Sleep(20 * time.Microsecond)
	}
}
