package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(th *Thread, fn *ssa.Function, args []V) V

var intrinsics = map[string]intrinsic{}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

const vrtPath = "github.com/nlpodyssey/spago/zzverif/vrt"

func (p *Path) tryIntrinsic(th *Thread, cl *Closure, args []V) (V, bool) {
	fn := cl.fn
	e := p.eng
	e.infoMu.RLock()
	f, ok := e.intrCache[fn]
	e.infoMu.RUnlock()
	if !ok {
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		name := o.String()
		f = intrinsics[name]
		if f == nil && fn.Blocks == nil && fn.Pkg != nil {
			f = e.kernelIntrinsic(fn)
		}
		e.infoMu.Lock()
		e.intrCache[fn] = f
		e.infoMu.Unlock()
	}
	if f == nil {
		return nil, false
	}
	if p.spec != nil && !specAllowed(fn) {
		panic(specFail{})
	}
	return f(th, fn, args), true
}

func ft(v V) *Term { return v.(*Term) }

func unaryMath(name string) intrinsic {
	return func(th *Thread, fn *ssa.Function, args []V) V {
		p := th.p
		x := ft(args[0])
		if x.sort == SFP {
			if x.IsConst() {
				return p.a.FP(ufEval(name, []float64{x.fpval()}), x.w)
			}
			if name == "sqrt" {
				return p.a.FUn(OFSqrt, x)
			}
			panic(abort("math.%s in FP mode", name))
		}
		return p.a.Fun(name, x)
	}
}

func (p *Path) fabs(x *Term) *Term {
	a := p.a
	if x.sort == SFP {
		return a.FUn(OFAbs, x)
	}
	if x.special() {
		if x.op == ONegInf {
			return a.Inf(1)
		}
		return x
	}
	if s, ok := a.sign(x); ok {
		if s < 0 {
			return a.Neg(x)
		}
		return x
	}
	c := a.RLt(x, a.r0)
	if b, ok := p.known(c); ok {
		if b {
			return a.Neg(x)
		}
		return x
	}
	return a.Ite(c, a.Neg(x), x)
}

func init() {
	for _, n := range []string{"Exp", "Log", "Sqrt", "Tanh", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Erf", "Atan", "Asin", "Acos"} {
		reg(unaryMath(strings.ToLower(n)), "math."+n)
	}
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return th.p.fabs(ft(a[0])) }, "math.Abs")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return th.p.fminmax(ft(a[0]), ft(a[1]), true) }, "math.Max")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return th.p.fminmax(ft(a[0]), ft(a[1]), false) }, "math.Min")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x, y := ft(a[0]), ft(a[1])
		if x.sort == SFP {
			if x.IsConst() && y.IsConst() {
				return th.p.a.FP(math.Pow(x.fpval(), y.fpval()), 64)
			}
			panic(abort("math.Pow in FP mode"))
		}
		r := th.p.a.Pow(x, y)
		if r == nil {
			panic(abort("pow special"))
		}
		if r.op == OUF && !th.p.a.Positive(x) {
			th.p.fact(th.p.a.RLt(th.p.a.r0, x), th.p.a.Positive(x))
		}
		return r
	}, "math.Pow")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x := ft(a[0])
		if x.sort == SFP {
			return boolV(th.p.a.FIsNaN(x))
		}
		return x.op == ONaN
	}, "math.IsNaN")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x := ft(a[0])
		s := th.intv(a[1])
		if x.sort == SFP {
			ar := th.p.a
			r := ar.F
			if s >= 0 {
				r = ar.Or(r, ar.FCmp(OFEq, x, ar.FP(math.Inf(1), x.w)))
			}
			if s <= 0 {
				r = ar.Or(r, ar.FCmp(OFEq, x, ar.FP(math.Inf(-1), x.w)))
			}
			return boolV(r)
		}
		return x.op == OPosInf && s >= 0 || x.op == ONegInf && s <= 0
	}, "math.IsInf")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		if th.intv(a[0]) >= 0 {
			return th.p.fconst(math.Inf(1), 64)
		}
		return th.p.fconst(math.Inf(-1), 64)
	}, "math.Inf")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return th.p.fconst(math.NaN(), 64) }, "math.NaN")
	round := func(mode uint64, name string) {
		reg(func(th *Thread, fn *ssa.Function, a []V) V {
			x := ft(a[0])
			ar := th.p.a
			if x.sort == SFP {
				return ar.FRoundInt(x, mode)
			}
			if x.special() {
				return x
			}
			if x.IsConst() {
				f := floorRat(x.rat)
				switch mode {
				case 2:
				case 3:
					if f.Cmp(x.rat) != 0 {
						f = new(big.Rat).Add(f, ratOne)
					}
				case 4:
					h := new(big.Rat).Add(new(big.Rat).Abs(x.rat), big.NewRat(1, 2))
					f = floorRat(h)
					if x.rat.Sign() < 0 {
						f.Neg(f)
					}
				default:
					panic(abort("round mode"))
				}
				return ar.Rat(f)
			}
			if mode == 4 { // round half away from zero through fork on integer value
				panic(abort("symbolic math.%s", name))
			}
			v := th.p.floatToInt(x, intInfo{64, true})
			k := v.(int64)
			t := ar.RInt(k)
			if mode == 2 && th.p.branch(ar.RLt(x, t)) {
				return ar.RInt(k - 1)
			}
			if mode == 3 && th.p.branch(ar.RLt(t, x)) {
				return ar.RInt(k + 1)
			}
			return t
		}, "math."+name)
	}
	round(2, "Floor")
	round(3, "Ceil")
	round(1, "Trunc")
	round(4, "Round")
	round(0, "RoundToEven")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x := ft(a[0])
		if x.sort != SFP {
			panic(abort("math.Float*bits in real mode"))
		}
		return intInfo{x.w, false}.val(th.p.a.FToBits(x))
	}, "math.Float32bits", "math.Float64bits")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		if !th.p.fp {
			panic(abort("math.Float*frombits in real mode"))
		}
		w := uint8(32)
		if fn.Name() == "Float64frombits" {
			w = 64
		}
		return th.p.a.FFromBits(th.p.bv(a[0], w))
	}, "math.Float32frombits", "math.Float64frombits")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x := ft(a[0])
		if x.sort == SFP {
			ar := th.p.a
			return boolV(ar.Eq(ar.Extract(ar.FToBits(x), x.w-1, 1), ar.BV(1, 1)))
		}
		return boolV(th.p.a.RLt(x, th.p.a.r0))
	}, "math.Signbit")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x, y := a[0], a[1]
		if xi, ok := x.(int64); ok {
			if yi, ok := y.(int64); ok {
				h, l := bits.Mul64(uint64(xi), uint64(yi))
				return Tuple{int64(h), int64(l)}
			}
		}
		// 128-bit product through 32-bit halves
		ar := th.p.a
		xt, yt := th.p.bv(x, 64), th.p.bv(y, 64)
		m32 := ar.BV(0xffffffff, 64)
		s32 := ar.BV(32, 64)
		x0, x1 := ar.BBin(OBAnd, xt, m32), ar.BBin(OBLshr, xt, s32)
		y0, y1 := ar.BBin(OBAnd, yt, m32), ar.BBin(OBLshr, yt, s32)
		w0 := ar.BBin(OBMul, x0, y0)
		t := ar.BBin(OBAdd, ar.BBin(OBMul, x1, y0), ar.BBin(OBLshr, w0, s32))
		w1 := ar.BBin(OBAdd, ar.BBin(OBAnd, t, m32), ar.BBin(OBMul, x0, y1))
		hi := ar.BBin(OBAdd, ar.BBin(OBAdd, ar.BBin(OBMul, x1, y1), ar.BBin(OBLshr, t, s32)), ar.BBin(OBLshr, w1, s32))
		lo := ar.BBin(OBMul, xt, yt)
		u := intInfo{64, false}
		return Tuple{u.val(hi), u.val(lo)}
	}, "math/bits.Mul64")

	// ----- sync -----
	type mu struct {
		locked  bool
		readers int
	}
	getMu := func(p *Path, k V) *mu {
		key := [2]any{"mu", k}
		if m, ok := p.side[key]; ok {
			return m.(*mu)
		}
		m := &mu{}
		p.side[key] = m
		return m
	}
	nilchk := func(th *Thread, v V) {
		if isNilPtr(v) {
			panic(th.nilDeref())
		}
	}
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		nilchk(th, a[0])
		th.gate()
		m := getMu(th.p, a[0])
		if m.locked || m.readers > 0 {
			th.block("mutex lock", func() bool { return !m.locked && m.readers == 0 })
		}
		m.locked = true
		th.syncEv("lock", a[0])
		return nil
	}, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		nilchk(th, a[0])
		th.gate()
		m := getMu(th.p, a[0])
		if th.recording() != nil {
			panic(abort("TryLock under a controlled schedule"))
		}
		if m.locked || m.readers > 0 {
			return false
		}
		m.locked = true
		th.syncEv("lock", a[0])
		return true
	}, "(*sync.Mutex).TryLock")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		nilchk(th, a[0])
		th.gate()
		m := getMu(th.p, a[0])
		if !m.locked {
			panic(th.p.rtPanic("fatal error: sync: unlock of unlocked mutex"))
		}
		m.locked = false
		th.syncEv("unlock", a[0])
		return nil
	}, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		nilchk(th, a[0])
		th.gate()
		m := getMu(th.p, a[0])
		if m.locked {
			th.block("rlock", func() bool { return !m.locked })
		}
		m.readers++
		th.syncEv("rlock", a[0])
		return nil
	}, "(*sync.RWMutex).RLock")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		nilchk(th, a[0])
		th.gate()
		m := getMu(th.p, a[0])
		if m.readers == 0 {
			panic(th.p.rtPanic("fatal error: sync: RUnlock of unlocked RWMutex"))
		}
		m.readers--
		th.syncEv("runlock", a[0])
		return nil
	}, "(*sync.RWMutex).RUnlock")
	type wg struct{ n int64 }
	getWG := func(p *Path, k V) *wg {
		key := [2]any{"wg", k}
		if m, ok := p.side[key]; ok {
			return m.(*wg)
		}
		m := &wg{}
		p.side[key] = m
		return m
	}
	wgAdd := func(th *Thread, k V, d int64) {
		nilchk(th, k)
		th.gate()
		w := getWG(th.p, k)
		th.touchWG(k, w.n)
		w.n += d
		th.syncEv("wgadd", k, d)
		if w.n < 0 {
			panic(th.p.rtPanic("sync: negative WaitGroup counter"))
		}
	}
	reg(func(th *Thread, fn *ssa.Function, a []V) V { wgAdd(th, a[0], th.intv(a[1])); return nil }, "(*sync.WaitGroup).Add")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { wgAdd(th, a[0], -1); return nil }, "(*sync.WaitGroup).Done")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		nilchk(th, a[0])
		th.gate()
		w := getWG(th.p, a[0])
		th.touchWG(a[0], w.n)
		if w.n != 0 {
			th.block("WaitGroup.Wait", func() bool { return w.n == 0 })
		}
		th.syncEv("wgwait", a[0])
		return nil
	}, "(*sync.WaitGroup).Wait")

	// sync.Map as an ordinary map
	sm := func(p *Path, k V) *Map {
		key := [2]any{"smap", k}
		if m, ok := p.side[key]; ok {
			return m.(*Map)
		}
		m := newMap(nil)
		p.side[key] = m
		return m
	}
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		m := sm(th.p, a[0])
		m.set(th.p.keyOf(a[1]), a[1], a[2])
		return nil
	}, "(*sync.Map).Store")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		m := sm(th.p, a[0])
		if i := m.find(th.p.keyOf(a[1])); i >= 0 {
			return Tuple{*m.vals[i], true}
		}
		return Tuple{Iface{}, false}
	}, "(*sync.Map).Load")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		m := sm(th.p, a[0])
		k := th.p.keyOf(a[1])
		if i := m.find(k); i >= 0 {
			return Tuple{*m.vals[i], true}
		}
		m.set(k, a[1], a[2])
		return Tuple{a[2], false}
	}, "(*sync.Map).LoadOrStore")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		sm(th.p, a[0]).del(th.p.keyOf(a[1]))
		return nil
	}, "(*sync.Map).Delete")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		m := sm(th.p, a[0])
		for i := range m.keys {
			if m.dead[i] {
				continue
			}
			r := th.p.runNested(a[1].(*Closure), []V{m.keys[i], *m.vals[i]})
			if !th.cond(r) {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		pl := (*(a[0].(*V))).(Struct)
		st := fn.Signature.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				if cl := pl[i].(*Closure); cl != nil {
					return th.p.runNested(cl, nil)
				}
			}
		}
		return Iface{}
	}, "(*sync.Pool).Get")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return nil }, "(*sync.Pool).Put")

	// ----- sync/atomic -----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		ii := map[string]intInfo{"Int32": {32, true}, "Int64": {64, true}, "Uint32": {32, false}, "Uint64": {64, false}, "Uintptr": {64, false}}[ty]
		reg(func(th *Thread, fn *ssa.Function, a []V) V {
			nilchk(th, a[0])
			th.gate()
			th.syncEv("aload", a[0], *(a[0].(*V)))
			return *(a[0].(*V))
		}, "sync/atomic.Load"+ty)
		reg(func(th *Thread, fn *ssa.Function, a []V) V {
			nilchk(th, a[0])
			th.gate()
			th.syncEv("astore", a[0], *(a[0].(*V)), a[1])
			*(a[0].(*V)) = a[1]
			return nil
		}, "sync/atomic.Store"+ty)
		reg(func(th *Thread, fn *ssa.Function, a []V) V {
			nilchk(th, a[0])
			th.gate()
			c := a[0].(*V)
			var r V
			x, ok1 := (*c).(int64)
			y, ok2 := a[1].(int64)
			if ok1 && ok2 {
				r = ii.norm(uint64(x + y))
			} else {
				r = ii.val(th.p.a.BBin(OBAdd, th.p.bv(*c, ii.w), th.p.bv(a[1], ii.w)))
			}
			th.syncEv("armw", a[0], *c, r)
			*c = r
			return r
		}, "sync/atomic.Add"+ty)
		reg(func(th *Thread, fn *ssa.Function, a []V) V {
			nilchk(th, a[0])
			th.gate()
			c := a[0].(*V)
			o := *c
			th.syncEv("armw", a[0], o, a[1])
			*c = a[1]
			return o
		}, "sync/atomic.Swap"+ty)
		reg(func(th *Thread, fn *ssa.Function, a []V) V {
			nilchk(th, a[0])
			th.gate()
			c := a[0].(*V)
			if th.cond(boolV(th.p.equal(*c, a[1]))) {
				th.syncEv("cas", a[0], *c, a[1], a[2], true)
				*c = a[2]
				return true
			}
			th.syncEv("cas", a[0], *c, a[1], a[2], false)
			return false
		}, "sync/atomic.CompareAndSwap"+ty)
	}
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		th.gate()
		th.syncEv("aload", a[0], *(a[0].(*V)))
		return *(a[0].(*V))
	}, "sync/atomic.LoadPointer")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		th.gate()
		th.syncEv("astore", a[0], *(a[0].(*V)), a[1])
		*(a[0].(*V)) = a[1]
		return nil
	}, "sync/atomic.StorePointer")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		th.gate()
		c := a[0].(*V)
		if th.cond(boolV(th.p.equal(*c, a[1]))) {
			th.syncEv("cas", a[0], *c, a[1], a[2], true)
			*c = a[2]
			return true
		}
		th.syncEv("cas", a[0], *c, a[1], a[2], false)
		return false
	}, "sync/atomic.CompareAndSwapPointer")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		th.gate()
		k := [2]any{"aval", a[0]}
		r := V(Iface{})
		if v, ok := th.p.side[k]; ok {
			r = v
		}
		th.syncEv("aload", a[0], r)
		return r
	}, "(*sync/atomic.Value).Load")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		th.gate()
		old, ok := th.p.side[[2]any{"aval", a[0]}]
		if !ok {
			old = Iface{}
		}
		th.syncEv("astore", a[0], old, a[1])
		th.p.side[[2]any{"aval", a[0]}] = a[1]
		return nil
	}, "(*sync/atomic.Value).Store")

	// ----- runtime / misc -----
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return th.p.ncpu }, "runtime.NumCPU", "runtime.GOMAXPROCS")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return nil }, "runtime.Gosched", "runtime.GC", "runtime.KeepAlive", "encoding/gob.Register",
		"encoding/gob.RegisterName", "log.Printf", "log.Println", "log.Print", "runtime.SetFinalizer")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return Tuple{int64(0), Iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		panic(goPanic{th.p.mkError("log.Fatal: " + th.p.sprint(a))})
	}, "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		return th.p.sprintf(a[0].(string), a[1])
	}, "fmt.Sprintf")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return th.p.sprint(a) }, "fmt.Sprint", "fmt.Sprintln")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		f := a[0].(string)
		msg := p.sprintf(f, a[1])
		if strings.Contains(f, "%w") {
			if s, ok := a[1].(Slice); ok {
				for _, x := range s {
					if i, ok := x.(Iface); ok && i.t != nil && p.eng.implements(i.t, p.eng.errIface) {
						cell := V(Struct{msg, i})
						return Iface{t: p.eng.wrapPtr, v: &cell}
					}
				}
			}
		}
		return p.mkError(msg)
	}, "fmt.Errorf")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		err, target := a[0].(Iface), a[1].(Iface)
		for err.t != nil {
			if types.Identical(err.t, orNil(target.t)) && types.Comparable(err.t) {
				if p.equal(err, target) == p.a.T {
					return true
				}
			}
			m := p.eng.findMethod(err.t, "Unwrap")
			if m == nil {
				return false
			}
			r := p.runNested(&Closure{fn: m}, []V{err.v})
			ni, ok := r.(Iface)
			if !ok {
				return false
			}
			err = ni
		}
		return target.t == nil
	}, "errors.Is")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		p := th.p
		s, _ := a[0].(Iface)
		sl := s.v.(Slice)
		cl := a[1].(*Closure)
		// insertion sort with the interpreted comparison
		for i := 1; i < len(sl); i++ {
			for j := i; j > 0; j-- {
				if !th.cond(p.runNested(cl, []V{int64(j), int64(j - 1)})) {
					break
				}
				x, y := copyVal(sl[j]), copyVal(sl[j-1])
				storeTo(&sl[j], y)
				storeTo(&sl[j-1], x)
			}
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		panic(abort("time.Now"))
	}, "time.Now")
	reg(func(th *Thread, fn *ssa.Function, a []V) V { return "" }, "os.Getenv")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		return strconv.Itoa(int(th.intv(a[0])))
	}, "strconv.Itoa")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		return int64(strings.IndexByte(a[0].(string), byte(th.intv(a[1]))))
	}, "strings.IndexByte", "internal/bytealg.IndexByteString")

	for n, f := range map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace} {
		f := f
		reg(func(th *Thread, fn *ssa.Function, a []V) V { return f(a[0].(string)) }, n)
	}
	registerReflect()
	registerVRT()
	registerGob()
}

func orNil(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.UntypedNil]
	}
	return t
}

func (p *Path) sprint(a []V) string {
	var sb strings.Builder
	for _, v := range a {
		if s, ok := v.(Slice); ok {
			for _, e := range s {
				sb.WriteString(p.fmtVal(e, 0))
			}
			continue
		}
		sb.WriteString(p.fmtVal(v, 0))
	}
	return sb.String()
}

func (p *Path) sprintf(f string, rest V) string {
	s, _ := rest.(Slice)
	var sb strings.Builder
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			sb.WriteByte(f[i])
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			sb.WriteByte('%')
			continue
		}
		if k < len(s) {
			if f[i] == 'T' {
				if iv, ok := s[k].(Iface); ok && iv.t != nil {
					sb.WriteString(iv.t.String())
				}
			} else {
				sb.WriteString(p.fmtVal(s[k], 0))
			}
			k++
		}
	}
	return sb.String()
}

func (p *Path) fmtVal(v V, depth int) string {
	if depth > 4 {
		return "…"
	}
	switch x := v.(type) {
	case nil:
		return "<nil>"
	case Iface:
		if x.t == nil {
			return "<nil>"
		}
		if pt, ok := x.v.(*V); ok && pt != nil && (x.t == p.eng.errPtr || x.t == p.eng.wrapPtr) {
			return (*pt).(Struct)[0].(string)
		}
		if p.eng.implements(x.t, p.eng.errIface) && depth < 3 {
			if m := p.eng.findMethod(x.t, "Error"); m != nil {
				var s string
				func() {
					defer func() {
						if r := recover(); r != nil {
							switch r.(type) {
							case stopPath:
								panic(r)
							}
							s = "error<" + x.t.String() + ">"
						}
					}()
					s, _ = p.runNested(&Closure{fn: m}, []V{x.v}).(string)
				}()
				return s
			}
		}
		return p.fmtVal(x.v, depth+1)
	case string:
		return x
	case int64, bool:
		return fmt.Sprint(x)
	case *Term:
		if x.IsConst() {
			switch x.sort {
			case SReal:
				f, _ := x.rat.Float64()
				return strconv.FormatFloat(f, 'g', -1, 64)
			case SFP:
				return strconv.FormatFloat(x.fpval(), 'g', -1, 64)
			}
		}
		return "<sym " + x.String() + ">"
	case Slice:
		var ss []string
		for _, e := range x {
			ss = append(ss, p.fmtVal(e, depth+1))
			if len(ss) > 8 {
				break
			}
		}
		return "[" + strings.Join(ss, " ") + "]"
	case Struct:
		var ss []string
		for _, e := range x {
			ss = append(ss, p.fmtVal(e, depth+1))
		}
		return "{" + strings.Join(ss, " ") + "}"
	case *V:
		if x == nil {
			return "<nil>"
		}
		return "&" + p.fmtVal(*x, depth+1)
	}
	return fmt.Sprintf("%T", v)
}

// ---------- reflect ----------

// hostType is a dynamic type whose methods are implemented by the engine.
type hostType interface {
	types.Type
	call(p *Path, th *Thread, recv V, method string, args []V) V
}

type rtypeType struct{}

func (rtypeType) Underlying() types.Type { return types.Typ[types.Int] }
func (rtypeType) String() string         { return "*reflect.rtype" }

func (p *Path) mkType(t types.Type) V {
	if t == nil {
		return Iface{}
	}
	return Iface{t: theRType, v: RType{t}}
}

var theRType = &rtypeType{}

func (r *rtypeType) call(p *Path, th *Thread, recv V, method string, args []V) V {
	t := recv.(RType).t
	switch method {
	case "Kind":
		return int64(kindOf(t))
	case "Elem":
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return p.mkType(u.Elem())
		case *types.Slice:
			return p.mkType(u.Elem())
		case *types.Array:
			return p.mkType(u.Elem())
		case *types.Map:
			return p.mkType(u.Elem())
		case *types.Chan:
			return p.mkType(u.Elem())
		}
	case "Key":
		return p.mkType(t.Underlying().(*types.Map).Key())
	case "NumField":
		return int64(t.Underlying().(*types.Struct).NumFields())
	case "Name":
		switch n := t.(type) {
		case *types.Named:
			return n.Obj().Name()
		case *types.Basic:
			return n.Name()
		}
		return ""
	case "String":
		return types.TypeString(t, func(pk *types.Package) string { return pk.Name() })
	case "PkgPath":
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Comparable":
		return types.Comparable(t)
	case "Len":
		if u, ok := t.Underlying().(*types.Array); ok {
			return u.Len()
		}
	case "AssignableTo", "ConvertibleTo":
		if rt, ok := args[0].(Iface); ok {
			if u := rt.v.(RType).t; method == "AssignableTo" {
				return types.AssignableTo(t, u)
			} else {
				return types.ConvertibleTo(t, u)
			}
		}
	case "Implements":
		if rt, ok := args[0].(Iface); ok {
			it, _ := rt.v.(RType).t.Underlying().(*types.Interface)
			return p.eng.implements(t, it)
		}
	case "Field":
		f := t.Underlying().(*types.Struct).Field(int(th.intv(args[0])))
		// reflect.StructField{Name, PkgPath, Type, Tag, Offset, Index, Anonymous}
		sf := p.eng.pkgType("reflect", "StructField")
		z := p.zero(sf).(Struct)
		st := sf.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			switch st.Field(i).Name() {
			case "Name":
				z[i] = f.Name()
			case "PkgPath":
				if !f.Exported() && f.Pkg() != nil {
					z[i] = f.Pkg().Path()
				}
			case "Type":
				z[i] = p.mkType(f.Type())
			case "Anonymous":
				z[i] = f.Anonymous()
			case "Tag":
				z[i] = t.Underlying().(*types.Struct).Tag(int(th.intv(args[0])))
			}
		}
		return z
	}
	panic(abort("reflect.Type.%s", method))
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.Complex64:
			return 15
		case types.Complex128:
			return 16
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

func rv(v V) RValue {
	switch x := v.(type) {
	case RValue:
		return x
	case *V:
		return (*x).(RValue)
	}
	panic(abort("reflect value %T", v))
}

func registerReflect() {
	R := func(name string, f func(th *Thread, v RValue, a []V) V) {
		reg(func(th *Thread, fn *ssa.Function, a []V) V { return f(th, rv(a[0]), a[1:]) }, "(reflect.Value)."+name)
	}
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		i := a[0].(Iface)
		if i.t == nil {
			return RValue{}
		}
		return RValue{t: i.t, v: i.v}
	}, "reflect.ValueOf")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		i := a[0].(Iface)
		return th.p.mkType(i.t)
	}, "reflect.TypeOf", "internal/reflectlite.TypeOf")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		v := rv(a[0])
		if pt, ok := v.v.(*V); ok && pt != nil && v.t != nil {
			if pp, ok := v.t.Underlying().(*types.Pointer); ok {
				return RValue{t: pp.Elem(), v: *pt, addr: pt}
			}
		}
		return v
	}, "reflect.Indirect")
	R("Kind", func(th *Thread, v RValue, a []V) V {
		if v.t == nil {
			return int64(0)
		}
		return int64(kindOf(v.t))
	})
	R("Type", func(th *Thread, v RValue, a []V) V { return th.p.mkType(v.t) })
	R("IsValid", func(th *Thread, v RValue, a []V) V { return v.t != nil })
	R("CanInterface", func(th *Thread, v RValue, a []V) V {
		if v.t == nil {
			panic(th.p.rtPanic("reflect: call of CanInterface on zero Value"))
		}
		return !v.ro
	})
	R("CanAddr", func(th *Thread, v RValue, a []V) V { return v.addr != nil })
	R("CanSet", func(th *Thread, v RValue, a []V) V { return v.addr != nil && !v.ro })
	R("Addr", func(th *Thread, v RValue, a []V) V {
		if v.addr == nil {
			panic(th.p.rtPanic("reflect.Value.Addr of unaddressable value"))
		}
		return RValue{t: types.NewPointer(v.t), v: v.addr, ro: v.ro}
	})
	R("Interface", func(th *Thread, v RValue, a []V) V {
		if v.ro || v.t == nil {
			panic(th.p.rtPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method"))
		}
		cur := v.v
		if v.addr != nil {
			cur = *v.addr
		}
		if i, ok := cur.(Iface); ok {
			if _, isI := v.t.Underlying().(*types.Interface); isI {
				return i
			}
		}
		return Iface{t: v.t, v: copyVal(cur)}
	})
	R("IsNil", func(th *Thread, v RValue, a []V) V {
		switch x := v.v.(type) {
		case *V:
			return x == nil
		case Slice:
			return x == nil
		case *Map:
			return x == nil
		case *Chan:
			return x == nil
		case *Closure:
			return x == nil
		case Iface:
			return x.t == nil
		}
		panic(th.p.rtPanic("reflect: call of reflect.Value.IsNil on non-nillable Value"))
	})
	R("IsZero", func(th *Thread, v RValue, a []V) V {
		if s, ok := v.v.(Slice); ok {
			return s == nil
		}
		return boolV(th.p.equal(v.v, th.p.zero(v.t)))
	})
	R("Elem", func(th *Thread, v RValue, a []V) V {
		switch x := v.v.(type) {
		case *V:
			if x == nil {
				return RValue{}
			}
			return RValue{t: v.t.Underlying().(*types.Pointer).Elem(), v: *x, addr: x, ro: v.ro}
		case Iface:
			if x.t == nil {
				return RValue{}
			}
			return RValue{t: x.t, v: x.v, ro: v.ro}
		}
		panic(th.p.rtPanic("reflect: call of reflect.Value.Elem on " + fmt.Sprint(v.t) + " Value"))
	})
	R("NumField", func(th *Thread, v RValue, a []V) V {
		st, ok := v.t.Underlying().(*types.Struct)
		if !ok {
			panic(th.p.rtPanic("reflect: call of reflect.Value.NumField on non-struct Value"))
		}
		return int64(st.NumFields())
	})
	R("Field", func(th *Thread, v RValue, a []V) V {
		st := v.t.Underlying().(*types.Struct)
		i := int(th.intv(a[0]))
		f := st.Field(i)
		var cell *V
		if v.addr != nil {
			cell = &(*v.addr).(Struct)[i]
		}
		return RValue{t: f.Type(), v: v.v.(Struct)[i], addr: cell, ro: v.ro || !f.Exported()}
	})
	R("Len", func(th *Thread, v RValue, a []V) V {
		switch x := v.v.(type) {
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case string:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		}
		panic(th.p.rtPanic("reflect: call of reflect.Value.Len on wrong Value"))
	})
	R("Index", func(th *Thread, v RValue, a []V) V {
		i := int(th.intv(a[0]))
		switch x := v.v.(type) {
		case Slice:
			if i < 0 || i >= len(x) {
				panic(th.p.rtPanic("reflect: slice index out of range"))
			}
			return RValue{t: v.t.Underlying().(*types.Slice).Elem(), v: x[i], addr: &x[i], ro: v.ro}
		case Array:
			if i < 0 || i >= len(x) {
				panic(th.p.rtPanic("reflect: array index out of range"))
			}
			var cell *V
			if v.addr != nil {
				cell = &(*v.addr).(Array)[i]
			}
			return RValue{t: v.t.Underlying().(*types.Array).Elem(), v: x[i], addr: cell, ro: v.ro}
		}
		panic(abort("reflect Index %T", v.v))
	})
	R("Cap", func(th *Thread, v RValue, a []V) V {
		switch x := v.v.(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		}
		panic(abort("reflect Cap %T", v.v))
	})
	R("Slice", func(th *Thread, v RValue, a []V) V {
		i, j := int(th.intv(a[0])), int(th.intv(a[1]))
		switch x := v.v.(type) {
		case Slice:
			if i < 0 || j < i || j > cap(x) {
				panic(th.p.rtPanic("reflect.Value.Slice: slice index out of bounds"))
			}
			return RValue{t: v.t, v: x[i:j], ro: v.ro}
		case Array:
			if v.addr == nil {
				panic(th.p.rtPanic("reflect.Value.Slice: slice of unaddressable array"))
			}
			x = (*v.addr).(Array)
			if i < 0 || j < i || j > len(x) {
				panic(th.p.rtPanic("reflect.Value.Slice: slice index out of bounds"))
			}
			return RValue{t: types.NewSlice(v.t.Underlying().(*types.Array).Elem()), v: Slice(x[i:j:len(x)]), ro: v.ro}
		}
		panic(abort("reflect Slice %T", v.v))
	})
	R("MapKeys", func(th *Thread, v RValue, a []V) V {
		m := v.v.(*Map)
		out := Slice{}
		it := th.rangeIter(m).(*iter)
		kt := v.t.Underlying().(*types.Map).Key()
		for _, i := range it.order {
			out = append(out, RValue{t: kt, v: m.keys[i], ro: v.ro})
		}
		return out
	})
	R("MapIndex", func(th *Thread, v RValue, a []V) V {
		m := v.v.(*Map)
		if i := m.find(th.p.keyOf(rv(a[0]).v)); i >= 0 {
			return RValue{t: v.t.Underlying().(*types.Map).Elem(), v: *m.vals[i], ro: v.ro}
		}
		return RValue{}
	})
	type mapIter struct {
		it  *iter
		v   RValue
		cur int
	}
	R("MapRange", func(th *Thread, v RValue, a []V) V {
		m := v.v.(*Map)
		it := th.rangeIter(m).(*iter)
		cell := V(&mapIter{it: it, v: v, cur: -1})
		return &cell
	})
	mi := func(v V) *mapIter { return (*(v.(*V))).(*mapIter) }
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x := mi(a[0])
		if x.it.pos < len(x.it.order) {
			x.cur = x.it.order[x.it.pos]
			x.it.pos++
			return true
		}
		return false
	}, "(*reflect.MapIter).Next")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x := mi(a[0])
		return RValue{t: x.v.t.Underlying().(*types.Map).Key(), v: x.it.m.keys[x.cur], ro: x.v.ro}
	}, "(*reflect.MapIter).Key")
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		x := mi(a[0])
		return RValue{t: x.v.t.Underlying().(*types.Map).Elem(), v: *x.it.m.vals[x.cur], ro: x.v.ro}
	}, "(*reflect.MapIter).Value")
	R("Set", func(th *Thread, v RValue, a []V) V {
		storeTo(v.addr, rv(a[0]).v)
		return nil
	})
	R("Int", func(th *Thread, v RValue, a []V) V { return v.v })
	R("String", func(th *Thread, v RValue, a []V) V { s, _ := v.v.(string); return s })
	R("Bool", func(th *Thread, v RValue, a []V) V { return v.v })
	R("Uint", func(th *Thread, v RValue, a []V) V { return v.v })
	R("Float", func(th *Thread, v RValue, a []V) V { return v.v })
	addr := func(th *Thread, v RValue, a []V) V {
		var id any
		switch x := v.v.(type) {
		case *V:
			if x != nil {
				id = x
			}
		case *Map:
			if x != nil {
				id = x
			}
		case *Chan:
			if x != nil {
				id = x
			}
		case *Closure:
			if x != nil {
				id = x
			}
		case Slice:
			if cap(x) > 0 {
				id = &x[:1][0]
			}
		default:
			panic(abort("reflect Pointer of %T", v.v))
		}
		if id == nil {
			return int64(0)
		}
		p := th.p
		if p.addrs == nil {
			p.addrs = map[any]int64{}
		}
		if _, ok := p.addrs[id]; !ok {
			p.addrs[id] = 0xc000100000 + 64*int64(len(p.addrs))
		}
		return p.addrs[id]
	}
	R("Pointer", addr)
	R("UnsafeAddr", func(th *Thread, v RValue, a []V) V {
		if v.addr == nil {
			panic(th.p.rtPanic("reflect.Value.UnsafeAddr of unaddressable value"))
		}
		return addr(th, RValue{v: v.addr}, nil)
	})
	R("Comparable", func(th *Thread, v RValue, a []V) V { return v.t == nil || types.Comparable(v.t) })
	R("Equal", func(th *Thread, v RValue, a []V) V {
		u := rv(a[0])
		if v.t == nil || u.t == nil {
			return v.t == nil && u.t == nil
		}
		if !types.Identical(v.t, u.t) {
			return false
		}
		return boolV(th.p.equal(v.v, u.v))
	})
	R("FieldByName", func(th *Thread, v RValue, a []V) V {
		st := v.t.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() == a[0].(string) {
				var cell *V
				if v.addr != nil {
					cell = &(*v.addr).(Struct)[i]
				}
				return RValue{t: f.Type(), v: v.v.(Struct)[i], addr: cell, ro: v.ro || !f.Exported()}
			}
			if st.Field(i).Anonymous() {
				panic(abort("reflect FieldByName through an embedded field"))
			}
		}
		return RValue{}
	})
	reg(func(th *Thread, fn *ssa.Function, a []V) V {
		names := []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}
		return names[th.intv(a[0])]
	}, "(reflect.Kind).String")
	_ = sort.Ints
}
