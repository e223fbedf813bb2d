package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// View is a reinterpretation of the memory of a slice of basic elements as a
// slice of other basic elements (unsafe.Slice over a converted pointer).
type View struct {
	base   Slice // elements of the original type (whole capacity from the base pointer)
	bw     int   // bytes per base element
	bfloat bool
	ew     int // bytes per view element
	efloat bool
	eii    intInfo
	off    int // byte offset
	n      int
}

type ViewPtr struct {
	v *View
	i int
}

func (s *View) at(i int) *ViewPtr { return &ViewPtr{s, i} }
func (s *View) sub(lo, hi int) *View {
	c := *s
	c.off += lo * s.ew
	c.n = hi - lo
	return &c
}

func elemSize(t types.Type) (int, bool, intInfo, bool) {
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsFloat != 0 {
			return int(fwidth(b)) / 8, true, intInfo{}, true
		}
		if ii, ok := intOf(t); ok {
			return int(ii.w) / 8, false, ii, true
		}
	}
	return 0, false, intInfo{}, false
}

func (s *View) baseByte(p *Path, k int) *Term {
	i := k / s.bw
	if i < 0 || i >= len(s.base) {
		panic(abort("unsafe read outside of the object"))
	}
	e := p.bits(s.base[i], s.bw)
	return p.a.Extract(e, uint8(8*(k%s.bw)), 8)
}

// bits gives the bit pattern of a basic value.
func (p *Path) bits(v V, size int) *Term {
	switch x := v.(type) {
	case int64:
		return p.a.BV(uint64(x), uint8(size*8))
	case *Term:
		if x.sort == SBV {
			return x
		}
		if x.sort == SFP {
			return p.a.FToBits(x)
		}
		if x.sort == SReal {
			return p.a.mk(Term{op: OUF, sort: SBV, w: uint8(size * 8), name: "realbits", args: []*Term{x}})
		}
	}
	panic(abort("bits of %T", v))
}

func (p *Path) fromBits(t *Term, float bool, ii intInfo) V {
	if !float {
		return ii.val(t)
	}
	if t.op == OUF && t.name == "realbits" {
		return t.args[0]
	}
	if !p.fp {
		panic(abort("reinterpreted float in real mode"))
	}
	return p.a.FFromBits(t)
}

func (vp *ViewPtr) load(p *Path) V {
	s := vp.v
	o := s.off + vp.i*s.ew
	t := s.baseByte(p, o)
	for k := 1; k < s.ew; k++ {
		t = p.a.Concat(s.baseByte(p, o+k), t)
	}
	return p.fromBits(t, s.efloat, s.eii)
}

func (vp *ViewPtr) store(p *Path, v V) {
	s := vp.v
	o := s.off + vp.i*s.ew
	src := p.bits(v, s.ew)
	for k := 0; k < s.ew; k++ {
		bi := (o + k) / s.bw
		if bi >= len(s.base) {
			panic(abort("unsafe write outside of the object"))
		}
		old := p.bits(s.base[bi], s.bw)
		sh := uint8(8 * ((o + k) % s.bw))
		nb := p.a.Extract(src, uint8(8*k), 8)
		var t *Term = nb
		if sh > 0 {
			t = p.a.Concat(t, p.a.Extract(old, 0, sh))
		}
		if int(sh)+8 < s.bw*8 {
			t = p.a.Concat(p.a.Extract(old, sh+8, uint8(s.bw*8)-sh-8), t)
		}
		if s.bfloat {
			s.base[bi] = p.fromBits(t, true, intInfo{})
		} else {
			w := uint8(s.bw * 8)
			ii := intInfo{w, false}
			s.base[bi] = ii.val(t)
		}
	}
}

// reinterpret handles (*T)(unsafe.Pointer(p)).
func (p *Path) reinterpret(th *Thread, u UPtr, to types.Type) V {
	return &castPtr{u, to}
}

type castPtr struct {
	u  UPtr
	to types.Type
}

// unsafeSlice implements unsafe.Slice(ptr, len).
func (p *Path) unsafeSlice(th *Thread, args []V, c *ssa.CallCommon) V {
	n := int(th.intv(args[1]))
	if n < 0 {
		panic(p.rtPanic("unsafe.Slice: len out of range"))
	}
	switch q := args[0].(type) {
	case *V:
		if q == nil {
			if n == 0 {
				return Slice(nil)
			}
			panic(p.rtPanic("unsafe.Slice: ptr is nil and len is not zero"))
		}
		s := p.sliceAt(q)
		if s == nil {
			panic(abort("unsafe.Slice: unknown base object"))
		}
		if n > len(s) {
			panic(p.rtPanic("unsafe.Slice beyond object"))
		}
		return s[:n:n]
	case *castPtr:
		base, ok := q.u.p.(*V)
		if !ok {
			panic(abort("unsafe.Slice over %T", q.u.p))
		}
		s := p.sliceAt(base)
		if s == nil {
			panic(abort("unsafe.Slice: unknown base object"))
		}
		bw, bf, _, ok1 := elemSize(q.u.elem)
		ew, ef, eii, ok2 := elemSize(q.to)
		if !ok1 || !ok2 {
			panic(abort("unsafe.Slice over non-basic elements"))
		}
		if n*ew > len(s)*bw {
			p.violate("unsafe", "unsafe.Slice reaches outside of the underlying object", th.where())
			panic(stopPath{"unsafe"})
		}
		return &View{base: s, bw: bw, bfloat: bf, ew: ew, efloat: ef, eii: eii, n: n}
	}
	panic(abort("unsafe.Slice of %T", args[0]))
}

// sliceAt finds the slice starting at cell q: looked up from the instruction
// that produced the address (IndexAddr operands are registered on the fly).
func (p *Path) sliceAt(q *V) Slice {
	if s, ok := p.side[sliceKey{q}]; ok {
		return s.(Slice)
	}
	return nil
}

type sliceKey struct{ q *V }
