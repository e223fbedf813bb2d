package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type V = any

type (
	Struct []V
	Array  []V
	Slice  []V
	Tuple  []V
	Iface  struct {
		t types.Type
		v V
	}
	Closure struct {
		fn  *ssa.Function
		env []V
		// host closures (bound intrinsics)
		host func(th *Thread, args []V) V
	}
	// UPtr is an unsafe.Pointer: the original typed pointer.
	UPtr struct {
		p    V
		elem types.Type
	}
	// Opaque host objects reachable from interpreted code.
	RValue struct { // reflect.Value
		t    types.Type
		v    V
		addr *V // addressable location or nil
		ro   bool
	}
	RType struct{ t types.Type }
	Chan  struct {
		buf    []V
		cap    int
		closed bool
		recvq  []*chWaiter
		sendq  []*chWaiter
		id     int
	}
	chWaiter struct {
		th   *Thread
		v    V
		ok   bool
		done bool
	}
	Map struct {
		idx     map[any]int
		keys    []V
		vals    []*V
		dead    []bool
		n       int
		keyType types.Type
	}
)

func isNilPtr(v V) bool {
	switch p := v.(type) {
	case nil:
		return true
	case *V:
		return p == nil
	}
	return false
}

func copyVal(v V) V {
	switch x := v.(type) {
	case Struct:
		y := make(Struct, len(x))
		for i, e := range x {
			y[i] = copyVal(e)
		}
		return y
	case Array:
		y := make(Array, len(x))
		for i, e := range x {
			y[i] = copyVal(e)
		}
		return y
	}
	return v
}

// storeTo writes v into the cell keeping the addresses of sub-cells.
func storeTo(p *V, v V) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			for i := range d {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range d {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

func (p *Path) zero(t types.Type) V {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return UPtr{}
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return p.fconst(0, fwidth(u))
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*V)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		if z := p.opaqueZero(t); z != nil {
			return z
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = p.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		s := make(Array, u.Len())
		for i := range s {
			s[i] = p.zero(u.Elem())
		}
		return s
	case *types.Tuple:
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = p.zero(u.At(i).Type())
		}
		return s
	}
	panic(abort("zero of %s", t))
}

// opaqueZero gives host representations for a few library types.
func (p *Path) opaqueZero(t types.Type) V {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "Value" {
		return RValue{}
	}
	return nil
}

func fwidth(b *types.Basic) uint8 {
	if b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

type intInfo struct {
	w      uint8
	signed bool
}

func intOf(t types.Type) (intInfo, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Uint8:
		return intInfo{8, false}, true
	}
	return intInfo{}, false
}

func (ii intInfo) norm(u uint64) int64 {
	if ii.signed {
		return sext(u, ii.w)
	}
	return int64(mask(u, ii.w))
}

type ifaceKey struct {
	t string
	v any
}
type structKey struct{ s string }

// keyOf maps a concrete value to a hashable host key.
func (p *Path) keyOf(v V) any {
	switch x := v.(type) {
	case int64, bool, string, *V, *Chan, *Map, nil:
		return x
	case *Term:
		if x.sort == SReal || x.sort == SFP {
			if x.IsConst() {
				return x
			}
		}
		return p.concretizeTerm(x)
	case Iface:
		if x.t == nil {
			return ifaceKey{}
		}
		return ifaceKey{types.TypeString(x.t, nil), p.keyOf(x.v)}
	case Struct:
		var sb strings.Builder
		for _, e := range x {
			fmt.Fprintf(&sb, "%T:%v;", p.keyOf(e), p.keyOf(e))
		}
		return structKey{sb.String()}
	case Array:
		var sb strings.Builder
		for _, e := range x {
			fmt.Fprintf(&sb, "%T:%v;", p.keyOf(e), p.keyOf(e))
		}
		return structKey{sb.String()}
	case RType:
		return types.TypeString(x.t, nil)
	}
	panic(abort("unhashable key %T", v))
}

func newMap(kt types.Type) *Map { return &Map{idx: map[any]int{}, keyType: kt} }

func (m *Map) find(k any) int {
	if m == nil {
		return -1
	}
	if i, ok := m.idx[k]; ok {
		return i
	}
	return -1
}
func (m *Map) set(k any, kv V, v V) {
	if i, ok := m.idx[k]; ok {
		*m.vals[i] = v
		return
	}
	m.idx[k] = len(m.keys)
	m.keys = append(m.keys, kv)
	cell := v
	m.vals = append(m.vals, &cell)
	m.dead = append(m.dead, false)
	m.n++
}
func (m *Map) del(k any) {
	if i, ok := m.idx[k]; ok {
		m.dead[i] = true
		delete(m.idx, k)
		m.n--
	}
}

// equality of two values: concrete bool or term
func (p *Path) equal(x, y V) *Term {
	a := p.a
	switch xv := x.(type) {
	case nil:
		return a.Bool(isNilPtr(y))
	case int64:
		switch yv := y.(type) {
		case int64:
			return a.Bool(xv == yv)
		case *Term:
			return a.Eq(a.BV(uint64(xv), yv.w), yv)
		}
	case bool:
		switch yv := y.(type) {
		case bool:
			return a.Bool(xv == yv)
		case *Term:
			return a.Eq(a.Bool(xv), yv)
		}
	case string:
		return a.Bool(xv == y.(string))
	case *Term:
		switch yv := y.(type) {
		case int64:
			return a.Eq(xv, a.BV(uint64(yv), xv.w))
		case bool:
			return a.Eq(xv, a.Bool(yv))
		case *Term:
			if xv.sort == SFP {
				return a.FCmp(OFEq, xv, yv)
			}
			if xv.op == ONaN || yv.op == ONaN {
				return a.F
			}
			return a.Eq(xv, yv)
		}
	case *V:
		switch yv := y.(type) {
		case *V:
			return a.Bool(xv == yv)
		case nil:
			return a.Bool(xv == nil)
		}
		return a.F
	case *Chan:
		return a.Bool(x == y || xv == nil && y == nil)
	case *Map:
		if y == nil {
			return a.Bool(xv == nil)
		}
		return a.Bool(x == y)
	case Slice:
		if y == nil {
			return a.Bool(xv == nil)
		}
		if ys, ok := y.(Slice); ok && ys == nil {
			return a.Bool(xv == nil)
		}
		if xv == nil {
			return a.Bool(y.(Slice) == nil)
		}
		panic(abort("slice comparison"))
	case *Closure:
		if y == nil {
			return a.Bool(xv == nil)
		}
		return a.Bool(x == y)
	case Iface:
		yv, ok := y.(Iface)
		if !ok {
			if y == nil {
				return a.Bool(xv.t == nil)
			}
			panic(abort("iface compare with %T", y))
		}
		if xv.t == nil || yv.t == nil {
			return a.Bool(xv.t == nil && yv.t == nil)
		}
		if _, host := xv.t.(hostType); host {
			if _, host := yv.t.(hostType); !host {
				return a.F
			}
			return p.equal(xv.v, yv.v)
		}
		if _, host := yv.t.(hostType); host {
			return a.F
		}
		if !types.Identical(xv.t, yv.t) {
			return a.F
		}
		if !types.Comparable(xv.t) {
			panic(p.rtPanic("runtime error: comparing uncomparable type " + xv.t.String()))
		}
		return p.equal(xv.v, yv.v)
	case Struct:
		r := a.T
		for i, e := range xv {
			r = a.And(r, p.equal(e, y.(Struct)[i]))
		}
		return r
	case Array:
		r := a.T
		for i, e := range xv {
			r = a.And(r, p.equal(e, y.(Array)[i]))
		}
		return r
	case *View:
		return a.Bool(y == x)
	case UPtr:
		yu := y.(UPtr)
		return a.Bool(isNilPtr(xv.p) && isNilPtr(yu.p) || xv.p == yu.p)
	case RType:
		yt, ok := y.(RType)
		return a.Bool(ok && types.Identical(xv.t, yt.t))
	}
	panic(abort("equal %T %T", x, y))
}

type abortErr struct{ msg string }

func (e abortErr) Error() string { return e.msg }

func abort(f string, args ...any) abortErr { return abortErr{fmt.Sprintf(f, args...)} }
