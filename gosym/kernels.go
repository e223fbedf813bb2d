package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Specifications of the assembly kernels.  Their bodies are machine code: the
// SIMD engine (simd.go) decides that the assembly computes exactly this.
func (e *Engine) kernelIntrinsic(fn *ssa.Function) intrinsic {
	path := fn.Pkg.Pkg.Path()
	if e.machineCode && (strings.HasSuffix(path, "/matfuncs") || strings.HasSuffix(path, "/asm32") || strings.HasSuffix(path, "/asm64")) {
		return func(th *Thread, fn *ssa.Function, a []V) V { return th.kernelRun(fn, a) }
	}
	switch {
	case strings.HasSuffix(path, "/matfuncs"):
		return matfuncsKernel(fn.Name())
	case strings.HasSuffix(path, "/asm32") || strings.HasSuffix(path, "/asm64"):
		return asmKernel(fn.Name())
	case strings.HasSuffix(path, "/matfuncs/cpu"):
		return func(th *Thread, fn *ssa.Function, a []V) V { panic(abort("cpuid")) }
	}
	return nil
}

func (th *Thread) kslice(v V, n int, what string) Slice {
	s := v.(Slice)
	if len(s) < n {
		// assembly has no bounds checks
		if cap(s) < n {
			th.p.violate("unsafe", "assembly kernel reads or writes beyond the end of a slice ("+what+")", th.where())
			panic(stopPath{"unsafe"})
		}
		return s[:n]
	}
	return s
}

func matfuncsKernel(name string) intrinsic {
	base := strings.TrimRight(name, "0123456789")
	base = strings.TrimSuffix(strings.TrimSuffix(base, "SSE"), "AVX")
	bin := func(op token.Token) intrinsic {
		return func(th *Thread, fn *ssa.Function, a []V) V {
			x := a[0].(Slice)
			n := len(x)
			y, z := th.kslice(a[1], n, name), th.kslice(a[2], n, name)
			out := make([]V, n)
			for i := range x {
				th.memAccess(&x[i], false)
				th.memAccess(&y[i], false)
				out[i] = th.p.fbin(op, ft(x[i]), ft(y[i]))
			}
			for i := range out {
				th.memAccess(&z[i], true)
				z[i] = out[i]
			}
			return nil
		}
	}
	cst := func(op token.Token) intrinsic {
		return func(th *Thread, fn *ssa.Function, a []V) V {
			x := a[1].(Slice)
			z := th.kslice(a[2], len(x), name)
			for i := range x {
				th.memAccess(&x[i], false)
				th.memAccess(&z[i], true)
				z[i] = th.p.fbin(op, ft(x[i]), ft(a[0]))
			}
			return nil
		}
	}
	lanes := func(f string) intrinsic {
		return func(th *Thread, fn *ssa.Function, a []V) V {
			n := 4
			if strings.Contains(name, "AVX") {
				n = 8
			}
			x := th.kslice(a[0], n, name)
			y := th.kslice(a[1], n, name)
			for i := 0; i < n; i++ {
				th.memAccess(&x[i], false)
				th.memAccess(&y[i], true)
				v := ft(x[i])
				if f == "log" && v.sort == SReal && (v.IsConst() && v.rat.Sign() <= 0 || v.op == OPosInf) {
					// outside (0, inf) the kernel gives no usable value
					y[i] = th.p.a.NaN()
					continue
				}
				y[i] = th.p.mathFun(f, v)
			}
			return nil
		}
	}
	switch base {
	case "Add":
		return bin(token.ADD)
	case "Sub":
		return bin(token.SUB)
	case "Div":
		return bin(token.QUO)
	case "AddConst":
		return cst(token.ADD)
	case "MulConst":
		return cst(token.MUL)
	case "DotProd":
		return func(th *Thread, fn *ssa.Function, a []V) V {
			x := a[0].(Slice)
			y := th.kslice(a[1], len(x), name)
			w := typeResWidth(fn)
			acc := V(th.p.fconst(0, w))
			for i := range x {
				th.memAccess(&x[i], false)
				th.memAccess(&y[i], false)
				acc = th.p.fbin(token.ADD, ft(acc), ft(th.p.fbin(token.MUL, ft(x[i]), ft(y[i]))))
			}
			return acc
		}
	case "Sum":
		return func(th *Thread, fn *ssa.Function, a []V) V {
			x := a[0].(Slice)
			acc := V(th.p.fconst(0, typeResWidth(fn)))
			for i := range x {
				th.memAccess(&x[i], false)
				acc = th.p.fbin(token.ADD, ft(acc), ft(x[i]))
			}
			return acc
		}
	case "Exp":
		return lanes("exp")
	case "Log":
		return lanes("log")
	}
	return nil
}

func typeResWidth(fn *ssa.Function) uint8 {
	if r := fn.Signature.Results(); r.Len() == 1 && r.At(0).Type().String() == "float32" {
		return 32
	}
	return 64
}

// mathFun applies a real function; log of a symbolic argument keeps log(0) = -Inf.
func (p *Path) mathFun(f string, x *Term) *Term {
	if x.sort == SFP {
		if x.IsConst() {
			return p.a.FP(ufEval(f, []float64{x.fpval()}), x.w)
		}
		panic(abort("%s in FP mode", f))
	}
	return p.a.Fun(f, x)
}

func asmKernel(name string) intrinsic {
	axpy := func(th *Thread, alpha *Term, x, y, dst Slice, n int) {
		for i := 0; i < n; i++ {
			th.memAccess(&x[i], false)
			th.memAccess(&y[i], false)
			th.memAccess(&dst[i], true)
			dst[i] = th.p.fbin(token.ADD, ft(th.p.fbin(token.MUL, alpha, ft(x[i]))), ft(y[i]))
		}
	}
	min := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	switch name {
	case "AxpyUnitary":
		return func(th *Thread, fn *ssa.Function, a []V) V {
			x, y := a[1].(Slice), a[2].(Slice)
			n := min(len(x), len(y))
			axpy(th, ft(a[0]), x, y, y, n)
			return nil
		}
	case "AxpyUnitaryTo":
		return func(th *Thread, fn *ssa.Function, a []V) V {
			dst, x, y := a[0].(Slice), a[2].(Slice), a[3].(Slice)
			n := min(min(len(x), len(y)), len(dst))
			axpy(th, ft(a[1]), x, y, dst, n)
			return nil
		}
	case "CumSum":
		return func(th *Thread, fn *ssa.Function, a []V) V {
			dst, s := a[0].(Slice), a[1].(Slice)
			n := min(len(dst), len(s))
			var acc V
			for i := 0; i < n; i++ {
				th.memAccess(&s[i], false)
				if i == 0 {
					acc = s[0]
				} else {
					acc = th.p.fbin(token.ADD, ft(acc), ft(s[i]))
				}
				th.memAccess(&dst[i], true)
				dst[i] = acc
			}
			return dst
		}
	case "GemvN":
		return func(th *Thread, fn *ssa.Function, a []V) V {
			m, n := int(th.intv(a[0])), int(th.intv(a[1]))
			alpha := ft(a[2])
			A, lda := a[3].(Slice), int(th.intv(a[4]))
			x, incx := a[5].(Slice), int(th.intv(a[6]))
			beta := ft(a[7])
			y, incy := a[8].(Slice), int(th.intv(a[9]))
			if m > 0 && n > 0 {
				th.kslice(A, (m-1)*lda+n, name)
				th.kslice(x, (n-1)*incx+1, name)
			}
			if m > 0 {
				y = th.kslice(y, (m-1)*incy+1, name)
			}
			for i := 0; i < m; i++ {
				acc := th.p.fconst(0, 64)
				for j := 0; j < n; j++ {
					acc = ft(th.p.fbin(token.ADD, acc, ft(th.p.fbin(token.MUL, ft(A[i*lda+j]), ft(x[j*incx])))))
				}
				r := ft(th.p.fbin(token.MUL, alpha, acc))
				if !(beta.IsConst() && (beta.sort == SReal && beta.rat.Sign() == 0)) {
					r = ft(th.p.fbin(token.ADD, r, ft(th.p.fbin(token.MUL, beta, ft(y[i*incy])))))
				}
				th.memAccess(&y[i*incy], true)
				y[i*incy] = r
			}
			return nil
		}
	}
	return nil
}
