// Package c19: neural layers compute their published equations.
//
// The oracles below are written from the equations over plain slices; they share
// no code with the library.
package c19

import (
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/nn"
	"github.com/nlpodyssey/spago/nn/activation"
	"github.com/nlpodyssey/spago/nn/linear"
	"github.com/nlpodyssey/spago/nn/normalization/adanorm"
	"github.com/nlpodyssey/spago/nn/normalization/batchnorm"
	"github.com/nlpodyssey/spago/nn/normalization/fixnorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernorm"
	"github.com/nlpodyssey/spago/nn/normalization/layernormsimple"
	"github.com/nlpodyssey/spago/nn/normalization/rmsnorm"
	"github.com/nlpodyssey/spago/nn/normalization/scalenorm"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

// ---- plain vectors ----

type vec = []float64

func to[T float.DType](v vec) []T {
	out := make([]T, len(v))
	for i, x := range v {
		out[i] = T(x)
	}
	return out
}

func from[T float.DType](v []T) vec {
	out := make(vec, len(v))
	for i, x := range v {
		out[i] = float64(x)
	}
	return out
}

// mv is w (rows x len(x), row-major) times x.
func mv(w, x vec) vec {
	if len(x) == 0 {
		return nil
	}
	out := make(vec, len(w)/len(x))
	for i := range out {
		for j := range x {
			out[i] += w[i*len(x)+j] * x[j]
		}
	}
	return out
}

func add(xs ...vec) vec {
	out := append(vec{}, xs[0]...)
	for _, x := range xs[1:] {
		for i := range out {
			out[i] += x[i]
		}
	}
	return out
}

func mul(a, b vec) vec {
	out := make(vec, len(a))
	for i := range a {
		out[i] = a[i] * b[i]
	}
	return out
}

func each(f func(float64) float64, x vec) vec {
	out := make(vec, len(x))
	for i := range x {
		out[i] = f(x[i])
	}
	return out
}

func sigmoid(x float64) float64 { return 1 / (1 + math.Exp(-x)) }
func sig(x vec) vec             { return each(sigmoid, x) }
func tanh(x vec) vec            { return each(math.Tanh, x) }

// p gives a parameter arbitrary values.
func p[T float.DType](q *nn.Param) vec {
	v := hx.Floats[T](q.Value().Size())
	mat.SetData[T](q.Value().(mat.Matrix), hx.Copy(v))
	return from(v)
}

// buf does the same for a buffer.
func buf[T float.DType](q *nn.Buffer) vec {
	v := hx.Floats[T](q.Value().Size())
	mat.SetData[T](q.Value().(mat.Matrix), hx.Copy(v))
	return from(v)
}

// col is a fresh input vector.
func col[T float.DType](n int) (mat.Tensor, vec) {
	v := hx.Floats[T](n)
	return mat.NewDense[T](mat.WithShape(n), mat.WithBacking(hx.Copy(v))), from(v)
}

func cols[T float.DType](n, size int) (xs []mat.Tensor, vs []vec) {
	for i, k := range hx.Repeat(n) {
		if k < i {
			xs, vs = append(xs, xs[k]), append(vs, vs[k])
			continue
		}
		x, v := col[T](size)
		xs, vs = append(xs, x), append(vs, v)
	}
	return
}

// isVec asserts a vector of the given elements, whatever its orientation is said to be.
func isVec[T float.DType](got mat.Tensor, want vec, msg string) {
	hx.Eq(got, len(want), 1, to[T](want), msg)
}

func areVecs[T float.DType](got []mat.Tensor, want []vec, msg string) {
	vrt.Assert(len(got) == len(want), msg+": one output per input")
	for i := range want {
		isVec[T](got[i], want[i], msg)
	}
}

func untouched[T float.DType](xs []mat.Tensor, vs []vec) {
	for i := range xs {
		isVec[T](xs[i], vs[i], "input")
	}
}

// ---- activations ----

func actF(a activation.Activation, c vec) func(float64) float64 {
	switch a {
	case activation.Identity:
		return func(x float64) float64 { return x }
	case activation.Tan:
		return math.Tan
	case activation.Tanh:
		return math.Tanh
	case activation.Sigmoid:
		return sigmoid
	case activation.HardSigmoid:
		return func(x float64) float64 { return math.Max(0, math.Min(1, 0.2*x+0.5)) }
	case activation.HardTanh:
		return func(x float64) float64 { return math.Max(-1, math.Min(1, x)) }
	case activation.Softsign:
		return func(x float64) float64 { return x / (1 + math.Abs(x)) }
	case activation.ReLU:
		return func(x float64) float64 { return math.Max(x, 0) }
	case activation.CELU:
		return func(x float64) float64 {
			if x > 0 {
				return x
			}
			return c[0] * (math.Exp(x/c[0]) - 1)
		}
	case activation.GELU:
		return func(x float64) float64 {
			return 0.5 * x * (1 + math.Tanh(math.Sqrt(2/math.Pi)*(x+0.044715*x*x*x)))
		}
	case activation.ELU:
		return func(x float64) float64 {
			if x > 0 {
				return x
			}
			return c[0] * (math.Exp(x) - 1)
		}
	case activation.PositiveELU:
		return func(x float64) float64 {
			if x > 0 {
				return x + 1
			}
			return math.Exp(x)
		}
	case activation.SwishB:
		return func(x float64) float64 { return x * sigmoid(c[0]*x) }
	case activation.Swish, activation.SiLU:
		return func(x float64) float64 { return x * sigmoid(x) }
	case activation.Mish:
		return func(x float64) float64 { return x * math.Tanh(math.Log(1+math.Exp(x))) }
	case activation.LeakyReLU:
		return func(x float64) float64 {
			if x > 0 {
				return x
			}
			return c[0] * x
		}
	case activation.SELU:
		return func(x float64) float64 {
			if x > 0 {
				return c[1] * x
			}
			return c[1] * c[0] * (math.Exp(x) - 1)
		}
	case activation.SoftPlus:
		return func(x float64) float64 {
			if x > c[1] {
				return x
			}
			return math.Log(1+math.Exp(c[0]*x)) / c[0]
		}
	case activation.SoftShrink:
		return func(x float64) float64 {
			switch {
			case x > c[0]:
				return x - c[0]
			case x < -c[0]:
				return x + c[0]
			}
			return 0
		}
	case activation.Threshold:
		return func(x float64) float64 {
			if x > c[0] {
				return x
			}
			return c[1]
		}
	}
	panic("no element function")
}

var elementwise = []activation.Activation{
	activation.Identity, activation.Tan, activation.Tanh, activation.Sigmoid, activation.HardSigmoid,
	activation.HardTanh, activation.Softsign, activation.ReLU, activation.CELU, activation.GELU,
	activation.ELU, activation.PositiveELU, activation.SwishB, activation.Swish, activation.SiLU,
	activation.Mish, activation.LeakyReLU, activation.SELU, activation.SoftPlus, activation.SoftShrink,
	activation.Threshold,
}

func nparams(a activation.Activation) int {
	switch a {
	case activation.CELU, activation.ELU, activation.SwishB, activation.LeakyReLU, activation.SoftShrink:
		return 1
	case activation.SELU, activation.SoftPlus, activation.Threshold:
		return 2
	}
	return 0
}

func H_Activation() { hx.Both(activations[float32], activations[float64]) }

func activations[T float.DType]() {
	a := hx.Pick(elementwise...)
	var ps []*nn.Param
	var c vec
	for i := 0; i < nparams(a); i++ {
		q := nn.NewParam(mat.Scalar[T](0))
		v := p[T](q)[0]
		if a == activation.SoftShrink {
			vrt.Assume(v >= 0)
		}
		ps, c = append(ps, q), append(c, v)
	}
	if a == activation.CELU || a == activation.SoftPlus {
		vrt.Assume(c[0] != 0)
	}
	n := vrt.Choose(vrt.Bound(3, 4))
	xs, vs := cols[T](n, 2-n/2)
	ys := activation.New(a, ps...).Forward(xs...)
	f := actF(a, c)
	var want []vec
	for _, v := range vs {
		want = append(want, each(f, v))
	}
	areVecs[T](ys, want, "activation")
	untouched[T](xs, vs)
}

// The activations that look at the whole vector.
func H_VectorActivation() { hx.Both(vectorActivations[float32], vectorActivations[float64]) }

func vectorActivations[T float.DType]() {
	a := hx.Pick(activation.Softmax, activation.LogSoftmax, activation.SparseMax)
	n := vrt.Choose(3)
	size := 1 + vrt.Choose(vrt.Bound(2, 3))
	xs, vs := cols[T](n, size)
	ys := activation.New(a).Forward(xs...)
	vrt.Assert(len(ys) == n, "one output per input")
	for i, v := range vs {
		if a == activation.SparseMax {
			// the Euclidean projection: some shift, clamped at zero, with sum one
			y := from(hx.V[T](ys[i]))
			sum := 0.0
			for j := range y {
				vrt.AssertLe(0, y[j], "not negative")
				sum += y[j]
				for k := range y {
					if y[j] > 0 && y[k] > 0 {
						vrt.AssertEq(y[j]-y[k], v[j]-v[k], "the support is shifted as a whole")
					}
					if y[j] > 0 && y[k] == 0 {
						vrt.AssertLe(v[k], v[j]-y[j], "the rest lies below the shift")
					}
				}
			}
			vrt.AssertEq(sum, 1, "sum one")
			continue
		}
		den := 0.0
		for _, x := range v {
			den += math.Exp(x)
		}
		want := each(func(x float64) float64 { return math.Exp(x) / den }, v)
		if a == activation.LogSoftmax {
			want = each(math.Log, want)
		}
		isVec[T](ys[i], want, "activation")
	}
	untouched[T](xs, vs)
}

func H_ParseActivation() {
	names := []string{"Identity", "Tan", "Tanh", "Sigmoid", "HardSigmoid", "HardTanh", "Softsign", "ReLU", "CELU", "GELU",
		"ELU", "PositiveELU", "SwishB", "Swish", "SiLU", "Mish", "LeakyReLU", "SELU", "SoftPlus", "SoftShrink",
		"Threshold", "Softmax", "LogSoftmax", "SparseMax"}
	all := append(append([]activation.Activation{}, elementwise...), activation.Softmax, activation.LogSoftmax, activation.SparseMax)
	for i, n := range names {
		a, err := activation.ParseActivation(n)
		vrt.Assert(err == nil && a == all[i], "by name")
		low := []byte(n)
		for j, c := range low {
			if c >= 'A' && c <= 'Z' {
				low[j] = c + 32
			}
		}
		vrt.Assert(activation.MustParseActivation(string(low)) == all[i], "by lower-case name")
	}
	_, err := activation.ParseActivation("nothing")
	vrt.Assert(err != nil, "an unknown name is refused")
	vrt.AssertPanics(func() { activation.MustParseActivation("nothing") }, "an unknown name is refused")
}

// ---- linear ----

func H_Linear() { hx.Both(linears[float32], linears[float64]) }

func linears[T float.DType]() {
	in, out := hx.Dims([][2]int{{1, 1}, {2, 3}, {3, 1}, {3, 2}}, [][2]int{{4, 4}, {9, 2}, {1, 5}, {17, 1}})
	n := vrt.Choose(4)
	m := linear.New[T](in, out)
	w, b := p[T](m.W), p[T](m.B)
	xs, vs := cols[T](n, in)
	var want []vec
	for _, v := range vs {
		want = append(want, add(mv(w, v), b))
	}
	areVecs[T](m.Forward(xs...), want, "linear")
	untouched[T](xs, vs)
}

// A stack of layers is their composition, in order.
func H_Stack() {
	a, b := linear.New[float64](2, 3), linear.New[float64](3, 2)
	wa, ba, wb, bb := p[float64](a.W), p[float64](a.B), p[float64](b.W), p[float64](b.B)
	var stack nn.ModuleList[nn.StandardModel]
	k := vrt.Choose(3)
	f := []func(vec) vec{
		func(v vec) vec { return v },
		func(v vec) vec { return add(mv(wa, v), ba) },
		func(v vec) vec { return add(mv(wb, tanh(add(mv(wa, v), ba))), bb) },
	}[k]
	switch k {
	case 1:
		stack = nn.ModuleList[nn.StandardModel]{a}
	case 2:
		stack = nn.ModuleList[nn.StandardModel]{a, activation.New(activation.Tanh), b}
	}
	xs, vs := cols[float64](2, 2)
	ys := stack.Forward(xs...)
	areVecs[float64](ys, []vec{f(vs[0]), f(vs[1])}, "stack")
}

// ---- normalizations ----

func mean(v vec) float64 {
	s := 0.0
	for _, x := range v {
		s += x
	}
	return s / float64(len(v))
}

func norm2(v vec) float64 {
	s := 0.0
	for _, x := range v {
		s += x * x
	}
	return s
}

func variance(v vec) float64 {
	m := mean(v)
	return norm2(each(func(x float64) float64 { return x - m }, v)) / float64(len(v))
}

func sizes() (int, int) {
	return hx.Dims([][2]int{{0, 2}, {1, 1}, {1, 3}, {2, 2}}, [][2]int{{3, 3}, {1, 5}})
}

func normLayer[T float.DType](n, size int, f func(...mat.Tensor) []mat.Tensor, g func(vec) vec, msg string) {
	xs, vs := cols[T](n, size)
	ys := f(xs...)
	var want []vec
	for _, v := range vs {
		want = append(want, g(v))
	}
	areVecs[T](ys, want, msg)
	untouched[T](xs, vs)
}

func H_LayerNorm() { hx.Both(layerNorm[float32], layerNorm[float64]) }

func layerNorm[T float.DType]() {
	n, size := sizes()
	m := layernorm.New[T](size, 1e-12)
	w, b, eps := p[T](m.W), p[T](m.B), buf[T](m.Eps)[0]
	vrt.Assume(eps > 0)
	normLayer[T](n, size, m.Forward, func(v vec) vec {
		e, s := mean(v), math.Sqrt(variance(v)+eps)
		return add(mul(each(func(x float64) float64 { return (x - e) / s }, v), w), b)
	}, "layernorm")
}

// stab is the documented stabiliser of the layers without a configurable one.
func stab[T float.DType]() float64 { return float64(T(1e-10)) }

func H_RMSNorm() { hx.Both(rmsNorm[float32], rmsNorm[float64]) }

func rmsNorm[T float.DType]() {
	n, size := sizes()
	m := rmsnorm.New[T](size)
	w, b := p[T](m.W), p[T](m.B)
	normLayer[T](n, size, m.Forward, func(v vec) vec {
		s := math.Sqrt(norm2(v)/float64(size)) + stab[T]()
		return add(mul(each(func(x float64) float64 { return x / s }, v), w), b)
	}, "rmsnorm")
}

func H_ScaleNorm() { hx.Both(scaleNorm[float32], scaleNorm[float64]) }

func scaleNorm[T float.DType]() {
	n, size := sizes()
	vrt.Assume(n > 0)
	m := scalenorm.New[T](size)
	g := p[T](m.Gain)
	normLayer[T](n, size, m.Forward, func(v vec) vec {
		s := math.Sqrt(norm2(v)) + stab[T]()
		return mul(each(func(x float64) float64 { return x / s }, v), g)
	}, "scalenorm")
}

func H_FixNorm() { hx.Both(fixNorm[float32], fixNorm[float64]) }

func fixNorm[T float.DType]() {
	n, size := sizes()
	normLayer[T](n, size, fixnorm.New().Forward, func(v vec) vec {
		s := math.Sqrt(norm2(v)) + stab[T]()
		return each(func(x float64) float64 { return x / s }, v)
	}, "fixnorm")
}

func H_LayerNormSimple() { hx.Both(layerNormSimple[float32], layerNormSimple[float64]) }

func layerNormSimple[T float.DType]() {
	n, size := sizes()
	vrt.Assume(n > 0)
	normLayer[T](n, size, layernormsimple.New().Forward, func(v vec) vec {
		e, s := mean(v), math.Sqrt(variance(v))+stab[T]()
		return each(func(x float64) float64 { return (x - e) / s }, v)
	}, "layernormsimple")
}

func H_AdaNorm() { hx.Both(adaNorm[float32], adaNorm[float64]) }

func adaNorm[T float.DType]() {
	n, size := sizes()
	m := adanorm.New[T](1)
	c := buf[T](m.Scale)[0]
	k := float64(T(0.1))
	normLayer[T](n, size, m.Forward, func(v vec) vec {
		e, s := mean(v), math.Sqrt(variance(v))+stab[T]()
		return each(func(x float64) float64 {
			y := (x - e) / s
			return c * (1 - k*y) * y
		}, v)
	}, "adanorm")
}

// Batch normalisation divides by the deviation plus 1e-5; the averages of the
// batch are over n + 1e-5 elements.
func H_BatchNorm() { hx.Both(batchNorm[float32], batchNorm[float64]) }

func batchNorm[T float.DType]() {
	n, size := hx.Dims([][2]int{{0, 2}, {1, 1}, {2, 2}}, [][2]int{{3, 2}, {4, 1}})
	m := batchnorm.New[T](size)
	w, b, mu, sd, mom := p[T](m.W), p[T](m.B), buf[T](m.Mean), buf[T](m.StdDev), buf[T](m.Momentum)[0]
	const eps = 1e-5
	out := func(v, mu, sd vec) vec {
		o := make(vec, size)
		for i := range o {
			o[i] = (v[i]-mu[i])*w[i]/(sd[i]+float64(T(eps))) + b[i]
		}
		return o
	}
	for i := range sd {
		vrt.Assume(sd[i] >= 0)
	}
	if vrt.Choose(2) == 0 {
		normLayer[T](n, size, m.Forward, func(v vec) vec { return out(v, mu, sd) }, "inference")
		isVec[T](m.Mean, mu, "running mean")
		isVec[T](m.StdDev, sd, "running deviation")
		return
	}
	vrt.Assume(n > 0)
	xs, vs := cols[T](n, size)
	den := float64(T(float64(n) + eps))
	bm, bs := make(vec, size), make(vec, size)
	for i := range bm {
		for _, v := range vs {
			bm[i] += v[i]
		}
		bm[i] /= den
		for _, v := range vs {
			bs[i] += (v[i] - bm[i]) * (v[i] - bm[i])
		}
		bs[i] = math.Sqrt(bs[i] / den)
	}
	var want []vec
	for _, v := range vs {
		want = append(want, out(v, bm, bs))
	}
	areVecs[T](m.ForwardT(xs...), want, "training")
	for i := range mu {
		mu[i] = mom*mu[i] + (1-mom)*bm[i]
		sd[i] = mom*sd[i] + (1-mom)*bs[i]
	}
	isVec[T](m.Mean, mu, "running mean")
	isVec[T](m.StdDev, sd, "running deviation")
	untouched[T](xs, vs)
}
