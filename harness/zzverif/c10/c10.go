// Package c10: binary serialization round-trips bit-exactly.
package c10

import (
	"math"

	"github.com/nlpodyssey/spago/mat"
	"github.com/nlpodyssey/spago/mat/float"
	"github.com/nlpodyssey/spago/zzverif/hx"
	"github.com/nlpodyssey/spago/zzverif/vrt"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func word[T float.DType](x T) uint64 {
	switch v := any(x).(type) {
	case float32:
		return uint64(math.Float32bits(v))
	case float64:
		return math.Float64bits(v)
	}
	return 0
}

// anyBits is a float with an arbitrary bit pattern.
func anyBits[T float.DType]() T {
	var z T
	switch p := any(&z).(type) {
	case *float32:
		*p = math.Float32frombits(vrt.U32())
	case *float64:
		*p = math.Float64frombits(vrt.U64())
	}
	return z
}

// maker builds a matrix in one of the ways the library offers.
func shapes() (int, int) {
	return hx.Dims(
		[][2]int{{1, 1}, {1, 3}, {3, 1}, {2, 3}, {0, 0}, {0, 2}, {3, 0}, {5, 1}, {1, 8}},
		[][2]int{{4, 4}, {1, 16}, {17, 1}, {5, 7}, {1, 33}, {2, 11}})
}

func sym[T float.DType](r, c int) []T {
	d := make([]T, r*c)
	for i := range d {
		d[i] = anyBits[T]()
	}
	return d
}

func equal[T float.DType](m *mat.Dense[T], r, c int, d []T, grad bool, msg string) {
	hx.Shape(m, r, c, msg)
	got := float.SliceValueOf[T](m.Data())
	vrt.Assert(len(got) == len(d), msg+": length")
	for i := range d {
		vrt.Assert(word(got[i]) == word(d[i]), msg+": bits of the element")
	}
	vrt.Assert(m.RequiresGrad() == grad, msg+": requires grad")
}

func both(f32, f64 func()) { hx.Both(f32, f64) }

//vrt:fp
func H_RoundTrip() {
	both(roundTrip[float32], roundTrip[float64])
}

func roundTrip[T float.DType]() {
	r, c := shapes()
	d := sym[T](r, c)
	grad := vrt.Choose(2) == 1
	m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(d)), mat.WithGrad(grad))
	b, err := m.MarshalBinary()
	must(err)
	equal(m, r, c, d, grad, "after encoding")
	var x mat.Dense[T]
	must(x.UnmarshalBinary(b))
	equal(&x, r, c, d, grad, "decoded")
	// a second round
	b2, err := x.MarshalBinary()
	must(err)
	vrt.Assert(len(b2) == len(b), "re-encoded: length")
	for i := range b {
		vrt.Assert(b2[i] == b[i], "re-encoded: bytes")
	}
	var y mat.Dense[T]
	must(y.UnmarshalBinary(b2))
	equal(&y, r, c, d, grad, "decoded twice")
}

// The decoded matrix does not change when the buffer is used again.
//
//vrt:fp
func H_BufferReuse() {
	both(bufferReuse[float32], bufferReuse[float64])
}

func bufferReuse[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {2, 2}, {3, 1}}, [][2]int{{1, 9}, {3, 3}})
	d := sym[T](r, c)
	m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(d)))
	b, err := m.MarshalBinary()
	must(err)
	var x mat.Dense[T]
	must(x.UnmarshalBinary(b))
	for i := range b {
		b[i] = vrt.Byte()
	}
	equal(&x, r, c, d, false, "after reuse of the buffer")
	equal(m, r, c, d, false, "original after reuse of the buffer")
}

// Later changes of the decoded matrix change neither the buffer nor the original.
//
//vrt:fp
func H_Independent() {
	both(independent[float32], independent[float64])
}

func independent[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {2, 2}, {1, 3}}, [][2]int{{1, 9}, {3, 3}})
	d := sym[T](r, c)
	m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(d)))
	b, err := m.MarshalBinary()
	must(err)
	var x, y mat.Dense[T]
	must(x.UnmarshalBinary(b))
	i, j := vrt.Choose(r), vrt.Choose(c)
	v := anyBits[T]()
	x.SetScalar(float.Interface(v), i, j)
	equal(m, r, c, d, false, "original")
	must(y.UnmarshalBinary(b))
	equal(&y, r, c, d, false, "decoded again from the same buffer")
	d[i*c+j] = v
	equal(&x, r, c, d, false, "changed copy")
}

// Decoding into a matrix in use replaces its value.
//
//vrt:fp
func H_Overwrite() {
	both(overwrite[float32], overwrite[float64])
}

func overwrite[T float.DType]() {
	r, c := hx.Dims([][2]int{{1, 1}, {2, 3}, {0, 2}}, [][2]int{{3, 3}})
	d := sym[T](r, c)
	grad := vrt.Choose(2) == 1
	m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(hx.Copy(d)), mat.WithGrad(grad))
	b, err := m.MarshalBinary()
	must(err)
	r2, c2 := hx.Dims([][2]int{{1, 1}, {3, 2}}, [][2]int{{1, 7}})
	old := sym[T](r2, c2)
	backing := hx.Copy(old)
	x := mat.NewDense[T](mat.WithShape(r2, c2), mat.WithBacking(backing), mat.WithGrad(vrt.Choose(2) == 1))
	must(x.UnmarshalBinary(b))
	equal(x, r, c, d, grad, "decoded over another matrix")
	for i := range old {
		vrt.Assert(word(backing[i]) == word(old[i]), "the earlier data is left alone")
	}
}

// Results of operations are encoded like matrices made from data.
//
//vrt:fp
func H_Derived() {
	both(derived[float32], derived[float64])
}

func derived[T float.DType]() {
	d := sym[T](2, 3)
	m := mat.NewDense[T](mat.WithShape(2, 3), mat.WithBacking(hx.Copy(d)))
	var s mat.Matrix
	var w []T
	r, c := 0, 0
	switch vrt.Choose(5) {
	case 0:
		s, w, r, c = m.T(), []T{d[0], d[3], d[1], d[4], d[2], d[5]}, 3, 2
	case 1:
		s, w, r, c = m.Slice(0, 1, 2, 3), []T{d[1], d[2], d[4], d[5]}, 2, 2
	case 2:
		s, w, r, c = m.ExtractRow(1), []T{d[3], d[4], d[5]}, 1, 3
	case 3:
		s, w, r, c = m.Clone(), d, 2, 3
	case 4:
		s, w, r, c = m.ReshapeInPlace(6, 1), d, 6, 1
	}
	b, err := s.(*mat.Dense[T]).MarshalBinary()
	must(err)
	var x mat.Dense[T]
	must(x.UnmarshalBinary(b))
	equal(&x, r, c, w, false, "decoded")
}

// The encoding of one element type is not accepted for the other.
//
//vrt:fp
func H_WrongType() {
	r, c := hx.Dims([][2]int{{1, 1}, {2, 2}, {0, 0}, {1, 4}}, nil)
	if vrt.Choose(2) == 0 {
		b, err := mat.NewDense[float32](mat.WithShape(r, c), mat.WithBacking(sym[float32](r, c))).MarshalBinary()
		must(err)
		var x mat.Dense[float64]
		vrt.Assert(x.UnmarshalBinary(b) != nil, "float32 data decoded as float64 is an error")
	} else {
		b, err := mat.NewDense[float64](mat.WithShape(r, c), mat.WithBacking(sym[float64](r, c))).MarshalBinary()
		must(err)
		var x mat.Dense[float32]
		vrt.Assert(x.UnmarshalBinary(b) != nil, "float64 data decoded as float32 is an error")
	}
}

// Every dimension the format can hold survives, whether or not there are elements.
//
//vrt:fp
func H_LargeShape() {
	both(largeShape[float32], largeShape[float64])
}

func largeShape[T float.DType]() {
	var r, c int
	var d []T
	if vrt.Choose(2) == 0 {
		n := vrt.Int(0, math.MaxInt32)
		if vrt.Choose(2) == 0 {
			r = n
		} else {
			c = n
		}
	} else {
		n := hx.Pick(257, 300)
		if vrt.Thorough() {
			n = hx.Pick(257, 300, 1025, 4099)
		}
		r, c = 1, n
		if vrt.Choose(2) == 0 {
			r, c = n, 1
		}
		d = make([]T, n)
		for i := range d {
			d[i] = T(i)
		}
		d[n-1], d[255], d[256] = anyBits[T](), anyBits[T](), anyBits[T]()
	}
	m := mat.NewDense[T](mat.WithShape(r, c), mat.WithBacking(d))
	b, err := m.MarshalBinary()
	must(err)
	var x mat.Dense[T]
	must(x.UnmarshalBinary(b))
	equal(&x, r, c, d, false, "decoded")
}
