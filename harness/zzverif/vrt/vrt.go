// Package vrt is the interface between verification harnesses and the engine
// that runs them.  Under gosym every function here is interpreted symbolically
// (inputs become symbolic variables, assertions become solver queries); the
// bodies below are the native implementation, used to replay concrete inputs
// against the real compiled code.
package vrt

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"github.com/nlpodyssey/spago/zzverif/zzyield"
)

type Float interface{ float32 | float64 }

type Input struct {
	K string `json:"k"`
	V string `json:"v"`
}

type Case struct {
	Harness  string  `json:"harness"`
	Inputs   []Input `json:"inputs"`
	Thorough bool    `json:"thorough"`
}

type assumeFailed struct{}

// Violation is panicked by failing assertions.
type Violation struct{ Msg string }

var (
	mu       sync.Mutex
	ins      []Input
	pos      int
	thorough bool
	tol32    = 2e-3
	tol64    = 1e-6
	tolSet   = 0.0
	worst    float64
	Obs      []float64
	other    []string // observations of another process
	OnYield  func(site string)
)

func reset(c Case) {
	ins, pos, thorough, tolSet = c.Inputs, 0, c.Thorough, 0
	Obs = nil
	for _, m := range mapped {
		syscall.Munmap(m)
	}
	mapped = nil
}

// RunCase executes one harness on concrete inputs.
func RunCase(c Case, f func()) (res string) {
	reset(c)
	other = nil
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case assumeFailed:
				res = "assume"
			case otherCPU:
				res, other = onCPU(x.level, c)
			case Violation:
				res = "violation: " + x.Msg
			default:
				res = "panic: " + fmt.Sprint(r)
			}
		}
	}()
	f()
	return "ok"
}

func next(k string) string {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(ins) {
		panic(fmt.Sprintf("vrt: input sequence exhausted at %d (want %s)", pos, k))
	}
	v := ins[pos]
	if v.K != k {
		panic(fmt.Sprintf("vrt: input %d has kind %s, harness wants %s", pos, v.K, k))
	}
	pos++
	return v.V
}

// Choose is an unconstrained n-way choice; every alternative is explored.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	i, _ := strconv.Atoi(next("c"))
	return i
}

// Int is a symbolic integer in [lo, hi].
func Int(lo, hi int) int {
	i, _ := strconv.ParseInt(next("i"), 10, 64)
	if int(i) < lo || int(i) > hi {
		panic(assumeFailed{})
	}
	return int(i)
}

// U64 is an arbitrary symbolic word.
func U64() uint64 {
	i, _ := strconv.ParseUint(next("u"), 10, 64)
	return i
}

// U32 is an arbitrary symbolic 32-bit word.
func U32() uint32 {
	i, _ := strconv.ParseUint(next("u"), 10, 64)
	return uint32(i)
}

// Byte is an arbitrary symbolic byte.
func Byte() byte {
	i, _ := strconv.ParseUint(next("u"), 10, 64)
	return byte(i)
}

// Bool is an arbitrary symbolic boolean.
func Bool() bool { return next("b") == "true" }

// F is an arbitrary symbolic float: a real in real mode, any bit pattern in FP mode.
func F[T Float]() T {
	var z T
	s := next("f")
	if strings.HasPrefix(s, "x") {
		u, _ := strconv.ParseUint(s[1:], 16, 64)
		switch any(z).(type) {
		case float32:
			return T(math.Float32frombits(uint32(u)))
		default:
			return T(math.Float64frombits(u))
		}
	}
	f, _ := strconv.ParseFloat(s, 64)
	return T(f)
}

// FIn is a symbolic float in [lo, hi].
func FIn[T Float](lo, hi float64) T {
	return F[T]()
}

// Pos is a symbolic positive float.
func Pos[T Float]() T { return F[T]() }

var mapped [][]byte

// Buf allocates n elements whose address is off elements past a multiple of 64
// bytes.  Natively the buffer ends at (GOSYM_BUF=start: begins at) an unmapped page.
func Buf[T Float](n, off int) []T {
	var z T
	es := int(unsafe.Sizeof(z))
	const page = 4096
	k := (n*es + 128 + page - 1) / page * page
	m, err := syscall.Mmap(-1, 0, k+2*page, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	mapped = append(mapped, m)
	syscall.Mprotect(m[:page], syscall.PROT_NONE)
	syscall.Mprotect(m[page+k:], syscall.PROT_NONE)
	at := page + k - n*es
	switch os.Getenv("GOSYM_BUF") {
	case "start":
		at = page
	case "end":
	default:
		for at%64 != off*es%64 {
			at -= es
		}
	}
	return unsafe.Slice((*T)(unsafe.Pointer(&m[at])), n)
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

func Assert(c bool, msg string) {
	if !c {
		panic(Violation{msg})
	}
}

// Tol sets the relative tolerance of native comparisons.
func Tol(t float64) { tolSet = t }

func tolOf(f32 bool) float64 {
	if tolSet != 0 {
		return tolSet
	}
	if f32 {
		return tol32
	}
	return tol64
}

func near(a, b, tol float64) bool {
	if a == b || math.IsNaN(a) && math.IsNaN(b) {
		return true
	}
	if math.IsInf(a, 0) || math.IsInf(b, 0) || math.IsNaN(a) || math.IsNaN(b) {
		return false
	}
	return math.Abs(a-b) <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func is32[T Float]() bool {
	var z T
	_, ok := any(z).(float32)
	return ok
}

// AssertEq asserts a = b (over the reals; natively up to rounding).
func AssertEq[T Float](a, b T, msg string) {
	Obs = append(Obs, float64(a))
	if !near(float64(a), float64(b), tolOf(is32[T]())) {
		panic(Violation{fmt.Sprintf("%s: got %v want %v", msg, a, b)})
	}
}

// AssertLe asserts a <= b (natively up to rounding).
func AssertLe[T Float](a, b T, msg string) {
	t := tolOf(is32[T]())
	if !(float64(a) <= float64(b)+t*(1+math.Abs(float64(b)))) {
		panic(Violation{fmt.Sprintf("%s: %v > %v", msg, a, b)})
	}
}

// AssertLt asserts a < b over the reals (natively up to rounding).
func AssertLt[T Float](a, b T, msg string) { AssertLe(a, b, msg) }

// AssertSame asserts bit-for-bit equality (all NaNs are equal).
func AssertSame[T Float](a, b T, msg string) {
	if a != a && b != b {
		return
	}
	if a != b || math.Signbit(float64(a)) != math.Signbit(float64(b)) {
		panic(Violation{fmt.Sprintf("%s: got %v want %v", msg, a, b)})
	}
}

// Deriv gives the partial derivatives of f at xs (which must be inputs).
func Deriv(f func(xs []float64) float64, xs []float64) []float64 {
	out := make([]float64, len(xs))
	f0 := f(append([]float64{}, xs...))
	for i := range xs {
		at := func(h float64) float64 {
			ys := append([]float64{}, xs...)
			ys[i] = xs[i] + h
			return f(ys)
		}
		// sides gives the central difference and the gap between the one-sided ones.
		sides := func(h float64) (d, gap float64) {
			a, b := at(h), at(-h)
			return (a - b) / (2 * h), math.Abs(a-2*f0+b) / h
		}
		const h = 1e-4
		d1, gap := sides(h)
		d2, _ := sides(h / 2)
		d3, kink := sides(h / 16)
		out[i] = (4*d2 - d1) / 3 // Richardson
		noise := 1e-3 * (1 + math.Abs(d3) + 1e-6*math.Abs(f0))
		if kink > noise && kink > gap/2 || math.Abs(d3-d2) > 10*noise && math.Abs(d3-d2) > math.Abs(d2-d1)/2 {
			panic(assumeFailed{}) // f has no derivative here
		}
	}
	return out
}

// ExpSafe asserts that f(1) takes exponentials of non-positive numbers only and
// neither the logarithm of nor the quotient by a sum of them that can vanish.
// Natively f is run with growing scales and its results must stay finite.
func ExpSafe(f func(scale float64) []float64, msg string) {
	for _, k := range []float64{1, 30, 1e3, 1e4, 1e5} {
		for _, y := range f(k) {
			if math.IsNaN(y) || math.IsInf(y, 0) {
				panic(Violation{fmt.Sprintf("%s: scale %g gives %v", msg, k, y)})
			}
		}
	}
}

// Smooth restricts the path to points where every comparison taken so far is strict.
func Smooth() {}

// Reach records that a point of the harness is reachable.
func Reach(label string) {}

func Thorough() bool { return thorough }

// Bound gives a bound for the quick or for the thorough tier.
func Bound(quick, deep int) int {
	if thorough {
		return deep
	}
	return quick
}

// MapOrder makes the engine explore every map iteration order.
func MapOrder(on bool) {}

// CPU selects the CPU features the engine models (0 SSE only, 1 AVX, 2 AVX2+FMA).
// Natively the case goes on in a process that was told to leave out the others.
func CPU(level int) {
	have := 2
	if v := os.Getenv("GOSYM_CPU"); v != "" {
		have, _ = strconv.Atoi(v)
	}
	if level != have {
		panic(otherCPU{level})
	}
}

type otherCPU struct{ level int }

var godebug = []string{"cpu.avx=off,cpu.avx2=off,cpu.fma=off", "cpu.avx2=off,cpu.fma=off", ""}

// onCPU runs a case in a process with the given CPU features.
func onCPU(level int, c Case) (res string, obs []string) {
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	b, _ := json.Marshal(c)
	cmd := exec.Command(self)
	cmd.Env = append(os.Environ(), "GOSYM_CPU="+strconv.Itoa(level), "GODEBUG="+godebug[level])
	cmd.Stdin = strings.NewReader(string(b) + "\n")
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.Output()
	var r struct {
		Res string   `json:"res"`
		Obs []string `json:"obs"`
	}
	if err != nil || json.Unmarshal(out, &r) != nil {
		os.Exit(2)
	}
	return r.Res, r.Obs
}

// NumCPU sets the number of CPUs the engine models.
func NumCPU(n int) {}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case assumeFailed, Violation:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// AssertPanics asserts that f panics.
func AssertPanics(f func(), msg string) {
	if !Panics(f) {
		Assert(false, msg)
	}
}

// AssertNoPanic asserts that f does not panic.
func AssertNoPanic(f func(), msg string) {
	if Panics(f) {
		Assert(false, msg)
	}
}

// Main is the entry point of replay binaries: cases as JSON lines on stdin.
func Main(reg map[string]func()) {
	dec := json.NewDecoder(os.Stdin)
	enc := json.NewEncoder(os.Stdout)
	for {
		var c Case
		if err := dec.Decode(&c); err != nil {
			return
		}
		f := reg[c.Harness]
		if f == nil {
			enc.Encode(map[string]any{"res": "no such harness"})
			continue
		}
		res := ""
		if n, _ := strconv.Atoi(os.Getenv("GOSYM_SCHED")); n > 0 {
			// a replay under many schedules
			t0, _ := strconv.Atoi(os.Getenv("GOSYM_SCHEDSEED"))
			for i := 0; i < n && (res == "" || res == "ok"); i++ {
				zzyield.Next(int64(t0 + i))
				res = RunCase(c, f)
			}
		} else {
			res = RunCase(c, f)
		}
		var obs []string
		for _, x := range Obs {
			obs = append(obs, strconv.FormatFloat(x, 'g', -1, 64))
		}
		if other != nil {
			obs = other
		}
		enc.Encode(map[string]any{"res": res, "obs": obs})
	}
}
