package main

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

// The machine code of the assembly kernels.  `go tool asm -S` lists every
// instruction of a .s file after macro expansion; the listing is executed on
// symbolic elements: general registers, addresses and flags are concrete, the
// vector registers hold terms.

type aop struct {
	kind byte // r (register), i (immediate), m (memory), l (label)
	reg  string
	imm  int64
	base string
	idx  string
	sc   int64
	sym  string
}

type ainst struct {
	pc  int
	mn  string
	ops []aop
	pos string
}

type afunc struct {
	name string
	ins  []ainst
	byPC map[int]int
	data map[string][]byte
}

var (
	asmMu    sync.Mutex
	asmPkgs  = map[string]map[string]*afunc{}
	asmErrs  = map[string]error{}
	asmInstr = map[string]map[int]bool{} // instructions executed, for the report
)

func asmOf(dir string) (map[string]*afunc, error) {
	asmMu.Lock()
	defer asmMu.Unlock()
	if f, ok := asmPkgs[dir]; ok {
		return f, asmErrs[dir]
	}
	f, err := readAsm(dir)
	asmPkgs[dir], asmErrs[dir] = f, err
	return f, err
}

func readAsm(dir string) (map[string]*afunc, error) {
	out := map[string]*afunc{}
	files, _ := filepath.Glob(filepath.Join(dir, "*_amd64.s"))
	tmp, err := os.MkdirTemp("", "gosym-asm")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return nil, err
	}
	for _, f := range files {
		cmd := exec.Command("go", "tool", "asm", "-S", "-p", "x", "-I", filepath.Join(strings.TrimSpace(string(root)), "pkg", "include"),
			"-D", "GOOS_linux", "-D", "GOARCH_amd64", "-o", filepath.Join(tmp, "x.o"), f)
		cmd.Env = append(os.Environ(), "GOOS=linux", "GOARCH=amd64")
		b, err := cmd.CombinedOutput()
		if err != nil {
			return nil, fmt.Errorf("%s: %v: %s", filepath.Base(f), err, firstLine(string(b)))
		}
		if err := parseListing(string(b), filepath.Base(f), out); err != nil {
			return nil, err
		}
	}
	return out, nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func parseListing(s, file string, out map[string]*afunc) error {
	data := map[string][]byte{}
	var cur *afunc
	sym := ""
	var fns []*afunc
	for _, l := range strings.Split(s, "\n") {
		if l == "" {
			continue
		}
		if l[0] != '\t' {
			fs := strings.Fields(l)
			cur, sym = nil, ""
			if len(fs) > 1 && fs[1] == "STEXT" {
				cur = &afunc{name: strings.TrimPrefix(fs[0], "x."), byPC: map[int]int{}, data: data}
				out[cur.name] = cur
				fns = append(fns, cur)
			} else if len(fs) > 1 && (strings.Contains(fs[1], "RODATA") || strings.Contains(fs[1], "DATA") || strings.Contains(fs[1], "BSS")) {
				sym = fs[0]
			}
			continue
		}
		f := strings.Split(l[1:], "\t")
		if cur != nil && len(f) >= 2 && strings.HasPrefix(f[0], "0x") && strings.Contains(f[0], "(") {
			h := strings.Fields(f[0])
			pc, err := strconv.Atoi(h[1])
			if err != nil {
				return fmt.Errorf("%s: listing: %q", file, l)
			}
			mn := f[1]
			if mn == "FUNCDATA" || mn == "PCDATA" || mn == "TEXT" || mn == "NOP" {
				continue
			}
			in := ainst{pc: pc, mn: mn}
			pos := strings.Trim(h[2], "()")
			in.pos = file + pos[strings.LastIndexByte(pos, ':'):]
			if len(f) > 2 {
				for _, o := range splitOps(f[2]) {
					op, err := parseOp(o, strings.HasPrefix(mn, "J") || mn == "LOOP")
					if err != nil {
						return fmt.Errorf("%s: %v in %q", in.pos, err, strings.Join(f[1:], " "))
					}
					in.ops = append(in.ops, op)
				}
			}
			if _, ok := cur.byPC[pc]; !ok {
				cur.byPC[pc] = len(cur.ins)
			}
			cur.ins = append(cur.ins, in)
			continue
		}
		if sym != "" && strings.HasPrefix(f[0], "0x") {
			h := f[0]
			if len(h) < 8 {
				continue
			}
			// 0xOFFS xx xx ..  text
			rest := h[strings.IndexByte(h, ' ')+1:]
			if len(rest) > 48 {
				rest = rest[:48]
			}
			for _, x := range strings.Fields(rest) {
				v, err := strconv.ParseUint(x, 16, 8)
				if err != nil || len(x) != 2 {
					break
				}
				data[sym] = append(data[sym], byte(v))
			}
		}
	}
	// byte-coded instructions
	for _, fn := range fns {
		var ins []ainst
		for i := 0; i < len(fn.ins); i++ {
			in := fn.ins[i]
			if in.mn != "LONG" && in.mn != "WORD" && in.mn != "BYTE" {
				ins = append(ins, in)
				continue
			}
			var bs []byte
			j := i
			for ; j < len(fn.ins) && (fn.ins[j].mn == "LONG" || fn.ins[j].mn == "WORD" || fn.ins[j].mn == "BYTE"); j++ {
				n := map[string]int{"LONG": 4, "WORD": 2, "BYTE": 1}[fn.ins[j].mn]
				v := uint64(fn.ins[j].ops[0].imm)
				for k := 0; k < n; k++ {
					bs = append(bs, byte(v>>(8*k)))
				}
			}
			for len(bs) > 0 {
				d, n := ainst{mn: fmt.Sprintf("bytes % x", bs)}, len(bs)
				for k := 1; k <= len(bs); k++ {
					if q, ok := decodeBytes(bs[:k]); ok {
						d, n = q, k
						break
					}
				}
				d.pc, d.pos = in.pc, in.pos
				ins = append(ins, d)
				bs, in.pc = bs[n:], in.pc+n
			}
			i = j - 1
		}
		fn.ins = ins
		fn.byPC = map[int]int{}
		for i := len(ins) - 1; i >= 0; i-- {
			fn.byPC[ins[i].pc] = i
		}
	}
	return nil
}

func decodeBytes(b []byte) (ainst, bool) {
	if len(b) == 6 && bytes.Equal(b[:3], []byte{0xf2, 0x0f, 0x12}) && b[3]&0xc7 == 0x44 && b[4] == 0x24 {
		return ainst{mn: "MOVDDUP", ops: []aop{{kind: 'm', base: "SP", imm: int64(int8(b[5]))}, {kind: 'r', reg: fmt.Sprintf("X%d", b[3]>>3&7)}}}, true
	}
	if len(b) == 4 && b[1] == 0x0f && b[3]>>6 == 3 {
		mn := ""
		switch {
		case b[0] == 0xf2 && b[2] == 0x7c:
			mn = "HADDPS"
		case b[0] == 0x66 && b[2] == 0x7c:
			mn = "HADDPD"
		case b[0] == 0xf2 && b[2] == 0x12:
			mn = "MOVDDUP"
		}
		if mn != "" {
			return ainst{mn: mn, ops: []aop{{kind: 'r', reg: fmt.Sprintf("X%d", b[3]&7)}, {kind: 'r', reg: fmt.Sprintf("X%d", b[3]>>3&7)}}}, true
		}
	}
	return ainst{}, false
}

func splitOps(s string) []string {
	var out []string
	for _, o := range strings.Split(s, ",") {
		o = strings.TrimSpace(o)
		if o != "" {
			out = append(out, o)
		}
	}
	return out
}

func parseOp(o string, label bool) (aop, error) {
	if strings.HasPrefix(o, "$") && !strings.HasSuffix(o, ")") {
		v, err := strconv.ParseInt(o[1:], 0, 64)
		if err != nil {
			u, err2 := strconv.ParseUint(o[1:], 0, 64)
			if err2 != nil {
				return aop{}, err
			}
			v = int64(u)
		}
		return aop{kind: 'i', imm: v}, nil
	}
	if label {
		if v, err := strconv.ParseInt(o, 10, 64); err == nil {
			return aop{kind: 'l', imm: v}, nil
		}
	}
	i := strings.IndexByte(o, '(')
	if i < 0 {
		return aop{kind: 'r', reg: o}, nil
	}
	m := aop{kind: 'm'}
	pre, rest := o[:i], o[i:]
	parts := strings.Split(strings.Trim(rest, "()"), ")(")
	if parts[0] == "SB" {
		m.sym = pre
		if k := strings.LastIndexAny(pre, "+"); k > 0 {
			v, err := strconv.ParseInt(pre[k+1:], 10, 64)
			if err != nil {
				return m, err
			}
			m.sym, m.imm = pre[:k], v
		}
		m.sym = strings.TrimSuffix(strings.TrimSuffix(m.sym, "<>"), "<1>")
		return m, nil
	}
	m.base = parts[0]
	if m.base == "FP" {
		m.base = "SP"
	}
	if pre != "" {
		k := strings.LastIndexAny(pre, "+-")
		num := pre
		if pre[0] >= 'a' && pre[0] <= 'z' || pre[0] >= 'A' && pre[0] <= 'Z' || pre[0] == '_' {
			if k < 0 {
				num = "0"
			} else {
				num = pre[k:]
			}
		}
		v, err := strconv.ParseInt(num, 10, 64)
		if err != nil {
			return m, err
		}
		m.imm = v
	}
	if len(parts) > 1 {
		f := strings.Split(parts[1], "*")
		m.idx, m.sc = f[0], 1
		if len(f) > 1 {
			m.sc, _ = strconv.ParseInt(f[1], 10, 64)
		}
	}
	return m, nil
}

// ---- values ----

// A lane is 32 bits of a vector register or of memory.
type lane struct {
	k    byte // 0 undefined, 'b' bits, 't' (part of) a float term, 'm' sign and mantissa bits of a term
	bits uint32
	t    *Term
	part byte // 0 a whole float32, 1/2 low/high half of a float64
}

func bl(u uint32) lane { return lane{k: 'b', bits: u} }

type region struct {
	lo, hi int64 // byte addresses
	es     int64
	cells  Slice
}

type machine struct {
	th    *Thread
	p     *Path
	f     *afunc
	g     map[string]int64
	x     map[string]*[8]lane
	stack map[int64]lane
	regs  []*region
	// flags
	zf, sf, cf, of bool
	fx, fy         *Term // pending floating-point comparison
	cur            *ainst
	kernel         string
}

func (m *machine) fail(format string, a ...any) {
	panic(abort("%s %s %s: %s", m.kernel, m.cur.pos, m.cur.mn, fmt.Sprintf(format, a...)))
}

func (m *machine) unsafe(what string) {
	m.p.violate("unsafe", m.kernel+": "+what+" ("+m.cur.pos+" "+m.cur.mn+")", m.th.where())
	panic(stopPath{"unsafe"})
}

// addresses of buffers made by vrt.Buf and of any other slice

type bufInfo struct {
	host unsafe.Pointer
	n    int
	addr int64
	es   int64
	s    Slice
}

const cellSize = unsafe.Sizeof(V(nil))

func (p *Path) newBuf(s Slice, es int64, mod int64) {
	if p.nextAddr == 0 {
		p.nextAddr = 1 << 20
	}
	n := int64(cap(s)) * es
	base := (p.nextAddr+63)&^63 + mod
	p.nextAddr = base + n + 4096
	p.bufs = append(p.bufs, bufInfo{host: unsafe.Pointer(unsafe.SliceData(s)), n: cap(s), addr: base, es: es, s: s[:cap(s)]})
}

func (p *Path) bufOf(s Slice, es int64) (bufInfo, int64) {
	if cap(s) == 0 {
		return bufInfo{}, 1 << 19
	}
	h := uintptr(unsafe.Pointer(unsafe.SliceData(s)))
	for i := 0; i < 2; i++ {
		for _, b := range p.bufs {
			b0 := uintptr(b.host)
			if h >= b0 && h < b0+uintptr(b.n)*cellSize {
				return b, b.addr + int64((h-b0)/cellSize)*es
			}
		}
		p.newBuf(s, es, 0)
	}
	panic(abort("address of a slice"))
}

// kernelRun executes the machine code of fn.
func (th *Thread) kernelRun(fn *ssa.Function, args []V) V {
	p := th.p
	dir := filepath.Join(p.eng.repo, strings.TrimPrefix(fn.Pkg.Pkg.Path(), "github.com/nlpodyssey/spago/"))
	fs, err := asmOf(dir)
	if err != nil {
		panic(abort("listing: %v", err))
	}
	af := fs[fn.Name()]
	if af == nil {
		panic(abort("no machine code for %s", fn))
	}
	m := &machine{th: th, p: p, f: af, g: map[string]int64{}, x: map[string]*[8]lane{}, stack: map[int64]lane{},
		kernel: filepath.Base(fn.Pkg.Pkg.Path()) + "." + fn.Name()}
	const sp0 = 1 << 40
	m.g["SP"] = sp0
	off := int64(sp0 + 8)
	putInt := func(v int64) {
		off = (off + 7) &^ 7
		m.stack[off], m.stack[off+4] = bl(uint32(v)), bl(uint32(uint64(v)>>32))
		off += 8
	}
	sig := fn.Signature
	for i := 0; i < sig.Params().Len(); i++ {
		switch t := sig.Params().At(i).Type().Underlying().(type) {
		case *types.Slice:
			es := int64(8)
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				es = 4
			}
			s := args[i].(Slice)
			b, addr := p.bufOf(s, es)
			if b.n > 0 {
				dup := false
				for _, r := range m.regs {
					dup = dup || r.lo == b.addr
				}
				if !dup {
					m.regs = append(m.regs, &region{b.addr, b.addr + int64(b.n)*es, es, b.s})
				}
			}
			putInt(addr)
			putInt(int64(len(s)))
			putInt(int64(cap(s)))
		case *types.Basic:
			switch {
			case t.Kind() == types.Float32:
				off = (off + 3) &^ 3
				m.stack[off] = lane{k: 't', t: ft(args[i])}
				off += 4
			case t.Kind() == types.Float64:
				off = (off + 7) &^ 7
				m.stack[off], m.stack[off+4] = lane{k: 't', t: ft(args[i]), part: 1}, lane{k: 't', t: ft(args[i]), part: 2}
				off += 8
			case t.Info()&types.IsInteger != 0:
				putInt(th.intv(args[i]))
			default:
				panic(abort("kernel argument %s", t))
			}
		default:
			panic(abort("kernel argument %s", t))
		}
	}
	off = (off + 7) &^ 7
	res := off
	m.run(sp0)
	if sig.Results().Len() == 0 {
		return nil
	}
	switch t := sig.Results().At(0).Type().Underlying().(type) {
	case *types.Basic:
		if t.Kind() == types.Float32 {
			return m.f32(m.stack[res])
		}
		return m.f64(m.stack[res], m.stack[res+4])
	case *types.Slice:
		rd := func(a int64) int64 {
			v, ok := int64of(m.stack[a], m.stack[a+4])
			if !ok {
				m.fail("result slice is not set")
			}
			return v
		}
		base, n, c := rd(res), rd(res+8), rd(res+16)
		for _, r := range m.regs {
			if base >= r.lo && base+c*r.es <= r.hi && (base-r.lo)%r.es == 0 && n <= c && n >= 0 {
				i := (base - r.lo) / r.es
				return r.cells[i : i+n : i+c]
			}
		}
		if c == 0 {
			return Slice{}
		}
		m.unsafe("returns a slice that is none of its arguments")
	}
	panic(abort("kernel result"))
}

func int64of(a, b lane) (int64, bool) {
	if a.k == 'b' && b.k == 'b' {
		return int64(uint64(a.bits) | uint64(b.bits)<<32), true
	}
	return 0, false
}

func (m *machine) f32(l lane) *Term {
	switch {
	case l.k == 't' && l.part == 0:
		return l.t
	case l.k == 'b':
		return m.bits32(l.bits)
	}
	m.fail("not a float32 value")
	return nil
}

func (m *machine) bits32(u uint32) *Term {
	if m.p.fp {
		return m.p.a.FPBits(uint64(u), 32)
	}
	f := math.Float32frombits(u)
	if f != f || math.IsInf(float64(f), 0) {
		return m.p.fconst(float64(f), 64)
	}
	return m.p.a.Rat(new(big.Rat).SetFloat64(float64(f)))
}

func (m *machine) f64(a, b lane) *Term {
	switch {
	case a.k == 't' && b.k == 't' && a.t == b.t && a.part == 1 && b.part == 2:
		return a.t
	case a.k == 'b' && b.k == 'b':
		u := uint64(a.bits) | uint64(b.bits)<<32
		if m.p.fp {
			return m.p.a.FPBits(u, 64)
		}
		f := math.Float64frombits(u)
		if f != f || math.IsInf(f, 0) {
			return m.p.fconst(f, 64)
		}
		return m.p.a.Rat(new(big.Rat).SetFloat64(f))
	}
	m.fail("not a float64 value")
	return nil
}

func (l lane) isF32() bool { return l.k == 't' && l.part == 0 || l.k == 'b' }
func isF64(a, b lane) bool {
	return a.k == 't' && b.k == 't' && a.t == b.t && a.part == 1 && b.part == 2 || a.k == 'b' && b.k == 'b'
}

// ---- memory ----

func (m *machine) addr(o aop) int64 {
	a := o.imm
	if o.base != "" {
		a += m.greg(o.base)
	}
	if o.idx != "" {
		a += m.greg(o.idx) * o.sc
	}
	return a
}

func (m *machine) greg(r string) int64 {
	v, ok := m.g[r]
	if !ok {
		m.fail("register %s is not set", r)
	}
	return v
}

const stackLo, stackHi = 1<<40 - 4096, 1<<40 + 4096

// load reads n lanes.
func (m *machine) load(o aop, n int, align int64) []lane {
	out := make([]lane, n)
	if o.sym != "" {
		if strings.HasPrefix(o.sym, "$f64.") || strings.HasPrefix(o.sym, "$f32.") {
			u, err := strconv.ParseUint(o.sym[5:], 16, 64)
			if err != nil {
				m.fail("constant %s", o.sym)
			}
			for i := range out {
				if i < 2 {
					out[i] = bl(uint32(u >> (32 * i)))
				}
			}
			return out
		}
		d, ok := m.f.data[o.sym]
		if !ok {
			m.fail("no data %s", o.sym)
		}
		for i := range out {
			k := int(o.imm) + 4*i
			if k < 0 || k+4 > len(d) {
				m.unsafe("reads beyond the constant " + o.sym)
			}
			out[i] = bl(uint32(d[k]) | uint32(d[k+1])<<8 | uint32(d[k+2])<<16 | uint32(d[k+3])<<24)
		}
		return out
	}
	a := m.addr(o)
	if align > 0 && a%align != 0 {
		m.unsafe("memory operand is not aligned")
	}
	for i := range out {
		out[i] = m.load1(a+4*int64(i), "reads")
	}
	return out
}

func (m *machine) load1(a int64, what string) lane {
	if a >= stackLo && a < stackHi {
		return m.stack[a]
	}
	for _, r := range m.regs {
		if a >= r.lo && a+4 <= r.hi {
			o := a - r.lo
			if o%4 != 0 {
				m.fail("address inside an element")
			}
			i := o / r.es
			t := ft(r.cells[i])
			if r.es == 4 {
				if t.sort == SFP && t.IsConst() {
					return bl(uint32(t.bv))
				}
				return lane{k: 't', t: t}
			}
			return lane{k: 't', t: t, part: byte(1 + o%8/4)}
		}
	}
	m.oob(a, "reads")
	return lane{}
}

func (m *machine) oob(a int64, what string) {
	near := ""
	best := int64(1 << 62)
	for _, r := range m.regs {
		for _, d := range []int64{r.lo - a, a - r.hi + 1} {
			if d > 0 && d < best {
				best = d
				if d == r.lo-a {
					near = "before"
				} else {
					near = "after"
				}
			}
		}
	}
	if near == "" {
		near = "outside"
	}
	m.unsafe(what + " memory " + near + " a slice")
}

func (m *machine) store(o aop, ls []lane, align int64) {
	a := m.addr(o)
	if align > 0 && a%align != 0 {
		m.unsafe("memory operand is not aligned")
	}
	if o.sym != "" {
		m.fail("writes to a symbol")
	}
	if a >= stackLo && a < stackHi {
		for i, l := range ls {
			m.stack[a+4*int64(i)] = l
		}
		return
	}
	for i := 0; i < len(ls); {
		ai := a + 4*int64(i)
		var r *region
		for _, q := range m.regs {
			if ai >= q.lo && ai+4 <= q.hi {
				r = q
			}
		}
		if r == nil {
			m.oob(ai, "writes")
		}
		o := ai - r.lo
		if o%r.es != 0 {
			m.fail("writes part of an element")
		}
		c := &r.cells[o/r.es]
		if r.es == 4 {
			*c = m.f32(ls[i])
			i++
			continue
		}
		if i+1 >= len(ls) {
			m.fail("writes half an element")
		}
		*c = m.f64(ls[i], ls[i+1])
		i += 2
	}
}

// ---- registers ----

func isVec(r string) bool {
	return len(r) > 1 && (r[0] == 'X' || r[0] == 'Y') && r[1] >= '0' && r[1] <= '9'
}

func (m *machine) vreg(r string) *[8]lane {
	k := r[1:]
	v := m.x[k]
	if v == nil {
		v = &[8]lane{}
		m.x[k] = v
	}
	return v
}

// src reads n lanes of a register or memory operand.
func (m *machine) src(o aop, n int, align int64) []lane {
	switch o.kind {
	case 'r':
		if isVec(o.reg) {
			v := m.vreg(o.reg)
			return append([]lane{}, v[:n]...)
		}
	case 'm':
		return m.load(o, n, align)
	}
	m.fail("operand")
	return nil
}

// dst writes lanes to a vector register; a VEX-encoded instruction clears the rest.
func (m *machine) dst(o aop, ls []lane, vex bool) {
	if o.kind != 'r' || !isVec(o.reg) {
		m.fail("destination")
	}
	v := m.vreg(o.reg)
	copy(v[:], ls)
	if vex {
		for i := len(ls); i < 8; i++ {
			v[i] = bl(0)
		}
	}
}

func width(os []aop) int {
	for _, o := range os {
		if o.kind == 'r' && o.reg[0] == 'Y' && isVec(o.reg) {
			return 8
		}
	}
	return 4
}

// arith applies op element by element; undefined lanes stay undefined.
func (m *machine) op32(op string, x, y lane) lane {
	if !x.isF32() || !y.isF32() {
		return lane{}
	}
	if m.p.fp && x.k == 'b' && y.k == 'b' {
		return bl(ieee32(op, x.bits, y.bits))
	}
	if op == "DIV" && y.k == 'b' && y.bits<<1 == 0 {
		return lane{}
	}
	t := m.fop(op, m.f32(x), m.f32(y))
	if t == nil {
		return lane{}
	}
	return lane{k: 't', t: t}
}

// ieee32 is the operation on known values. MAX and MIN give the second operand
// unless the first is beyond it.
func ieee32(op string, a, b uint32) uint32 {
	x, y := math.Float32frombits(a), math.Float32frombits(b)
	switch op {
	case "ADD":
		return math.Float32bits(x + y)
	case "SUB":
		return math.Float32bits(x - y)
	case "MUL":
		return math.Float32bits(x * y)
	case "DIV":
		return math.Float32bits(x / y)
	case "MAX":
		if x > y {
			return a
		}
		return b
	case "MIN":
		if x < y {
			return a
		}
		return b
	}
	panic("ieee32: " + op)
}

// fma32 is a*b+c rounded once.
func fma32(a, b, c uint32) uint32 {
	x, y, z := math.Float32frombits(a), math.Float32frombits(b), math.Float32frombits(c)
	fin := func(f float32) bool { return !math.IsInf(float64(f), 0) && f == f }
	if !fin(x) || !fin(y) || !fin(z) || x == 0 || y == 0 {
		return math.Float32bits(x*y + z)
	}
	p := new(big.Float).SetPrec(1000).SetFloat64(float64(x))
	p.Mul(p, new(big.Float).SetPrec(1000).SetFloat64(float64(y)))
	p.Add(p, new(big.Float).SetPrec(1000).SetFloat64(float64(z)))
	f, _ := p.Float32()
	return math.Float32bits(f)
}

func (m *machine) op64(op string, x0, x1, y0, y1 lane) (lane, lane) {
	if !isF64(x0, x1) || !isF64(y0, y1) {
		return lane{}, lane{}
	}
	if op == "DIV" && y0.k == 'b' && y0.bits == 0 && y1.bits<<1 == 0 {
		return lane{}, lane{}
	}
	t := m.fop(op, m.f64(x0, x1), m.f64(y0, y1))
	if t == nil {
		return lane{}, lane{}
	}
	return lane{k: 't', t: t, part: 1}, lane{k: 't', t: t, part: 2}
}

func (m *machine) fop(op string, x, y *Term) *Term {
	p := m.p
	switch op {
	case "ADD":
		return ft(p.fbin(token.ADD, x, y))
	case "SUB":
		return ft(p.fbin(token.SUB, x, y))
	case "MUL":
		return ft(p.fbin(token.MUL, x, y))
	case "DIV":
		return ft(p.fbin(token.QUO, x, y))
	case "MAX", "MIN":
		if x.sort == SReal && x.IsConst() && y.IsConst() && !x.special() && !y.special() {
			if (x.rat.Cmp(y.rat) > 0) == (op == "MAX") {
				return x
			}
			return y
		}
		if x.sort != SReal {
			m.fail("%s in IEEE mode", op)
		}
		return p.fminmax(x, y, op == "MAX")
	}
	m.fail("operation %s", op)
	return nil
}

func (m *machine) packed(op string, dbl bool, x, y []lane) []lane {
	out := make([]lane, len(x))
	for i := 0; i < len(x); i++ {
		if dbl {
			out[i], out[i+1] = m.op64(op, x[i], x[i+1], y[i], y[i+1])
			i++
		} else {
			out[i] = m.op32(op, x[i], y[i])
		}
	}
	return out
}

func (m *machine) logic(op string, x, y lane) lane {
	if x.k == 'b' && y.k == 'b' {
		switch op {
		case "AND":
			return bl(x.bits & y.bits)
		case "OR":
			return bl(x.bits | y.bits)
		case "XOR":
			return bl(x.bits ^ y.bits)
		case "ANDN":
			return bl(^x.bits & y.bits)
		}
	}
	if y.k != 'b' {
		x, y = y, x
	}
	if y.k != 'b' {
		return lane{}
	}
	if op == "OR" && x.k == 'm' && y.bits == 0x3f000000 && m.p.a != nil {
		// mantissa bits under the exponent of 1/2
		e := m.exponent(x.t)
		return lane{k: 't', t: ft(m.p.fbin(token.MUL, x.t, m.p.a.Rat(pow2(-(e + 1)))))}
	}
	if x.k != 't' {
		return lane{}
	}
	switch {
	case op == "AND" && y.bits == 0 && x.part == 0, op == "AND" && y.bits == 0:
		return bl(0)
	case op == "AND" && y.bits == ^uint32(0), (op == "OR" || op == "XOR") && y.bits == 0:
		return x
	case op == "OR" && y.bits == ^uint32(0):
		return y
	case op == "AND" && y.bits == 0x807fffff && x.part == 0:
		return lane{k: 'm', t: x.t}
	case op == "AND" && y.bits == 0x7fffffff && x.part == 0:
		return lane{k: 't', t: m.p.fabs(x.t)}
	case op == "XOR" && y.bits == 0x80000000 && x.part == 0 && !m.p.fp:
		return lane{k: 't', t: m.p.a.Neg(x.t)}
	}
	return lane{}
}

func pow2(e int) *big.Rat {
	r := new(big.Rat)
	if e >= 0 {
		return r.SetInt(new(big.Int).Lsh(big.NewInt(1), uint(e)))
	}
	return r.SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(-e)))
}

// exponent decides e with 2^e <= t < 2^(e+1) for a positive t.
func (m *machine) exponent(t *Term) int {
	if m.p.fp || t.special() {
		m.fail("exponent of this value")
	}
	for i := 0; i < 300; i++ {
		v := m.sampleOf(t)
		if !(v > 0) {
			if !m.p.branch(m.p.a.RLt(m.p.a.r0, t)) {
				m.fail("exponent of a non-positive value")
			}
			v = 1
		}
		_, e := math.Frexp(v)
		e--
		a := m.p.a
		if m.p.branch(a.And(a.RLe(a.Rat(pow2(e)), t), a.RLt(t, a.Rat(pow2(e+1))))) {
			return e
		}
	}
	m.fail("exponent is not determined")
	return 0
}

func (m *machine) sampleOf(t *Term) float64 {
	v, ok := m.sampleAt(t)
	if !ok {
		m.fail("no sample")
	}
	return v
}

func (m *machine) sampleAt(t *Term) (float64, bool) {
	if t.IsConst() {
		f, _ := t.rat.Float64()
		return f, true
	}
	if len(m.p.alive) > 0 {
		return m.p.alive[0].R(t), true
	}
	if e := m.p.sample(nil, 100); e != nil {
		return e.R(t), true
	}
	return 0, false
}

// floor decides the integer k with k <= t < k+1.
func (m *machine) floor(t *Term) int64 {
	if m.p.fp || t.special() {
		m.fail("rounding of this value")
	}
	a := m.p.a
	var tried []int64
	for i := 0; i < 300; i++ {
		var k int64
		if f, ok := m.sampleAt(t); ok {
			k = int64(math.Floor(f))
		} else if len(tried) == 0 {
			m.fail("no sample")
		} else {
			k = tried[0] + 1
		}
		for d := int64(1); slices.Contains(tried, k); d++ {
			if k = tried[0] + d; slices.Contains(tried, k) {
				k = tried[0] - d
			}
		}
		tried = append(tried, k)
		if m.p.branch(a.And(a.RLe(a.RInt(k), t), a.RLt(t, a.RInt(k+1)))) {
			return k
		}
	}
	m.fail("rounding is not determined")
	return 0
}

func (m *machine) cmpMask(pred int64, x, y lane) lane {
	if !x.isF32() || !y.isF32() {
		return lane{}
	}
	a, b := m.f32(x), m.f32(y)
	var v V
	switch pred {
	case 1:
		v = m.p.fbin(token.LSS, a, b)
	case 2:
		v = m.p.fbin(token.LEQ, a, b)
	default:
		m.fail("comparison predicate %d", pred)
	}
	ok := false
	switch c := v.(type) {
	case bool:
		ok = c
	case *Term:
		ok = m.p.branch(c)
	}
	if ok {
		return bl(^uint32(0))
	}
	return bl(0)
}

// ---- execution ----

func (m *machine) flagsSub(a, b int64) {
	r := a - b
	m.fx = nil
	m.zf, m.sf = r == 0, r < 0
	m.cf = uint64(a) < uint64(b)
	m.of = (a < 0) != (b < 0) && (r < 0) != (a < 0)
}

func (m *machine) flagsRes(r int64) {
	m.fx = nil
	m.zf, m.sf, m.cf, m.of = r == 0, r < 0, false, false
}

func (m *machine) cond(c string) bool {
	if m.fx != nil {
		p := m.p
		var v V
		switch c {
		case "EQ", "NE":
			t := p.a.Eq(m.fx, m.fy)
			if p.fp {
				t = p.a.FCmp(OFEq, m.fx, m.fy)
			}
			return p.branch(t) == (c == "EQ")
		case "HI": // above
			v = p.fbin(token.LSS, m.fy, m.fx)
		case "CC":
			v = p.fbin(token.LEQ, m.fy, m.fx)
		case "CS":
			v = p.fbin(token.LSS, m.fx, m.fy)
		case "LS":
			v = p.fbin(token.LEQ, m.fx, m.fy)
		default:
			m.fail("condition %s after a float comparison", c)
		}
		if b, ok := v.(bool); ok {
			return b
		}
		return p.branch(v.(*Term))
	}
	switch c {
	case "EQ":
		return m.zf
	case "NE":
		return !m.zf
	case "LT":
		return m.sf != m.of
	case "GE":
		return m.sf == m.of
	case "LE":
		return m.zf || m.sf != m.of
	case "GT":
		return !m.zf && m.sf == m.of
	case "CS":
		return m.cf
	case "CC":
		return !m.cf
	case "HI":
		return !m.cf && !m.zf
	case "LS":
		return m.cf || m.zf
	case "MI":
		return m.sf
	case "PL":
		return !m.sf
	}
	m.fail("condition %s", c)
	return false
}

// ival reads a 64-bit integer operand.
func (m *machine) ival(o aop) int64 {
	switch o.kind {
	case 'i':
		return o.imm
	case 'r':
		return m.greg(o.reg)
	case 'm':
		ls := m.load(o, 2, 0)
		if v, ok := int64of(ls[0], ls[1]); ok {
			return v
		}
		m.fail("not an integer")
	}
	m.fail("integer operand")
	return 0
}

func (m *machine) iset(o aop, v int64) {
	switch o.kind {
	case 'r':
		m.g[o.reg] = v
	case 'm':
		m.store(o, []lane{bl(uint32(v)), bl(uint32(uint64(v) >> 32))}, 0)
	default:
		m.fail("integer destination")
	}
}

func (m *machine) run(sp0 int64) {
	asmMu.Lock()
	seen := asmInstr[m.kernel]
	if seen == nil {
		seen = map[int]bool{}
		asmInstr[m.kernel] = seen
	}
	asmMu.Unlock()
	var mine []int
	local := make([]bool, len(m.f.ins))
	defer func() {
		asmMu.Lock()
		for _, i := range mine {
			seen[i] = true
		}
		asmMu.Unlock()
	}()
	for i := 0; ; {
		if i < 0 || i >= len(m.f.ins) {
			m.fail("runs off the end")
		}
		in := &m.f.ins[i]
		m.cur = in
		if !local[i] {
			local[i] = true
			mine = append(mine, i)
		}
		m.p.steps++
		if m.p.steps > m.p.h.maxSteps() {
			panic(abort("step limit"))
		}
		mn := in.mn
		jump := false
		switch {
		case mn == "RET":
			if m.g["SP"] != sp0 {
				m.unsafe("returns with an unbalanced stack")
			}
			return
		case mn == "PREFETCHNTA":
		case mn == "JMP":
			jump = true
		case mn == "LOOP":
			v := m.greg("CX") - 1
			m.g["CX"] = v
			jump = v != 0
		case mn[0] == 'J':
			jump = m.cond(mn[1:])
		default:
			m.exec(in)
		}
		if jump {
			k, ok := m.f.byPC[int(in.ops[0].imm)]
			if !ok || in.ops[0].kind != 'l' {
				m.fail("jump target")
			}
			i = k
			continue
		}
		i++
	}
}

func (m *machine) exec(in *ainst) {
	o := in.ops
	mn := in.mn
	last := func() aop { return o[len(o)-1] }
	switch mn {
	case "MOVQ":
		if o[0].kind == 'r' && isVec(o[0].reg) || o[1].kind == 'r' && isVec(o[1].reg) {
			m.fail("vector operand")
		}
		m.iset(o[1], m.ival(o[0]))
		return
	case "LEAQ":
		m.iset(o[1], m.addr(o[0]))
		return
	case "XORQ":
		if o[0].kind == 'r' && o[1].kind == 'r' && o[0].reg == o[1].reg {
			m.g[o[1].reg] = 0
			m.flagsRes(0)
			return
		}
		r := m.ival(o[1]) ^ m.ival(o[0])
		m.iset(o[1], r)
		m.flagsRes(r)
		return
	case "ADDQ":
		a, b := m.ival(o[1]), m.ival(o[0])
		r := a + b
		m.iset(o[1], r)
		m.flagsRes(r)
		m.cf = uint64(r) < uint64(a)
		m.of = (a < 0) == (b < 0) && (r < 0) != (a < 0)
		return
	case "SUBQ":
		a, b := m.ival(o[1]), m.ival(o[0])
		m.flagsSub(a, b)
		m.iset(o[1], a-b)
		return
	case "CMPQ":
		m.flagsSub(m.ival(o[0]), m.ival(o[1]))
		return
	case "TESTQ":
		m.flagsRes(m.ival(o[0]) & m.ival(o[1]))
		return
	case "ANDQ", "ORQ":
		a, b := m.ival(o[1]), m.ival(o[0])
		r := a & b
		if mn == "ORQ" {
			r = a | b
		}
		m.iset(o[1], r)
		m.flagsRes(r)
		return
	case "INCQ", "DECQ":
		d := int64(1)
		if mn == "DECQ" {
			d = -1
		}
		cf := m.cf
		r := m.ival(o[0]) + d
		m.iset(o[0], r)
		m.flagsRes(r)
		m.cf = cf
		m.of = d == 1 && r == math.MinInt64 || d == -1 && r == math.MaxInt64
		return
	case "NEGQ":
		a := m.ival(o[0])
		m.iset(o[0], -a)
		m.flagsRes(-a)
		m.cf = a != 0
		return
	case "SHRQ", "SHLQ", "SARQ":
		k := uint(m.ival(o[0]) & 63)
		a := m.ival(o[1])
		var r int64
		switch mn {
		case "SHRQ":
			r = int64(uint64(a) >> k)
		case "SARQ":
			r = a >> k
		default:
			r = a << k
		}
		m.iset(o[1], r)
		if k != 0 {
			m.flagsRes(r)
		}
		return
	case "IMULQ":
		if len(o) == 3 {
			m.iset(o[2], m.ival(o[0])*m.ival(o[1]))
		} else {
			m.iset(o[1], m.ival(o[0])*m.ival(o[1]))
		}
		return
	case "PUSHQ":
		v, ok := m.g[o[0].reg]
		m.g["SP"] -= 8
		sp := m.g["SP"]
		if ok {
			m.stack[sp], m.stack[sp+4] = bl(uint32(v)), bl(uint32(uint64(v)>>32))
		} else {
			delete(m.stack, sp)
			delete(m.stack, sp+4)
		}
		return
	case "POPQ":
		sp := m.g["SP"]
		if v, ok := int64of(m.stack[sp], m.stack[sp+4]); ok {
			m.g[o[0].reg] = v
		} else {
			delete(m.g, o[0].reg)
		}
		m.g["SP"] = sp + 8
		return
	case "VZEROALL":
		for i := 0; i < 16; i++ {
			v := m.vreg("X" + strconv.Itoa(i))
			for k := range v {
				v[k] = bl(0)
			}
		}
		return
	case "VZEROUPPER":
		for i := 0; i < 16; i++ {
			v := m.vreg("X" + strconv.Itoa(i))
			for k := 4; k < 8; k++ {
				v[k] = bl(0)
			}
		}
		return
	case "COMISD", "UCOMISD", "COMISS", "UCOMISS":
		// compares the second operand with the first
		if strings.HasSuffix(mn, "D") {
			a, b := m.src(o[0], 2, 0), m.src(o[1], 2, 0)
			m.fx, m.fy = m.f64(b[0], b[1]), m.f64(a[0], a[1])
		} else {
			a, b := m.src(o[0], 1, 0), m.src(o[1], 1, 0)
			m.fx, m.fy = m.f32(b[0]), m.f32(a[0])
		}
		return
	}
	if strings.HasPrefix(mn, "CMOVQ") {
		if m.cond(mn[5:]) {
			m.iset(o[1], m.ival(o[0]))
		}
		return
	}
	vex := mn[0] == 'V'
	base := mn
	if vex {
		base = mn[1:]
	}
	al := int64(16) // legacy SSE memory operands must be aligned
	if vex {
		al = 0
	}
	n := width(o)
	switch base {
	case "MOVUPS", "MOVUPD", "MOVAPS", "MOVAPD", "MOVOU":
		a := int64(0)
		if base[3] == 'A' {
			a = int64(4 * n)
		}
		v := []lane{}
		if o[1].kind == 'm' {
			v = m.src(o[0], n, 0)
			m.store(o[1], v, a)
			return
		}
		v = m.src(o[0], n, a)
		m.dst(o[1], v, vex)
		return
	case "MOVSS", "MOVSD":
		k := 1
		if base == "MOVSD" {
			k = 2
		}
		if len(o) == 3 {
			// VMOVSS src2, src1, dst
			v := m.src(o[1], 4, 0)
			copy(v, m.src(o[0], k, 0))
			m.dst(o[2], v, true)
			return
		}
		if o[1].kind == 'm' {
			m.store(o[1], m.src(o[0], k, 0), 0)
			return
		}
		v := m.src(o[0], k, 0)
		if o[0].kind == 'm' {
			for len(v) < 4 {
				v = append(v, bl(0))
			}
		}
		m.dst(o[1], v, vex)
		return
	case "MOVLPD", "MOVLPS":
		if o[1].kind == 'm' {
			m.store(o[1], m.src(o[0], 2, 0), 0)
			return
		}
		m.dst(o[1], m.src(o[0], 2, 0), vex)
		return
	case "MOVHPD", "MOVHPS":
		if o[1].kind == 'm' {
			v := m.src(o[0], 4, 0)
			m.store(o[1], v[2:], 0)
			return
		}
		v := m.src(o[1], 4, 0)
		copy(v[2:], m.src(o[0], 2, 0))
		m.dst(o[1], v, vex)
		return
	case "MOVLHPS":
		v := m.src(o[1], 4, 0)
		copy(v[2:], m.src(o[0], 2, 0))
		m.dst(o[1], v, vex)
		return
	case "MOVHLPS":
		s := m.src(o[0], 4, 0)
		v := m.src(o[1], 4, 0)
		copy(v[:2], s[2:])
		m.dst(o[1], v, vex)
		return
	case "MOVDDUP":
		if n == 8 {
			m.fail("256-bit form")
		}
		v := m.src(o[0], 2, 0)
		m.dst(o[1], []lane{v[0], v[1], v[0], v[1]}, vex)
		return
	case "MOVSLDUP", "MOVSHDUP":
		v := m.src(o[0], n, al)
		for i := 0; i < n; i += 2 {
			if base == "MOVSLDUP" {
				v[i+1] = v[i]
			} else {
				v[i] = v[i+1]
			}
		}
		m.dst(o[1], v, vex)
		return
	case "BROADCASTSS", "PBROADCASTD":
		v := m.src(o[0], 1, 0)
		out := make([]lane, n)
		for i := range out {
			out[i] = v[0]
		}
		m.dst(o[1], out, vex)
		return
	case "BROADCASTSD":
		v := m.src(o[0], 2, 0)
		out := make([]lane, n)
		for i := range out {
			out[i] = v[i%2]
		}
		m.dst(o[1], out, vex)
		return
	case "EXTRACTF128":
		v := m.src(o[1], 8, 0)
		if o[0].imm&1 == 1 {
			v = v[4:]
		} else {
			v = v[:4]
		}
		if o[2].kind == 'm' {
			m.store(o[2], v, 0)
		} else {
			m.dst(o[2], v, true)
		}
		return
	case "SHUFPS", "SHUFPD":
		s := m.src(o[1], 4, al)
		d := m.src(last(), 4, 0)
		if len(o) == 4 {
			d = m.src(o[2], 4, 0)
		}
		if n == 8 {
			m.fail("256-bit form")
		}
		k := o[0].imm
		var v []lane
		if base == "SHUFPS" {
			v = []lane{d[k&3], d[k>>2&3], s[k>>4&3], s[k>>6&3]}
		} else {
			a, b := k&1*2, k>>1&1*2
			v = []lane{d[a], d[a+1], s[b], s[b+1]}
		}
		m.dst(last(), v, vex)
		return
	case "UNPCKLPS", "UNPCKHPS", "UNPCKLPD", "UNPCKHPD":
		if len(o) != 2 {
			m.fail("form")
		}
		s, d := m.src(o[0], 4, al), m.src(o[1], 4, 0)
		var v []lane
		switch base {
		case "UNPCKLPS":
			v = []lane{d[0], s[0], d[1], s[1]}
		case "UNPCKHPS":
			v = []lane{d[2], s[2], d[3], s[3]}
		case "UNPCKLPD":
			v = []lane{d[0], d[1], s[0], s[1]}
		default:
			v = []lane{d[2], d[3], s[2], s[3]}
		}
		m.dst(o[1], v, vex)
		return
	case "HADDPS", "HADDPD":
		s := m.src(o[0], n, al)
		d := m.src(last(), n, 0)
		if len(o) == 3 {
			d = m.src(o[1], n, 0)
		}
		out := make([]lane, n)
		for h := 0; h < n; h += 4 {
			if base == "HADDPS" {
				out[h] = m.op32("ADD", d[h], d[h+1])
				out[h+1] = m.op32("ADD", d[h+2], d[h+3])
				out[h+2] = m.op32("ADD", s[h], s[h+1])
				out[h+3] = m.op32("ADD", s[h+2], s[h+3])
			} else {
				out[h], out[h+1] = m.op64("ADD", d[h], d[h+1], d[h+2], d[h+3])
				out[h+2], out[h+3] = m.op64("ADD", s[h], s[h+1], s[h+2], s[h+3])
			}
		}
		m.dst(last(), out, vex)
		return
	case "CVTSS2SD":
		v := m.src(o[0], 1, 0)
		r := []lane{{}, {}}
		if v[0].isF32() {
			t := m.f32(v[0])
			if m.p.fp {
				t = m.p.a.FCvt(t, 64)
			}
			r = []lane{{k: 't', t: t, part: 1}, {k: 't', t: t, part: 2}}
		}
		m.dst(o[1], r, false)
		return
	case "CVTSD2SS":
		v := m.src(o[0], 2, 0)
		r := []lane{{}}
		if isF64(v[0], v[1]) {
			t := m.f64(v[0], v[1])
			if m.p.fp {
				t = m.p.a.FCvt(t, 32)
			}
			r = []lane{{k: 't', t: t}}
		}
		m.dst(o[1], r, false)
		return
	case "CVTPS2PD":
		if n == 8 {
			m.fail("256-bit form")
		}
		v := m.src(o[0], 2, 0)
		var r []lane
		for _, l := range v {
			if !l.isF32() {
				r = append(r, lane{}, lane{})
				continue
			}
			t := m.f32(l)
			if m.p.fp {
				t = m.p.a.FCvt(t, 64)
			}
			r = append(r, lane{k: 't', t: t, part: 1}, lane{k: 't', t: t, part: 2})
		}
		m.dst(o[1], r, vex)
		return
	case "PXOR", "XORPS", "XORPD", "ANDPS", "ANDPD", "ORPS", "ORPD", "PAND", "POR":
		op := strings.TrimPrefix(base, "P")
		for _, q := range []string{"AND", "XOR", "OR"} {
			if strings.HasPrefix(op, q) {
				op = q
				break
			}
		}
		a, b := o[0], last()
		if len(o) == 3 {
			b = o[1]
		}
		out := make([]lane, n)
		if op == "XOR" && a.kind == 'r' && b.kind == 'r' && a.reg[1:] == b.reg[1:] {
			for i := range out {
				out[i] = bl(0)
			}
		} else {
			x, y := m.src(a, n, al), m.src(b, n, 0)
			for i := 0; i < n; i++ {
				if op == "AND" && i+1 < n && isF64(x[i], x[i+1]) && isF64(y[i], y[i+1]) && (x[i].k != 'b' || y[i].k != 'b') {
					// |x| of a float64
					v, w := []lane{x[i], x[i+1]}, []lane{y[i], y[i+1]}
					if w[0].k != 'b' {
						v, w = w, v
					}
					if w[0].k == 'b' && w[0].bits == ^uint32(0) && w[1].bits == 0x7fffffff {
						t := m.p.fabs(v[0].t)
						out[i], out[i+1] = lane{k: 't', t: t, part: 1}, lane{k: 't', t: t, part: 2}
						i++
						continue
					}
				}
				out[i] = m.logic(op, x[i], y[i])
			}
		}
		m.dst(last(), out, vex)
		return
	case "CMPPS":
		var x, y []lane
		var pred int64
		if vex {
			pred = o[0].imm
			x, y = m.src(o[2], n, 0), m.src(o[1], n, 0)
		} else {
			pred = o[2].imm
			x, y = m.src(o[1], n, 0), m.src(o[0], n, al)
		}
		out := make([]lane, n)
		for i := range out {
			out[i] = m.cmpMask(pred, x[i], y[i])
		}
		if vex {
			m.dst(o[3], out, true)
		} else {
			m.dst(o[1], out, false)
		}
		return
	case "PSRLL", "PSRLD", "PSLLL", "PSLLD":
		k := uint(o[0].imm)
		x := m.src(last(), n, 0)
		if len(o) == 3 {
			x = m.src(o[1], n, 0)
		}
		out := make([]lane, n)
		for i := range out {
			switch {
			case x[i].k == 'b' && base[2] == 'R' && k < 32:
				out[i] = bl(x[i].bits >> k)
			case x[i].k == 'b' && k < 32:
				out[i] = bl(x[i].bits << k)
			case x[i].k == 't' && x[i].part == 0 && base[2] == 'R' && k == 23:
				e := m.exponent(x[i].t)
				if e < -126 || e > 127 {
					m.fail("exponent out of range")
				}
				out[i] = bl(uint32(e + 127))
			}
		}
		m.dst(last(), out, vex)
		return
	case "PADDL", "PADDD":
		x, y := m.src(o[0], n, al), m.src(last(), n, 0)
		if len(o) == 3 {
			y = m.src(o[1], n, 0)
		}
		out := make([]lane, n)
		for i := range out {
			if x[i].k == 'b' && y[i].k == 'b' {
				out[i] = bl(x[i].bits + y[i].bits)
			}
		}
		m.dst(last(), out, vex)
		return
	case "CVTTPS2PL", "CVTTPS2DQ":
		x := m.src(o[0], n, al)
		out := make([]lane, n)
		for i := range out {
			switch {
			case x[i].k == 'b':
				f := float64(math.Float32frombits(x[i].bits))
				if math.Abs(f) < 1<<31 {
					out[i] = bl(uint32(int32(f)))
				}
			case x[i].k == 't' && x[i].part == 0:
				k := m.floor(x[i].t)
				if k < 0 && !m.p.branch(m.p.a.Eq(x[i].t, m.p.a.RInt(k))) {
					k++ // towards zero
				}
				out[i] = bl(uint32(int32(k)))
			}
		}
		m.dst(o[1], out, vex)
		return
	case "CVTPL2PS", "CVTDQ2PS":
		x := m.src(o[0], n, al)
		out := make([]lane, n)
		for i := range out {
			if x[i].k == 'b' {
				out[i] = bl(math.Float32bits(float32(int32(x[i].bits))))
			}
		}
		m.dst(o[1], out, vex)
		return
	case "ROUNDPS":
		if o[0].imm&7 != 1 {
			m.fail("rounding mode")
		}
		x := m.src(o[1], n, al)
		out := make([]lane, n)
		for i := range out {
			switch {
			case x[i].k == 'b':
				out[i] = bl(math.Float32bits(float32(math.Floor(float64(math.Float32frombits(x[i].bits))))))
			case x[i].k == 't' && x[i].part == 0:
				out[i] = bl(math.Float32bits(float32(m.floor(x[i].t))))
			}
		}
		m.dst(o[2], out, vex)
		return
	case "FMADD231PS", "FMADD231PD", "FMADD231SS", "FMADD231SD":
		k := n
		switch base[8:] {
		case "SS":
			k = 1
		case "SD":
			k = 2
		}
		a, b, d := m.src(o[0], k, 0), m.src(o[1], k, 0), m.src(o[2], 8, 0)
		dbl := base[len(base)-1] == 'D'
		if m.p.fp {
			out := append([]lane{}, d...)
			for i := 0; i < k; i++ {
				if dbl || a[i].k != 'b' || b[i].k != 'b' || d[i].k != 'b' {
					m.fail("fused multiply-add in IEEE mode")
				}
				out[i] = bl(fma32(a[i].bits, b[i].bits, d[i].bits))
			}
			if n == 8 && k == n {
				m.dst(o[2], out, true)
			} else {
				m.dst(o[2], out[:4], true)
			}
			return
		}
		pr := m.packed("MUL", dbl, b, a)
		r := m.packed("ADD", dbl, d[:k], pr)
		copy(d, r)
		if n == 8 && k == n {
			m.dst(o[2], d, true)
		} else {
			m.dst(o[2], d[:4], true)
		}
		return
	}
	for _, op := range []string{"ADD", "SUB", "MUL", "DIV", "MAX", "MIN"} {
		if !strings.HasPrefix(base, op) || len(base) != 5 {
			continue
		}
		suf := base[3:]
		dbl := suf[1] == 'D'
		k, a := n, al
		if suf[0] == 'S' {
			k, a = 1, 0
			if dbl {
				k = 2
			}
		} else if suf[0] != 'P' {
			break
		}
		y := m.src(o[0], k, a)
		x := m.src(last(), k, 0)
		if len(o) == 3 {
			x = m.src(o[1], k, 0)
		}
		r := m.packed(op, dbl, x, y)
		if suf[0] == 'S' && vex {
			// the rest of the low half comes from the first source
			v := m.src(o[1], 4, 0)
			copy(v, r)
			r = v
		}
		m.dst(last(), r, vex)
		return
	}
	m.fail("instruction is not modelled")
}

func (d *driver) simdReport() map[string]any {
	asmMu.Lock()
	defer asmMu.Unlock()
	if len(asmInstr) == 0 {
		return nil
	}
	out := map[string]any{}
	var names []string
	for k := range asmInstr {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		n := 0
		for dir, fs := range asmPkgs {
			if strings.HasPrefix(k, filepath.Base(dir)+".") {
				if f := fs[k[strings.IndexByte(k, '.')+1:]]; f != nil {
					n = len(f.ins)
				}
			}
		}
		out[k] = fmt.Sprintf("%d of %d instructions executed", len(asmInstr[k]), n)
	}
	return out
}
