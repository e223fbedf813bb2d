package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

var solverBin = "z3-new"

var statQueries, statSat, statUnsat, statUnknown int64
var statSolverNS int64

// Solver is one incremental SMT process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	em      *emitter
	pushed  int
	dead    bool
	timeout int
	quick   bool // the answer is not worth waiting for beyond the timeout
}

type emitter struct {
	done  map[*Term]bool
	stack [][]*Term
	ufs   map[string]bool
	expsV map[string][]*Term
	aux   int
	// axioms of the function theory that are added for each application
	axioms bool
	// linear abstraction: products become fresh constants of the right sign
	abs, abstracted bool
}

func newEmitter() *emitter {
	return &emitter{done: map[*Term]bool{}, ufs: map[string]bool{}, expsV: map[string][]*Term{}, axioms: true}
}

func NewSolver(bin string) (*Solver, error) {
	args := []string{"-in"}
	cmd := exec.Command(bin, args...)
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	s := &Solver{cmd: cmd, in: in, out: bufio.NewReaderSize(out, 1<<16), em: newEmitter()}
	return s, nil
}

func (s *Solver) Close() {
	if s == nil || s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.dead = true
}

func (s *Solver) send(str string) {
	if s.dead {
		return
	}
	if _, err := io.WriteString(s.in, str); err != nil {
		s.dead = true
	}
}

func (s *Solver) Reset(timeoutMS int) {
	s.em = newEmitter()
	s.pushed = 0
	s.timeout = timeoutMS
	s.send("(reset)\n(set-option :timeout " + strconv.Itoa(timeoutMS) + ")\n")
}

func (s *Solver) Push() {
	s.em.stack = append(s.em.stack, nil)
	s.send("(push)\n")
}
func (s *Solver) Pop() {
	n := len(s.em.stack) - 1
	for _, t := range s.em.stack[n] {
		delete(s.em.done, t)
	}
	s.em.stack = s.em.stack[:n]
	s.send("(pop)\n")
}

func (s *Solver) Assert(t *Term) {
	var sb strings.Builder
	ref := s.em.emit(&sb, t)
	sb.WriteString("(assert " + ref + ")\n")
	s.send(sb.String())
}

// Check returns "sat", "unsat" or "unknown".
func (s *Solver) Check() string {
	if s.dead {
		return "unknown"
	}
	t0 := time.Now()
	s.send("(check-sat)\n")
	hard := time.Duration(s.timeout)*time.Millisecond*2 + 5*time.Second
	if s.quick {
		hard = time.Duration(s.timeout)*time.Millisecond*2 + 400*time.Millisecond
	}
	res := s.readAnswer(hard)
	if time.Since(t0) > 300*time.Millisecond && debugSlow {
		fmt.Println(res, time.Since(t0), s.timeout, len(s.em.done), s.em.abs)
		debug.PrintStack()
	}
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statSolverNS, int64(time.Since(t0)))
	switch res {
	case "sat":
		atomic.AddInt64(&statSat, 1)
	case "unsat":
		atomic.AddInt64(&statUnsat, 1)
	default:
		atomic.AddInt64(&statUnknown, 1)
	}
	return res
}

func (s *Solver) readAnswer(hard time.Duration) string {
	type r struct {
		s   string
		err error
	}
	ch := make(chan r, 1)
	go func() {
		bad := false
		for {
			l, err := s.out.ReadString('\n')
			if err != nil {
				ch <- r{"", err}
				return
			}
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, "(error") {
				if debugSMT {
					fmt.Println("SMT", l)
				}
				bad = true
				continue
			}
			if l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				if bad || l == "timeout" {
					l = "unknown"
				}
				ch <- r{l, nil}
				return
			}
		}
	}()
	select {
	case x := <-ch:
		if x.err != nil {
			s.dead = true
			return "unknown"
		}
		return x.s
	case <-time.After(hard):
		s.cmd.Process.Kill()
		s.dead = true
		return "unknown"
	}
}

var debugSMT bool
var debugSlow = os.Getenv("GOSYM_SLOW") != ""

// GetValues returns the model values of the variables.
func (s *Solver) GetValues(vars []*Term) map[*Term]any {
	res := map[*Term]any{}
	for _, v := range vars {
		if !s.em.done[v] {
			continue
		}
		s.send("(get-value (" + smtName(v.name) + "))\n")
		txt := s.readSexp()
		if txt == "" {
			return res
		}
		if x, ok := parseValue(txt, v); ok {
			res[v] = x
		}
	}
	return res
}

func (s *Solver) readSexp() string {
	depth := 0
	var sb strings.Builder
	started := false
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return ""
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
			started = true
		}
		if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

func parseValue(txt string, v *Term) (any, bool) {
	// ((name value))
	txt = strings.TrimSpace(txt)
	n := smtName(v.name)
	i := strings.Index(txt, n)
	if i < 0 {
		return nil, false
	}
	val := strings.TrimSpace(txt[i+len(n):])
	val = strings.TrimSuffix(val, ")")
	val = strings.TrimSpace(strings.TrimSuffix(val, ")"))
	switch v.sort {
	case SBool:
		return val == "true", true
	case SBV, SFP:
		if strings.HasPrefix(val, "#x") {
			u, err := strconv.ParseUint(val[2:], 16, 64)
			return u, err == nil
		}
		if strings.HasPrefix(val, "#b") {
			u, err := strconv.ParseUint(val[2:], 2, 64)
			return u, err == nil
		}
		return nil, false
	case SReal:
		// re-balance parentheses
		o, c := strings.Count(val, "("), strings.Count(val, ")")
		for ; c < o; c++ {
			val += ")"
		}
		f, ok := parseReal(val)
		return f, ok
	}
	return nil, false
}

func parseReal(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "(") {
		in := strings.TrimSpace(s[1 : len(s)-1])
		switch {
		case strings.HasPrefix(in, "- "):
			x, ok := parseReal(in[2:])
			return -x, ok
		case strings.HasPrefix(in, "/ "):
			rest := strings.TrimSpace(in[2:])
			a, b := splitSexp(rest)
			x, ok1 := parseReal(a)
			y, ok2 := parseReal(b)
			return x / y, ok1 && ok2
		}
		return 0, false
	}
	s = strings.TrimSuffix(s, "?")
	if r, ok := new(big.Rat).SetString(s); ok {
		return ratF(r), true
	}
	return 0, false
}

func splitSexp(s string) (string, string) {
	depth := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return s[:i], strings.TrimSpace(s[i:])
			}
		}
	}
	return s, ""
}

func smtName(n string) string {
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.') {
			return "|" + strings.ReplaceAll(n, "|", "_") + "|"
		}
	}
	return n
}

func smtSort(t *Term) string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SBV:
		return fmt.Sprintf("(_ BitVec %d)", t.w)
	case SReal:
		return "Real"
	case SFP:
		return fpSort(t.w)
	}
	return "?"
}
func fpSort(w uint8) string {
	if w == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}
func fpDim(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}
func smtBV(v uint64, w uint8) string { return fmt.Sprintf("(_ bv%d %d)", v, w) }

func smtRat(r *big.Rat) string {
	n := new(big.Int).Abs(r.Num()).String() + ".0"
	if !r.IsInt() {
		n = "(/ " + n + " " + r.Denom().String() + ".0)"
	}
	if r.Sign() < 0 {
		return "(- " + n + ")"
	}
	return n
}

// emit writes the definitions needed for t and returns its reference.
func (e *emitter) emit(sb *strings.Builder, t *Term) string {
	switch t.op {
	case OConst:
		switch t.sort {
		case SBool:
			return strconv.FormatBool(t.b)
		case SBV:
			return smtBV(t.bv, t.w)
		case SReal:
			return smtRat(t.rat)
		case SFP:
			if math.IsNaN(t.fpval()) {
				return "(_ NaN " + fpDim(t.w) + ")"
			}
			return "((_ to_fp " + fpDim(t.w) + ") " + smtBV(t.bv, t.w) + ")"
		}
	case OPosInf, ONegInf, ONaN:
		// only reached inside dead comparisons
		n := "special_" + opNamesSpecial[t.op]
		if !e.done[t] {
			e.mark(t)
			fmt.Fprintf(sb, "(declare-fun %s () Real)\n", n)
		}
		return n
	case OVar:
		n := smtName(t.name)
		if !e.done[t] {
			e.mark(t)
			if t.sort == SFP {
				fmt.Fprintf(sb, "(declare-fun %s () (_ BitVec %d))\n", n, t.w)
			} else {
				fmt.Fprintf(sb, "(declare-fun %s () %s)\n", n, smtSort(t))
			}
		}
		if t.sort == SFP {
			return "((_ to_fp " + fpDim(t.w) + ") " + n + ")"
		}
		return n
	}
	name := "t" + strconv.Itoa(int(t.id))
	if e.done[t] {
		return name
	}
	// iterative-ish: recursion depth bounded by term depth
	refs := make([]string, len(t.args))
	for i, x := range t.args {
		refs[i] = e.emit(sb, x)
	}
	e.mark(t)
	def := ""
	switch t.op {
	case OLin:
		var b strings.Builder
		b.WriteString("(+ " + smtRat(t.rat))
		for i := range t.args {
			if t.coef[i].Cmp(ratOne) == 0 {
				b.WriteString(" " + refs[i])
			} else {
				b.WriteString(" (* " + smtRat(t.coef[i]) + " " + refs[i] + ")")
			}
		}
		b.WriteString(")")
		def = b.String()
	case OMono:
		if e.abs && (len(t.args) != 1 || t.pow[0] != 1) {
			e.abstracted = true
			fmt.Fprintf(sb, "(declare-fun %s () Real)\n", name)
			e.absAxioms(sb, t, name, refs)
			return name
		}
		var b strings.Builder
		b.WriteString("(* 1.0")
		for i := range t.args {
			k := t.pow[i]
			r := refs[i]
			if k < 0 {
				r = "(/ 1.0 " + r + ")"
				k = -k
			}
			for ; k > 0; k-- {
				b.WriteString(" " + r)
			}
		}
		b.WriteString(")")
		def = b.String()
	case OUF:
		fn := "f_" + t.name + strconv.Itoa(len(t.args))
		if !e.ufs[fn] {
			// declared at the outermost level: a function symbol is never popped
			// with a scope it was first used in, so re-declare per scope instead.
			e.ufs[fn] = true
		}
		// Applications are represented by fresh constants plus explicit axioms
		// and pairwise congruence; this keeps the logic free of UF inside NRA.
		fmt.Fprintf(sb, "(declare-fun %s () Real)\n", name)
		if e.axioms {
			e.ufAxioms(sb, t, name, refs)
		}
		return name
	case OBV2Real:
		w := t.args[0].w
		if t.bv == 1 {
			def = fmt.Sprintf("(ite (bvslt %s %s) (- (to_real (bv2nat %s)) %s) (to_real (bv2nat %s)))", refs[0], smtBV(0, w), refs[0], new(big.Int).Lsh(big.NewInt(1), uint(w)).String()+".0", refs[0])
		} else {
			def = "(to_real (bv2nat " + refs[0] + "))"
		}
	case OFP2Real:
		def = "(fp.to_real " + refs[0] + ")"
	case OFToBits:
		fmt.Fprintf(sb, "(declare-fun %s () (_ BitVec %d))\n(assert (= ((_ to_fp %s) %s) %s))\n", name, t.w, fpDim(t.w), name, refs[0])
		return name
	default:
		def = e.generic(t, refs)
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", name, smtSort(t), def)
	return name
}

// absAxioms states the signs of a product in terms of the signs of its factors.
func (e *emitter) absAxioms(sb *strings.Builder, t *Term, name string, refs []string) {
	even := true
	for _, k := range t.pow {
		if k%2 != 0 {
			even = false
		}
	}
	if even {
		sb.WriteString("(assert (>= " + name + " 0.0))\n")
		return
	}
	if len(refs) > 3 {
		return
	}
	var pos, zero []string
	for i, k := range t.pow {
		if k%2 == 0 {
			pos = append(pos, "(not (= "+refs[i]+" 0.0))")
		} else {
			pos = append(pos, "(> "+refs[i]+" 0.0)")
		}
		zero = append(zero, "(= "+refs[i]+" 0.0)")
	}
	sb.WriteString("(assert (=> (and " + strings.Join(pos, " ") + " true) (> " + name + " 0.0)))\n")
	sb.WriteString("(assert (=> (or " + strings.Join(zero, " ") + " false) (= " + name + " 0.0)))\n")
	if len(refs) == 2 && t.pow[0]%2 != 0 && t.pow[1]%2 != 0 {
		for i := 0; i < 2; i++ {
			fmt.Fprintf(sb, "(assert (=> (and (> %s 0.0) (< %s 0.0)) (< %s 0.0)))\n", refs[i], refs[1-i], name)
		}
		fmt.Fprintf(sb, "(assert (=> (and (< %s 0.0) (< %s 0.0)) (> %s 0.0)))\n", refs[0], refs[1], name)
	}
}

var opNamesSpecial = map[Op]string{OPosInf: "pinf", ONegInf: "ninf", ONaN: "nan"}

func (e *emitter) mark(t *Term) {
	e.done[t] = true
	if n := len(e.stack); n > 0 {
		e.stack[n-1] = append(e.stack[n-1], t)
	}
}

func (e *emitter) ufAxioms(sb *strings.Builder, t *Term, name string, refs []string) {
	r := refs[0]
	as := func(s string) { sb.WriteString("(assert " + s + ")\n") }
	if len(t.args) >= 1 && t.args[0].IsConst() && (len(t.args) == 1 || t.args[1].IsConst()) {
		a := make([]float64, len(t.args))
		for i := range a {
			a[i] = ratF(t.args[i].rat)
		}
		v := ufEval(t.name, a)
		if !math.IsNaN(v) && !math.IsInf(v, 0) {
			d := math.Abs(v)*1e-12 + 1e-300
			lo, hi := new(big.Rat).SetFloat64(v-d), new(big.Rat).SetFloat64(v+d)
			if lo != nil && hi != nil {
				as("(< " + smtRat(lo) + " " + name + ")")
				as("(< " + name + " " + smtRat(hi) + ")")
			}
		}
	}
	switch t.name {
	case "exp":
		as("(> " + name + " 0.0)")
		as("(>= " + name + " (+ 1.0 " + r + "))")
		as("(=> (<= " + r + " 0.0) (<= " + name + " 1.0))")
	case "sqrt":
		as("(>= " + name + " 0.0)")
		if e.abs {
			e.abstracted = true
			as("(=> (> " + r + " 0.0) (> " + name + " 0.0))")
			as("(=> (= " + r + " 0.0) (= " + name + " 0.0))")
		} else {
			as("(=> (>= " + r + " 0.0) (= (* " + name + " " + name + ") " + r + "))")
		}
	case "tanh":
		as("(and (< (- 1.0) " + name + ") (< " + name + " 1.0))")
		as("(=> (> " + r + " 0.0) (and (> " + name + " 0.0) (< " + name + " " + r + ")))")
		as("(=> (< " + r + " 0.0) (and (< " + name + " 0.0) (> " + name + " " + r + ")))")
		as("(=> (= " + r + " 0.0) (= " + name + " 0.0))")
	case "log":
		as("(=> (> " + r + " 0.0) (<= " + name + " (- " + r + " 1.0)))")
		as("(=> (> " + r + " 1.0) (> " + name + " 0.0))")
		as("(=> (and (> " + r + " 0.0) (< " + r + " 1.0)) (< " + name + " 0.0))")
	case "sin", "cos":
		as("(and (<= (- 1.0) " + name + ") (<= " + name + " 1.0))")
	case "cosh":
		as("(>= " + name + " 1.0)")
	case "pow":
		as("(=> (> " + r + " 0.0) (> " + name + " 0.0))")
	}
	// congruence / monotonicity with earlier applications in scope
	lst := e.expsV[t.name]
	n := 0
	for i := len(lst) - 1; i >= 0 && n < 24; i-- {
		q := lst[i]
		if !e.done[q] || q == t {
			continue
		}
		n++
		qn := "t" + strconv.Itoa(int(q.id))
		var eqs []string
		for j := range t.args {
			eqs = append(eqs, "(= "+e.ref(q.args[j])+" "+refs[j]+")")
		}
		as("(=> (and " + strings.Join(eqs, " ") + ") (= " + qn + " " + name + "))")
		switch t.name {
		case "exp", "tanh":
			as("(= (< " + e.ref(q.args[0]) + " " + r + ") (< " + qn + " " + name + "))")
		case "sqrt", "log":
			as("(=> (and (> " + r + " 0.0) (> " + e.ref(q.args[0]) + " 0.0)) (= (< " + e.ref(q.args[0]) + " " + r + ") (< " + qn + " " + name + ")))")
		}
	}
	e.expsV[t.name] = append(e.expsV[t.name], t)
}

// ref gives the reference of an already emitted term.
func (e *emitter) ref(t *Term) string {
	var sb strings.Builder
	return e.emit(&sb, t)
}

func (e *emitter) generic(t *Term, r []string) string {
	j := func(op string) string { return "(" + op + " " + strings.Join(r, " ") + ")" }
	switch t.op {
	case OIte:
		return j("ite")
	case OEq:
		return j("=")
	case ONot:
		return j("not")
	case OAnd:
		return j("and")
	case OOr:
		return j("or")
	case OLe:
		return j("<=")
	case OLt:
		return j("<")
	case OBExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.bv)+int(t.w)-1, t.bv, r[0])
	case OBZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, r[0])
	case OBSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, r[0])
	case OFAdd:
		return "(fp.add RNE " + r[0] + " " + r[1] + ")"
	case OFSub:
		return "(fp.sub RNE " + r[0] + " " + r[1] + ")"
	case OFMul:
		return "(fp.mul RNE " + r[0] + " " + r[1] + ")"
	case OFDiv:
		return "(fp.div RNE " + r[0] + " " + r[1] + ")"
	case OFFma:
		return "(fp.fma RNE " + r[0] + " " + r[1] + " " + r[2] + ")"
	case OFNeg:
		return j("fp.neg")
	case OFAbs:
		return j("fp.abs")
	case OFSqrt:
		return "(fp.sqrt RNE " + r[0] + ")"
	case OFEq:
		return j("fp.eq")
	case OFLt:
		return j("fp.lt")
	case OFLe:
		return j("fp.leq")
	case OFIsNaN:
		return j("fp.isNaN")
	case OFFromBits:
		return "((_ to_fp " + fpDim(t.w) + ") " + r[0] + ")"
	case OFCvt:
		return "((_ to_fp " + fpDim(t.w) + ") RNE " + r[0] + ")"
	case OFFromSBV:
		return "((_ to_fp " + fpDim(t.w) + ") RNE " + r[0] + ")"
	case OFFromUBV:
		return "((_ to_fp_unsigned " + fpDim(t.w) + ") RNE " + r[0] + ")"
	case OFToSBV:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, r[0])
	case OFToUBV:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, r[0])
	case OFRound:
		return "(fp.roundToIntegral " + []string{"RNE", "RTZ", "RTN", "RTP", "RNA"}[t.bv] + " " + r[0] + ")"
	}
	if n := opNames[t.op]; n != "" {
		return j(n)
	}
	panic("emit: op " + strconv.Itoa(int(t.op)))
}
