package main

// Concurrency engine.  A harness is executed under controlled schedules; every
// thread contributes a tree of its visible operations, a node for each operation
// and an edge for each outcome (value read, message received, case selected).  The
// solver is asked, over all interleavings of the whole event structure, (1) for a
// state in which two conflicting accesses are both enabled (data race), (2) for a
// state in which an operation has an outcome no edge stands for — it is then run
// and adds to the trees, until there is none — and (3) for a state in which every
// thread is blocked.  The assertions of the harness are decided on every path of
// the thread that makes them.

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type evt struct {
	kind  string
	obj   uint64
	out   string // outcome, part of the identity of the path
	rd    string // value read (loads, read-modify-writes)
	wr    string // value written
	old   string // compare-and-swap: expected value
	plain bool
	write bool
	idx   int
	d     int64
	ch    *Chan
	chOp  string // send, recv, closed, default
	sel   *selRec
	child uint64
	pos   string
	sync  int // number of synchronisation operations of the thread up to here
}

type selCase struct {
	c    *Chan
	send bool
	v    V
}
type selRec struct {
	block bool
	cases []selCase
	idx   int
	objs  []uint64
	vals  []string
}
type segState struct {
	read bool
	wr   *evt
}
type pendWrite struct {
	e   *evt
	loc any
}
type chInit struct {
	cap    int
	vals   []string
	closed bool
}

type schedEnt struct {
	th   uint64
	n    int // the thread is to have made n synchronisation operations
	sel  int
	wait int64
}

type crec struct {
	p      *Path
	on     bool
	forks  [][]int32
	names  map[any]uint64
	used   map[uint64]bool
	inits  map[string]int
	init   map[uint64]string
	wgs    map[uint64]int64
	chans  map[uint64]*chInit
	sched  []schedEnt
	spos   int
	rng    *rand.Rand
	evals  [2]*Evaluator
	unk    int
	missed int
	points []string
}

func mix(h uint64, s ...any) uint64 {
	f := fnv.New64a()
	fmt.Fprint(f, h)
	for _, x := range s {
		fmt.Fprint(f, "|", x)
	}
	return f.Sum64()
}

func newCrec(p *Path) *crec {
	r := &crec{p: p, names: map[any]uint64{}, used: map[uint64]bool{}, inits: map[string]int{}, init: map[uint64]string{}, wgs: map[uint64]int64{}, chans: map[uint64]*chInit{}}
	for i := range r.evals {
		r.evals[i] = NewEvaluator(&Model{seed: int64(977 + i), vals: map[*Term]any{}}, map[*Term]*VarHint{})
	}
	return r
}

// ---- names ----

func (th *Thread) alloc(x V) {
	r := th.p.crec
	if r == nil {
		return
	}
	o := th.owner()
	h := r.fresh(o, th.site())
	switch q := x.(type) {
	case *V:
		r.reg(q, h)
	case Slice:
		for i := range q {
			r.reg(&q[i], mix(h, i))
		}
	default:
		r.names[x] = h
	}
}

// lockSec is a critical section.
type lockSec struct {
	obj    uint64
	allocs map[string]int
}

func (th *Thread) site() string {
	if fr := th.top; fr != nil {
		return fmt.Sprintf("%s#%d.%d", fr.fn, fr.block.Index, fr.pc)
	}
	return ""
}

// fresh names a new object.  What is made in a critical section is named after the
// lock, so that it does not matter to its readers which thread was there; the rest
// after the thread.
func (r *crec) fresh(o *Thread, site string) uint64 {
	if r.p.initDepth > 0 {
		// package initialisation happens once, whoever triggers it here
		o = &Thread{allocs: r.inits}
		site += "@init"
	} else if n := len(o.locks); n > 0 {
		l := &o.locks[n-1]
		l.allocs[site]++
		if h := mix(l.obj, site, l.allocs[site]); !r.used[h] {
			r.used[h] = true
			return h
		}
	}
	if o.allocs == nil {
		o.allocs = map[string]int{}
	}
	o.allocs[site]++
	h := mix(o.key, site, o.allocs[site])
	r.used[h] = true
	return h
}

func (r *crec) reg(c *V, h uint64) {
	r.names[c] = h
	switch s := (*c).(type) {
	case Struct:
		for i := range s {
			r.reg(&s[i], mix(h, i))
		}
	case Array:
		for i := range s {
			r.reg(&s[i], mix(h, i))
		}
	}
}

func (r *crec) name(x any) uint64 {
	if n, ok := r.names[x]; ok {
		return n
	}
	// made by an intrinsic: named by the first access
	o := r.p.cur.owner()
	n := r.fresh(o, o.site()+" late")
	r.names[x] = n
	r.unk++
	return n
}

// fp is a canonical description of a value.
func (r *crec) fp(v V) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case int64:
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case string:
		return strconv.Quote(x)
	case *Term:
		if x.sort == SReal {
			a, b := r.evals[0].R(x), r.evals[1].R(x)
			return fmt.Sprintf("r%s,%s", r9(a), r9(b))
		}
		if x.sort == SBool {
			return fmt.Sprintf("b%v,%v", r.evals[0].B(x), r.evals[1].B(x))
		}
		return fmt.Sprintf("u%x,%x", r.evals[0].U(x), r.evals[1].U(x))
	case *V:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("&%x", r.name(x))
	case *Chan:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("ch%x", r.name(x))
	case *Map:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("map%x", r.name(x))
	case Slice:
		if x == nil {
			return "nil"
		}
		if cap(x) == 0 {
			return "[]"
		}
		return fmt.Sprintf("[%x:%d:%d]", r.name(&x[:1][0]), len(x), cap(x))
	case Struct:
		s := "{"
		for i := range x {
			s += r.fp(x[i]) + ","
		}
		return s + "}"
	case Array:
		s := "{"
		for i := range x {
			s += r.fp(x[i]) + ","
		}
		return s + "}"
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return x.t.String() + ":" + r.fp(x.v)
	case *Closure:
		if x == nil {
			return "nil"
		}
		s := "func"
		if x.fn != nil {
			s += x.fn.String()
		}
		for _, e := range x.env {
			s += "," + r.fp(e)
		}
		return s
	}
	return fmt.Sprintf("%T", v)
}

func r9(f float64) string {
	if math.Abs(f) < 1e-9 {
		return "0"
	}
	return strconv.FormatFloat(f, 'g', 9, 64)
}

func (r *crec) mapFP(m *Map) string {
	var s []string
	for i := range m.keys {
		if !m.dead[i] {
			s = append(s, r.fp(m.keys[i])+"="+r.fp(*m.vals[i]))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ";")
}

// ---- recording ----

func (r *crec) add(th *Thread, e *evt) {
	if !e.plain {
		th.syncN++
		th.seg = nil
	}
	e.sync = th.syncN
	e.pos = th.where1()
	th.evs = append(th.evs, e)
	switch e.kind {
	case "lock", "rlock":
		th.locks = append(th.locks, lockSec{obj: e.obj, allocs: map[string]int{}})
	case "unlock", "runlock":
		for i := len(th.locks) - 1; i >= 0; i-- {
			if th.locks[i].obj == e.obj {
				th.locks = append(th.locks[:i], th.locks[i+1:]...)
				break
			}
		}
	}
}

func (th *Thread) where1() string {
	for fr := th.top; fr != nil; fr = fr.caller {
		if fr.fn.Pkg == nil && fr.fn.Origin() == nil {
			continue
		}
		pk := fr.fn.Pkg
		if pk == nil {
			pk = fr.fn.Origin().Pkg
		}
		if pk == nil || !strings.HasPrefix(pk.Pkg.Path(), "github.com/nlpodyssey") {
			continue
		}
		for i := fr.pc - 1; i >= 0 && i < len(fr.block.Instrs); i-- {
			if ps := fr.block.Instrs[i].Pos(); ps.IsValid() {
				pp := th.p.eng.prog.Fset.Position(ps)
				return fmt.Sprintf("%s:%d", strings.TrimPrefix(pp.Filename, th.p.eng.repo+"/"), pp.Line)
			}
		}
		break
	}
	return ""
}

func (r *crec) mem(th *Thread, loc any, write bool) {
	switch q := loc.(type) {
	case *V:
		switch s := (*q).(type) {
		case Struct:
			for i := range s {
				r.mem(th, &s[i], write)
			}
			return
		case Array:
			for i := range s {
				r.mem(th, &s[i], write)
			}
			return
		}
		r.memLeaf(th, q, r.name(q), write, func() string { return r.fp(*q) })
	case *Map:
		if write { // the new content depends on the old one
			r.memLeaf(th, q, r.name(q), false, func() string { return r.mapFP(q) })
		}
		r.memLeaf(th, q, r.name(q), write, func() string { return r.mapFP(q) })
	}
}

func (r *crec) memLeaf(th *Thread, loc any, n uint64, write bool, val func() string) {
	if th.seg == nil {
		th.seg = map[uint64]*segState{}
	}
	st := th.seg[n]
	if st == nil {
		st = &segState{}
		th.seg[n] = st
	}
	if _, ok := r.init[n]; !ok {
		r.init[n] = val()
	}
	if !write {
		if st.read || st.wr != nil {
			return
		}
		st.read = true
		v := val()
		r.add(th, &evt{kind: "read", obj: n, out: v, rd: v, plain: true})
		return
	}
	if st.wr == nil {
		st.wr = &evt{kind: "write", obj: n, plain: true, write: true}
		r.add(th, st.wr)
	}
	th.pend = append(th.pend, pendWrite{st.wr, loc})
}

// finish fills in the values written by the instruction.
func (r *crec) finish(th *Thread) {
	for _, w := range th.pend {
		switch q := w.loc.(type) {
		case *V:
			w.e.wr = r.fp(*q)
		case *Map:
			w.e.wr = r.mapFP(q)
		}
	}
	th.pend = th.pend[:0]
	if o := th.owner(); o != th && len(o.pend) > 0 {
		r.finish(o)
	}
}

func (th *Thread) touchChan(c *Chan) {
	if r := th.recording(); r != nil && c != nil {
		n := r.name(c)
		if r.chans[n] == nil {
			ci := &chInit{cap: c.cap, closed: c.closed}
			for _, v := range c.buf {
				ci.vals = append(ci.vals, r.fp(v))
			}
			r.chans[n] = ci
		}
	}
}

func (th *Thread) touchWG(k V, n int64) {
	if r := th.recording(); r != nil {
		o := r.name(k)
		if _, ok := r.wgs[o]; !ok {
			r.wgs[o] = n
		}
	}
}

func (r *crec) sync(th *Thread, kind string, obj any, v []V) {
	e := &evt{kind: kind}
	if obj != nil {
		e.obj = r.name(obj)
	}
	before := func(s string) {
		if _, ok := r.init[e.obj]; !ok {
			r.init[e.obj] = s
		}
	}
	switch kind {
	case "aload":
		e.rd = r.fp(v[0])
		e.out = e.rd
		before(e.rd)
	case "astore":
		before(r.fp(v[0]))
		e.wr, e.write = r.fp(v[1]), true
	case "armw":
		e.rd, e.wr, e.write = r.fp(v[0]), r.fp(v[1]), true
		e.out = e.rd
		before(e.rd)
	case "cas":
		e.rd, e.old = r.fp(v[0]), r.fp(v[1])
		before(e.rd)
		if v[3].(bool) {
			e.out, e.wr, e.write = "ok", r.fp(v[2]), true
		} else {
			e.out = "fail"
		}
	case "wgadd":
		e.d = v[0].(int64)
	case "send", "recv", "close", "default":
		if obj != nil {
			e.ch = obj.(*Chan)
		}
		e.chOp = kind
		switch kind {
		case "send":
			e.wr = r.fp(v[0])
		case "recv":
			e.out = r.fp(v[1])
			e.rd = e.out
			if !v[0].(bool) {
				e.chOp, e.out = "closed", "closed"
			}
		}
		if s := th.sel; s != nil && kind != "close" {
			e.sel = s
			e.kind = "select"
			e.idx = s.idx
			e.out = fmt.Sprintf("%d/%s/%s", s.idx, e.chOp, e.out)
			s.objs, s.vals = nil, nil
			for _, c := range s.cases {
				if c.c == nil {
					s.objs = append(s.objs, 0)
				} else {
					s.objs = append(s.objs, r.name(c.c))
				}
				if c.send {
					s.vals = append(s.vals, r.fp(c.v))
				} else {
					s.vals = append(s.vals, "")
				}
			}
			e.obj = 0
			if obj != nil {
				e.obj = r.name(obj)
			}
		}
	}
	r.add(th, e)
}

func (r *crec) fork(parent, child *Thread) {
	if !r.on {
		if parent.id != 0 || r.p.initDepth > 0 {
			return
		}
		r.on = true
	}
	if parent.allocs == nil {
		parent.allocs = map[string]int{}
	}
	at := parent.site() + " go"
	parent.allocs[at]++
	child.key = mix(parent.key, at, parent.allocs[at])
	r.add(parent, &evt{kind: "spawn", child: child.key})
	r.add(child, &evt{kind: "start"})
}

// ---- schedules ----

func (r *crec) selectChoice(th *Thread, rdy []int) int {
	for i := r.spos; i < len(r.sched) && i < r.spos+4; i++ {
		if s := r.sched[i]; s.th == th.key && s.n == th.syncN+1 && s.sel >= 0 {
			for _, k := range rdy {
				if k == s.sel {
					return k
				}
			}
		}
	}
	if r.rng != nil {
		return rdy[r.rng.Intn(len(rdy))]
	}
	return rdy[0]
}

func (r *crec) pick(run []*Thread) *Thread {
	if !r.on {
		return run[0]
	}
	find := func(k uint64) *Thread {
		for _, t := range run {
			if t.key == k {
				return t
			}
		}
		return nil
	}
	count := func(k uint64) int {
		for _, t := range r.p.threads {
			if t.key == k {
				return t.syncN
			}
		}
		return 0
	}
	for r.spos < len(r.sched) && count(r.sched[r.spos].th) >= r.sched[r.spos].n {
		r.spos++
	}
	for i := r.spos; i < len(r.sched); i++ {
		s := r.sched[i]
		if count(s.th) >= s.n {
			continue
		}
		if t := find(s.th); t != nil {
			if i > r.spos {
				r.missed++
			}
			return t
		}
	}
	if r.rng != nil && len(r.sched) == 0 {
		// mostly stay, now and then switch
		for _, t := range run {
			if t == r.p.cur && r.rng.Intn(3) != 0 {
				return t
			}
		}
		return run[r.rng.Intn(len(run))]
	}
	for _, t := range run {
		if t == r.p.cur {
			return t
		}
	}
	return run[0]
}

// runConc is run for controlled schedules; it goes on until no thread can run.
func (p *Path) runConc(main *Closure) {
	r := p.crec
	mt := p.newThread(main, nil)
	mt.key = 1
	for {
		var run []*Thread
		for _, t := range p.threads {
			if !t.done && (t.blocked == nil || t.blocked()) {
				run = append(run, t)
			}
		}
		if len(run) == 0 {
			if mt.done {
				return
			}
			p.onDeadlock()
			return
		}
		t := r.pick(run)
		t.blocked = nil
		t.granted = true
		p.cur = t
		for !t.done && t.blocked == nil {
			t.step()
		}
	}
}

// ---- event structure ----

type cEdge struct {
	id    int
	node  *cNode
	e     *evt
	child *cNode
	depth int
}
type cNode struct {
	id     int
	th     *cThread
	parent *cEdge
	kind   string
	obj    uint64
	plain  bool
	edges  []*cEdge
	onode  *cNode // carries the position in the order
	depth  int
	sel    *selRec
	pos    string
	idx    int
	unl    []*cEdge
	ended  bool
}
type cThread struct {
	key   uint64
	name  string
	main  bool
	spawn []*cEdge
	root  *cNode
}

type evStruct struct {
	threads map[uint64]*cThread
	order   []*cThread
	nodes   []*cNode
	edges   []*cEdge
	init    map[uint64]string
	wgs     map[uint64]int64
	chans   map[uint64]*chInit
}

func newEvStruct() *evStruct {
	return &evStruct{threads: map[uint64]*cThread{}, init: map[uint64]string{}, wgs: map[uint64]int64{}, chans: map[uint64]*chInit{}}
}

// merge adds the events of a run; it reports whether there was anything new.
func (es *evStruct) merge(r *crec) (isNew bool) {
	for k, v := range r.init {
		if o, ok := es.init[k]; !ok {
			es.init[k] = v
		} else if o != v {
			panic(abort("a shared location does not have a fixed initial value: %s or %s", o, v))
		}
	}
	for k, v := range r.wgs {
		if _, ok := es.wgs[k]; !ok {
			es.wgs[k] = v
		}
	}
	for k, v := range r.chans {
		if _, ok := es.chans[k]; !ok {
			es.chans[k] = v
		}
	}
	spawnBy := map[uint64]*cEdge{}
	// parents come first in the thread list
	for _, t := range r.p.threads {
		if len(t.evs) == 0 {
			continue
		}
		ct := es.threads[t.key]
		if ct == nil {
			ct = &cThread{key: t.key, name: fmt.Sprintf("g%d", t.id), main: t.id == 0}
			es.threads[t.key] = ct
			es.order = append(es.order, ct)
			isNew = true
		}
		if sp := spawnBy[t.key]; sp != nil {
			known := false
			for _, x := range ct.spawn {
				known = known || x == sp
			}
			if !known {
				ct.spawn = append(ct.spawn, sp)
				isNew = true
			}
		}
		var up *cEdge
		var on *cNode
		for _, e := range t.evs {
			var n *cNode
			if up == nil {
				n = ct.root
			} else {
				n = up.child
			}
			kobj := e.obj
			if e.kind == "select" {
				kobj = 0
			}
			if n == nil {
				n = &cNode{id: len(es.nodes), th: ct, parent: up, kind: e.kind, obj: kobj, plain: e.plain, sel: e.sel, pos: e.pos, idx: e.sync}
				if up != nil {
					n.depth = up.node.depth + 1
					up.child = n
				} else {
					ct.root = n
				}
				if e.plain {
					n.onode = on
				} else {
					n.onode = n
				}
				es.nodes = append(es.nodes, n)
				isNew = true
			}
			if n.kind != e.kind || n.obj != kobj {
				panic(abort("the threads are not deterministic: %s %x after the same history was %s %x (%s, %s)", e.kind, kobj, n.kind, n.obj, e.pos, n.pos))
			}
			if !e.plain {
				on = n
			}
			var ed *cEdge
			for _, x := range n.edges {
				if x.e.out == e.out {
					ed = x
				}
			}
			if ed == nil {
				ed = &cEdge{id: len(es.edges), node: n, e: e}
				n.edges = append(n.edges, ed)
				es.edges = append(es.edges, ed)
				isNew = true
			}
			if e.kind == "spawn" {
				spawnBy[e.child] = ed
			}
			if e.kind == "end" {
				n.ended = true
			}
			up = ed
		}
	}
	return
}

// ---- encoding ----

type cEnc struct {
	es    *evStruct
	sb    strings.Builder
	nv    int
	nodes []*cNode // encoded nodes
	skip  []bool   // private accesses are passed through
	perth map[uint64]map[uint64]bool
	byObj map[uint64][]*cNode
	nrace int
}

func (c *cEnc) p(f string, a ...any) { fmt.Fprintf(&c.sb, f, a...) }

// x gives the literal "edge e has been executed".
func (c *cEnc) x(e *cEdge) string {
	for e != nil && c.skip[e.node.id] {
		e = e.node.parent
	}
	if e == nil {
		return "true"
	}
	return "x" + strconv.Itoa(e.id)
}
func (c *cEnc) exec(n *cNode) string {
	var s []string
	for _, e := range n.edges {
		s = append(s, c.x(e))
	}
	return or(s)
}
func (c *cEnc) at(n *cNode) string {
	par := "true"
	if n.parent != nil {
		par = c.x(n.parent)
	} else if !n.th.main {
		var s []string
		for _, e := range n.th.spawn {
			s = append(s, c.x(e))
		}
		par = or(s)
	}
	return and([]string{par, "(not " + c.exec(n) + ")"})
}
func (c *cEnc) o(n *cNode) string { return "o" + strconv.Itoa(n.onode.id) }

func or(s []string) string {
	var t []string
	for _, x := range s {
		if x == "true" {
			return "true"
		}
		if x != "false" {
			t = append(t, x)
		}
	}
	switch len(t) {
	case 0:
		return "false"
	case 1:
		return t[0]
	}
	return "(or " + strings.Join(t, " ") + ")"
}
func and(s []string) string {
	var t []string
	for _, x := range s {
		if x == "false" {
			return "false"
		}
		if x != "true" {
			t = append(t, x)
		}
	}
	switch len(t) {
	case 0:
		return "true"
	case 1:
		return t[0]
	}
	return "(and " + strings.Join(t, " ") + ")"
}
func imp(a, b string) string {
	if a == "false" || b == "true" {
		return "true"
	}
	if a == "true" {
		return b
	}
	return "(=> " + a + " " + b + ")"
}
func not(a string) string {
	switch a {
	case "true":
		return "false"
	case "false":
		return "true"
	}
	return "(not " + a + ")"
}
func sum(s []string, k int64) string {
	if len(s) == 0 {
		return num(k)
	}
	return "(+ " + num(k) + " " + strings.Join(s, " ") + ")"
}
func num(k int64) string {
	if k < 0 {
		return fmt.Sprintf("(- %d)", -k)
	}
	return strconv.FormatInt(k, 10)
}

// rel is the static relation of two nodes: -1 when a comes before b on one path
// of a thread, 1 when after, 2 when they exclude each other, 0 when open.
func rel(a, b *cNode) int {
	if a.th != b.th {
		return 0
	}
	if a == b {
		return 3
	}
	x, y, sw := a, b, 1
	if a.depth > b.depth {
		x, y, sw = b, a, -1
	}
	n := y
	for n.depth > x.depth {
		n = n.parent.node
	}
	if n == x {
		return -sw
	}
	return 2
}

// before is the formula "a comes before b" (both executed).
func (c *cEnc) before(a, b *cNode) string {
	switch rel(a, b) {
	case -1:
		return "true"
	case 1, 2, 3:
		return "false"
	}
	return "(< " + c.o(a) + " " + c.o(b) + ")"
}

func isAccess(n *cNode) bool {
	switch n.kind {
	case "read", "write", "aload", "astore", "armw", "cas":
		return true
	}
	return false
}

func newEnc(es *evStruct) *cEnc {
	c := &cEnc{es: es, skip: make([]bool, len(es.nodes)), byObj: map[uint64][]*cNode{}}
	// locations only one thread uses, or that are only read, are not encoded
	type use struct {
		th    map[*cThread]bool
		write bool
	}
	us := map[uint64]*use{}
	for _, n := range es.nodes {
		if !isAccess(n) {
			continue
		}
		u := us[n.obj]
		if u == nil {
			u = &use{th: map[*cThread]bool{}}
			us[n.obj] = u
		}
		u.th[n.th] = true
		if n.kind != "read" && n.kind != "aload" {
			u.write = true
		}
	}
	for _, n := range es.nodes {
		if isAccess(n) {
			u := us[n.obj]
			if n.plain && (len(u.th) < 2 || !u.write) {
				c.skip[n.id] = true
				continue
			}
		}
		c.byObj[n.obj] = append(c.byObj[n.obj], n)
		c.nodes = append(c.nodes, n)
	}
	c.base()
	return c
}

func (c *cEnc) writes(obj uint64) []*cEdge {
	var ws []*cEdge
	for _, n := range c.byObj[obj] {
		if !isAccess(n) {
			continue
		}
		for _, e := range n.edges {
			if e.e.write {
				ws = append(ws, e)
			}
		}
	}
	return ws
}

func (c *cEnc) base() {
	for _, n := range c.nodes {
		if n.onode == n {
			c.p("(declare-const o%d Int)\n", n.id)
		}
		for _, e := range n.edges {
			c.p("(declare-const x%d Bool)\n", e.id)
		}
	}
	for _, n := range c.nodes {
		// program order, creation
		ex := c.exec(n)
		if n.parent != nil {
			c.p("(assert %s)\n", imp(ex, c.x(n.parent)))
			if n.onode == n && n.parent.node.onode != nil {
				c.p("(assert %s)\n", imp(ex, "(< "+c.o(n.parent.node)+" "+c.o(n)+")"))
			}
		} else if !n.th.main {
			var s []string
			for _, e := range n.th.spawn {
				s = append(s, and([]string{c.x(e), "(< " + c.o(e.node) + " " + c.o(n) + ")"}))
			}
			c.p("(assert %s)\n", imp(ex, or(s)))
		}
		for i, e := range n.edges {
			for _, f := range n.edges[:i] {
				c.p("(assert (not (and %s %s)))\n", c.x(e), c.x(f))
			}
		}
	}
	c.memory()
	c.locks()
	c.chansAndGroups()
}

// lastWrite declares an integer that is the position of the last write before the
// limit; cond(e) selects the writes which count.
func (c *cEnc) lastWrite(ws []*cEdge, guard string, bef func(e *cEdge) string) string {
	c.nv++
	m := "m" + strconv.Itoa(c.nv)
	c.p("(declare-const %s Int)\n", m)
	for _, w := range ws {
		b := bef(w)
		if b == "false" {
			continue
		}
		c.p("(assert %s)\n", imp(and([]string{guard, c.x(w), b}), "(<= "+c.o(w.node)+" "+m+")"))
	}
	return m
}

// readsFrom: the last write before the reader satisfies ok (by value), or the
// initial value does.
func (c *cEnc) readsFrom(obj uint64, guard string, bef func(e *cEdge) string, ok func(val string) bool) string {
	ws := c.writes(obj)
	var alts, none []string
	some := false
	var cand []*cEdge
	for _, w := range ws {
		if bef(w) == "false" {
			continue
		}
		cand = append(cand, w)
		if ok(w.e.wr) {
			some = true
		}
		none = append(none, not(and([]string{c.x(w), bef(w)})))
	}
	if some {
		m := c.lastWrite(cand, guard, bef)
		for _, w := range cand {
			if ok(w.e.wr) {
				alts = append(alts, and([]string{c.x(w), bef(w), "(= " + m + " " + c.o(w.node) + ")"}))
			}
		}
	}
	if ok(c.es.init[obj]) {
		alts = append(alts, and(none))
	}
	return or(alts)
}

func (c *cEnc) memory() {
	for _, n := range c.nodes {
		if !isAccess(n) || n.kind == "write" || n.kind == "astore" {
			continue
		}
		bef := func(w *cEdge) string { return c.before(w.node, n) }
		for _, e := range n.edges {
			ok := func(v string) bool { return v == e.e.rd }
			if n.kind == "cas" {
				old := n.edges[0].e.old
				if e.e.out == "ok" {
					ok = func(v string) bool { return v == old }
				} else {
					ok = func(v string) bool { return v != old }
				}
			}
			f := c.readsFrom(n.obj, c.x(e), bef, ok)
			c.p("(assert %s)\n", imp(c.x(e), f))
		}
	}
	// writes to one location are ordered
	for obj := range c.byObj {
		ws := c.writes(obj)
		for i, a := range ws {
			for _, b := range ws[:i] {
				if rel(a.node, b.node) == 0 {
					c.p("(assert (not (= %s %s)))\n", c.o(a.node), c.o(b.node))
				}
			}
		}
		// an atomic access and a write from elsewhere do not share a position
		for _, n := range c.byObj[obj] {
			if isAccess(n) && n.kind != "write" && n.kind != "astore" {
				for _, w := range ws {
					if rel(w.node, n) == 0 {
						c.p("(assert (not (= %s %s)))\n", c.o(w.node), c.o(n))
					}
				}
			}
		}
	}
}

// unlocks of a lock edge: the first matching release on every path below it.
func unlocks(l *cEdge) []*cEdge {
	if l.node.unl != nil {
		return l.node.unl
	}
	want := "unlock"
	if l.node.kind == "rlock" {
		want = "runlock"
	}
	var out []*cEdge
	var walk func(n *cNode)
	walk = func(n *cNode) {
		for n != nil {
			if n.kind == want && n.obj == l.node.obj {
				out = append(out, n.edges...)
				return
			}
			if len(n.edges) == 1 {
				n = n.edges[0].child
				continue
			}
			for _, e := range n.edges {
				walk(e.child)
			}
			return
		}
	}
	walk(l.child)
	return out
}

func (c *cEnc) released(a *cEdge, b *cNode) string {
	var s []string
	for _, u := range unlocks(a) {
		s = append(s, and([]string{c.x(u), c.before(u.node, b)}))
	}
	return or(s)
}

func (c *cEnc) held(a *cEdge) string {
	var s []string
	for _, u := range unlocks(a) {
		s = append(s, c.x(u))
	}
	return and([]string{c.x(a), not(or(s))})
}

func (c *cEnc) lockEdges(obj uint64) []*cEdge {
	var ls []*cEdge
	for _, n := range c.byObj[obj] {
		if n.kind == "lock" || n.kind == "rlock" {
			ls = append(ls, n.edges...)
		}
	}
	return ls
}

func (c *cEnc) locks() {
	for obj := range c.byObj {
		ls := c.lockEdges(obj)
		for i, a := range ls {
			for _, b := range ls[:i] {
				if a.node.kind == "rlock" && b.node.kind == "rlock" || a.node.th == b.node.th {
					continue
				}
				c.p("(assert %s)\n", imp(and([]string{c.x(a), c.x(b)}), or([]string{c.released(a, b.node), c.released(b, a.node)})))
			}
		}
	}
}

type chOps struct{ send, recv, closed, close []*cEdge }

func (c *cEnc) chanOps() map[uint64]*chOps {
	m := map[uint64]*chOps{}
	for _, n := range c.nodes {
		for _, e := range n.edges {
			if e.e.ch == nil {
				continue
			}
			o := m[e.e.obj]
			if o == nil {
				o = &chOps{}
				m[e.e.obj] = o
			}
			switch e.e.chOp {
			case "send":
				o.send = append(o.send, e)
			case "recv":
				o.recv = append(o.recv, e)
			case "closed":
				o.closed = append(o.closed, e)
			case "close":
				o.close = append(o.close, e)
			}
		}
	}
	return m
}

func (c *cEnc) cnt(es []*cEdge, n *cNode, k string) []string {
	var s []string
	for _, x := range es {
		b := "true"
		if n != nil {
			b = c.before(x.node, n)
		}
		l := and([]string{c.x(x), b})
		if l == "false" {
			continue
		}
		s = append(s, "(ite "+l+" "+k+" 0)")
	}
	return s
}

// level is the number of buffered messages before n (nil: now).
func (c *cEnc) level(ch uint64, o *chOps, n *cNode) string {
	return sum(append(c.cnt(o.send, n, "1"), c.cnt(o.recv, n, "(- 1)")...), int64(len(c.es.chans[ch].vals)))
}

func (c *cEnc) anyBefore(es []*cEdge, n *cNode) string {
	var s []string
	for _, x := range es {
		b := "true"
		if n != nil {
			b = c.before(x.node, n)
		}
		s = append(s, and([]string{c.x(x), b}))
	}
	return or(s)
}

func (c *cEnc) chansAndGroups() {
	ops := c.chanOps()
	for ch, o := range ops {
		ci := c.es.chans[ch]
		all := append(append(append([]*cEdge{}, o.send...), o.recv...), append(append([]*cEdge{}, o.closed...), o.close...)...)
		for i, a := range all {
			for _, b := range all[:i] {
				if rel(a.node, b.node) != 0 {
					continue
				}
				pair := a.e.chOp + b.e.chOp
				if ci.cap == 0 && (pair == "sendrecv" || pair == "recvsend") {
					continue
				}
				c.p("(assert %s)\n", imp(and([]string{c.x(a), c.x(b)}), "(not (= "+c.o(a.node)+" "+c.o(b.node)+"))"))
			}
		}
		closedBefore := func(n *cNode) string {
			if ci.closed {
				return "true"
			}
			return c.anyBefore(o.close, n)
		}
		for _, s := range o.send {
			c.p("(assert %s)\n", imp(c.x(s), not(closedBefore(s.node))))
			if ci.cap > 0 {
				c.p("(assert %s)\n", imp(c.x(s), "(< "+c.level(ch, o, s.node)+" "+strconv.Itoa(ci.cap)+")"))
			} else {
				var m []string
				for _, r := range o.recv {
					if r.node.th != s.node.th && r.e.rd == s.e.wr {
						m = append(m, and([]string{c.x(r), "(= " + c.o(r.node) + " " + c.o(s.node) + ")"}))
					}
				}
				c.p("(assert %s)\n", imp(c.x(s), or(m)))
			}
		}
		for _, r := range o.recv {
			if ci.cap > 0 {
				c.p("(assert %s)\n", imp(c.x(r), "(> "+c.level(ch, o, r.node)+" 0)"))
				c.p("(assert %s)\n", imp(c.x(r), c.head(ch, o, r.node, func(v string) bool { return v == r.e.rd })))
			} else {
				var m []string
				for _, s := range o.send {
					if r.node.th != s.node.th && r.e.rd == s.e.wr {
						m = append(m, and([]string{c.x(s), "(= " + c.o(r.node) + " " + c.o(s.node) + ")"}))
					}
				}
				c.p("(assert %s)\n", imp(c.x(r), or(m)))
			}
		}
		for _, r := range o.closed {
			c.p("(assert %s)\n", imp(c.x(r), closedBefore(r.node)))
			if ci.cap > 0 {
				c.p("(assert %s)\n", imp(c.x(r), "(= "+c.level(ch, o, r.node)+" 0)"))
			}
		}
	}
	// a default case needs every other case not to be ready
	for _, n := range c.nodes {
		if n.kind != "select" {
			continue
		}
		for _, e := range n.edges {
			if e.e.chOp == "default" {
				for i := range n.sel.cases {
					c.p("(assert %s)\n", imp(c.x(e), not(c.ready(n, i, n, ops))))
					// the channel state has to be fixed at this point of the order
					if o := ops[n.sel.objs[i]]; o != nil {
						for _, f := range append(append(append([]*cEdge{}, o.send...), o.recv...), o.close...) {
							if rel(f.node, n) == 0 {
								c.p("(assert %s)\n", imp(and([]string{c.x(e), c.x(f)}), "(not (= "+c.o(f.node)+" "+c.o(n)+"))"))
							}
						}
					}
				}
			}
		}
	}
	// wait groups
	for obj, init := range c.es.wgs {
		var adds []*cEdge
		for _, n := range c.byObj[obj] {
			if n.kind == "wgadd" {
				adds = append(adds, n.edges...)
			}
		}
		for _, n := range c.byObj[obj] {
			if n.kind == "wgwait" {
				c.p("(assert %s)\n", imp(c.exec(n), "(= "+sum(c.adds(adds, n), init)+" 0)"))
				for _, a := range adds {
					if rel(a.node, n) == 0 {
						c.p("(assert %s)\n", imp(and([]string{c.exec(n), c.x(a)}), "(not (= "+c.o(a.node)+" "+c.o(n)+"))"))
					}
				}
			}
		}
	}
}

func (c *cEnc) adds(adds []*cEdge, n *cNode) []string {
	var s []string
	for _, a := range adds {
		b := "true"
		if n != nil {
			b = c.before(a.node, n)
		}
		if l := and([]string{c.x(a), b}); l != "false" {
			s = append(s, "(ite "+l+" "+num(a.e.d)+" 0)")
		}
	}
	return s
}

// head: the oldest buffered message before n (nil: now) satisfies ok.
func (c *cEnc) head(ch uint64, o *chOps, n *cNode, ok func(string) bool) string {
	ci := c.es.chans[ch]
	allOK := true
	for _, s := range o.send {
		allOK = allOK && ok(s.e.wr)
	}
	for _, v := range ci.vals {
		allOK = allOK && ok(v)
	}
	if allOK {
		return "true"
	}
	cr := sum(c.cnt(o.recv, n, "1"), 0)
	var alts []string
	for i, v := range ci.vals {
		if ok(v) {
			alts = append(alts, "(= "+cr+" "+strconv.Itoa(i)+")")
		}
	}
	for _, s := range o.send {
		if !ok(s.e.wr) {
			continue
		}
		b := "true"
		if n != nil {
			b = c.before(s.node, n)
		}
		alts = append(alts, and([]string{c.x(s), b, "(= " + sum(c.cnt(o.send, s.node, "1"), int64(len(ci.vals))) + " " + cr + ")"}))
	}
	return or(alts)
}

// ready: case i of the select n can proceed before lim (nil: now).  Rendezvous
// partners do not count: whether they have arrived is not observable.
func (c *cEnc) ready(n *cNode, i int, lim *cNode, ops map[uint64]*chOps) string {
	ch := n.sel.objs[i]
	if ch == 0 {
		return "false"
	}
	o := ops[ch]
	if o == nil {
		o = &chOps{}
	}
	ci := c.es.chans[ch]
	closed := c.anyBefore(o.close, lim)
	if ci.closed {
		closed = "true"
	}
	if ci.cap == 0 {
		return closed
	}
	if n.sel.cases[i].send {
		return or([]string{closed, "(< " + c.level(ch, o, lim) + " " + strconv.Itoa(ci.cap) + ")"})
	}
	return or([]string{closed, "(> " + c.level(ch, o, lim) + " 0)"})
}

// chan states "now"
func (c *cEnc) closedNow(ch uint64, o *chOps) string {
	if c.es.chans[ch].closed {
		return "true"
	}
	return c.anyBefore(o.close, nil)
}

// partners: other threads stand at a matching operation on an unbuffered channel.
func (c *cEnc) partner(n *cNode, ch uint64, send bool, ok func(string) bool) string {
	var s []string
	for _, m := range c.nodes {
		if m.th == n.th {
			continue
		}
		switch m.kind {
		case "send":
			if !send && m.obj == ch && ok(m.edges[0].e.wr) {
				s = append(s, c.at(m))
			}
		case "recv":
			if send && m.obj == ch {
				s = append(s, c.at(m))
			}
		case "select":
			for i, cs := range m.sel.cases {
				if m.sel.objs[i] == ch && cs.send != send && (send || ok(m.sel.vals[i])) {
					s = append(s, c.at(m))
				}
			}
		}
	}
	return or(s)
}

// canRecv/canSend: the operation can complete now with an outcome not yet known.
func (c *cEnc) recvNew(n *cNode, ch uint64, ops map[uint64]*chOps, known func(op, val string) bool) string {
	o := ops[ch]
	if o == nil {
		o = &chOps{}
	}
	ci := c.es.chans[ch]
	var s []string
	if !known("closed", "") {
		l := "true"
		if ci.cap > 0 {
			l = "(= " + c.level(ch, o, nil) + " 0)"
		}
		s = append(s, and([]string{c.closedNow(ch, o), l}))
	}
	unk := func(v string) bool { return !known("recv", v) }
	if ci.cap > 0 {
		any := false
		for _, x := range o.send {
			any = any || unk(x.e.wr)
		}
		for _, v := range ci.vals {
			any = any || unk(v)
		}
		if any {
			s = append(s, and([]string{"(> " + c.level(ch, o, nil) + " 0)", c.head(ch, o, nil, unk)}))
		}
	} else {
		s = append(s, c.partner(n, ch, false, unk))
	}
	return or(s)
}

func (c *cEnc) sendNew(n *cNode, ch uint64, ops map[uint64]*chOps, known bool) string {
	o := ops[ch]
	if o == nil {
		o = &chOps{}
	}
	ci := c.es.chans[ch]
	s := []string{c.closedNow(ch, o)} // a panic
	if !known {
		if ci.cap > 0 {
			s = append(s, "(< "+c.level(ch, o, nil)+" "+strconv.Itoa(ci.cap)+")")
		} else {
			s = append(s, c.partner(n, ch, true, nil))
		}
	}
	return or(s)
}

type target struct {
	lit  string
	node *cNode
	alts map[string]int
}

// frontier lists the operations with the condition under which they have, now, an
// outcome that no edge stands for.
func (c *cEnc) frontier() []target {
	var ts []target
	ops := c.chanOps()
	add := func(n *cNode, cond string) {
		f := and([]string{c.at(n), cond})
		if f == "false" {
			return
		}
		c.nv++
		l := "t" + strconv.Itoa(c.nv)
		c.p("(declare-const %s Bool)\n(assert (=> %s %s))\n", l, l, f)
		ts = append(ts, target{lit: l, node: n})
	}
	for _, n := range c.nodes {
		outs := map[string]bool{}
		for _, e := range n.edges {
			outs[e.e.out] = true
		}
		switch n.kind {
		case "read", "aload", "armw":
			unk := func(v string) bool { return !outs[v] }
			any := unk(c.es.init[n.obj])
			bef := func(w *cEdge) string {
				if rel(w.node, n) == 0 || rel(w.node, n) == -1 {
					return "true"
				}
				return "false"
			}
			for _, w := range c.writes(n.obj) {
				if bef(w) == "true" && unk(w.e.wr) {
					any = true
				}
			}
			if any {
				add(n, c.readsFrom(n.obj, c.at(n), bef, unk))
			}
		case "cas":
			old := n.edges[0].e.old
			unk := func(v string) bool { return v == old && !outs["ok"] || v != old && !outs["fail"] }
			bef := func(w *cEdge) string {
				if rel(w.node, n) == 0 || rel(w.node, n) == -1 {
					return "true"
				}
				return "false"
			}
			if !outs["ok"] || !outs["fail"] {
				add(n, c.readsFrom(n.obj, c.at(n), bef, unk))
			}
		case "recv":
			add(n, c.recvNew(n, n.obj, ops, func(op, v string) bool {
				for _, e := range n.edges {
					if e.e.chOp == op && (op == "closed" || e.e.rd == v) {
						return true
					}
				}
				return false
			}))
		case "send":
			add(n, c.sendNew(n, n.obj, ops, true))
		case "close":
			o := ops[n.obj]
			var s []string
			for _, e := range o.close {
				if e.node != n {
					s = append(s, c.x(e))
				}
			}
			add(n, or(s))
		case "select":
			var s []string
			hasDef := false
			for i, cs := range n.sel.cases {
				ch := n.sel.objs[i]
				if ch == 0 {
					continue
				}
				if cs.send {
					kn := false
					for _, e := range n.edges {
						kn = kn || e.e.idx == i && e.e.chOp == "send"
					}
					s = append(s, c.sendNew(n, ch, ops, kn))
				} else {
					s = append(s, c.recvNew(n, ch, ops, func(op, v string) bool {
						for _, e := range n.edges {
							if e.e.idx == i && e.e.chOp == op && (op == "closed" || e.e.rd == v) {
								return true
							}
						}
						return false
					}))
				}
			}
			for _, e := range n.edges {
				hasDef = hasDef || e.e.chOp == "default"
			}
			if !n.sel.block && !hasDef {
				var r []string
				for i := range n.sel.cases {
					r = append(r, not(c.ready(n, i, nil, ops)))
				}
				s = append(s, and(r))
			}
			add(n, or(s))
		case "wgadd":
			if n.edges[0].e.d < 0 {
				var adds []*cEdge
				for _, m := range c.byObj[n.obj] {
					if m.kind == "wgadd" {
						adds = append(adds, m.edges...)
					}
				}
				add(n, "(< "+sum(c.adds(adds, nil), c.es.wgs[n.obj]+n.edges[0].e.d)+" 0)")
			}
		}
	}
	return ts
}

// races lists, per location, the condition that two conflicting accesses are
// enabled at the same time.
func (c *cEnc) races() []string {
	var lits []string
	for _, ns := range c.byObj {
		if len(ns) == 0 || !isAccess(ns[0]) {
			continue
		}
		// per thread: standing at a write / at a plain access / ...
		type grp struct{ pw, pr, aw, ar []string }
		g := map[*cThread]*grp{}
		var ths []*cThread
		for _, n := range ns {
			if !isAccess(n) {
				continue
			}
			x := g[n.th]
			if x == nil {
				x = &grp{}
				g[n.th] = x
				ths = append(ths, n.th)
			}
			at := c.at(n)
			switch n.kind {
			case "write":
				x.pw = append(x.pw, at)
			case "read":
				x.pr = append(x.pr, at)
			case "aload":
				x.ar = append(x.ar, at)
			default:
				x.aw = append(x.aw, at)
			}
		}
		var alts []string
		for i, t := range ths {
			for _, u := range ths[:i] {
				a, b := g[t], g[u]
				alts = append(alts,
					and([]string{or(a.pw), or(append(append(append(append([]string{}, b.pw...), b.pr...), b.aw...), b.ar...))}),
					and([]string{or(b.pw), or(append(append(append([]string{}, a.pr...), a.aw...), a.ar...))}),
					and([]string{or(a.pr), or(b.aw)}),
					and([]string{or(b.pr), or(a.aw)}))
			}
		}
		if f := or(alts); f != "false" {
			c.nv++
			l := "t" + strconv.Itoa(c.nv)
			c.p("(declare-const %s Bool)\n(assert (=> %s %s))\n", l, l, f)
			lits = append(lits, l)
		}
	}
	return lits
}

// stuck: every thread has ended or is blocked, and the main thread has not ended.
func (c *cEnc) stuck() string {
	ops := c.chanOps()
	var conj []string
	var mainEnd []string
	for _, n := range c.nodes {
		if n.kind == "end" {
			if n.th.main {
				mainEnd = append(mainEnd, c.exec(n))
			}
		}
		dis := "false"
		switch n.kind {
		case "lock", "rlock":
			var s []string
			for _, l := range c.lockEdges(n.obj) {
				if l.node.th == n.th && rel(l.node, n) != -1 {
					continue
				}
				if n.kind == "rlock" && l.node.kind == "rlock" {
					continue
				}
				s = append(s, c.held(l))
			}
			dis = or(s)
		case "wgwait":
			var adds []*cEdge
			for _, m := range c.byObj[n.obj] {
				if m.kind == "wgadd" {
					adds = append(adds, m.edges...)
				}
			}
			dis = "(not (= " + sum(c.adds(adds, nil), c.es.wgs[n.obj]) + " 0))"
		case "recv":
			dis = not(c.recvNew(n, n.obj, ops, func(op, v string) bool { return false }))
		case "send":
			dis = not(c.sendNew(n, n.obj, ops, false))
		case "select":
			if n.sel.block {
				var s []string
				for i, cs := range n.sel.cases {
					ch := n.sel.objs[i]
					if ch == 0 {
						continue
					}
					if cs.send {
						s = append(s, c.sendNew(n, ch, ops, false))
					} else {
						s = append(s, c.recvNew(n, ch, ops, func(op, v string) bool { return false }))
					}
				}
				dis = not(or(s))
			}
		}
		conj = append(conj, imp(c.at(n), dis))
	}
	conj = append(conj, not(or(mainEnd)))
	return and(conj)
}

// solve runs the solver on the encoding and the goal.
func (c *cEnc) solve(goal string, timeout time.Duration) (string, map[string]string) {
	in := "(set-option :timeout " + strconv.Itoa(int(timeout.Milliseconds())) + ")\n" + c.sb.String() + "(assert " + goal + ")\n(check-sat)\n"
	if f := os.Getenv("GOSYM_CONCDUMP"); f != "" {
		os.WriteFile(f, []byte(in), 0o644)
	}
	t0 := time.Now()
	run := func(tail string) string {
		cmd := exec.Command(solverBin, "-in")
		cmd.Stdin = strings.NewReader(in + tail)
		out, _ := cmd.Output()
		return string(out)
	}
	out := run("(get-model)\n")
	atomic.AddInt64(&statQueries, 1)
	atomic.AddInt64(&statSolverNS, int64(time.Since(t0)))
	res, model, _ := strings.Cut(out, "\n")
	res = strings.TrimSpace(res)
	switch res {
	case "sat":
		atomic.AddInt64(&statSat, 1)
	case "unsat":
		atomic.AddInt64(&statUnsat, 1)
		return res, nil
	default:
		atomic.AddInt64(&statUnknown, 1)
		if debugEngine && strings.Contains(res, "error") {
			fmt.Println("CONC", res)
		}
		return "unknown", nil
	}
	vals := map[string]string{}
	fs := strings.Fields(strings.NewReplacer("(", " ", ")", " ").Replace(model))
	for i := 0; i+3 < len(fs); i++ {
		if fs[i] == "define-fun" {
			v := fs[i+3]
			if v == "-" && i+4 < len(fs) {
				v = "-" + fs[i+4]
			}
			vals[fs[i+1]] = v
		}
	}
	return res, vals
}

// schedule extracts the order of the executed synchronisation operations.
func (c *cEnc) schedule(vals map[string]string, last ...*cNode) ([]schedEnt, []string) {
	type it struct {
		o int64
		n *cNode
		e *cEdge
	}
	var its []it
	for _, n := range c.nodes {
		if n.plain {
			continue
		}
		for _, e := range n.edges {
			if vals["x"+strconv.Itoa(e.id)] == "true" {
				o, _ := strconv.ParseInt(vals["o"+strconv.Itoa(n.id)], 10, 64)
				its = append(its, it{o, n, e})
			}
		}
	}
	sort.SliceStable(its, func(i, j int) bool {
		if its[i].o != its[j].o {
			return its[i].o < its[j].o
		}
		return its[i].n.depth < its[j].n.depth
	})
	var out []schedEnt
	var txt []string
	for _, x := range its {
		s := schedEnt{th: x.n.th.key, n: x.n.idx, sel: -1}
		if x.n.kind == "select" {
			s.sel = x.e.e.idx
		}
		if x.n.kind != "start" {
			out = append(out, s)
		}
		txt = append(txt, fmt.Sprintf("%s %s %s", x.n.th.name, x.n.kind, x.e.e.pos))
	}
	for _, n := range last {
		out = append(out, schedEnt{th: n.th.key, n: n.idx, sel: -1})
		txt = append(txt, fmt.Sprintf("%s next: %s %s", n.th.name, n.kind, n.pos))
	}
	return out, txt
}

// ---- driver ----

type concUnit struct {
	h      *Harness
	prefix []int32
}

type concStats struct {
	Units, Runs, Nodes, Edges, Threads, MaxThreads int
	Frontier, Races, Stuck                         int
	Incomplete                                     int
	Missed                                         int
}

func (e *Engine) exploreConc(hs []*Harness, workers int) []map[string]any {
	var mu sync.Mutex
	var queue []concUnit
	active := 0
	cond := sync.NewCond(&mu)
	stats := map[*Harness]*concStats{}
	for _, h := range hs {
		h.started = time.Now()
		stats[h] = &concStats{}
		queue = append(queue, concUnit{h, nil})
	}
	push := func(u concUnit) {
		mu.Lock()
		queue = append(queue, u)
		mu.Unlock()
		cond.Signal()
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := e.newSolver()
			defer func() { s.Close() }()
			for {
				mu.Lock()
				for len(queue) == 0 && active > 0 {
					cond.Wait()
				}
				if len(queue) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				u := queue[0]
				queue = queue[1:]
				active++
				mu.Unlock()
				s = e.concUnit(u, s, stats[u.h], &mu, push)
				mu.Lock()
				active--
				u.h.ended = time.Now()
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	var rep []map[string]any
	for _, h := range hs {
		st := stats[h]
		rep = append(rep, map[string]any{"harness": h.Name, "configurations": st.Units, "runs": st.Runs, "operations": st.Nodes, "outcomes": st.Edges, "most_threads": st.MaxThreads,
			"queries_new_outcome": st.Frontier, "queries_race": st.Races, "queries_deadlock": st.Stuck, "configurations_incomplete": st.Incomplete, "schedules_not_followed": st.Missed})
	}
	return rep
}

func (e *Engine) concRun(h *Harness, prefix []int32, s *Solver, sched []schedEnt, rng *rand.Rand) (*Path, string) {
	p := newPath(e, h, prefix, s)
	p.avx, p.ncpu = 2, 4
	p.crec = newCrec(p)
	p.crec.sched, p.crec.rng = sched, rng
	outcome := "done"
	guard := func(what string, f func()) {
		defer func() {
			if r := recover(); r != nil {
				at := ""
				if p.cur != nil {
					at = p.cur.where()
				}
				switch x := r.(type) {
				case stopPath:
					outcome = "stop:" + x.why
				case abortErr:
					outcome = "abort:" + x.msg + " @ " + at
				case goPanic:
					outcome = "stop:panic"
					p.violate("panic", "uncaught panic in a host callback: "+p.panicText(x.val), "")
				default:
					outcome = fmt.Sprintf("abort:%s: %v @ %s", what, r, at)
					if debugEngine {
						fmt.Println(outcome)
						debug.PrintStack()
					}
				}
			}
		}()
		f()
	}
	guard("engine", func() { p.runConc(&Closure{fn: h.fn}) })
	if outcome == "done" || strings.HasPrefix(outcome, "stop:") {
		keep := outcome
		guard("discharge", func() { p.releaseLinear(); p.discharge() })
		if strings.HasPrefix(keep, "stop:") {
			outcome = keep
		}
	}
	h.mergeBounds(p)
	e.funcMu.Lock()
	for f := range p.funcs {
		e.funcs[f] = true
	}
	e.funcMu.Unlock()
	return p, outcome
}

func (e *Engine) concUnit(u concUnit, s *Solver, st *concStats, mu *sync.Mutex, push func(concUnit)) *Solver {
	h := u.h
	es := newEvStruct()
	runs, missed := 0, 0
	done := func(status string) *Solver {
		mu.Lock()
		st.Units++
		st.Runs += runs
		st.Missed += missed
		st.Nodes += len(es.nodes)
		st.Edges += len(es.edges)
		if len(es.threads) > st.MaxThreads {
			st.MaxThreads = len(es.threads)
		}
		if status != "" {
			st.Incomplete++
		}
		mu.Unlock()
		h.mu.Lock()
		if h.St.Stops == nil {
			h.St.Stops, h.St.Aborts, h.St.Reached = map[string]int{}, map[string]int{}, map[string]int{}
		}
		if status == "" {
			h.St.Paths++
		} else if strings.HasPrefix(status, "stop:") {
			h.St.Stopped++
			h.St.Stops[status[5:]]++
		} else {
			h.St.Aborted++
			h.St.Aborts[status]++
		}
		h.mu.Unlock()
		return s
	}
	first := true
	viol := false
	if debugEngine {
		defer func() {
			for _, n := range es.nodes {
				if len(n.edges) > 1 {
					var o []string
					for _, x := range n.edges {
						o = append(o, x.e.out)
					}
					fmt.Printf("BRANCH %s %s depth %d %s %x %s: %q\n", h.Name, n.th.name, n.depth, n.kind, n.obj, n.pos, o)
				}
			}
		}()
	}
	run := func(sched []schedEnt, rng *rand.Rand) (bool, string) {
		p, out := e.concRun(h, u.prefix, s, sched, rng)
		s = p.solver
		runs++
		if p.crec.missed > 0 {
			missed++
		}
		h.count(func(x *HStats) {
			x.Steps += p.steps
			for r := range p.reached {
				if x.Reached == nil {
					x.Reached = map[string]int{}
				}
				x.Reached[r]++
			}
		})
		if first {
			first = false
			if ev := p.sample(nil, 20); ev != nil {
				h.mu.Lock()
				if len(h.wit) < 3 {
					h.wit = append(h.wit, witness{Inputs: p.concreteInputs(ev)})
				}
				h.mu.Unlock()
			}
			for _, f := range p.crec.forks {
				push(concUnit{h, f})
			}
		}
		if len(p.viols) > 0 {
			viol = true
			var hot []string
			for _, t := range p.threads {
				for _, ev := range t.evs {
					if !ev.plain && ev.pos != "" {
						hot = append(hot, ev.pos)
					}
				}
			}
			e.concViol(h, p, hot)
		}
		if strings.HasPrefix(out, "abort:") {
			return false, out[6:]
		}
		isNew := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(abortErr); ok {
						out = a.msg
						return
					}
					panic(r)
				}
			}()
			isNew = es.merge(p.crec)
		}()
		if out != "done" && !strings.HasPrefix(out, "stop:") {
			return false, out
		}
		if strings.HasPrefix(out, "stop:") && !viol {
			return false, out
		}
		if debugEngine {
			fmt.Printf("CONC %s run %d new=%v nodes=%d edges=%d missed=%d sched=%d out=%s\n", h.Name, runs, isNew, len(es.nodes), len(es.edges), p.crec.missed, len(sched), out)
		}
		return isNew, ""
	}
	if _, bad := run(nil, nil); bad != "" {
		return done(bad)
	}
	if viol {
		return done("stop:violation")
	}
	rng := rand.New(rand.NewSource(e.seed))
	for i, idle := 0, 0; i < 60 && idle < 8; i++ {
		isNew, bad := run(nil, rng)
		if bad != "" {
			return done(bad)
		}
		if viol {
			return done("stop:violation")
		}
		if isNew {
			idle = 0
		} else {
			idle++
		}
	}
	if len(es.threads) == 0 {
		return done("") // no concurrency in this configuration
	}
	to := 20 * time.Second
	if e.thorough {
		to = 90 * time.Second
	}
	for iter := 0; ; iter++ {
		if e.expired() {
			return done("time")
		}
		c := newEnc(es)
		rl := c.races()
		if len(rl) > 0 {
			mu.Lock()
			st.Races++
			mu.Unlock()
			res, vals := c.solve(or(rl), to)
			if res == "unknown" {
				return done("race query undecided")
			}
			if res == "sat" {
				e.raceViol(h, u, s, c, vals)
				return done("stop:violation")
			}
		}
		c = newEnc(es)
		ts := c.frontier()
		var lits []string
		for _, t := range ts {
			lits = append(lits, t.lit)
		}
		if len(lits) > 0 {
			mu.Lock()
			st.Frontier++
			mu.Unlock()
			res, vals := c.solve(or(lits), to)
			if res == "unknown" {
				return done("new-outcome query undecided")
			}
			if res == "sat" {
				var tn *cNode
				for _, t := range ts {
					if vals[t.lit] == "true" {
						tn = t.node
						break
					}
				}
				sched, txt := c.schedule(vals, tn)
				isNew, bad := run(sched, nil)
				if bad != "" {
					return done(bad)
				}
				if viol {
					return done("stop:violation")
				}
				if !isNew {
					if debugEngine {
						fmt.Println("CONC schedule adds nothing:", strings.Join(txt, "\n   "))
					}
					return done("a schedule of the solver was not reproduced")
				}
				if len(es.edges) > 20000 {
					return done("event structure too large")
				}
				continue
			}
		}
		mu.Lock()
		st.Stuck++
		mu.Unlock()
		c = newEnc(es)
		res, vals := c.solve(c.stuck(), to)
		if res == "unknown" {
			return done("deadlock query undecided")
		}
		if res == "sat" {
			sched, txt := c.schedule(vals)
			_, bad := run(sched, nil)
			if bad != "" {
				return done(bad)
			}
			if viol {
				return done("stop:violation")
			}
			if debugEngine {
				fmt.Println("CONC deadlock not reproduced:", strings.Join(txt, "\n   "))
			}
			return done("a deadlock of the solver was not reproduced")
		}
		return done("")
	}
}

// concViol registers the violations of a run.
func (e *Engine) concViol(h *Harness, p *Path, hot []string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for _, v := range p.viols {
		v.Sched = true
		v.Hot = hot
		if v.Inputs == nil {
			if ev := p.sample(nil, 20); ev != nil {
				v.Inputs = p.concreteInputs(ev)
			}
		}
		if k := len(h.viols[v.Msg]); k < 3 {
			h.viols[v.Msg] = append(h.viols[v.Msg], v)
			if e.onViol != nil && k == 0 {
				go e.onViol(h, v)
			}
		}
	}
}

func (e *Engine) raceViol(h *Harness, u concUnit, s *Solver, c *cEnc, vals map[string]string) {
	// the nodes that stand next to each other
	stands := func(n *cNode) bool {
		up := n.parent
		for up != nil && c.skip[up.node.id] {
			up = up.node.parent
		}
		ok := true
		if up != nil {
			ok = vals["x"+strconv.Itoa(up.id)] == "true"
		} else if !n.th.main {
			ok = false
			for _, e := range n.th.spawn {
				ok = ok || vals["x"+strconv.Itoa(e.id)] == "true"
			}
		}
		for _, ed := range n.edges {
			if vals["x"+strconv.Itoa(ed.id)] == "true" {
				ok = false
			}
		}
		return ok
	}
	var at []*cNode
	for _, n := range c.nodes {
		if isAccess(n) && stands(n) {
			at = append(at, n)
		}
	}
	msg, hot := "data race", []string{}
	for i, a := range at {
		for _, b := range at[:i] {
			w := func(n *cNode) bool { return n.kind != "read" && n.kind != "aload" }
			if a.obj == b.obj && a.th != b.th && (a.plain || b.plain) && (w(a) || w(b)) {
				x, y := a.kind+" at "+a.pos, b.kind+" at "+b.pos
				if y < x {
					x, y = y, x
				}
				msg = "data race: " + x + " and " + y
				hot = append(hot, a.pos, b.pos)
			}
		}
	}
	_, txt := c.schedule(vals)
	p, _ := e.concRun(h, u.prefix, s, nil, nil)
	p.viols = []Violation{{Msg: msg, Kind: "race", Where: strings.Join(txt, " ; ")}}
	e.concViol(h, p, hot)
}
