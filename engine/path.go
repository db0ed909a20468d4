package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

type pathEnd struct{ why string } // infeasible, pruned

// Decision: 0/1 for branches, choice index otherwise.
type Work struct {
	prefix []int32
	model  Model
}

type Violation struct {
	Harness string
	Kind    string // assert | panic | deadlock
	Msg     string
	Witness *Witness
}

// Witness holds the concrete values of all nondet calls of one path.
type Witness struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Vals    map[string]int64  `json:"vals"`
	Strs    map[string]string `json:"strs"`
	Bytes   map[string]string `json:"bytes,omitempty"`
	Expect  string            `json:"expect,omitempty"`
	Obs     []string          `json:"obs,omitempty"`
	Covers  []string          `json:"covers,omitempty"`
	OK      bool              `json:"-"`
	exact   bool
	partial bool
}

type HarnessStats struct {
	Name        string
	Paths       int64
	Infeasible  int64
	Done        int64
	Unsupported map[string]int64
	Decisions   int64
	Branches    int64
	Choices     int64
	Asserts     int64
	AssertSym   int64
	Steps       int64
	Covers      map[string]int64
	Bounds      map[string]int64
	Violations  []*Violation
	violCount   map[string]int
	Witnesses   []*Witness
	Unfinished  []*Witness // inputs of paths outside the encoding
	UnknownQ    int64
	Exhausted   bool
	Stopped     string
	Elapsed     time.Duration
	Samples     []string
	Funcs       map[string]bool
	maxDepth    int
}

type Explorer struct {
	prog                         *Program
	harness                      string
	tier                         string
	mu                           sync.Mutex
	cond                         *sync.Cond
	work                         []Work
	active                       int
	stop                         bool
	deadline                     time.Time
	maxPaths                     int64
	st                           *HarnessStats
	nw                           int
	maxViol                      int
	noWit                        bool
	queries, sat, unsat, unknown int64
	solverTime                   int64
}

func (e *Explorer) push(w Work) {
	e.mu.Lock()
	e.work = append(e.work, w)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) pop() (Work, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return Work{}, false
		}
		if n := len(e.work); n > 0 {
			w := e.work[n-1]
			e.work = e.work[:n-1]
			e.active++
			return w, true
		}
		if e.active == 0 {
			e.cond.Broadcast()
			return Work{}, false
		}
		e.cond.Wait()
	}
}
func (e *Explorer) done() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.work) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (e *Explorer) halt(why string) {
	e.mu.Lock()
	if !e.stop {
		e.stop = true
		e.st.Stopped = why
	}
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) Run() *HarnessStats {
	e.cond = sync.NewCond(&e.mu)
	t0 := time.Now()
	e.st = &HarnessStats{Name: e.harness, Unsupported: map[string]int64{}, Covers: map[string]int64{}, Bounds: map[string]int64{}, violCount: map[string]int{}, Funcs: map[string]bool{}}
	e.work = []Work{{model: Model{}}}
	if !e.deadline.IsZero() {
		tm := time.AfterFunc(time.Until(e.deadline), func() { e.halt("time budget") })
		defer tm.Stop()
	}
	var wg sync.WaitGroup
	for i := 0; i < e.nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	e.st.Exhausted = e.st.Stopped == ""
	e.st.Elapsed = time.Since(t0)
	return e.st
}

// Worker state is reused across paths and harnesses.
type Worker struct {
	ex      *Explorer
	prog    *Program
	bank    *Bank
	sol     *Solver
	abs     *Solver         // for abstracted float queries
	xinit   map[string]bool // external packages initialised
	globals globalTab
	fcount  map[*fnInfo]bool
}

var workerPool struct {
	sync.Mutex
	free []*Worker
}

func getWorker(p *Program) *Worker {
	workerPool.Lock()
	defer workerPool.Unlock()
	if n := len(workerPool.free); n > 0 {
		w := workerPool.free[n-1]
		workerPool.free = workerPool.free[:n-1]
		return w
	}
	w := &Worker{prog: p}
	w.fresh()
	w.globals.ext = map[any]*Value{}
	return w
}
func putWorker(w *Worker) {
	workerPool.Lock()
	workerPool.free = append(workerPool.free, w)
	workerPool.Unlock()
}

var queryTimeout = 10000

func (w *Worker) fresh() {
	if w.sol != nil {
		w.sol.Close()
	}
	if w.abs != nil {
		w.abs.Close()
		w.abs = nil
	}
	w.bank = NewBank()
	w.sol = NewSolver(w.bank, queryTimeout)
}

func (e *Explorer) worker() {
	w := getWorker(e.prog)
	w.ex = e
	w.fcount = map[*fnInfo]bool{}
	q0, s0, u0, k0, t0 := w.sol.Queries, w.sol.Sat, w.sol.Unsat, w.sol.Unknown, w.sol.Time
	acc := func() {
		atomic.AddInt64(&e.queries, int64(w.sol.Queries-q0))
		atomic.AddInt64(&e.sat, int64(w.sol.Sat-s0))
		atomic.AddInt64(&e.unsat, int64(w.sol.Unsat-u0))
		atomic.AddInt64(&e.unknown, int64(w.sol.Unknown-k0))
		atomic.AddInt64(&e.solverTime, int64(w.sol.Time-t0))
	}
	for {
		wk, ok := e.pop()
		if !ok {
			break
		}
		if w.bank.next > 400000 {
			acc()
			w.fresh()
			q0, s0, u0, k0, t0 = 0, 0, 0, 0, 0
		}
		w.runPath(wk)
		e.done()
	}
	acc()
	e.mu.Lock()
	for f := range w.fcount {
		e.st.Funcs[f.name] = true
	}
	e.mu.Unlock()
	putWorker(w)
}

type Path struct {
	w       *Worker
	e       *Explorer
	bank    *Bank
	prefix  []int32
	pos     int
	decs    []int32
	model   Model
	ev      *evaler
	pc      []*Term
	pcSet   map[*Term]bool
	fb      map[*Term]fbound // float intervals from the path condition
	hardPC  bool
	nAss    int // pc entries already asserted in the solver
	pushed  bool
	inexact string // set when a solver "unknown" was skipped

	names              map[string]int
	ndlog              []ndRec
	bounds             map[*Term][2]int64
	covers             map[string]bool
	obs                []obsRec
	steps              int64
	lastFr             *Frame
	lastFn             *fnInfo
	budget             int64
	sched              *Sched
	side               map[*Value]any // sync objects
	timers             []*vtimer
	consts             map[*Term][]string // constants that words were compared with
	clock              Value              // whole seconds since the unix epoch
	serve              Value
	redis              Value // the harness' redis server
	baseSteps          int64
	asserts, assertSym int64
	nbr, nch           int64
	fresh              int
	mapRot             bool
	schedChoices       int
	race               *raceState
	violated           bool
}

type ndRec struct {
	name string
	kind byte // 'i' int, 'b' bool, 'a' atom (maybe empty), 's' bytes, 'c' choice
	t    *Term
	ts   []*Term
	v    int64
}
type obsRec struct {
	label string
	v     Value
}

func (p *Path) eval(t *Term) uint64 {
	if p.ev == nil {
		p.ev = &evaler{p.model, map[*Term]uint64{}}
	}
	return p.ev.ev(t)
}
func (p *Path) setModel(m Model) {
	p.model = m
	p.ev = nil
}

func (p *Path) addPC(t *Term) {
	if t == p.bank.T {
		return
	}
	if t.op == OAnd {
		p.addPC(t.a[0])
		p.addPC(t.a[1])
		return
	}
	if !p.pcSet[t] {
		p.pcSet[t] = true
		p.pc = append(p.pc, t)
		p.hardPC = p.hardPC || p.bank.hardFP(t)
		p.fpFact(t)
	}
}

// implied does a cheap syntactic check.
func (p *Path) implied(t *Term) (val, known bool) {
	if t.isC() {
		return t.c == 1, true
	}
	if p.pcSet[t] {
		return true, true
	}
	if p.pcSet[p.bank.Not(t)] {
		return false, true
	}
	return p.fpImplied(t)
}

// query checks satisfiability of pc ∧ c.
func (p *Path) query(c *Term) (int, Model) {
	if (p.hardPC || p.bank.hardFP(c)) && p.abstractly(c) {
		return 0, nil
	}
	s := p.w.sol
	if !p.pushed {
		s.Push()
		p.pushed = true
	}
	for p.nAss < len(p.pc) {
		s.Assert(p.pc[p.nAss])
		p.nAss++
	}
	s.Push()
	s.Assert(c)
	r := s.Check()
	var m Model
	if r == 1 {
		m = s.GetModel(p.pathVars())
	}
	s.Pop()
	if r < 0 {
		atomic.AddInt64(&p.e.st.UnknownQ, 1)
		if debugOn {
			fmt.Fprintln(os.Stderr, "UNKNOWN", c)
			for _, t := range p.pc {
				fmt.Fprintln(os.Stderr, "  PC", t)
			}
		}
	}
	return r, m
}

func (p *Path) pathVars() []*Term {
	vs := make([]*Term, 0, len(p.ndlog)+4)
	for _, r := range p.ndlog {
		if r.t != nil {
			vs = append(vs, r.t)
		}
		vs = append(vs, r.ts...)
	}
	return vs
}

// decide resolves a symbolic condition, forking when both sides are feasible.
func (p *Path) decide(v Value) bool {
	if b, ok := v.(bool); ok {
		return b
	}
	t := v.(*Term)
	if r, ok := p.implied(t); ok {
		return r
	}
	p.nbr++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		if d == 1 {
			p.addPC(t)
		} else {
			p.addPC(p.bank.Not(t))
		}
		return d == 1
	}
	val := p.eval(t) == 1
	other := t
	if val {
		other = p.bank.Not(t)
	}
	r, m := p.query(other)
	if r == 1 {
		alt := make([]int32, len(p.decs)+1)
		copy(alt, p.decs)
		alt[len(p.decs)] = 1 - int32(b2u(val))
		p.e.push(Work{alt, m})
	} else if r < 0 {
		p.note("solver-unknown")
	}
	p.decs = append(p.decs, int32(b2u(val)))
	if val {
		p.addPC(t)
	} else {
		p.addPC(p.bank.Not(t))
	}
	return val
}

func (p *Path) note(what string) {
	p.e.mu.Lock()
	p.e.st.Unsupported[what]++
	p.e.mu.Unlock()
}

// choice forks n ways.
func (p *Path) choice(n int) int {
	if n <= 1 {
		return 0
	}
	p.nch++
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		return int(d)
	}
	mm := p.model.clone()
	for i := n - 1; i >= 1; i-- {
		alt := make([]int32, len(p.decs)+1)
		copy(alt, p.decs)
		alt[len(p.decs)] = int32(i)
		p.e.push(Work{alt, mm})
	}
	p.decs = append(p.decs, 0)
	return 0
}

// assume restricts the path.
func (p *Path) assume(v Value) {
	if b, ok := v.(bool); ok {
		if !b {
			panic(pathEnd{"assume"})
		}
		return
	}
	t := v.(*Term)
	if r, ok := p.implied(t); ok {
		if !r {
			panic(pathEnd{"assume"})
		}
		return
	}
	if p.pos < len(p.prefix) { // replaying: the stored model satisfies it
		p.addPC(t)
		return
	}
	if p.eval(t) != 1 {
		r, m := p.query(t)
		if r != 1 {
			if r < 0 {
				p.note("solver-unknown")
			}
			panic(pathEnd{"assume"})
		}
		p.setModel(m)
	}
	p.addPC(t)
}

// concretize forks over the values of an integer term.
func (p *Path) concretize(t *Term) uint64 {
	if t.isC() {
		return t.c
	}
	return p.concretizeScan(t)
}

// concretizeScan enumerates candidate values in increasing order within the
// known range of t; the order is independent of the model.
func (p *Path) concretizeScan(t *Term) uint64 {
	lo, hi, ok := p.rng(t)
	if !ok || hi-lo > 4096 || hi < lo {
		panic(unsup("concretise: unbounded term"))
	}
	// binary search by decisions keeps the number of decisions logarithmic
	for lo < hi {
		mid := lo + (hi-lo)/2
		if p.decide(p.bank.Bin(OSLe, p.bank.SExtIf(t), p.bank.BV(64, uint64(mid)))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return uint64(lo) & mask(t.w)
}

// SExtIf widens to 64 bits preserving the unsigned value for narrow terms.
func (b *Bank) SExtIf(t *Term) *Term {
	if t.w == 64 {
		return t
	}
	return b.ZExt(t, 64)
}

const rngMax = int64(1) << 62

// rng computes a sound signed interval of a term (narrow terms: unsigned value).
func (p *Path) rng(t *Term) (lo, hi int64, ok bool) {
	if t.w == wFP || t.w == 0 {
		return 0, 0, false
	}
	if t.op == OConst {
		if t.w == 64 {
			return int64(t.c), int64(t.c), true
		}
		return int64(t.c), int64(t.c), true
	}
	if b, k := p.bounds[t]; k {
		return b[0], b[1], true
	}
	full := func() (int64, int64, bool) {
		if t.w < 63 {
			return 0, int64(mask(t.w)), true
		}
		return 0, 0, false
	}
	switch t.op {
	case OAdd, OSub, OMul:
		a, b, k1 := p.rng(t.a[0])
		c, d, k2 := p.rng(t.a[1])
		if !k1 || !k2 {
			return full()
		}
		if t.w != 64 {
			return full()
		}
		switch t.op {
		case OAdd:
			lo, hi = a+c, b+d
			if (a < 0) == (c < 0) && (lo < 0) != (a < 0) || (b < 0) == (d < 0) && (hi < 0) != (b < 0) {
				return full()
			}
			return lo, hi, true
		case OSub:
			lo, hi = a-d, b-c
			if (a < 0) != (d < 0) && (lo < 0) != (a < 0) || (b < 0) != (c < 0) && (hi < 0) != (b < 0) {
				return full()
			}
			return lo, hi, true
		default:
			var xs []int64
			for _, x := range []int64{a, b} {
				for _, y := range []int64{c, d} {
					if x != 0 && y != 0 {
						m := x * y
						if m/y != x || (x == -1 && y == math.MinInt64) || (y == -1 && x == math.MinInt64) {
							return full()
						}
						xs = append(xs, m)
					} else {
						xs = append(xs, 0)
					}
				}
			}
			sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
			return xs[0], xs[3], true
		}
	case OSDiv, OUDiv:
		a, b, k := p.rng(t.a[0])
		if k && t.w == 64 && t.a[1].isC() && int64(t.a[1].c) > 0 && (t.op == OSDiv || a >= 0) {
			c := int64(t.a[1].c)
			return a / c, b / c, true
		}
		return full()
	case OSRem, OURem:
		if t.w == 64 && t.a[1].isC() && int64(t.a[1].c) > 0 {
			c := int64(t.a[1].c)
			a, _, k := p.rng(t.a[0])
			if k && a >= 0 {
				return 0, c - 1, true
			}
			if t.op == OSRem {
				return -(c - 1), c - 1, true
			}
			return 0, c - 1, true
		}
		return full()
	case OF2I:
		lo, hi, k := p.frng(t.a[0])
		if k && lo >= -(1<<62) && hi <= 1<<62 {
			return int64(lo), int64(hi), true
		}
		return full()
	case OZExt:
		return p.rng(t.a[0])
	case OIte:
		a, b, k1 := p.rng(t.a[1])
		c, d, k2 := p.rng(t.a[2])
		if k1 && k2 {
			return min(a, c), max(b, d), true
		}
		return full()
	case OExtract:
		if uint8(t.c) == 0 {
			a, b, k := p.rng(t.a[0])
			if k && a >= 0 && b <= int64(mask(t.w)) {
				return a, b, true
			}
		}
		return full()
	case OBAnd:
		if t.a[1].isC() && int64(t.a[1].c) >= 0 {
			return 0, int64(t.a[1].c), true
		}
		return full()
	}
	return full()
}

// ---- nondet ----

func (p *Path) uniq(label string) string {
	n := p.names[label]
	p.names[label] = n + 1
	if n == 0 {
		return label
	}
	return fmt.Sprintf("%s#%d", label, n)
}

func (p *Path) ndInt(label string, lo, hi int64) Value {
	name := p.uniq(label)
	if lo == hi {
		p.ndlog = append(p.ndlog, ndRec{name: name, kind: 'i', t: p.bank.BV(64, uint64(lo))})
		return lo
	}
	t := p.bank.Var(64, "i:"+name)
	if _, ok := p.model[t.name]; !ok {
		p.model[t.name] = uint64(lo)
	}
	p.bounds[t] = [2]int64{lo, hi}
	if lo != math.MinInt64 {
		p.addPC(p.bank.Bin(OSLe, p.bank.BV(64, uint64(lo)), t))
	}
	if hi != math.MaxInt64 {
		p.addPC(p.bank.Bin(OSLe, t, p.bank.BV(64, uint64(hi))))
	}
	p.ndlog = append(p.ndlog, ndRec{name: name, kind: 'i', t: t})
	return t
}

func (m Model) clone() Model {
	n := make(Model, len(m)+8)
	for a, b := range m {
		n[a] = b
	}
	return n
}

func (p *Path) ndBool(label string) Value {
	name := p.uniq(label)
	t := p.bank.Var(0, "b:"+name)
	p.ndlog = append(p.ndlog, ndRec{name: name, kind: 'b', t: t})
	return t
}
func (p *Path) ndChoice(label string, n int) int {
	name := p.uniq(label)
	c := p.choice(n)
	p.ndlog = append(p.ndlog, ndRec{name: name, kind: 'c', v: int64(c)})
	return c
}
func (p *Path) ndAtom(label string) *Term {
	name := p.uniq(label)
	t := p.bank.Var(32, "a:"+name)
	if _, ok := p.model[t.name]; !ok {
		// distinct defaults make unconstrained atoms pairwise different
		p.model[t.name] = uint64(1000 + len(p.ndlog))
	}
	p.ndlog = append(p.ndlog, ndRec{name: name, kind: 'a', t: t})
	return t
}

// ndBytes: string of n symbolic bytes over an alphabet.
func (p *Path) ndBytes(label string, n int, alphabet string) Value {
	name := p.uniq(label)
	ps := make([]Piece, n)
	ts := make([]*Term, n)
	for i := range ps {
		t := p.bank.Var(8, fmt.Sprintf("s:%s.%d.%d", name, n, i))
		if _, ok := p.model[t.name]; !ok && alphabet != "" {
			p.model[t.name] = uint64(alphabet[0])
		}
		if alphabet != "" {
			c := p.bank.F
			for j := 0; j < len(alphabet); j++ {
				k := j
				for k+1 < len(alphabet) && alphabet[k+1] == alphabet[k]+1 {
					k++
				}
				if k > j+1 {
					c = p.bank.Or(c, p.bank.And(p.bank.Bin(OULe, p.bank.BV(8, uint64(alphabet[j])), t), p.bank.Bin(OULe, t, p.bank.BV(8, uint64(alphabet[k])))))
					j = k
				} else {
					c = p.bank.Or(c, p.bank.Eq(t, p.bank.BV(8, uint64(alphabet[j]))))
				}
			}
			p.addPC(c)
		}
		ts[i] = t
		ps[i] = Piece{k: pByte, t: t}
	}
	p.ndlog = append(p.ndlog, ndRec{name: name, kind: 's', ts: ts})
	return mkStr(ps)
}

// witness evaluates all nondet values under the model.
func (p *Path) witness(m Model) *Witness {
	w := &Witness{Harness: p.e.harness, Tier: p.e.tier, Vals: map[string]int64{}, Strs: map[string]string{}, Bytes: map[string]string{}}
	ev := evaler{m, map[*Term]uint64{}}
	for _, r := range p.ndlog {
		switch r.kind {
		case 'i':
			w.Vals[r.name] = int64(ev.ev(r.t))
		case 'b':
			w.Vals[r.name] = int64(ev.ev(r.t))
		case 'c':
			w.Vals[r.name] = r.v
		case 'a':
			w.Strs[r.name] = atomText(ev.ev(r.t))
		case 's':
			b := make([]byte, len(r.ts))
			for i, t := range r.ts {
				b[i] = byte(ev.ev(t))
			}
			w.Bytes[r.name] = hex.EncodeToString(b)
		}
	}
	return w
}

// assert checks a property on this path.
func (p *Path) assert(v Value, msg string) {
	p.asserts++
	if b, ok := v.(bool); ok {
		if !b {
			p.violation("assert", msg, p.model)
			panic(pathEnd{"violated"})
		}
		return
	}
	t := v.(*Term)
	if r, ok := p.implied(t); ok {
		if !r {
			p.violation("assert", msg, p.model)
			panic(pathEnd{"violated"})
		}
		return
	}
	if p.pos < len(p.prefix) {
		// already checked when this prefix was first explored (the pc was weaker)
		p.addPC(t)
		return
	}
	p.assertSym++
	r, m := p.query(p.bank.Not(t))
	switch r {
	case 1:
		p.violation("assert", msg, m)
		// continue under the assumption that it holds
		r2, m2 := p.query(t)
		if r2 != 1 {
			panic(pathEnd{"violated"})
		}
		if p.eval(t) != 1 {
			p.setModel(m2)
		}
	case -1:
		p.note("solver-unknown-assert: " + msg)
	}
	p.addPC(t)
}

func (p *Path) violation(kind, msg string, m Model) {
	p.violated = true
	e := p.e
	e.mu.Lock()
	defer e.mu.Unlock()
	k := kind + ":" + msg
	e.st.violCount[k]++
	if e.st.violCount[k] > 4 || len(e.st.Violations) > 40 {
		return
	}
	w := p.witness(m)
	w.Expect = k
	e.st.Violations = append(e.st.Violations, &Violation{Harness: e.harness, Kind: kind, Msg: msg, Witness: w})
}
