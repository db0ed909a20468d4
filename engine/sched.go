package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var lessTok = token.LSS
var mulTok = token.MUL

// Goroutines are host goroutines passing a baton: exactly one runs at a time.
type Gor struct {
	id    int
	wake  chan struct{}
	depth int
	vc    vclock
	done  bool
}

type Sched struct {
	p           *Path
	ready       []*Gor
	all         []*Gor
	cur         *Gor
	main        *Gor
	abort       any // non-nil: path is being torn down with this panic value
	idle        chan struct{}
	mainWaiting bool // main is in Quiesce
}

type Chan struct {
	cap    int
	buf    []Value
	et     types.Type
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	vc     vclock
}
type waiter struct {
	g    *Gor
	v    Value
	ok   bool
	done *bool // shared by all cases of one select
	idx  int
	sel  *int
	fin  bool
}

func newSched(p *Path) *Sched {
	g := &Gor{id: 0, wake: make(chan struct{}, 1)}
	return &Sched{p: p, all: []*Gor{g}, cur: g, main: g}
}

type deadlock struct{}

// spawn starts a goroutine; it becomes ready, the spawner keeps running
// (unless schedule exploration decides otherwise).
func (s *Sched) spawn(fr *Frame, body func(*Frame)) {
	if len(s.all) > 3000 {
		panic(unsup("too many goroutines"))
	}
	g := &Gor{id: len(s.all), wake: make(chan struct{}, 1)}
	s.all = append(s.all, g)
	p := s.p
	if p.race != nil {
		p.race.fork(fr.g, g)
	}
	go func() {
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			if s.abort == nil && r != nil {
				if _, ok := r.(abortG); !ok {
					s.abort = r
				}
			}
			s.exit(g)
		}()
		if s.abort != nil {
			panic(abortG{})
		}
		f := &Frame{p: p, g: g}
		body(f)
	}()
	s.ready = append(s.ready, g)
	if p.schedChoices > 0 {
		s.maybeYield(fr.g)
	}
}

type abortG struct{}

// maybeYield: a schedule choice whether another ready goroutine runs now.
func (s *Sched) maybeYield(g *Gor) {
	p := s.p
	if p.schedChoices <= 0 || len(s.ready) == 0 {
		return
	}
	c := p.choice(2)
	if c == 1 {
		p.schedChoices--
		s.ready = append(s.ready, g)
		s.switchFrom(g)
	}
}

// exit passes the baton when a goroutine ends.
func (s *Sched) exit(g *Gor) {
	if s.abort != nil {
		s.tearNext()
		return
	}
	s.dispatch(nil)
}

// tearNext wakes goroutines one by one so that each unwinds; main last.
func (s *Sched) tearNext() {
	for _, g := range s.all[1:] {
		if !g.done {
			s.cur = g
			g.wake <- struct{}{}
			return
		}
	}
	s.cur = s.main
	s.main.wake <- struct{}{}
}

// pick chooses the next ready goroutine.
func (s *Sched) pick() *Gor {
	n := len(s.ready)
	if n == 0 {
		return nil
	}
	i := 0
	if s.p.schedChoices > 0 && n > 1 {
		if i = s.p.choice(n); i != 0 {
			s.p.schedChoices--
		}
	}
	g := s.ready[i]
	s.ready = append(append([]*Gor{}, s.ready[:i]...), s.ready[i+1:]...)
	return g
}

// dispatch hands the baton to the next ready goroutine. from==nil: caller ends.
func (s *Sched) dispatch(from *Gor) {
	var g *Gor
	func() {
		defer func() {
			if r := recover(); r != nil {
				s.abort = r
			}
		}()
		if g = s.pick(); g == nil && !s.mainWaiting && s.p.nextTimer(s.main) {
			g = s.pick()
		}
	}()
	if s.abort != nil {
		s.tearNext()
		return
	}
	if g == nil {
		if s.mainWaiting {
			s.cur = s.main
			s.mainWaiting = false
			s.main.wake <- struct{}{}
			return
		}
		s.abort = deadlock{}
		s.tearNext()
		return
	}
	s.cur = g
	g.wake <- struct{}{}
}

// switchFrom blocks g until it is woken again.
func (s *Sched) switchFrom(g *Gor) {
	s.dispatch(g)
	<-g.wake
	if s.abort != nil {
		if g == s.main {
			panic(s.abort)
		}
		panic(abortG{})
	}
	s.cur = g
}

func (s *Sched) block(fr *Frame) { s.switchFrom(fr.g) }
func (s *Sched) wakeup(g *Gor)   { s.ready = append(s.ready, g) }

// quiesce runs all other goroutines until they end or block.
func (s *Sched) quiesce(fr *Frame) {
	if fr.g != s.main {
		panic(unsup("quiesce off main"))
	}
	if len(s.ready) > 0 {
		s.mainWaiting = true
		s.switchFrom(fr.g)
	}
	// as synctest.Wait, waiting for the others synchronizes with them
	if r := fr.p.race; r != nil {
		for _, g := range s.all {
			if g != fr.g {
				r.acquire(fr.g, r.release(g, nil))
			}
		}
	}
}

// finish tears down goroutines left over at the end of a path.
func (s *Sched) finish() {
	if s.abort == nil {
		s.abort = pathEnd{"end"}
	}
	for _, g := range s.all[1:] {
		if !g.done {
			s.tearNext()
			<-s.main.wake
			return
		}
	}
}

// ---- channels ----

func (fr *Frame) recv(c *Chan, t types.Type) (Value, bool) {
	if c == nil {
		fr.p.sched.block(fr)
		panic(unsup("recv nil chan"))
	}
	s := fr.p.sched
	if v, ok, got := c.tryRecv(fr); got {
		return v, ok
	}
	done := false
	w := &waiter{g: fr.g, done: &done}
	c.recvq = append(c.recvq, w)
	s.block(fr)
	fr.acquire(c)
	return w.v, w.ok
}

func (fr *Frame) acquire(c *Chan) {
	if fr.p.race != nil {
		fr.p.race.acquire(fr.g, c.vc)
	}
}
func (fr *Frame) release(c *Chan) {
	if fr.p.race != nil {
		c.vc = fr.p.race.release(fr.g, c.vc)
	}
}

func (c *Chan) tryRecv(fr *Frame) (Value, bool, bool) {
	s := fr.p.sched
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		fr.acquire(c)
		for len(c.sendq) > 0 {
			w := c.sendq[0]
			c.sendq = c.sendq[1:]
			if *w.done {
				continue
			}
			*w.done = true
			if w.sel != nil {
				*w.sel = w.idx
			}
			c.buf = append(c.buf, w.v)
			s.wakeup(w.g)
			break
		}
		return v, true, true
	}
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if *w.done {
			continue
		}
		*w.done = true
		if w.sel != nil {
			*w.sel = w.idx
		}
		s.wakeup(w.g)
		fr.acquire(c)
		return w.v, true, true
	}
	if c.closed {
		fr.acquire(c)
		return zero(c.et), false, true
	}
	return nil, false, false
}

func (c *Chan) trySend(fr *Frame, v Value) bool {
	s := fr.p.sched
	if c.closed {
		panic(targetPanic{v: Iface{t: rtErr, v: "send on closed channel"}, tr: fr.trace()})
	}
	fr.release(c)
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if *w.done {
			continue
		}
		*w.done = true
		w.v, w.ok = v, true
		if w.sel != nil {
			*w.sel = w.idx
		}
		s.wakeup(w.g)
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (fr *Frame) send(c *Chan, v Value) {
	s := fr.p.sched
	if c == nil {
		s.block(fr)
		panic(unsup("send nil chan"))
	}
	if c.trySend(fr, v) {
		s.maybeYield(fr.g)
		return
	}
	done := false
	c.sendq = append(c.sendq, &waiter{g: fr.g, v: v, done: &done})
	s.block(fr)
	if c.closed && !done {
		panic(targetPanic{v: Iface{t: rtErr, v: "send on closed channel"}, tr: fr.trace()})
	}
}

func (fr *Frame) closeChan(c *Chan) {
	if c == nil || c.closed {
		panic(targetPanic{v: Iface{t: rtErr, v: "close of closed or nil channel"}, tr: fr.trace()})
	}
	c.closed = true
	fr.release(c)
	for _, w := range c.recvq {
		if *w.done {
			continue
		}
		*w.done = true
		w.v, w.ok = zero(c.et), false
		if w.sel != nil {
			*w.sel = w.idx
		}
		fr.p.sched.wakeup(w.g)
	}
	c.recvq = nil
	for _, w := range c.sendq {
		if !*w.done {
			fr.p.sched.wakeup(w.g)
		}
	}
}

func (fr *Frame) selectStmt(it *instr, in *ssa.Select) Value {
	s := fr.p.sched
	n := len(in.States)
	res := func(idx int, ok bool, v Value) Value {
		t := Tuple{int64(idx), ok}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				if i == idx {
					t = append(t, v)
				} else {
					t = append(t, zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		return t
	}
	var chans []*Chan
	for i := 0; i < n; i++ {
		c, _ := fr.get(&it.args[2*i]).(*Chan)
		chans = append(chans, c)
	}
	order := 0
	if s.p.schedChoices > 0 && n > 1 {
		if order = s.p.choice(n); order != 0 {
			s.p.schedChoices--
		}
	}
	for k := 0; k < n; k++ {
		i := (k + order) % n
		c := chans[i]
		if c == nil {
			continue
		}
		if in.States[i].Dir == types.RecvOnly {
			if v, ok, got := c.tryRecv(fr); got {
				return res(i, ok, v)
			}
		} else if c.trySend(fr, cp(fr.get(&it.args[2*i+1]))) {
			return res(i, false, nil)
		}
	}
	if !in.Blocking {
		return res(-1, false, nil)
	}
	done := false
	sel := -1
	ws := make([]*waiter, n)
	for i, c := range chans {
		if c == nil {
			continue
		}
		w := &waiter{g: fr.g, done: &done, idx: i, sel: &sel}
		ws[i] = w
		if in.States[i].Dir == types.RecvOnly {
			c.recvq = append(c.recvq, w)
		} else {
			w.v = cp(fr.get(&it.args[2*i+1]))
			c.sendq = append(c.sendq, w)
		}
	}
	s.block(fr)
	if sel < 0 {
		panic(unsup("select wakeup"))
	}
	fr.acquire(chans[sel])
	return res(sel, ws[sel].ok, ws[sel].v)
}

// ---- happens-before race detection ----

type vclock map[int]int

type raceState struct {
	p     *Path
	wr    map[*Value]access
	rd    map[*Value]map[int]access
	wrO   map[any]access
	rdO   map[any]map[int]access
	found map[string]bool
	atom  map[*Value]vclock
}
type access struct {
	g, c int
	pos  string
}

func newRace(p *Path) *raceState {
	return &raceState{p: p, wr: map[*Value]access{}, rd: map[*Value]map[int]access{}, wrO: map[any]access{}, rdO: map[any]map[int]access{}, found: map[string]bool{}, atom: map[*Value]vclock{}}
}
func (r *raceState) clk(g *Gor) vclock {
	if g.vc == nil {
		g.vc = vclock{g.id: 1}
	}
	return g.vc
}
func (r *raceState) fork(a, b *Gor) {
	va := r.clk(a)
	b.vc = vclock{}
	for k, v := range va {
		b.vc[k] = v
	}
	b.vc[b.id] = 1
	va[a.id]++
}
func (r *raceState) acquire(g *Gor, v vclock) {
	c := r.clk(g)
	for k, x := range v {
		if x > c[k] {
			c[k] = x
		}
	}
}
func (r *raceState) release(g *Gor, old vclock) vclock {
	c := r.clk(g)
	n := vclock{}
	for k, x := range old {
		n[k] = x
	}
	for k, x := range c {
		if x > n[k] {
			n[k] = x
		}
	}
	c[g.id]++
	return n
}
func (r *raceState) hb(a access, g *Gor) bool { return a.g == g.id || r.clk(g)[a.g] >= a.c }

func (r *raceState) report(fr *Frame, a access, what string) {
	if !r.p.w.prog.raceRelevant(fr) {
		return
	}
	k := what + " " + fr.trace()
	if r.found[k] {
		return
	}
	r.found[k] = true
	r.p.violation("race", "data race: "+what, r.p.model)
	panic(pathEnd{"violated"})
}
func (pr *Program) raceRelevant(fr *Frame) bool { return true }

func (r *raceState) read(fr *Frame, x *Value) {
	g := fr.g
	if len(r.p.sched.all) < 2 {
		return
	}
	if a, ok := r.wr[x]; ok && !r.hb(a, g) {
		r.report(fr, a, "read "+fr.info.name+" / write "+a.pos)
	}
	m := r.rd[x]
	if m == nil {
		m = map[int]access{}
		r.rd[x] = m
	}
	m[g.id] = access{g.id, r.clk(g)[g.id], fr.info.name}
}
func (r *raceState) write(fr *Frame, x *Value) {
	g := fr.g
	if len(r.p.sched.all) < 2 {
		return
	}
	if a, ok := r.wr[x]; ok && !r.hb(a, g) {
		r.report(fr, a, "write "+fr.info.name+" / write "+a.pos)
	}
	for _, a := range r.rd[x] {
		if !r.hb(a, g) {
			r.report(fr, a, "write "+fr.info.name+" / read "+a.pos)
		}
	}
	delete(r.rd, x)
	r.wr[x] = access{g.id, r.clk(g)[g.id], fr.info.name}
}
func (r *raceState) readObj(fr *Frame, x any) {
	g := fr.g
	if len(r.p.sched.all) < 2 {
		return
	}
	if a, ok := r.wrO[x]; ok && !r.hb(a, g) {
		r.report(fr, a, "map read "+fr.info.name+" / map write "+a.pos)
	}
	m := r.rdO[x]
	if m == nil {
		m = map[int]access{}
		r.rdO[x] = m
	}
	m[g.id] = access{g.id, r.clk(g)[g.id], fr.info.name}
}
func (r *raceState) writeObj(fr *Frame, x any) {
	g := fr.g
	if len(r.p.sched.all) < 2 {
		return
	}
	if a, ok := r.wrO[x]; ok && !r.hb(a, g) {
		r.report(fr, a, "map write "+fr.info.name+" / map write "+a.pos)
	}
	for _, a := range r.rdO[x] {
		if !r.hb(a, g) {
			r.report(fr, a, "map write "+fr.info.name+" / map read "+a.pos)
		}
	}
	delete(r.rdO, x)
	r.wrO[x] = access{g.id, r.clk(g)[g.id], fr.info.name}
}
