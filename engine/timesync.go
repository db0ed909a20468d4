package main

import (
	"go/types"
)

// time.Time is Struct{wall, ext, loc}; Now has no monotonic reading, so
// ext is seconds since year 1 and wall holds nanoseconds.

const nsecMask = 1<<30 - 1

func (fr *Frame) timeParts(v Value) (sec, nsec Value) {
	s := v.(Struct)
	w, ok := s[0].(int64)
	if !ok {
		// symbolic nanoseconds
		return s[1], s[0]
	}
	if w < 0 { // hasMonotonic
		panic(unsup("monotonic time"))
	}
	return s[1], w & nsecMask
}

var kI64 = tk{kInt, 64, true}

func (fr *Frame) localLoc() Value {
	if w := fr.p.w; w.prog.timeLocal != nil {
		return *w.global(fr, w.prog.timeLocal)
	}
	return (*Value)(nil)
}

func (fr *Frame) addI(x, y Value) Value {
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			return a + b
		}
	}
	b := fr.p.bank
	return intVal(b.Bin(OAdd, b.intTerm(x, 64), b.intTerm(y, 64)), kI64)
}
func (fr *Frame) subI(x, y Value) Value {
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			return a - b
		}
	}
	b := fr.p.bank
	return intVal(b.Bin(OSub, b.intTerm(x, 64), b.intTerm(y, 64)), kI64)
}

func (fr *Frame) now() Value {
	return Struct{int64(0), fr.addI(fr.p.clock, unixToInternal), fr.localLoc()}
}

func (fr *Frame) ltI(x, y Value) Value {
	if a, ok := x.(int64); ok {
		if b, ok := y.(int64); ok {
			return a < b
		}
	}
	b := fr.p.bank
	return fr.p.cmp(OSLt, b.intTerm(x, 64), b.intTerm(y, 64))
}
func (fr *Frame) eqI(x, y Value) Value {
	return fr.eq(types.Typ[types.Int64], x, y)
}

func (fr *Frame) timeBefore(x, y Value) Value {
	s1, n1 := fr.timeParts(x)
	s2, n2 := fr.timeParts(y)
	b := fr.p.bank
	return or(b, fr.ltI(s1, s2), and(b, fr.eqI(s1, s2), fr.ltI(n1, n2)))
}
func (fr *Frame) timeEq(x, y Value) Value {
	s1, n1 := fr.timeParts(x)
	s2, n2 := fr.timeParts(y)
	return and(fr.p.bank, fr.eqI(s1, s2), fr.eqI(n1, n2))
}

const maxSecs = 9223372035 // |seconds| safely inside a Duration

func (fr *Frame) timeSub(x, y Value) Value {
	s1, n1 := fr.timeParts(x)
	s2, n2 := fr.timeParts(y)
	b := fr.p.bank
	if a, ok := s1.(int64); ok {
		if c, ok := s2.(int64); ok {
			// concrete seconds may wrap: saturate
			d := a - c
			if (a < 0) != (c < 0) && (d < 0) != (a < 0) || d > maxSecs || d < -maxSecs {
				if a > c {
					return int64(1<<63 - 1)
				}
				return int64(-1 << 63)
			}
		}
	}
	ds := fr.subI(s1, s2)
	if t, ok := ds.(*Term); ok {
		lo, hi, k := fr.p.rng(t)
		if !k {
			// decide wrap-around of the seconds difference via operands
			t1, t2 := b.intTerm(s1, 64), b.intTerm(s2, 64)
			neg := fr.p.decide(fr.p.cmp(OSLt, t1, t2))
			q := rngMax
			c1 := and(b, fr.p.cmp(OSLt, b.BV(64, uint64(-q)), t1), fr.p.cmp(OSLt, t1, b.BV(64, uint64(q))))
			c2 := and(b, fr.p.cmp(OSLt, b.BV(64, uint64(-q)), t2), fr.p.cmp(OSLt, t2, b.BV(64, uint64(q))))
			if !fr.p.decide(and(b, c1, c2)) {
				panic(unsup("time difference beyond 2^62 seconds"))
			}
			if neg {
				lo, hi = -1<<62, -1
			} else {
				lo, hi = 0, 1<<62
			}
		}
		if hi > maxSecs && fr.p.decide(fr.p.cmp(OSLt, b.BV(64, maxSecs), t)) {
			return int64(1<<63 - 1)
		}
		if lo < -maxSecs && fr.p.decide(fr.p.cmp(OSLt, t, b.BV(64, ^uint64(maxSecs)+1))) {
			return int64(-1 << 63)
		}
		if _, _, k2 := fr.p.rng(t); !k2 || lo < -maxSecs || hi > maxSecs {
			fr.p.narrow(t, max(lo, -maxSecs), min(hi, maxSecs))
		}
	}
	d := fr.arith(mulTok, ds, int64(1000000000), kI64, kI64)
	return fr.addI(d, fr.subI(n1, n2))
}

// narrow records a range implied by the path condition.
func (p *Path) narrow(t *Term, lo, hi int64) { p.bounds[t] = [2]int64{lo, hi} }

// ---- sync ----

type mutexState struct {
	w       bool
	r       int
	waiters []*mwait
	vc      vclock
}
type mwait struct {
	g    *Gor
	read bool
}
type wgState struct {
	n       int64
	waiters []*Gor
	vc      vclock
}

func (fr *Frame) mstate(v Value) *mutexState {
	p := fr.deref(v)
	if s, ok := fr.p.side[p].(*mutexState); ok {
		return s
	}
	s := &mutexState{}
	fr.p.side[p] = s
	return s
}

func (fr *Frame) lock(v Value, read bool) {
	s := fr.mstate(v)
	fr.p.sched.maybeYield(fr.g)
	for (s.w) || (!read && s.r > 0) {
		s.waiters = append(s.waiters, &mwait{fr.g, read})
		fr.p.sched.block(fr)
	}
	if read {
		s.r++
	} else {
		s.w = true
	}
	if fr.p.race != nil {
		fr.p.race.acquire(fr.g, s.vc)
	}
}
func (fr *Frame) unlock(v Value, read bool) {
	s := fr.mstate(v)
	if read {
		if s.r == 0 {
			panic(targetPanic{v: Iface{t: rtErr, v: "fatal error: sync: RUnlock of unlocked RWMutex"}, tr: fr.trace()})
		}
		s.r--
	} else {
		if !s.w {
			panic(targetPanic{v: Iface{t: rtErr, v: "fatal error: sync: unlock of unlocked mutex"}, tr: fr.trace()})
		}
		s.w = false
	}
	if fr.p.race != nil {
		s.vc = fr.p.race.release(fr.g, s.vc)
	}
	for _, w := range s.waiters {
		fr.p.sched.wakeup(w.g)
	}
	s.waiters = nil
}

func (fr *Frame) wg(v Value) *wgState {
	p := fr.deref(v)
	if s, ok := fr.p.side[p].(*wgState); ok {
		return s
	}
	s := &wgState{}
	fr.p.side[p] = s
	return s
}

type smap struct {
	m  *MapV
	vc vclock
}

var emptyIface types.Type = types.NewInterfaceType(nil, nil)

func (fr *Frame) smapOf(v Value) *smap {
	p := fr.deref(v)
	if s, ok := fr.p.side[p].(*smap); ok {
		return s
	}
	s := &smap{m: newMap()}
	fr.p.side[p] = s
	return s
}

func timeInit() {
	reg(func(fr *Frame, a []Value) Value { return fr.now() }, "time.Now")
	reg(func(fr *Frame, a []Value) Value { return int64(1) }, "time.runtimeNano")
	reg(func(fr *Frame, a []Value) Value { return fr.timeSub(a[0], a[1]) }, "(time.Time).Sub")
	reg(func(fr *Frame, a []Value) Value { return fr.timeSub(a[0], fr.now()) }, "time.Until")
	reg(func(fr *Frame, a []Value) Value { return fr.timeSub(fr.now(), a[0]) }, "time.Since")
	reg(func(fr *Frame, a []Value) Value { return fr.timeBefore(a[0], a[1]) }, "(time.Time).Before")
	reg(func(fr *Frame, a []Value) Value { return fr.timeBefore(a[1], a[0]) }, "(time.Time).After")
	reg(func(fr *Frame, a []Value) Value { return fr.timeEq(a[0], a[1]) }, "(time.Time).Equal")
	reg(func(fr *Frame, a []Value) Value {
		s, n := fr.timeParts(a[0])
		return and(fr.p.bank, fr.eqI(s, int64(0)), fr.eqI(n, int64(0)))
	}, "(time.Time).IsZero")
	reg(func(fr *Frame, a []Value) Value { return "<time>" }, "(time.Time).String", "(time.Time).Format")
	reg(func(fr *Frame, a []Value) Value {
		if d, ok := a[0].(int64); ok && d%1000000000 == 0 {
			fr.p.clock = fr.addI(fr.p.clock, d/1000000000)
			fr.p.expire(fr)
		} else {
			panic(unsup("sub-second sleep"))
		}
		return nil
	}, "time.Sleep")
	reg(func(fr *Frame, a []Value) Value {
		// stable opaque encoding of the instant (zone offsets are not modelled)
		s, n := fr.timeParts(a[0])
		return Tuple{Slice{&Hole{kind: "msgpack", doc: &mpDoc{kind: "time", v: Tuple{s, n}}}}, Iface{}}
	}, "(time.Time).MarshalBinary")
	reg(func(fr *Frame, a []Value) Value {
		p := fr.deref(a[0])
		s, _ := a[1].(Slice)
		if len(s) == 1 {
			if h, ok := s[0].(*Hole); ok && h.kind == "msgpack" {
				if d := h.doc.(*mpDoc); d.kind == "time" {
					t := d.v.(Tuple)
					store(p, Struct{t[1], t[0], fr.localLoc()})
					return Iface{}
				}
			}
		}
		return mkErr(fr, "Time.UnmarshalBinary: invalid data")
	}, "(*time.Time).UnmarshalBinary")

	reg(func(fr *Frame, a []Value) Value { fr.lock(a[0], false); return nil }, "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(func(fr *Frame, a []Value) Value { fr.unlock(a[0], false); return nil }, "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(func(fr *Frame, a []Value) Value { fr.lock(a[0], true); return nil }, "(*sync.RWMutex).RLock")
	reg(func(fr *Frame, a []Value) Value { fr.unlock(a[0], true); return nil }, "(*sync.RWMutex).RUnlock")
	try := func(fr *Frame, a []Value) Value {
		s := fr.mstate(a[0])
		if s.w || s.r > 0 {
			return false
		}
		fr.lock(a[0], false)
		return true
	}
	reg(try, "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock")
	reg(func(fr *Frame, a []Value) Value {
		s := fr.wg(a[0])
		s.n += fr.intArg(a[1])
		if s.n < 0 {
			fr.goPanic("sync: negative WaitGroup counter")
		}
		if fr.p.race != nil {
			s.vc = fr.p.race.release(fr.g, s.vc)
		}
		if s.n == 0 {
			for _, g := range s.waiters {
				fr.p.sched.wakeup(g)
			}
			s.waiters = nil
		}
		return nil
	}, "(*sync.WaitGroup).Add")
	reg(func(fr *Frame, a []Value) Value {
		return intrinsics["(*sync.WaitGroup).Add"](fr, []Value{a[0], int64(-1)})
	}, "(*sync.WaitGroup).Done")
	reg(func(fr *Frame, a []Value) Value {
		s := fr.wg(a[0])
		for s.n > 0 {
			s.waiters = append(s.waiters, fr.g)
			fr.p.sched.block(fr)
		}
		if fr.p.race != nil {
			fr.p.race.acquire(fr.g, s.vc)
		}
		return nil
	}, "(*sync.WaitGroup).Wait")
	reg(func(fr *Frame, a []Value) Value {
		wg := a[0]
		intrinsics["(*sync.WaitGroup).Add"](fr, []Value{wg, int64(1)})
		f := a[1]
		fr.p.sched.spawn(fr, func(f2 *Frame) {
			f2.call(f, nil)
			intrinsics["(*sync.WaitGroup).Add"](f2, []Value{wg, int64(-1)})
		})
		return nil
	}, "(*sync.WaitGroup).Go")
	// sync.Map
	smAcc := func(fr *Frame, s *smap, wr bool) {
		if fr.p.race != nil {
			fr.p.race.acquire(fr.g, s.vc)
			if wr {
				s.vc = fr.p.race.release(fr.g, s.vc)
			}
		}
	}
	sm := func(n string, f func(fr *Frame, s *smap, a []Value) Value) {
		reg(func(fr *Frame, a []Value) Value {
			s := fr.smapOf(a[0])
			smAcc(fr, s, n != "Load")
			or := fr.p.race
			fr.p.race = nil
			defer func() { fr.p.race = or }()
			return f(fr, s, a)
		}, "(*sync.Map)."+n)
	}
	ld := func(fr *Frame, s *smap, k Value) (Value, bool) {
		if e := fr.mapFind(s.m, k, emptyIface); e != nil {
			return e.v, true
		}
		return Iface{}, false
	}
	sm("Load", func(fr *Frame, s *smap, a []Value) Value { v, ok := ld(fr, s, a[1]); return Tuple{v, ok} })
	sm("Store", func(fr *Frame, s *smap, a []Value) Value { fr.mapSet(s.m, a[1], a[2], emptyIface); return nil })
	sm("Delete", func(fr *Frame, s *smap, a []Value) Value { fr.mapDelete(s.m, a[1], emptyIface); return nil })
	sm("Swap", func(fr *Frame, s *smap, a []Value) Value {
		v, ok := ld(fr, s, a[1])
		fr.mapSet(s.m, a[1], a[2], emptyIface)
		return Tuple{v, ok}
	})
	sm("LoadOrStore", func(fr *Frame, s *smap, a []Value) Value {
		if v, ok := ld(fr, s, a[1]); ok {
			return Tuple{v, true}
		}
		fr.mapSet(s.m, a[1], a[2], emptyIface)
		return Tuple{a[2], false}
	})
	sm("LoadAndDelete", func(fr *Frame, s *smap, a []Value) Value {
		v, ok := ld(fr, s, a[1])
		fr.mapDelete(s.m, a[1], emptyIface)
		return Tuple{v, ok}
	})
	reg(func(fr *Frame, a []Value) Value {
		s := fr.smapOf(a[0])
		for _, e := range fr.rangeEnts(s.m) {
			if !fr.p.decide(fr.call(a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	}, "(*sync.Map).Range")
	reg(func(fr *Frame, a []Value) Value {
		s := (*fr.deref(a[0])).(Struct)
		nf, _ := s[len(s)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return fr.call(nf, nil)
	}, "(*sync.Pool).Get")
	reg(func(fr *Frame, a []Value) Value { return nil }, "(*sync.Pool).Put")
}
