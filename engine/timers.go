package main

// Timers in virtual time. They fire when the clock passes their time, or, as
// in a testing/synctest bubble, when nothing else can happen.

type vtimer struct {
	at     Value // second
	period int64 // seconds, of a ticker
	fire   func(fr *Frame)
	off    bool
}

func (p *Path) addTimer(fr *Frame, v Value, period bool, fire func(fr *Frame)) *vtimer {
	t := &vtimer{fire: fire}
	s := timerSecs(v)
	if period {
		t.period = max(s, 1)
	}
	t.at = fr.addI(p.clock, s)
	p.timers = append(p.timers, t)
	return t
}

func timerSecs(v Value) int64 {
	d, ok := v.(int64)
	if !ok {
		panic(unsup("timer with a symbolic duration"))
	}
	return max(0, d/1e9+map[bool]int64{true: 1}[d%1e9 > 0])
}

// expire fires the timers due now.
func (p *Path) expire(fr *Frame) {
	for i := 0; i < len(p.timers); i++ {
		t := p.timers[i]
		for n := 0; !t.off && !p.decide(fr.ltI(p.clock, t.at)); n++ {
			if t.period == 0 {
				t.off = true
			} else if t.at = fr.addI(t.at, t.period); n > 3 {
				t.at = fr.addI(p.clock, t.period) // the channel is full anyway
			}
			t.fire(fr)
		}
	}
	w := p.timers[:0]
	for _, t := range p.timers {
		if !t.off {
			w = append(w, t)
		}
	}
	p.timers = w
}

// nextTimer advances the clock to the first timer.
func (p *Path) nextTimer(g *Gor) bool {
	fr := &Frame{p: p, g: g}
	var first *vtimer
	for _, t := range p.timers {
		if !t.off && (first == nil || p.decide(fr.ltI(t.at, first.at))) {
			first = t
		}
	}
	if first == nil {
		return false
	}
	if p.decide(fr.ltI(p.clock, first.at)) {
		p.clock = first.at
	}
	p.expire(fr)
	return true
}

func timerInit() {
	chTimer := func(fr *Frame, d Value, period bool) Value {
		c := &Chan{cap: 1, et: nil}
		t := fr.p.addTimer(fr, d, period, func(fr *Frame) {
			if len(c.buf) == 0 {
				c.trySend(fr, fr.now())
			}
		})
		ptr := newPtr(Struct{c, true})
		fr.p.side[ptr] = t
		return ptr
	}
	reg(func(fr *Frame, a []Value) Value { return chTimer(fr, a[0], false) }, "time.NewTimer")
	reg(func(fr *Frame, a []Value) Value {
		if d, ok := a[0].(int64); ok && d <= 0 {
			fr.goPanic("non-positive interval for NewTicker")
		}
		return chTimer(fr, a[0], true)
	}, "time.NewTicker")
	reg(func(fr *Frame, a []Value) Value {
		return (*chTimer(fr, a[0], false).(*Value)).(Struct)[0]
	}, "time.After")
	reg(func(fr *Frame, a []Value) Value {
		return (*chTimer(fr, a[0], true).(*Value)).(Struct)[0]
	}, "time.Tick")
	reg(func(fr *Frame, a []Value) Value {
		f := a[1]
		t := fr.p.addTimer(fr, a[0], false, func(fr *Frame) {
			fr.p.sched.spawn(fr, func(f2 *Frame) { f2.call(f, nil) })
		})
		ptr := newPtr(Struct{(*Chan)(nil), true})
		fr.p.side[ptr] = t
		return ptr
	}, "time.AfterFunc")
	stop := func(fr *Frame, v Value) (*vtimer, bool) {
		t, ok := fr.p.side[fr.deref(v)].(*vtimer)
		if !ok {
			fr.goPanic("time: Stop called on uninitialized Timer")
		}
		was := !t.off
		t.off = true
		if c, ok := (*fr.deref(v)).(Struct)[0].(*Chan); ok && c != nil {
			c.buf = nil // since Go 1.23
		}
		return t, was
	}
	reg(func(fr *Frame, a []Value) Value { _, was := stop(fr, a[0]); return was }, "(*time.Timer).Stop")
	reg(func(fr *Frame, a []Value) Value { stop(fr, a[0]); return nil }, "(*time.Ticker).Stop")
	reset := func(fr *Frame, a []Value) bool {
		t, was := stop(fr, a[0])
		fr.p.side[fr.deref(a[0])] = fr.p.addTimer(fr, a[1], t.period > 0, t.fire)
		return was
	}
	reg(func(fr *Frame, a []Value) Value { return reset(fr, a) }, "(*time.Timer).Reset")
	reg(func(fr *Frame, a []Value) Value { reset(fr, a); return nil }, "(*time.Ticker).Reset")
}

type condState struct {
	waiters []*Gor
	vc      vclock
}

func condInit() {
	state := func(fr *Frame, v Value) *condState {
		p := fr.deref(v)
		if s, ok := fr.p.side[p].(*condState); ok {
			return s
		}
		s := &condState{}
		fr.p.side[p] = s
		return s
	}
	locker := func(fr *Frame, v Value, name string) {
		l := (*fr.deref(v)).(Struct)[1].(Iface)
		fr.callInfo(fr.p.w.prog.info(fr.p.w.prog.methodByName(l.t, name)), []Value{l.v}, nil)
	}
	reg(func(fr *Frame, a []Value) Value {
		s := state(fr, a[0])
		s.waiters = append(s.waiters, fr.g)
		locker(fr, a[0], "Unlock")
		for {
			waiting := false
			for _, g := range s.waiters {
				waiting = waiting || g == fr.g
			}
			if !waiting {
				break
			}
			fr.p.sched.block(fr)
		}
		if fr.p.race != nil {
			fr.p.race.acquire(fr.g, s.vc)
		}
		locker(fr, a[0], "Lock")
		return nil
	}, "(*sync.Cond).Wait")
	wake := func(all bool) intrinsic {
		return func(fr *Frame, a []Value) Value {
			s := state(fr, a[0])
			if fr.p.race != nil {
				s.vc = fr.p.race.release(fr.g, s.vc)
			}
			for len(s.waiters) > 0 {
				g := s.waiters[0]
				s.waiters = s.waiters[1:]
				fr.p.sched.wakeup(g)
				if !all {
					break
				}
			}
			return nil
		}
	}
	reg(wake(false), "(*sync.Cond).Signal")
	reg(wake(true), "(*sync.Cond).Broadcast")
}
