package main

import "sort"

// Linear comparisons. Sums of terms that cannot overflow on this path are
// compared in a canonical form of minimal width: equal conditions become equal
// terms and the solver gets small adders.

type linSum struct {
	co map[*Term]int64
	c  int64   // modulo 2^64
	cf float64 // approximately
	ok bool
}

const linMax = int64(1) << 61

func small61(v int64) bool { return v > -linMax && v < linMax }

func mulOK(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	m := a * b
	if m/b != a || !small61(m) {
		return 0, false
	}
	return m, true
}

func (l *linSum) add(p *Path, t *Term, k int64) {
	if !l.ok {
		return
	}
	if t.isC() {
		// partial sums may overflow as long as the total does not
		l.c += int64(t.c) * k
		l.cf += float64(int64(t.c)) * float64(k)
		return
	}
	lo, hi, ok := p.rng(t)
	if !ok || !small61(lo) || !small61(hi) {
		l.ok = false
		return
	}
	known := func(x *Term) bool { _, _, k := p.rng(x); return k }
	switch t.op {
	case OAdd, OSub:
		if known(t.a[0]) && known(t.a[1]) {
			l.add(p, t.a[0], k)
			if t.op == OSub {
				k = -k
			}
			l.add(p, t.a[1], k)
			return
		}
	case OMul:
		if t.a[1].isC() && known(t.a[0]) {
			if m, ok := mulOK(k, int64(t.a[1].c)); ok {
				l.add(p, t.a[0], m)
				return
			}
		}
	}
	n := l.co[t] + k
	if n == 0 {
		delete(l.co, t)
	} else {
		l.co[t] = n
	}
	l.ok = small61(n)
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// linear decomposes x-y into sorted atoms, coefficients divided by their gcd g,
// the constant, and the range of the (divided) sum.
func (p *Path) linear(x, y *Term) (at []*Term, co []int64, g, c int64, ok bool) {
	l := linSum{co: map[*Term]int64{}, ok: true}
	l.add(p, x, 1)
	l.add(p, y, -1)
	if !l.ok || l.cf >= 1<<61 || l.cf <= -1<<61 {
		return
	}
	for t, k := range l.co {
		at = append(at, t)
		g = gcd(g, k)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	if len(at) > 0 && l.co[at[0]] < 0 {
		g = -g
	}
	for _, t := range at {
		co = append(co, l.co[t]/g)
	}
	return at, co, g, l.c, true
}

// sums builds the two sides P <= N + d of a canonical comparison; ok is false
// if they might not fit.
func (p *Path) sums(at []*Term, co []int64, d int64) (l, r *Term, tr, fa, ok bool) {
	var plo, phi, nlo, nhi int64
	for i, t := range at {
		lo, hi, _ := p.rng(t)
		k := co[i]
		if k < 0 {
			k = -k
		}
		a, ok1 := mulOK(lo, k)
		b, ok2 := mulOK(hi, k)
		if !ok1 || !ok2 {
			return
		}
		if co[i] > 0 {
			plo, phi = plo+a, phi+b
		} else {
			nlo, nhi = nlo+a, nhi+b
		}
		if !small61(plo) || !small61(phi) || !small61(nlo) || !small61(nhi) {
			return
		}
	}
	if !small61(d) {
		return
	}
	tr = phi <= nlo+d
	fa = plo > nhi+d
	if d < 0 {
		plo, phi = plo-d, phi-d
	} else {
		nlo, nhi = nlo+d, nhi+d
	}
	m := max(phi, nhi, -plo-1, -nlo-1)
	w := uint8(2)
	for w < 64 && m >= int64(1)<<(w-1) {
		w++
	}
	for _, s := range []uint8{8, 16, 24, 32, 40, 48, 64} {
		if w <= s {
			w = s
			break
		}
		if s == 64 {
			w = 64
		}
	}
	b := p.bank
	lo := func(t *Term) *Term {
		if w == 64 {
			return t
		}
		return b.Extract(t, w-1, 0)
	}
	part := func(pos bool, c int64) *Term {
		var s *Term
		for i, t := range at {
			k := co[i]
			if (k > 0) != pos {
				continue
			}
			if k < 0 {
				k = -k
			}
			e := lo(t)
			if k != 1 {
				e = b.Bin(OMul, e, b.BV(w, uint64(k)))
			}
			if s == nil {
				s = e
			} else {
				s = b.Bin(OAdd, s, e)
			}
		}
		if s == nil {
			return b.BV(w, uint64(c))
		}
		if c != 0 {
			s = b.Bin(OAdd, s, b.BV(w, uint64(c)))
		}
		return s
	}
	if d < 0 {
		return part(true, -d), part(false, 0), tr, fa, true
	}
	return part(true, 0), part(false, d), tr, fa, true
}

// linCmp2 compares x < y (or <=) canonically; nil if not linear.
func (p *Path) linCmp2(op Op, x, y *Term) *Term {
	at, co, g, c, ok := p.linear(x, y)
	if !ok {
		return nil
	}
	// g*S + c < 0  <=>  g*S <= -c-1
	d := -c
	if op == OSLt {
		d--
	}
	b := p.bank
	if len(at) == 0 {
		return b.Bool(0 <= d)
	}
	neg := false
	if g > 0 {
		d = floorDiv(d, g) // S <= d
	} else {
		// S >= d/g rounded up = not (S <= ceil-1)
		h := -g
		d = -floorDiv(d, h) - 1
		neg = true
	}
	l, r, tr, fa, ok := p.sums(at, co, d)
	if !ok {
		return nil
	}
	var t *Term
	switch {
	case tr:
		t = b.T
	case fa:
		t = b.F
	default:
		t = b.Bin(OSLe, l, r)
	}
	if neg {
		t = b.Not(t)
	}
	return t
}

// linEq2 compares x == y canonically; nil if not linear.
func (p *Path) linEq2(x, y *Term) *Term {
	at, co, g, c, ok := p.linear(x, y)
	if !ok {
		return nil
	}
	b := p.bank
	if len(at) == 0 {
		return b.Bool(c == 0)
	}
	if c%g != 0 {
		return b.F
	}
	l, r, _, fa, ok := p.sums(at, co, -c/g)
	if !ok {
		return nil
	}
	if fa {
		return b.F
	}
	return b.Eq(l, r)
}
