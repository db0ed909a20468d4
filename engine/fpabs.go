package main

import (
	"fmt"
	"math"
	"os"
	"strings"
)

// Floating point: rounding is monotone, so intervals of IEEE operations are
// exact enough to decide most range checks without the solver. Where a query
// contains multiplications, divisions or roundings, it is first asked with
// these replaced by unknown values of their interval (an over-approximation:
// "unsat" is a proof), and only then exactly.

type fbound struct {
	lo, hi float64
	num    bool // known not to be NaN
}

// fpFact records what a path condition says about the range of a term.
func (p *Path) fpFact(t *Term) {
	neg := t.op == ONot
	if neg {
		t = t.a[0]
	}
	if t.op != OFLt && t.op != OFLe && t.op != OFEq {
		return
	}
	x, y := t.a[0], t.a[1]
	if p.fb == nil {
		p.fb = map[*Term]fbound{}
	}
	get := func(t *Term) fbound {
		f, ok := p.fb[t]
		if !ok {
			f = fbound{math.Inf(-1), math.Inf(1), false}
		}
		return f
	}
	set := func(t *Term, lo, hi float64) {
		if t.isC() {
			return
		}
		f := get(t)
		f.lo, f.hi, f.num = max(f.lo, lo), min(f.hi, hi), f.num || !neg
		p.fb[t] = f
	}
	inf := math.Inf(1)
	if t.op == OFEq {
		if !neg {
			if y.isC() {
				v := math.Float64frombits(y.c)
				set(x, v, v)
			} else if x == y {
				set(x, -inf, inf)
			}
		}
		return
	}
	// x < y or x <= y; negated, for numbers, y <= x or y < x
	if neg {
		x, y = y, x
	}
	if y.isC() {
		set(x, -inf, math.Float64frombits(y.c))
	} else if x.isC() {
		set(y, math.Float64frombits(x.c), inf)
	} else if !neg {
		set(x, -inf, inf)
		set(y, -inf, inf)
	}
}

// frng is an interval of a float term that is certainly a number.
func (p *Path) frng(t *Term) (lo, hi float64, ok bool) {
	if t.isC() {
		f := math.Float64frombits(t.c)
		return f, f, f == f
	}
	lo, hi, ok = p.frng1(t)
	if f, k := p.fb[t]; k && (ok || f.num) {
		if !ok {
			lo, hi, ok = f.lo, f.hi, true
		} else {
			lo, hi = max(lo, f.lo), min(hi, f.hi)
		}
	}
	return
}

func (p *Path) frng1(t *Term) (lo, hi float64, ok bool) {
	arg := func(i int) (float64, float64, bool) {
		l, h, k := p.frng(t.a[i])
		return l, h, k && !math.IsInf(l, 0) && !math.IsInf(h, 0)
	}
	switch t.op {
	case OI2F:
		l, h, k := p.rng(t.a[0])
		if !k {
			return -9223372036854775808, 9223372036854775808, true
		}
		return float64(l), float64(h), true
	case OIte:
		a, b, k1 := p.frng(t.a[1])
		c, d, k2 := p.frng(t.a[2])
		return min(a, c), max(b, d), k1 && k2
	case OFTrunc:
		l, h, k := p.frng(t.a[0])
		return math.Trunc(l), math.Trunc(h), k
	case OFAdd, OFSub:
		a, b, k1 := arg(0)
		c, d, k2 := arg(1)
		if !k1 || !k2 {
			return 0, 0, false
		}
		if t.op == OFAdd {
			return a + c, b + d, true
		}
		if t.a[1].op == OFTrunc && t.a[1].a[0] == t.a[0] {
			lo, hi = -math.Nextafter(1, 0), math.Nextafter(1, 0)
			if a >= 0 {
				lo = 0
			}
			if b <= 0 {
				hi = 0
			}
			return lo, hi, true
		}
		return a - d, b - c, true
	case OFMul, OFDiv:
		a, b, k1 := arg(0)
		c, d, k2 := arg(1)
		if !k1 || !k2 || t.op == OFDiv && c <= 0 && d >= 0 {
			return 0, 0, false
		}
		lo, hi = math.Inf(1), math.Inf(-1)
		for _, x := range []float64{a, b} {
			for _, y := range []float64{c, d} {
				v := x * y
				if t.op == OFDiv {
					v = x / y
				}
				lo, hi = min(lo, v), max(hi, v)
			}
		}
		return lo, hi, true
	}
	return 0, 0, false
}

// fpImplied decides a comparison of floats by their intervals.
func (p *Path) fpImplied(t *Term) (val, known bool) {
	neg := t.op == ONot
	if neg {
		t = t.a[0]
	}
	if t.op == OAnd || t.op == OOr {
		x, k1 := p.fpImplied(t.a[0])
		y, k2 := p.fpImplied(t.a[1])
		or := t.op == OOr
		switch {
		case k1 && x == or, k2 && y == or:
			return or != neg, true
		case k1 && k2:
			return or == neg, true
		}
		return false, false
	}
	if t.op == OSLt || t.op == OSLe {
		if !p.bank.hardFP(t) {
			return false, false
		}
		a, b, k1 := p.rng(t.a[0])
		c, d, k2 := p.rng(t.a[1])
		switch {
		case !k1 || !k2:
		case t.op == OSLt && b < c, t.op == OSLe && b <= c:
			return !neg, true
		case t.op == OSLt && a >= d, t.op == OSLe && a > d:
			return neg, true
		}
		return false, false
	}
	if t.op != OFLt && t.op != OFLe && t.op != OFEq {
		return false, false
	}
	a, b, k1 := p.frng(t.a[0])
	c, d, k2 := p.frng(t.a[1])
	if !k1 || !k2 {
		return false, false
	}
	switch {
	case t.op == OFLt && b < c, t.op == OFLe && b <= c, t.op == OFEq && t.a[0] == t.a[1]:
		return !neg, true
	case t.op == OFLt && a >= d, t.op == OFLe && a > d, t.op == OFEq && (b < c || d < a):
		return neg, true
	}
	return false, false
}

// hard terms make float queries slow
func (b *Bank) hardFP(t *Term) bool {
	if t.op == OConst || t.op == OVar {
		return false
	}
	if r, ok := b.hard[t]; ok {
		return r
	}
	r := t.op == OFMul || t.op == OFDiv || t.op == OFTrunc || t.op == OF2I
	for _, a := range t.a {
		r = r || a != nil && b.hardFP(a)
	}
	if b.hard == nil {
		b.hard = map[*Term]bool{}
	}
	b.hard[t] = r
	return r
}

type absEnc struct {
	p    *Path
	ops  map[string]string // fresh value of an abstracted operation
	ref  map[*Term]string
	out  strings.Builder
	side strings.Builder // constraints on the fresh values
}

func fpLit(f float64) string {
	return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", math.Float64bits(f))
}

func (e *absEnc) fresh(t *Term) (string, bool) {
	lo, hi, ok := e.p.frng(t)
	if !ok {
		return "", false
	}
	key := fmt.Sprint(t.op, e.enc(t.a[0]), e.enc(t.a[1]))
	if r, ok := e.ops[key]; ok {
		return r, true
	}
	r := fmt.Sprintf("a%d", t.id)
	e.ops[key] = r
	fmt.Fprintf(&e.out, "(declare-const %s %s)\n", r, sortStr(wFP))
	fmt.Fprintf(&e.side, "(assert (and (fp.leq %s %s) (fp.leq %s %s)))\n", fpLit(lo), r, r, fpLit(hi))
	return r, true
}

func (e *absEnc) enc(t *Term) string {
	if t.op == OConst {
		return t.ref()
	}
	if r, ok := e.ref[t]; ok {
		return r
	}
	if t.op == OZExt && t.a[0].op == OExtract && uint8(t.a[0].c) == 0 && t.a[0].a[0].w == t.w {
		if lo, hi, ok := e.p.rng(t.a[0].a[0]); ok && lo >= 0 && uint64(hi) <= mask(t.a[0].w) {
			r := e.enc(t.a[0].a[0]) // nothing is cut off
			e.ref[t] = r
			return r
		}
	}
	if t.w == 64 {
		if lo, hi, ok := e.p.rng(t); ok && lo == hi {
			return fmt.Sprintf("#x%016x", uint64(lo))
		}
	}
	r := e.enc1(t)
	e.ref[t] = r
	return r
}

// rounded is a fresh value within one below or above x.
func (e *absEnc) rounded(t, x *Term) (string, bool) {
	lo, hi, ok := e.p.frng(x)
	if !ok || math.Abs(lo) > 1<<53 || math.Abs(hi) > 1<<53 {
		return "", false
	}
	r := fmt.Sprintf("a%d", t.id)
	fmt.Fprintf(&e.out, "(declare-const %s %s)\n", r, sortStr(wFP))
	xs := e.enc(x)
	fmt.Fprintf(&e.side, "(assert (and (fp.leq %s %s) (fp.leq %s %s) (fp.lt (fp.sub RNE %s %s) %s) (fp.lt %s (fp.sub RNE %s %s))))\n",
		fpLit(math.Trunc(lo)), r, r, fpLit(math.Trunc(hi)), r, xs, fpLit(1), fpLit(-1), r, xs)
	return r, true
}

func (e *absEnc) enc1(t *Term) string {
	switch t.op {
	case OVar:
		fmt.Fprintf(&e.out, "(declare-const %s %s)\n", t.ref(), sortStr(t.w))
		return t.ref()
	case OFMul, OFDiv:
		if r, ok := e.fresh(t); ok {
			return r
		}
	case OFSub:
		if t.a[1].op == OFTrunc && t.a[1].a[0] == t.a[0] {
			if r, ok := e.fresh(t); ok {
				return r
			}
		}
	case OFTrunc:
		if r, ok := e.rounded(t, t.a[0]); ok {
			return r
		}
	case OI2F:
		if t.a[0].op == OF2I {
			if r, ok := e.rounded(t, t.a[0].a[0]); ok {
				return r
			}
		}
	}
	var rs []string
	for _, a := range t.a {
		if a != nil {
			rs = append(rs, e.enc(a))
		}
	}
	body := t.body(rs)
	if r, ok := e.ops[body]; ok {
		return r
	}
	n := fmt.Sprintf("x%d", t.id)
	e.ops[body] = n
	fmt.Fprintf(&e.out, "(define-fun %s () %s %s)\n", n, sortStr(t.w), body)
	return n
}

// abstractly refutes pc ∧ c: true is a proof that it is unsatisfiable.
func (p *Path) abstractly(c *Term) bool {
	e := &absEnc{p: p, ref: map[*Term]string{}, ops: map[string]string{}}
	var as []string
	for _, t := range append(append([]*Term{}, p.pc...), c) {
		as = append(as, e.enc(t))
	}
	if p.w.abs == nil {
		p.w.abs = NewSolver(NewBank(), min(queryTimeout, 5000))
	}
	s := p.w.abs
	s.send("(reset)\n")
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutM)
	s.send(e.out.String())
	s.send(e.side.String())
	for _, a := range as {
		fmt.Fprintf(s.in, "(assert %s)\n", a)
	}
	if f := os.Getenv("GOSYM_ABS"); f != "" {
		os.WriteFile(f, []byte(e.out.String()+e.side.String()+"(assert "+strings.Join(as, ")\n(assert ")+")\n(check-sat)\n(get-model)\n"), 0o644)
	}
	r := s.Check() == 0
	p.w.sol.Time += s.Time
	s.Time = 0
	if r {
		p.w.sol.Queries++
		p.w.sol.Unsat++
	}
	return r
}
