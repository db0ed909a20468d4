package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Terms are hash-consed, simplified SMT terms. Sorts: Bool (w=0), bit-vectors
// (w=1..64), float64 (w=wFP). Atoms (opaque strings) are BV32 codes.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract // c = hi<<8|lo
	OZExt
	OSExt
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFLe
	OFEq
	OFTrunc // round toward zero to integral
	OI2F    // signed bv64 -> fp
	OU2F    // unsigned bv64 -> fp
	OF2I    // fp -> signed bv64 (amd64 semantics)
	OBits2F // bv64 bits -> fp
)

const wFP = 200

type Term struct {
	op   Op
	w    uint8
	c    uint64
	a    [3]*Term
	name string
	id   int32
	big  bool // defined in solver
}

type tkey struct {
	op   Op
	w    uint8
	c    uint64
	a    [3]*Term
	name string
}

// Bank is a per-worker hash-consing table.
type Bank struct {
	m    map[tkey]*Term
	next int32
	T, F *Term
	vars []*Term
	hard map[*Term]bool // memo of hardFP
}

func NewBank() *Bank {
	b := &Bank{m: map[tkey]*Term{}}
	b.T = b.mk(OConst, 0, 1, nil, nil, nil, "")
	b.F = b.mk(OConst, 0, 0, nil, nil, nil, "")
	return b
}

func (b *Bank) mk(op Op, w uint8, c uint64, x, y, z *Term, name string) *Term {
	k := tkey{op, w, c, [3]*Term{x, y, z}, name}
	if t, ok := b.m[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, c: c, a: k.a, name: name, id: b.next}
	b.next++
	b.m[k] = t
	if op == OVar {
		b.vars = append(b.vars, t)
	}
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(c uint64, w uint8) int64 {
	if w >= 64 {
		return int64(c)
	}
	sh := 64 - uint(w)
	return int64(c<<sh) >> sh
}

func (b *Bank) Bool(v bool) *Term {
	if v {
		return b.T
	}
	return b.F
}
func (b *Bank) BV(w uint8, c uint64) *Term { return b.mk(OConst, w, c&mask(w), nil, nil, nil, "") }
func (b *Bank) FP(f float64) *Term {
	return b.mk(OConst, wFP, math.Float64bits(f), nil, nil, nil, "")
}
func (b *Bank) Var(w uint8, name string) *Term { return b.mk(OVar, w, 0, nil, nil, nil, name) }

func (t *Term) isC() bool { return t.op == OConst }

func (b *Bank) Not(x *Term) *Term {
	if x.isC() {
		return b.Bool(x.c == 0)
	}
	if x.op == ONot {
		return x.a[0]
	}
	return b.mk(ONot, 0, 0, x, nil, nil, "")
}

func (b *Bank) And(x, y *Term) *Term {
	if x == b.F || y == b.F {
		return b.F
	}
	if x == b.T || x == y {
		return y
	}
	if y == b.T {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return b.F
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OAnd, 0, 0, x, y, nil, "")
}
func (b *Bank) Or(x, y *Term) *Term {
	if x == b.T || y == b.T {
		return b.T
	}
	if x == b.F || x == y {
		return y
	}
	if y == b.F {
		return x
	}
	if (x.op == ONot && x.a[0] == y) || (y.op == ONot && y.a[0] == x) {
		return b.T
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OOr, 0, 0, x, y, nil, "")
}
func (b *Bank) Ite(c, x, y *Term) *Term {
	if c == b.T || x == y {
		return x
	}
	if c == b.F {
		return y
	}
	if x.w == 0 {
		if x == b.T && y == b.F {
			return c
		}
		if x == b.F && y == b.T {
			return b.Not(c)
		}
		if x == b.T {
			return b.Or(c, y)
		}
		if x == b.F {
			return b.And(b.Not(c), y)
		}
		if y == b.T {
			return b.Or(b.Not(c), x)
		}
		if y == b.F {
			return b.And(c, x)
		}
	}
	return b.mk(OIte, x.w, 0, c, x, y, "")
}

// Eq is term equality (bitwise for FP is not offered: use FEq).
func (b *Bank) Eq(x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width %d %d", x.w, y.w))
	}
	if x == y {
		return b.T
	}
	if x.isC() && y.isC() {
		return b.F
	}
	if x.isC() {
		x, y = y, x
	}
	if x.w == 0 {
		if y == b.T {
			return x
		}
		if y == b.F {
			return b.Not(x)
		}
	}
	if y.isC() {
		switch x.op {
		case OIte:
			if x.a[1].isC() && x.a[2].isC() {
				l, r := x.a[1] == y, x.a[2] == y
				switch {
				case l && r:
					return b.T
				case l:
					return x.a[0]
				case r:
					return b.Not(x.a[0])
				}
				return b.F
			}
			if x.a[1].isC() {
				if x.a[1] == y {
					return b.Or(x.a[0], b.Eq(x.a[2], y))
				}
				return b.And(b.Not(x.a[0]), b.Eq(x.a[2], y))
			}
			if x.a[2].isC() {
				if x.a[2] == y {
					return b.Or(b.Not(x.a[0]), b.Eq(x.a[1], y))
				}
				return b.And(x.a[0], b.Eq(x.a[1], y))
			}
		case OZExt:
			iw := x.a[0].w
			if y.c&^mask(iw) != 0 {
				return b.F
			}
			return b.Eq(x.a[0], b.BV(iw, y.c))
		case OAdd:
			if x.a[1].isC() {
				return b.Eq(x.a[0], b.BV(x.w, y.c-x.a[1].c))
			}
		}
	} else if x.op == OAdd && y.op == OAdd && x.a[1].isC() && x.a[1] == y.a[1] {
		return b.Eq(x.a[0], y.a[0])
	}
	if !y.isC() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, 0, 0, x, y, nil, "")
}

func bvEval(op Op, w uint8, x, y uint64) uint64 {
	sx, sy := sext(x, w), sext(y, w)
	switch op {
	case OAdd:
		return (x + y) & mask(w)
	case OSub:
		return (x - y) & mask(w)
	case OMul:
		return (x * y) & mask(w)
	case OUDiv:
		if y == 0 {
			return mask(w)
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return mask(w)
		}
		if sy == -1 {
			return uint64(-sx) & mask(w)
		}
		return uint64(sx/sy) & mask(w)
	case OSRem:
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & mask(w)
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & mask(w)
	case OLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx>>y) & mask(w)
	case OULt:
		return b2u(x < y)
	case OULe:
		return b2u(x <= y)
	case OSLt:
		return b2u(sx < sy)
	case OSLe:
		return b2u(sx <= sy)
	}
	panic("bvEval")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Bin builds a bit-vector binary operation or comparison.
func (b *Bank) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin %d width %d %d", op, x.w, y.w))
	}
	w := x.w
	rw := w
	cmp := op >= OULt && op <= OSLe
	if cmp {
		rw = 0
	}
	if x.isC() && y.isC() {
		r := bvEval(op, w, x.c, y.c)
		if cmp {
			return b.Bool(r == 1)
		}
		return b.BV(w, r)
	}
	switch op {
	case OAdd:
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			if y.c == 0 {
				return x
			}
			if x.op == OAdd && x.a[1].isC() {
				return b.Bin(OAdd, x.a[0], b.BV(w, x.a[1].c+y.c))
			}
		} else {
			// (a+c)+b -> (a+b)+c
			if x.op == OAdd && x.a[1].isC() {
				return b.Bin(OAdd, b.Bin(OAdd, x.a[0], y), x.a[1])
			}
			if y.op == OAdd && y.a[1].isC() {
				return b.Bin(OAdd, b.Bin(OAdd, x, y.a[0]), y.a[1])
			}
		}
	case OSub:
		if x == y {
			return b.BV(w, 0)
		}
		if y.isC() {
			return b.Bin(OAdd, x, b.BV(w, -y.c))
		}
		if x.op == OAdd && x.a[1].isC() {
			return b.Bin(OAdd, b.Bin(OSub, x.a[0], y), x.a[1])
		}
		if y.op == OAdd && y.a[1].isC() {
			return b.Bin(OAdd, b.Bin(OSub, x, y.a[0]), b.BV(w, -y.a[1].c))
		}
		if x.op == OAdd && x.a[0] == y {
			return x.a[1]
		}
		if x.op == OAdd && x.a[1] == y {
			return x.a[0]
		}
	case OMul:
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			switch y.c {
			case 0:
				return y
			case 1:
				return x
			}
		}
	case OBAnd:
		if x.isC() {
			x, y = y, x
		}
		if y.isC() {
			if y.c == 0 {
				return y
			}
			if y.c == mask(w) {
				return x
			}
			// low mask = zext(extract)
			if n := bits.Len64(y.c); y.c == mask(uint8(n)) {
				return b.ZExt(b.Extract(x, uint8(n-1), 0), w)
			}
		}
		if x == y {
			return x
		}
	case OBOr:
		if x.isC() {
			x, y = y, x
		}
		if y.isC() && y.c == 0 {
			return x
		}
		if x == y {
			return x
		}
	case OBXor:
		if x.isC() {
			x, y = y, x
		}
		if y.isC() && y.c == 0 {
			return x
		}
		if x == y {
			return b.BV(w, 0)
		}
	case OShl, OLShr, OAShr:
		if y.isC() && y.c == 0 {
			return x
		}
		if x.isC() && x.c == 0 {
			return x
		}
		if y.isC() && y.c >= uint64(w) && op != OAShr {
			return b.BV(w, 0)
		}
		if y.isC() && op == OLShr {
			return b.ZExt(b.Extract(x, w-1, uint8(y.c)), w)
		}
	case OUDiv, OSDiv:
		if y.isC() && y.c == 1 {
			return x
		}
	case OULt:
		if x == y {
			return b.F
		}
		if y.isC() && y.c == 0 {
			return b.F
		}
		if x.op == OZExt && y.isC() && y.c > mask(x.a[0].w) {
			return b.T
		}
		if x.op == OZExt && y.isC() {
			return b.Bin(OULt, x.a[0], b.BV(x.a[0].w, y.c))
		}
		if y.op == OZExt && x.isC() {
			if x.c >= mask(y.a[0].w) {
				return b.F
			}
			return b.Bin(OULt, b.BV(y.a[0].w, x.c), y.a[0])
		}
	case OULe:
		return b.Not(b.Bin(OULt, y, x))
	case OSLt:
		if x == y {
			return b.F
		}
		// zero-extended values are non-negative
		if x.op == OZExt && x.a[0].w < w {
			if y.isC() && sext(y.c, w) >= 0 {
				return b.Bin(OULt, x, y)
			}
			if y.isC() {
				return b.F
			}
		}
		if y.op == OZExt && y.a[0].w < w {
			if x.isC() && sext(x.c, w) >= 0 {
				return b.Bin(OULt, x, y)
			}
			if x.isC() {
				return b.T
			}
		}
	case OSLe:
		return b.Not(b.Bin(OSLt, y, x))
	}
	return b.mk(op, rw, 0, x, y, nil, "")
}

func (b *Bank) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if lo == 0 && w == x.w {
		return x
	}
	if x.isC() {
		return b.BV(w, x.c>>lo)
	}
	switch x.op {
	case OZExt:
		iw := x.a[0].w
		if hi < iw {
			return b.Extract(x.a[0], hi, lo)
		}
		if lo >= iw {
			return b.BV(w, 0)
		}
		if lo == 0 {
			return b.ZExt(x.a[0], w)
		}
	case OSExt:
		if hi < x.a[0].w {
			return b.Extract(x.a[0], hi, lo)
		}
	case OExtract:
		lo0 := uint8(x.c & 0xff)
		return b.Extract(x.a[0], hi+lo0, lo+lo0)
	case OIte:
		if x.a[1].isC() && x.a[2].isC() {
			return b.Ite(x.a[0], b.Extract(x.a[1], hi, lo), b.Extract(x.a[2], hi, lo))
		}
	}
	return b.mk(OExtract, w, uint64(hi)<<8|uint64(lo), x, nil, nil, "")
}
func (b *Bank) ZExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return b.BV(w, x.c)
	}
	if x.op == OZExt {
		return b.ZExt(x.a[0], w)
	}
	if x.op == OIte && x.a[1].isC() && x.a[2].isC() {
		return b.Ite(x.a[0], b.ZExt(x.a[1], w), b.ZExt(x.a[2], w))
	}
	return b.mk(OZExt, w, 0, x, nil, nil, "")
}
func (b *Bank) SExt(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if x.isC() {
		return b.BV(w, uint64(sext(x.c, x.w)))
	}
	if x.op == OZExt && x.a[0].w < x.w {
		return b.ZExt(x.a[0], w)
	}
	return b.mk(OSExt, w, 0, x, nil, nil, "")
}

func fpEval(op Op, x, y float64) uint64 {
	switch op {
	case OFAdd:
		return math.Float64bits(x + y)
	case OFSub:
		return math.Float64bits(x - y)
	case OFMul:
		return math.Float64bits(x * y)
	case OFDiv:
		return math.Float64bits(x / y)
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	}
	panic("fpEval")
}

func (b *Bank) FBin(op Op, x, y *Term) *Term {
	rw := uint8(wFP)
	if op == OFLt || op == OFLe || op == OFEq {
		rw = 0
	}
	if x.isC() && y.isC() {
		return b.mk(OConst, rw, fpEval(op, math.Float64frombits(x.c), math.Float64frombits(y.c)), nil, nil, nil, "")
	}
	// identities that hold bit for bit
	switch {
	case op == OFAdd && y.isC() && y.c == 0 && (x.op == OI2F || x.op == OU2F):
		return x // never -0
	case op == OFAdd && x.isC() && x.c == 0 && (y.op == OI2F || y.op == OU2F):
		return y
	case op == OFSub && y.isC() && y.c == 0:
		return x
	case op == OFSub && x == y && (x.op == OI2F || x.op == OU2F):
		return b.FP(0)
	}
	// exact integer-valued floats: compare as integers where both sides are exact.
	if rw == 0 {
		if xi, yi := b.exactInt(x), b.exactInt(y); xi != nil && yi != nil {
			switch op {
			case OFLt:
				return b.Bin(OSLt, xi, yi)
			case OFLe:
				return b.Bin(OSLe, xi, yi)
			case OFEq:
				return b.Eq(xi, yi)
			}
		}
	}
	return b.mk(op, rw, 0, x, y, nil, "")
}

// exactInt returns the int64 term an FP term is exactly equal to, when that
// is syntactically certain (|x| < 2^53).
func (b *Bank) exactInt(x *Term) *Term {
	if x.isC() {
		f := math.Float64frombits(x.c)
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 {
			return b.BV(64, uint64(int64(f)))
		}
		return nil
	}
	if x.op == OI2F && x.c == 1 { // flagged exact
		return x.a[0]
	}
	return nil
}

// I2F converts; exact marks |x| < 2^53 known.
func (b *Bank) I2F(x *Term, exact bool) *Term {
	if x.isC() {
		return b.FP(float64(int64(x.c)))
	}
	return b.mk(OI2F, wFP, b2u(exact), x, nil, nil, "")
}
func (b *Bank) U2F(x *Term) *Term {
	if x.isC() {
		return b.FP(float64(x.c))
	}
	return b.mk(OU2F, wFP, 0, x, nil, nil, "")
}
func f2i(f float64) int64 {
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(f)
}
func (b *Bank) F2I(x *Term) *Term {
	if x.isC() {
		return b.BV(64, uint64(f2i(math.Float64frombits(x.c))))
	}
	if i := b.exactInt(x); i != nil {
		return i
	}
	return b.mk(OF2I, 64, 0, x, nil, nil, "")
}
func (b *Bank) FTrunc(x *Term) *Term {
	if x.isC() {
		return b.FP(math.Trunc(math.Float64frombits(x.c)))
	}
	if x.op == OI2F || x.op == OU2F || x.op == OFTrunc {
		return x
	}
	return b.mk(OFTrunc, wFP, 0, x, nil, nil, "")
}
func (b *Bank) Bits2F(x *Term) *Term {
	if x.isC() {
		return b.FP(math.Float64frombits(x.c))
	}
	return b.mk(OBits2F, wFP, 0, x, nil, nil, "")
}

// Model assigns variables by name.
type Model map[string]uint64

type evaler struct {
	m    Model
	memo map[*Term]uint64
}

func (m Model) Eval(t *Term) uint64 {
	e := evaler{m, map[*Term]uint64{}}
	return e.ev(t)
}

func (e *evaler) ev(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.c
	case OVar:
		return e.m[t.name]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = 1 - e.ev(t.a[0])
	case OAnd:
		r = e.ev(t.a[0])
		if r == 1 {
			r = e.ev(t.a[1])
		}
	case OOr:
		r = e.ev(t.a[0])
		if r == 0 {
			r = e.ev(t.a[1])
		}
	case OIte:
		if e.ev(t.a[0]) == 1 {
			r = e.ev(t.a[1])
		} else {
			r = e.ev(t.a[2])
		}
	case OEq:
		r = b2u(e.ev(t.a[0]) == e.ev(t.a[1]))
	case OExtract:
		hi, lo := uint8(t.c>>8), uint8(t.c)
		r = (e.ev(t.a[0]) >> lo) & mask(hi-lo+1)
	case OZExt:
		r = e.ev(t.a[0])
	case OSExt:
		r = uint64(sext(e.ev(t.a[0]), t.a[0].w)) & mask(t.w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		r = fpEval(t.op, math.Float64frombits(e.ev(t.a[0])), math.Float64frombits(e.ev(t.a[1])))
	case OFTrunc:
		r = math.Float64bits(math.Trunc(math.Float64frombits(e.ev(t.a[0]))))
	case OI2F:
		r = math.Float64bits(float64(int64(e.ev(t.a[0]))))
	case OU2F:
		r = math.Float64bits(float64(e.ev(t.a[0])))
	case OF2I:
		r = uint64(f2i(math.Float64frombits(e.ev(t.a[0]))))
	case OBits2F:
		r = e.ev(t.a[0])
	default:
		r = bvEval(t.op, t.a[0].w, e.ev(t.a[0]), e.ev(t.a[1]))
	}
	e.memo[t] = r
	return r
}

// ---- SMT-LIB printing ----

var opName = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFTrunc: "fp.roundToIntegral RTZ",
	OI2F: "(_ to_fp 11 53) RNE", OU2F: "(_ to_fp_unsigned 11 53) RNE", OBits2F: "(_ to_fp 11 53)",
}

func sortStr(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case wFP:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch {
		case t.w == 0:
			if t.c == 1 {
				return "true"
			}
			return "false"
		case t.w == wFP:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c)
		case t.w%4 == 0:
			return fmt.Sprintf("#x%0*x", int(t.w)/4, t.c)
		default:
			return fmt.Sprintf("#b%0*b", int(t.w), t.c)
		}
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

// define writes the definitions t needs (post-order) to sb.
func (t *Term) define(sb *strings.Builder) {
	if t.big || t.op == OConst {
		return
	}
	t.big = true
	if t.op == OVar {
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.ref(), sortStr(t.w))
		return
	}
	for _, a := range t.a {
		if a != nil {
			a.define(sb)
		}
	}
	var rs []string
	for _, a := range t.a {
		if a != nil {
			rs = append(rs, a.ref())
		}
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), t.body(rs))
}

// body is the SMT expression of t over the given references to its arguments.
func (t *Term) body(rs []string) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.c>>8, t.c&0xff, rs[0])
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a[0].w, rs[0])
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, rs[0])
	case OF2I:
		x := rs[0]
		return fmt.Sprintf("(ite (and (fp.lt %s ((_ to_fp 11 53) #x43e0000000000000)) (fp.geq %s ((_ to_fp 11 53) #xc3e0000000000000))) ((_ fp.to_sbv 64) RTZ %s) #x8000000000000000)", x, x, x)
	}
	return "(" + opName[t.op] + " " + strings.Join(rs, " ") + ")"
}

// String renders a term for debugging.
func (t *Term) String() string {
	if t == nil {
		return "nil"
	}
	if t.op == OConst {
		if t.w == 64 {
			return strconv.FormatInt(int64(t.c), 10)
		}
		return strconv.FormatUint(t.c, 10)
	}
	if t.op == OVar {
		return t.name
	}
	s := "(" + opName[t.op]
	if t.op == OExtract || t.op == OZExt || t.op == OSExt {
		s += fmt.Sprintf("%s %d-%d w%d", []string{"extract", "zext", "sext"}[t.op-OExtract], t.c>>8, t.c&255, t.w)
	}
	for _, a := range t.a {
		if a != nil {
			s += " " + a.String()
		}
	}
	return s + ")"
}
