package main

import (
	"fmt"
	"go/types"
	"math"
	"slices"
	"strconv"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

var rtErr types.Type

// rtErrType is a type used for run-time errors: runtime.errorString (implements error).
func rtErrType(pr *Program) types.Type { return rtErr }

// ---- equality ----

func (fr *Frame) eq(t types.Type, x, y Value) Value {
	b := fr.p.bank
	switch k := tkOf(t); k.k {
	case kBool:
		xb, ok1 := x.(bool)
		yb, ok2 := y.(bool)
		if ok1 && ok2 {
			return xb == yb
		}
		return boolVal(b.Eq(b.boolTerm(x), b.boolTerm(y)))
	case kInt:
		if ux, ok := x.(UPtr); ok {
			if uy, ok := y.(UPtr); ok {
				return ux.p == uy.p
			}
			return ux.p == nil && y == Value(int64(0))
		}
		xi, ok1 := x.(int64)
		yi, ok2 := y.(int64)
		if ok1 && ok2 {
			return xi == yi
		}
		tx, ty := b.intTerm(x, k.w), b.intTerm(y, k.w)
		if k.w == 64 {
			a, c, k1 := fr.p.rng(tx)
			d, e, k2 := fr.p.rng(ty)
			if k1 && k2 && (c < d || e < a) {
				return false
			}
			if r := fr.p.linEq2(tx, ty); r != nil {
				return boolVal(r)
			}
			if r := fr.p.linEq(tx, ty); r != nil {
				return boolVal(r)
			}
		}
		return boolVal(b.Eq(tx, ty))
	case kFloat:
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			return xf == yf
		}
		return boolVal(b.FBin(OFEq, b.fpTerm(x), b.fpTerm(y)))
	case kString:
		return fr.strEq(x, y)
	case kIface:
		xi, yi := x.(Iface), y.(Iface)
		if xi.t == nil || yi.t == nil {
			return xi.t == yi.t
		}
		if xi.t != yi.t {
			return false
		}
		if !types.Comparable(xi.t) {
			panic(targetPanic{v: Iface{t: rtErr, v: "runtime error: comparing uncomparable type " + xi.t.String()}, tr: fr.trace()})
		}
		return fr.eq(xi.t, xi.v, yi.v)
	case kStruct:
		if isReflectValue(t) {
			return x == y
		}
		xs, ys := x.(Struct), y.(Struct)
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i := range xs {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = and(b, r, fr.eq(st.Field(i).Type(), xs[i], ys[i]))
			if r == false {
				return false
			}
		}
		return r
	case kArray:
		xs, ys := x.(Array), y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = true
		for i := range xs {
			r = and(b, r, fr.eq(et, xs[i], ys[i]))
			if r == false {
				return false
			}
		}
		return r
	case kPtr, kUnsafe, kMap, kChan:
		if u, ok := x.(UPtr); ok {
			if v, ok := y.(UPtr); ok {
				return ptrEq(u.p, v.p)
			}
		}
		return ptrEq(x, y)
	case kSlice:
		return (x.(Slice) == nil) == (y.(Slice) == nil) && x.(Slice) == nil
	case kFunc:
		return x.(*Closure) == y.(*Closure)
	}
	panic(unsup("eq of %s", t))
}

func ptrEq(x, y Value) bool {
	nilv := func(v Value) bool {
		switch p := v.(type) {
		case nil:
			return true
		case *Value:
			return p == nil
		case *MapV:
			return p == nil
		case *Chan:
			return p == nil
		}
		return false
	}
	if nilv(x) || nilv(y) {
		return nilv(x) && nilv(y)
	}
	return x == y
}

func (p *Path) linEq(x, y *Term) *Term {
	lx, mx, cx, k1 := p.lin(x)
	ly, my, cy, k2 := p.lin(y)
	if !k1 || !k2 || (mx <= 1 && my <= 1) {
		return nil
	}
	b := p.bank
	if lx == nil {
		lx, mx, cx, ly, my, cy = ly, my, cy, lx, mx, cx
	}
	d := cy - cx
	if cx > rngMax/2 || cx < -rngMax/2 || cy > rngMax/2 || cy < -rngMax/2 {
		return nil
	}
	if ly == nil {
		if d%mx != 0 {
			return b.F
		}
		return b.Eq(lx, b.BV(64, uint64(d/mx)))
	}
	if mx == my {
		if d%mx != 0 {
			return b.F
		}
		return b.Eq(lx, b.Bin(OAdd, ly, b.BV(64, uint64(d/mx))))
	}
	return nil
}

// strEq compares strings with symbolic pieces.
func (fr *Frame) strEq(x, y Value) Value {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return xs == ys
	}
	b := fr.p.bank
	ex, _ := flat(x)
	ey, _ := flat(y)
	var conj Value = true
	conjoin := func(v Value) bool {
		conj = and(b, conj, v)
		return conj != false
	}
	// strip equal-length ends while both sides are bytes or identical pieces
	isB := func(v Value) bool {
		switch v.(type) {
		case int64, *Term:
			return true
		}
		return false
	}
	beq := func(a, c Value) Value {
		ai, o1 := a.(int64)
		ci, o2 := c.(int64)
		if o1 && o2 {
			return ai == ci
		}
		return boolVal(b.Eq(b.intTerm(a, 8), b.intTerm(c, 8)))
	}
	for {
		if len(ex) == 0 && len(ey) == 0 {
			return conj
		}
		if len(ex) == 0 || len(ey) == 0 {
			rest := ex
			if len(ex) == 0 {
				rest = ey
			}
			for _, r := range rest {
				h, ok := r.(*Hole)
				if !ok || !h.mayBeEmpty() {
					return false
				}
				if !conjoin(fr.strEq(h.v, "")) {
					return false
				}
			}
			return conj
		}
		a, c := ex[0], ey[0]
		if isB(a) && isB(c) {
			if !conjoin(beq(a, c)) {
				return false
			}
			ex, ey = ex[1:], ey[1:]
			continue
		}
		// same from the end
		la, lc := ex[len(ex)-1], ey[len(ey)-1]
		if isB(la) && isB(lc) {
			if !conjoin(beq(la, lc)) {
				return false
			}
			ex, ey = ex[:len(ex)-1], ey[:len(ey)-1]
			continue
		}
		ha, okA := a.(*Hole)
		hc, okC := c.(*Hole)
		if okA && okC {
			// both sides variable: heads correspond if each is followed by a
			// byte outside both alphabets, or by the end
			if ha.same(hc) {
				ex, ey = ex[1:], ey[1:]
				continue
			}
			if fr.sepAfter(ex[1:], ha, hc) && fr.sepAfter(ey[1:], ha, hc) {
				if !conjoin(fr.holeEq(ha, hc)) {
					return false
				}
				ex, ey = ex[1:], ey[1:]
				continue
			}
			panic(unsup("ambiguous symbolic string comparison"))
		}
		// one side variable, other side bytes
		if okC {
			ex, ey = ey, ex
			ha = hc
		}
		// ex starts with ha; ey starts with bytes
		if !fr.sepAfter(ex[1:], ha, nil) {
			panic(unsup("ambiguous symbolic string comparison"))
		}
		n := 0
		var w []byte
		for n < len(ey) {
			ci, ok := ey[n].(int64)
			if !ok {
				break
			}
			if !(Piece{k: ha.pk(), h: ha}).mayContain(byte(ci)) {
				break
			}
			w = append(w, byte(ci))
			n++
		}
		if n < len(ey) {
			if _, ok := ey[n].(int64); !ok {
				if h2, ok := ey[n].(*Hole); ok && n == 0 {
					_ = h2
				}
				// word mixes constants and symbols
				if _, isT := ey[n].(*Term); isT {
					return fr.wordVsBytes(conj, ha, ex, ey)
				}
				panic(unsup("ambiguous symbolic string comparison"))
			}
		}
		if !conjoin(fr.holeEqConst(ha, string(w))) {
			return false
		}
		ex, ey = ex[1:], ey[n:]
	}
}

func (fr *Frame) wordVsBytes(conj Value, h *Hole, ex, ey []Value) Value {
	panic(unsup("word against symbolic bytes"))
}

func (h *Hole) pk() pkind {
	if h.kind == "atom" {
		return pAtom
	}
	return pHole
}
func (h *Hole) mayBeEmpty() bool {
	return h.kind != "atom" && Piece{k: pHole, h: h}.mayBeEmpty()
}
func (h *Hole) same(o *Hole) bool {
	if h == o {
		return true
	}
	return h.kind == "atom" && o.kind == "atom" && h.v == o.v
}

// sepAfter: rest is empty or starts with a byte that neither piece can contain.
func (fr *Frame) sepAfter(rest []Value, h1, h2 *Hole) bool {
	if len(rest) == 0 {
		return true
	}
	c, ok := rest[0].(int64)
	if !ok {
		return false
	}
	if (Piece{k: h1.pk(), h: h1}).mayContain(byte(c)) {
		return false
	}
	if h2 != nil && (Piece{k: h2.pk(), h: h2}).mayContain(byte(c)) {
		return false
	}
	return true
}

func (fr *Frame) holeEqConst(h *Hole, w string) Value {
	b := fr.p.bank
	switch h.kind {
	case "atom":
		if w == "" {
			return false
		}
		if t := h.v.(*Term); !t.isC() && !slices.Contains(fr.p.consts[t], w) {
			if fr.p.consts == nil {
				fr.p.consts = map[*Term][]string{}
			}
			fr.p.consts[t] = append(fr.p.consts[t], w)
		}
		return boolVal(b.Eq(h.v.(*Term), b.BV(32, atomConst(w))))
	case "inj":
		if h.name == "b64" {
			// compare with the decoded constant
			if dec, ok := b64Decode(w); ok {
				return fr.strEq(h.v, dec)
			}
			return false
		}
		return false
	case "jwt", "msgpack", "jwks":
		return false
	case "jnum":
		if w == "" || w[0] != '-' && (w[0] < '0' || w[0] > '9') {
			return false // a number starts with a sign or a digit
		}
	}
	panic(unsup("hole %s against constant", h.kind))
}

func (fr *Frame) holeEq(a, c *Hole) Value {
	b := fr.p.bank
	if a.same(c) {
		return true
	}
	if a.kind != c.kind {
		if a.kind == "atom" || c.kind == "atom" {
			if a.kind == "jwt" || c.kind == "jwt" {
				return false
			}
		}
		if a.kind != "inj" && c.kind != "inj" && a.kind != "atom" && c.kind != "atom" {
			return false
		}
		if (a.kind == "inj" && a.name == "hash") != (c.kind == "inj" && c.name == "hash") {
			return false
		}
		panic(unsup("hole %s against %s", a.kind, c.kind))
	}
	switch a.kind {
	case "atom":
		return boolVal(b.Eq(a.v.(*Term), c.v.(*Term)))
	case "inj":
		if a.name != c.name {
			if a.name == "hash" || c.name == "hash" {
				return false
			}
			panic(unsup("inj %s against %s", a.name, c.name))
		}
		return fr.injEq(a.v, c.v)
	case "jwt":
		return fr.jwtEq(a, c)
	case "msgpack":
		return fr.mpEq(a, c)
	case "jwks":
		return fr.jwksEq(a, c)
	case "jstr", "jnum", "jval":
		return fr.injEq(a.v, c.v)
	}
	panic(unsup("hole eq %s", a.kind))
}

// injEq compares arguments of injective encodings (strings or byte slices).
func (fr *Frame) injEq(x, y Value) Value {
	toS := func(v Value) Value {
		if s, ok := v.(Slice); ok {
			return unflat(s)
		}
		return v
	}
	x, y = toS(x), toS(y)
	switch x.(type) {
	case string, *SStr:
		return fr.strEq(x, y)
	}
	b := fr.p.bank
	switch xv := x.(type) {
	case int64, *Term:
		if t, ok := xv.(*Term); ok && t.w == wFP {
			return boolVal(b.FBin(OFEq, t, b.fpTerm(y)))
		}
		if t, ok := y.(*Term); ok && t.w == wFP {
			panic(unsup("inj num"))
		}
		if _, ok := y.(float64); ok {
			panic(unsup("inj num"))
		}
		return boolVal(b.Eq(b.intTerm(x, 64), b.intTerm(y, 64)))
	}
	panic(unsup("injEq %T", x))
}

// ---- maps ----

func newMap() *MapV { return &MapV{idx: map[string]*MapEnt{}} }

// ckey encodes a concrete key; ok=false if symbolic.
func ckey(v Value) (string, bool) {
	switch x := v.(type) {
	case string:
		return "s" + x, true
	case int64:
		return "i" + strconv.FormatInt(x, 10), true
	case bool:
		if x {
			return "bt", true
		}
		return "bf", true
	case float64:
		return "f" + strconv.FormatUint(math.Float64bits(x), 16), x == x
	case Iface:
		if x.t == nil {
			return "n", true
		}
		k, ok := ckey(x.v)
		return "I" + fmt.Sprintf("%p", x.t) + k, ok
	case *Value:
		return fmt.Sprintf("p%p", x), true
	case *Chan:
		return fmt.Sprintf("c%p", x), true
	case Struct:
		s := "S"
		for _, f := range x {
			k, ok := ckey(f)
			if !ok {
				return "", false
			}
			s += strconv.Itoa(len(k)) + ":" + k
		}
		return s, true
	case Array:
		s := "A"
		for _, f := range x {
			k, ok := ckey(f)
			if !ok {
				return "", false
			}
			s += strconv.Itoa(len(k)) + ":" + k
		}
		return s, true
	}
	return "", false
}

func (fr *Frame) mapFind(m *MapV, k Value, kt types.Type) *MapEnt {
	if m == nil {
		return nil
	}
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		panic(targetPanic{v: Iface{t: rtErr, v: "runtime error: hash of unhashable type " + i.t.String()}, tr: fr.trace()})
	}
	ck, ok := ckey(k)
	if ok {
		if e := m.idx[ck]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead || (ok && e.ck != "") {
			continue
		}
		if fr.p.decide(fr.eq(kt, e.k, k)) {
			return e
		}
	}
	return nil
}

func (fr *Frame) mapSet(m *MapV, k, v Value, kt types.Type) {
	if e := fr.mapFind(m, k, kt); e != nil {
		e.v = v
		return
	}
	e := &MapEnt{k: k, v: v}
	if ck, ok := ckey(k); ok {
		e.ck = ck
		m.idx[ck] = e
	} else {
		m.nsym++
	}
	m.ents = append(m.ents, e)
	m.count++
}

func (fr *Frame) mapDelete(m *MapV, k Value, kt types.Type) {
	e := fr.mapFind(m, k, kt)
	if e == nil {
		return
	}
	e.dead = true
	if e.ck != "" {
		delete(m.idx, e.ck)
	} else {
		m.nsym--
	}
	m.count--
	if m.count*2 < len(m.ents) && len(m.ents) > 8 {
		// compaction is done on a copy so that live iterators keep their view
		n := make([]*MapEnt, 0, m.count)
		for _, e := range m.ents {
			if !e.dead {
				n = append(n, e)
			}
		}
		m.ents = n
	}
}

type iter struct {
	m    *MapV
	ents []*MapEnt
	pos  int
	off  int
	str  string
	el   []Value
}

func (fr *Frame) mkRange(x Value) Value {
	switch v := x.(type) {
	case *MapV:
		it := &iter{m: v}
		if v != nil {
			if fr.p.race != nil {
				fr.p.race.readObj(fr, v)
			}
			for _, e := range v.ents {
				if !e.dead {
					it.ents = append(it.ents, e)
				}
			}
			if fr.p.mapRot && len(it.ents) > 1 {
				r := fr.p.choice(len(it.ents))
				it.ents = append(append([]*MapEnt{}, it.ents[r:]...), it.ents[:r]...)
			}
		}
		return it
	case string:
		return &iter{str: v}
	case *SStr:
		el, fixed := flat(v)
		if !fixed {
			panic(unsup("range over symbolic word"))
		}
		return &iter{el: el, pos: 0}
	}
	panic(unsup("range over %T", x))
}

func (fr *Frame) next(x Value, in *ssa.Next) Value {
	it := x.(*iter)
	if in.IsString {
		if it.el != nil {
			if it.pos >= len(it.el) {
				return Tuple{false, int64(0), int64(0)}
			}
			i := it.pos
			it.pos++
			switch b := it.el[i].(type) {
			case int64:
				if b >= 0x80 {
					panic(unsup("non-ascii in symbolic range"))
				}
				return Tuple{true, int64(i), b}
			case *Term:
				if !fr.p.decide(boolVal(fr.p.bank.Bin(OULt, b, fr.p.bank.BV(8, 0x80)))) {
					panic(unsup("non-ascii in symbolic range"))
				}
				return Tuple{true, int64(i), fr.p.bank.ZExt(b, 32)}
			}
		}
		if it.pos >= len(it.str) {
			return Tuple{false, int64(0), int64(0)}
		}
		i := it.pos
		r, n := utf8.DecodeRuneInString(it.str[i:])
		it.pos += n
		return Tuple{true, int64(i), int64(r)}
	}
	for it.pos < len(it.ents) {
		e := it.ents[it.pos]
		it.pos++
		if e.dead {
			continue
		}
		return Tuple{true, cp(e.k), cp(e.v)}
	}
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	return Tuple{false, zero(mt.Key()), zero(mt.Elem())}
}

// ---- builtins ----

func (fr *Frame) builtin(b *ssa.Builtin, args []Value, it *instr) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SStr:
			el, fixed := flat(x)
			if !fixed {
				return fr.symLen(x)
			}
			return int64(len(el))
		case Slice:
			return int64(len(x))
		case *MapV:
			if x == nil {
				return int64(0)
			}
			if fr.p.race != nil {
				fr.p.race.readObj(fr, x)
			}
			return int64(x.count)
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case *Chan:
			return int64(x.cap)
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		}
	case "append":
		s, _ := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SStr:
			add, _ = flat(y)
		}
		return fr.appendVals(s, add)
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := min(len(d), len(y))
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = cp(y[i])
			}
			for i := 0; i < n; i++ {
				if fr.p.race != nil {
					fr.p.race.write(fr, &d[i])
				}
				store(&d[i], tmp[i])
			}
			return int64(n)
		case string, *SStr:
			el, _ := flat(y)
			return int64(copy(d, el))
		}
	case "delete":
		m := args[0].(*MapV)
		if m == nil {
			return nil
		}
		if fr.p.race != nil {
			fr.p.race.writeObj(fr, m)
		}
		fr.mapDelete(m, args[1], b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map).Key())
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				*x = *newMap()
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				store(&x[i], zero(et))
			}
		}
		return nil
	case "panic":
		panic(targetPanic{v: args[0].(Iface), tr: fr.trace()})
	case "recover":
		// valid only when called directly by a deferred function: caller frame is panicking
		c := fr.caller
		if c != nil && c.panicking && !c.recovered {
			c.recovered = true
			return c.pv.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "close":
		fr.closeChan(args[0].(*Chan))
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		k := tkOf(t)
		r := args[0]
		for _, a := range args[1:] {
			op := lessTok
			var c Value
			if b.Name() == "min" {
				c = fr.arith(op, a, r, k, k)
			} else {
				c = fr.arith(op, r, a, k, k)
			}
			if bb, ok := c.(bool); ok {
				if bb {
					r = a
				}
				continue
			}
			if k.k == kInt {
				r = intVal(fr.p.bank.Ite(c.(*Term), fr.p.bank.intTerm(a, k.w), fr.p.bank.intTerm(r, k.w)), k)
			} else if fr.p.decide(c) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0].(*Value)
		n := fr.intArg(args[1])
		if n == 0 {
			return ""
		}
		if a, ok := fr.p.findBacking(p); ok {
			return unflat(a[:n])
		}
	case "StringData", "SliceData":
		if s, ok := args[0].(Slice); ok {
			if cap(s) > 0 {
				f := s[:cap(s)]
				fr.p.backing(&f[0], f)
				return &f[0]
			}
			return (*Value)(nil)
		}
		if el, _ := flat(args[0]); len(el) > 0 {
			s := Slice(append([]Value{}, el...))
			fr.p.backing(&s[0], s)
			return &s[0]
		}
		return (*Value)(nil)
	case "Slice":
		p := args[0].(*Value)
		n := fr.intArg(args[1])
		if n == 0 && p == nil {
			return Slice(nil)
		}
		if a, ok := fr.p.findBacking(p); ok {
			return a[:n]
		}
	}
	panic(unsup("builtin %s(%T)", b.Name(), args[0]))
}

func (p *Path) backing(k *Value, s Slice) { p.side[k] = s }
func (p *Path) findBacking(k *Value) (Slice, bool) {
	s, ok := p.side[k].(Slice)
	return s, ok
}

// symLen: length of a string with words; a fresh positive integer per word.
func (fr *Frame) symLen(x *SStr) Value {
	b := fr.p.bank
	n := int64(0)
	var acc *Term
	for _, pc := range x.ps {
		switch pc.k {
		case pConst:
			n += int64(len(pc.s))
		case pByte:
			n++
		default:
			h := pc.h
			if pc.k == pAtom {
				h = &Hole{kind: "atom", v: pc.t}
			}
			t := fr.holeLen(h)
			if acc == nil {
				acc = t
			} else {
				acc = b.Bin(OAdd, acc, t)
			}
		}
	}
	return b.Bin(OAdd, acc, b.BV(64, uint64(n)))
}

func growCap(old, need int) int {
	if need <= 4 && old == 0 {
		return need
	}
	c := old
	for c < need {
		if c < 256 {
			c *= 2
		} else {
			c += (c + 768) / 4
		}
		if c == 0 {
			c = need
		}
	}
	return c
}

func (fr *Frame) appendVals(s Slice, add []Value) Slice {
	n := len(s) + len(add)
	if len(add) == 0 {
		return s
	}
	if n <= cap(s) {
		d := s[:n]
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = cp(add[i])
		}
		for i := range tmp {
			q := &d[len(s)+i]
			if fr.p.race != nil {
				fr.p.race.write(fr, q)
			}
			if *q == nil {
				*q = tmp[i]
			} else {
				store(q, tmp[i])
			}
		}
		return d
	}
	d := make(Slice, n, growCap(cap(s), n))
	copy(d, s)
	for i := range s {
		d[i] = cp(d[i])
	}
	for i := range add {
		d[len(s)+i] = cp(add[i])
	}
	// zero spare capacity lazily: copy a zero of the same shape
	if len(d) < cap(d) {
		f := d[:cap(d)]
		z := zeroLike(d[0])
		for i := len(d); i < len(f); i++ {
			f[i] = cp(z)
		}
	}
	return d
}

func zeroLike(v Value) Value {
	switch x := v.(type) {
	case bool:
		return false
	case int64:
		return int64(0)
	case *Term:
		if x.w == 0 {
			return false
		}
		if x.w == wFP {
			return float64(0)
		}
		return int64(0)
	case float64:
		return float64(0)
	case string, *SStr:
		return ""
	case *Hole:
		return int64(0)
	case *Value:
		return (*Value)(nil)
	case Slice:
		return Slice(nil)
	case *MapV:
		return (*MapV)(nil)
	case Iface:
		return Iface{}
	case *Closure:
		return (*Closure)(nil)
	case *Chan:
		return (*Chan)(nil)
	case *RVal:
		return (*RVal)(nil)
	case UPtr:
		return UPtr{}
	case Struct:
		s := make(Struct, len(x))
		for i := range x {
			s[i] = zeroLike(x[i])
		}
		return s
	case Array:
		s := make(Array, len(x))
		for i := range x {
			s[i] = zeroLike(x[i])
		}
		return s
	}
	return nil
}
