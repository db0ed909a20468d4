package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one interpreted Go value:
//
//	bool|*Term, int64|*Term (all integers), float64|*Term, string|*SStr,
//	*Value (pointers), *SymPtr, Struct, Array, Slice, *MapV, Iface, *Closure,
//	*Chan, Tuple, *RVal (reflect.Value), host objects behind pointers.
type Value any

type Struct []Value
type Array []Value
type Slice []Value // nil == nil slice
type Tuple []Value

type Iface struct {
	t types.Type // canonical; nil for the nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	bi   *ssa.Builtin
	host func(fr *Frame, args []Value) Value
}

// SymPtr is the address of elems[idx] for a symbolic idx in range.
type SymPtr struct {
	elems []Value
	idx   *Term
}

// UPtr: an unsafe.Pointer/uintptr carrying a pointer value.
type UPtr struct{ p Value }

type MapV struct {
	ents  []*MapEnt
	idx   map[string]*MapEnt // concrete keys
	nsym  int
	count int
}
type MapEnt struct {
	k, v Value
	dead bool
	ck   string // concrete key encoding, "" if symbolic
}

var (
	canonMu  sync.Mutex
	canonMap typeutil.Map
	canonFst sync.Map
)

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonFst.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	u := types.Unalias(t)
	if c := canonMap.At(u); c != nil {
		canonFst.Store(t, c)
		return c.(types.Type)
	}
	canonMap.Set(u, u)
	canonFst.Store(t, u)
	canonFst.Store(u, u)
	return u
}

type kind uint8

const (
	kOther kind = iota
	kBool
	kInt
	kFloat
	kString
	kPtr
	kStruct
	kArray
	kSlice
	kMap
	kIface
	kFunc
	kChan
	kUnsafe
	kTuple
	kComplex
)

type tk struct {
	k      kind
	w      uint8
	signed bool
}

var tkCache sync.Map

func tkOf(t types.Type) tk {
	if v, ok := tkCache.Load(t); ok {
		return v.(tk)
	}
	r := tkOf1(t)
	tkCache.Store(t, r)
	return r
}
func tkOf1(t types.Type) tk {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return tk{k: kBool}
		case types.Int, types.Int64, types.UntypedInt:
			return tk{kInt, 64, true}
		case types.Int32, types.UntypedRune:
			return tk{kInt, 32, true}
		case types.Int16:
			return tk{kInt, 16, true}
		case types.Int8:
			return tk{kInt, 8, true}
		case types.Uint, types.Uint64, types.Uintptr:
			return tk{kInt, 64, false}
		case types.Uint32:
			return tk{kInt, 32, false}
		case types.Uint16:
			return tk{kInt, 16, false}
		case types.Uint8:
			return tk{kInt, 8, false}
		case types.Float64, types.UntypedFloat:
			return tk{k: kFloat, w: 64}
		case types.Float32:
			return tk{k: kFloat, w: 32}
		case types.String, types.UntypedString:
			return tk{k: kString}
		case types.UnsafePointer:
			return tk{k: kUnsafe}
		case types.UntypedNil:
			return tk{k: kPtr}
		case types.Complex64, types.Complex128:
			return tk{k: kComplex}
		}
	case *types.Pointer:
		return tk{k: kPtr}
	case *types.Struct:
		return tk{k: kStruct}
	case *types.Array:
		return tk{k: kArray}
	case *types.Slice:
		return tk{k: kSlice}
	case *types.Map:
		return tk{k: kMap}
	case *types.Interface:
		return tk{k: kIface}
	case *types.Signature:
		return tk{k: kFunc}
	case *types.Chan:
		return tk{k: kChan}
	case *types.Tuple:
		return tk{k: kTuple}
	}
	return tk{}
}

func (k tk) norm(x int64) int64 {
	if k.w == 64 {
		return x
	}
	if k.signed {
		return sext(uint64(x)&mask(k.w), k.w)
	}
	return int64(uint64(x) & mask(k.w))
}

func isReflectValue(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "Value" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

// zero returns the zero value of t.
func zero(t types.Type) Value {
	switch tkOf(t).k {
	case kBool:
		return false
	case kInt:
		return int64(0)
	case kFloat:
		return float64(0)
	case kString:
		return ""
	case kPtr:
		return (*Value)(nil)
	case kStruct:
		if isReflectValue(t) {
			return (*RVal)(nil)
		}
		st := t.Underlying().(*types.Struct)
		s := make(Struct, st.NumFields())
		for i := range s {
			s[i] = zero(st.Field(i).Type())
		}
		return s
	case kArray:
		at := t.Underlying().(*types.Array)
		a := make(Array, at.Len())
		for i := range a {
			a[i] = zero(at.Elem())
		}
		return a
	case kSlice:
		return Slice(nil)
	case kMap:
		return (*MapV)(nil)
	case kIface:
		return Iface{}
	case kFunc:
		return (*Closure)(nil)
	case kChan:
		return (*Chan)(nil)
	case kUnsafe:
		return UPtr{}
	case kComplex:
		return complex(0, 0)
	case kTuple:
		tt := t.(*types.Tuple)
		s := make(Tuple, tt.Len())
		for i := range s {
			s[i] = zero(tt.At(i).Type())
		}
		return s
	}
	panic(unsup("zero of " + t.String()))
}

// cp copies aggregates (value semantics).
func cp(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = cp(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				n[i] = cp(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// store writes v into *p, in place for aggregates so that interior pointers stay valid.
func store(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			// copy first: v may alias parts of *p
			for i := range x {
				store(&d[i], x[i])
			}
			return
		}
		*p = cp(x)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			for i := range x {
				store(&d[i], x[i])
			}
			return
		}
		*p = cp(x)
	default:
		*p = v
	}
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) unsupported { return unsupported{fmt.Sprintf(f, a...)} }

// ---- symbolic strings ----

type pkind uint8

const (
	pConst pkind = iota
	pByte        // one symbolic byte (BV8)
	pAtom        // non-empty word (BV32 code)
	pHole        // opaque structured content
)

type Piece struct {
	k pkind
	s string
	t *Term
	h *Hole
}

// SStr is a string with symbolic parts; never purely constant.
type SStr struct{ ps []Piece }

// Hole is opaque content inside byte strings: JWTs, msgpack documents,
// injective encodings, JSON tokens of symbolic values.
type Hole struct {
	kind string // "jwt","jwks","msgpack","inj","jstr","jnum","jval"
	name string // inj: function name
	v    Value
	doc  any
}

func mkStr(ps []Piece) Value {
	var out []Piece
	for _, p := range ps {
		if p.k == pConst {
			if p.s == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].k == pConst {
				out[n-1].s += p.s
				continue
			}
		}
		if p.k == pByte && p.t.isC() {
			c := string([]byte{byte(p.t.c)})
			if n := len(out); n > 0 && out[n-1].k == pConst {
				out[n-1].s += c
				continue
			}
			p = Piece{k: pConst, s: c}
		}
		out = append(out, p)
	}
	if len(out) == 0 {
		return ""
	}
	if len(out) == 1 && out[0].k == pConst {
		return out[0].s
	}
	return &SStr{out}
}

func pieces(v Value) []Piece {
	switch x := v.(type) {
	case string:
		if x == "" {
			return nil
		}
		return []Piece{{k: pConst, s: x}}
	case *SStr:
		return x.ps
	}
	panic(unsup("pieces of %T", v))
}

func concat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	pa, pb := pieces(a), pieces(b)
	return mkStr(append(append(make([]Piece, 0, len(pa)+len(pb)), pa...), pb...))
}

// flat expands a string into per-byte elements (int64 | *Term | *Hole-like pieces).
// fixed reports whether every piece has a known byte length.
func flat(v Value) (el []Value, fixed bool) {
	fixed = true
	for _, p := range pieces(v) {
		switch p.k {
		case pConst:
			for i := 0; i < len(p.s); i++ {
				el = append(el, int64(p.s[i]))
			}
		case pByte:
			el = append(el, p.t)
		case pAtom:
			el = append(el, &Hole{kind: "atom", v: p.t})
			fixed = false
		case pHole:
			el = append(el, p.h)
			fixed = false
		}
	}
	return
}

// unflat builds a string from byte elements.
func unflat(el []Value) Value {
	allc := true
	for _, e := range el {
		if _, ok := e.(int64); !ok {
			allc = false
			break
		}
	}
	if allc {
		b := make([]byte, len(el))
		for i, e := range el {
			b[i] = byte(e.(int64))
		}
		return string(b)
	}
	ps := make([]Piece, 0, len(el))
	var buf []byte
	fl := func() {
		if len(buf) > 0 {
			ps = append(ps, Piece{k: pConst, s: string(buf)})
			buf = nil
		}
	}
	for _, e := range el {
		switch x := e.(type) {
		case int64:
			buf = append(buf, byte(x))
		case *Term:
			fl()
			ps = append(ps, Piece{k: pByte, t: x})
		case hashPad:
			continue
		case *Hole:
			fl()
			if x.kind == "atom" {
				ps = append(ps, Piece{k: pAtom, t: x.v.(*Term)})
			} else {
				ps = append(ps, Piece{k: pHole, h: x})
			}
		default:
			panic(unsup("byte element %T", e))
		}
	}
	fl()
	return mkStr(ps)
}

func wordByte(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-'
}

// alphabet of variable pieces: word bytes, plus '=' for base64 encodings; jwts use '.' too.
func (p Piece) mayContain(c byte) bool {
	switch p.k {
	case pAtom:
		return wordByte(c)
	case pHole:
		switch p.h.kind {
		case "inj":
			if p.h.name == "b64" {
				return wordByte(c) || c == '='
			}
			return true
		case "jwt":
			return wordByte(c) || c == '.'
		case "jnum":
			return c >= '0' && c <= '9' || c == '-'
		}
		return true
	}
	return true
}
func (p Piece) mayBeEmpty() bool { return p.k == pHole && p.h.kind == "inj" && p.h.name != "hash" }

// ---- atoms ----

var (
	atomMu    sync.Mutex
	atomCodes = map[string]uint64{}
	atomStrs  []string
)

// atomCode interns a constant word.
func atomCode(s string) uint64 {
	atomMu.Lock()
	defer atomMu.Unlock()
	if c, ok := atomCodes[s]; ok {
		return c
	}
	c := uint64(len(atomStrs))
	atomCodes[s] = c
	atomStrs = append(atomStrs, s)
	return c
}

// codes are spread so that a solver's small default values do not hit
// interned constants: constant i has code 0x80000000+i.
const atomBase = 0x80000000

func atomConst(s string) uint64 { return atomBase + atomCode(s) }

func atomText(code uint64) string {
	atomMu.Lock()
	defer atomMu.Unlock()
	if code >= atomBase && code-atomBase < uint64(len(atomStrs)) {
		return atomStrs[code-atomBase]
	}
	return fmt.Sprintf("zq%010dx", code) // ordered as the codes are
}

// implements is a cached types.Implements.
func implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	implCache.Store(k, r)
	return r
}

var timeTypes sync.Map

func isTimeTime(t types.Type) bool {
	if v, ok := timeTypes.Load(t); ok {
		return v.(bool)
	}
	r := t.String() == "time.Time"
	timeTypes.Store(t, r)
	return r
}
