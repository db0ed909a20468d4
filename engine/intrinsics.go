package main

import (
	"encoding/base64"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fallT struct{}

// fallThrough tells callInfo to interpret the body after all.
var fallThrough = fallT{}

var intrinsics = map[string]intrinsic{}

const clockStart = 2524608000 // 2050-01-01, nd.Start

const unixToInternal int64 = 62135596800

func f64bits(u uint64) float64 { return math.Float64frombits(u) }

func b64Decode(w string) (string, bool) {
	d, err := base64.URLEncoding.DecodeString(w)
	if err != nil {
		return "", false
	}
	return string(d), true
}

func reg(f intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func zeroResults(fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

// genericIntrinsic handles whole packages and families.
func genericIntrinsic(fn *ssa.Function) intrinsic {
	path := ""
	if fn.Pkg != nil {
		path = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		path = o.Pkg.Pkg.Path()
	}
	switch path {
	case "log", "github.com/gofiber/fiber/v2/log":
		if strings.HasPrefix(fn.Name(), "init") {
			return nil
		}
		return func(fr *Frame, a []Value) Value { return zeroResults(fn) }
	case "sync/atomic":
		return atomicIntrinsic(fn)
	case "reflect":
		return reflectIntrinsic(fn)
	case "internal/race", "internal/msan", "internal/asan":
		return func(fr *Frame, a []Value) Value { return zeroResults(fn) }
	}
	if strings.HasSuffix(path, "/internal/zzverif/nd") {
		return ndIntrinsic(fn)
	}
	if f := jwxIntrinsic(path, fn); f != nil {
		return f
	}
	if f := httpIntrinsic(path, fn); f != nil {
		return f
	}
	if f := redisIntrinsic(path, fn); f != nil {
		return f
	}
	return nil
}

func isConc(args ...Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case *SStr, *Term:
			return false
		case Slice:
			for _, e := range x {
				if !isConc(e) {
					return false
				}
			}
		}
	}
	return true
}

func str(v Value) string {
	s, ok := v.(string)
	if !ok {
		panic(unsup("concrete string needed"))
	}
	return s
}

func strSlice(ss []string) Slice {
	if ss == nil {
		return nil
	}
	o := make(Slice, len(ss))
	for i, s := range ss {
		o[i] = s
	}
	return o
}

func mkErr(fr *Frame, msg string) Iface {
	return Iface{t: errStringType, v: newPtr(Struct{msg})}
}

var errStringType types.Type // *errors.errorString

func newPtr(v Value) *Value {
	p := new(Value)
	*p = v
	return p
}

// ---- strings over ropes ----

func beq(fr *Frame, a, c Value) Value {
	ai, o1 := a.(int64)
	ci, o2 := c.(int64)
	if o1 && o2 {
		return ai == ci
	}
	b := fr.p.bank
	return boolVal(b.Eq(b.intTerm(a, 8), b.intTerm(c, 8)))
}

func (fr *Frame) hasPrefix(el, pre []Value) Value {
	var conj Value = true
	for i, c := range pre {
		if i >= len(el) {
			return false
		}
		hc, isH := c.(*Hole)
		he, isE := el[i].(*Hole)
		switch {
		case isH && isE:
			if !hc.same(he) {
				if i == len(pre)-1 && i == len(el)-1 {
					return and(fr.p.bank, conj, fr.holeEq(he, hc))
				}
				panic(unsup("prefix test on symbolic words"))
			}
		case isE:
			ci, ok := c.(int64)
			if ok && he.kind != "jstr" && !(Piece{k: he.pk(), h: he}).mayContain(byte(ci)) && !he.mayBeEmpty() {
				return false
			}
			panic(unsup("prefix test inside symbolic word"))
		case isH:
			ei, ok := el[i].(int64)
			if ok && !(Piece{k: hc.pk(), h: hc}).mayContain(byte(ei)) && !hc.mayBeEmpty() {
				return false
			}
			panic(unsup("prefix test with symbolic word"))
		default:
			conj = and(fr.p.bank, conj, beq(fr, el[i], c))
			if conj == false {
				return false
			}
		}
	}
	return conj
}

func rev(v []Value) []Value {
	o := make([]Value, len(v))
	for i := range v {
		o[len(v)-1-i] = v[i]
	}
	return o
}

func (fr *Frame) hasSuffix(el, suf []Value) Value { return fr.hasPrefix(rev(el), rev(suf)) }

// find locates sep (constant) in el; forks on symbolic bytes. -1 if absent.
func (fr *Frame) find(el []Value, sep []Value) int {
	for i := 0; i+len(sep) <= len(el) || i < len(el); i++ {
		if h, ok := el[i].(*Hole); ok {
			// sep may start inside the word only if the word can contain its first byte
			for k := range sep {
				c, ok := sep[k].(int64)
				if !ok {
					panic(unsup("search for symbolic word"))
				}
				if k == 0 && (Piece{k: h.pk(), h: h}).mayContain(byte(c)) {
					panic(unsup("search inside symbolic word"))
				}
			}
			continue
		}
		if i+len(sep) > len(el) {
			break
		}
		if fr.p.decide(fr.hasPrefix(el[i:], sep)) {
			return i
		}
	}
	return -1
}

func fixedEl(v Value) []Value {
	el, _ := flat(v)
	return el
}

func hasHole(el []Value) bool {
	for _, e := range el {
		if _, ok := e.(*Hole); ok {
			return true
		}
	}
	return false
}

func init() {
	host1 := func(f func(a []Value) Value, sym func(fr *Frame, a []Value) Value) intrinsic {
		return func(fr *Frame, a []Value) Value {
			if isConc(a...) {
				return f(a)
			}
			if sym == nil {
				return fallThrough
			}
			return sym(fr, a)
		}
	}
	reg(host1(func(a []Value) Value { return strings.HasPrefix(a[0].(string), a[1].(string)) },
		func(fr *Frame, a []Value) Value { return fr.hasPrefix(fixedEl(a[0]), fixedEl(a[1])) }), "strings.HasPrefix", "internal/stringslite.HasPrefix")
	reg(host1(func(a []Value) Value { return strings.HasSuffix(a[0].(string), a[1].(string)) },
		func(fr *Frame, a []Value) Value { return fr.hasSuffix(fixedEl(a[0]), fixedEl(a[1])) }), "strings.HasSuffix", "internal/stringslite.HasSuffix")
	reg(host1(func(a []Value) Value { return strings.TrimPrefix(a[0].(string), a[1].(string)) },
		func(fr *Frame, a []Value) Value {
			el, pre := fixedEl(a[0]), fixedEl(a[1])
			if fr.p.decide(fr.hasPrefix(el, pre)) {
				return unflat(el[len(pre):])
			}
			return a[0]
		}), "strings.TrimPrefix", "internal/stringslite.TrimPrefix")
	reg(host1(func(a []Value) Value { return strings.TrimSuffix(a[0].(string), a[1].(string)) },
		func(fr *Frame, a []Value) Value {
			el, pre := fixedEl(a[0]), fixedEl(a[1])
			if fr.p.decide(fr.hasSuffix(el, pre)) {
				return unflat(el[:len(el)-len(pre)])
			}
			return a[0]
		}), "strings.TrimSuffix", "internal/stringslite.TrimSuffix")
	reg(host1(func(a []Value) Value { return int64(strings.Index(a[0].(string), a[1].(string))) },
		func(fr *Frame, a []Value) Value {
			el := fixedEl(a[0])
			i := fr.find(el, fixedEl(a[1]))
			if i < 0 {
				return int64(-1)
			}
			return fr.posVal(el[:i])
		}), "strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString")
	reg(host1(func(a []Value) Value { return strings.Contains(a[0].(string), a[1].(string)) },
		func(fr *Frame, a []Value) Value { return fr.find(fixedEl(a[0]), fixedEl(a[1])) >= 0 }), "strings.Contains")
	reg(host1(func(a []Value) Value { return int64(strings.IndexByte(a[0].(string), byte(a[1].(int64)))) },
		func(fr *Frame, a []Value) Value {
			el := fixedEl(a[0])
			i := fr.find(el, []Value{a[1]})
			if i < 0 {
				return int64(-1)
			}
			return fr.posVal(el[:i])
		}), "strings.IndexByte", "internal/bytealg.IndexByteString", "internal/stringslite.IndexByte")
	reg(host1(func(a []Value) Value { return int64(strings.IndexRune(a[0].(string), rune(a[1].(int64)))) },
		func(fr *Frame, a []Value) Value {
			el := fixedEl(a[0])
			i := fr.find(el, []Value{a[1]})
			if i < 0 {
				return int64(-1)
			}
			return fr.posVal(el[:i])
		}), "strings.IndexRune")
	reg(host1(func(a []Value) Value { return int64(strings.LastIndexByte(a[0].(string), byte(a[1].(int64)))) },
		func(fr *Frame, a []Value) Value {
			el := fixedEl(a[0])
			i := fr.find(rev(el), []Value{a[1]})
			if i < 0 {
				return int64(-1)
			}
			return fr.posVal(el[:len(el)-1-i])
		}), "strings.LastIndexByte", "internal/bytealg.LastIndexByteString")
	reg(host1(func(a []Value) Value {
		x, y, ok := strings.Cut(a[0].(string), a[1].(string))
		return Tuple{x, y, ok}
	}, func(fr *Frame, a []Value) Value {
		el, sep := fixedEl(a[0]), fixedEl(a[1])
		i := fr.find(el, sep)
		if i < 0 {
			return Tuple{a[0], "", false}
		}
		return Tuple{unflat(el[:i]), unflat(el[i+len(sep):]), true}
	}), "strings.Cut", "internal/stringslite.Cut")
	split := func(fr *Frame, s, sep Value) Slice {
		el, sp := fixedEl(s), fixedEl(sep)
		var out Slice
		for {
			i := fr.find(el, sp)
			if i < 0 {
				return append(out, unflat(el))
			}
			out = append(out, unflat(el[:i]))
			el = el[i+len(sp):]
		}
	}
	reg(host1(func(a []Value) Value { return strSlice(strings.Split(a[0].(string), a[1].(string))) },
		func(fr *Frame, a []Value) Value { return split(fr, a[0], a[1]) }), "strings.Split")
	reg(host1(func(a []Value) Value { return strSlice(strings.Fields(a[0].(string))) },
		func(fr *Frame, a []Value) Value {
			r := Slice{}
			el := fixedEl(a[0])
			st := 0
			for i := 0; i <= len(el); i++ {
				if i < len(el) {
					if _, h := el[i].(*Hole); h || !fr.p.decide(fr.isSpace(el[i])) {
						continue
					}
				}
				if i > st {
					r = append(r, unflat(el[st:i]))
				}
				st = i + 1
			}
			return r
		}), "strings.Fields")
	reg(func(fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		var r Value = ""
		for i, x := range s {
			if i > 0 {
				r = concat(r, a[1])
			}
			r = concat(r, x)
		}
		return r
	}, "strings.Join")
	reg(host1(func(a []Value) Value { return strings.EqualFold(a[0].(string), a[1].(string)) },
		func(fr *Frame, a []Value) Value {
			x, _ := a[0].(*SStr)
			y, _ := a[1].(*SStr)
			if x != nil && y != nil && len(x.ps) == 1 && len(y.ps) == 1 && x.ps[0] == y.ps[0] {
				return true
			}
			fr.p.note("EqualFold on symbolic words treated as equality")
			return fr.strEq(a[0], a[1])
		}), "strings.EqualFold")
	reg(host1(func(a []Value) Value { return strings.ToLower(a[0].(string)) }, nil), "strings.ToLower")
	reg(host1(func(a []Value) Value { return strings.ToUpper(a[0].(string)) }, nil), "strings.ToUpper")
	reg(host1(func(a []Value) Value { return strings.TrimSpace(a[0].(string)) },
		func(fr *Frame, a []Value) Value {
			el := fixedEl(a[0])
			for len(el) > 0 {
				if _, ok := el[0].(*Hole); ok || !fr.p.decide(fr.isSpace(el[0])) {
					break
				}
				el = el[1:]
			}
			for len(el) > 0 {
				if _, ok := el[len(el)-1].(*Hole); ok || !fr.p.decide(fr.isSpace(el[len(el)-1])) {
					break
				}
				el = el[:len(el)-1]
			}
			return unflat(el)
		}), "strings.TrimSpace")
	reg(func(fr *Frame, a []Value) Value { return nil }, "(*strings.Builder).copyCheck")
	reg(func(fr *Frame, a []Value) Value {
		s := (*fr.deref(a[0])).(Struct)
		sl, _ := s[1].(Slice)
		return unflat(sl)
	}, "(*strings.Builder).String")
	reg(func(fr *Frame, a []Value) Value {
		s := (*fr.deref(a[0])).(Struct)
		sl, _ := s[1].(Slice)
		el, _ := flat(a[1])
		s[1] = fr.appendVals(sl, el)
		return Tuple{int64(len(el)), Iface{}}
	}, "(*strings.Builder).WriteString")
	reg(func(fr *Frame, a []Value) Value { return nil }, "(*strings.Builder).Grow")
	reg(func(fr *Frame, a []Value) Value { return a[0] }, "strings.Clone", "internal/stringslite.Clone")
	// bytealg
	reg(func(fr *Frame, a []Value) Value {
		return int64(fr.find(a[0].(Slice), []Value{a[1]}))
	}, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(fr *Frame, a []Value) Value {
		return int64(len(split(fr, a[0], string([]byte{byte(a[1].(int64))}))) - 1)
	}, "internal/bytealg.CountString")
	reg(func(fr *Frame, a []Value) Value {
		n := int64(0)
		for _, e := range a[0].(Slice) {
			if fr.p.decide(beq(fr, e, a[1])) {
				n++
			}
		}
		return n
	}, "internal/bytealg.Count")
	reg(func(fr *Frame, a []Value) Value {
		return fr.strEq(unflat(a[0].(Slice)), unflat(a[1].(Slice)))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(fr *Frame, a []Value) Value {
		return int64(strings.Compare(str(unflat(a[0].(Slice))), str(unflat(a[1].(Slice)))))
	}, "bytes.Compare", "internal/bytealg.Compare")
	reg(func(fr *Frame, a []Value) Value {
		x, y := a[0], a[1]
		if isConc(x, y) {
			return int64(strings.Compare(x.(string), y.(string)))
		}
		if fr.p.decide(fr.strEq(x, y)) {
			return int64(0)
		}
		if fr.p.decide(fr.strCmp(token.LSS, x, y)) {
			return int64(-1)
		}
		return int64(1)
	}, "strings.Compare", "internal/bytealg.CompareString", "runtime.cmpstring")
	reg(func(fr *Frame, a []Value) Value { return make(Slice, 0, fr.intArg(a[0])) }, "internal/bytealg.MakeNoZero")
	intrinsics["internal/bytealg.MakeNoZero"] = func(fr *Frame, a []Value) Value {
		n := fr.intArg(a[0])
		s := make(Slice, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	}
	// strconv
	reg(host1(func(a []Value) Value { return strconv.Itoa(int(a[0].(int64))) },
		func(fr *Frame, a []Value) Value {
			return mkStr([]Piece{{k: pHole, h: &Hole{kind: "jnum", v: a[0]}}})
		}), "strconv.Itoa")
	reg(func(fr *Frame, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return mkStr([]Piece{{k: pHole, h: &Hole{kind: "jnum", v: t}}})
		}
		return fallThrough
	}, "strconv.FormatInt", "strconv.FormatUint")
	// errors
	reg(func(fr *Frame, a []Value) Value { return (*Value)(nil) }, "github.com/pkg/errors.callers")
	// os, runtime
	reg(func(fr *Frame, a []Value) Value { return "" }, "os.Getenv")
	reg(func(fr *Frame, a []Value) Value { return Tuple{"", false} }, "os.LookupEnv", "syscall.Getenv")
	reg(func(fr *Frame, a []Value) Value { return int64(4) }, "runtime.GOMAXPROCS", "runtime.NumCPU")
	reg(func(fr *Frame, a []Value) Value { return int64(0) }, "runtime.Callers")
	reg(func(fr *Frame, a []Value) Value { fr.p.sched.maybeYield(fr.g); return nil }, "runtime.Gosched")
	reg(func(fr *Frame, a []Value) Value { return nil }, "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC")
	reg(func(fr *Frame, a []Value) Value { return newPtr(Struct{"", Slice(nil), Slice(nil), int64(0)}) }, "internal/godebug.New")
	reg(func(fr *Frame, a []Value) Value { return "" }, "(*internal/godebug.Setting).Value")
	reg(func(fr *Frame, a []Value) Value { return nil }, "(*internal/godebug.Setting).IncNonDefault")
	// fmt
	reg(func(fr *Frame, a []Value) Value { return fr.sprintf(a[0], a[1].(Slice)) }, "fmt.Sprintf")
	reg(func(fr *Frame, a []Value) Value { return fr.sprint(a[0].(Slice), false) }, "fmt.Sprint")
	reg(func(fr *Frame, a []Value) Value { return fr.sprint(a[0].(Slice), true) }, "fmt.Sprintln")
	reg(func(fr *Frame, a []Value) Value { return Tuple{int64(0), Iface{}} }, "fmt.Printf", "fmt.Println", "fmt.Print")
	// math
	reg(func(fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			i, f := math.Modf(x)
			return Tuple{i, f}
		case *Term:
			b := fr.p.bank
			if x.op == OI2F {
				return Tuple{x, float64(0)}
			}
			t := b.FTrunc(x)
			return Tuple{fpVal(t), fpVal(b.FBin(OFSub, x, t))}
		}
		return fallThrough
	}, "math.Modf", "math.modf")
	reg(func(fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return math.Trunc(x)
		case *Term:
			if x.op == OI2F {
				return x
			}
			return fpVal(fr.p.bank.FTrunc(x))
		}
		return fallThrough
	}, "math.Trunc", "math.trunc")
	reg(func(fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return math.Round(x)
		case *Term:
			if x.op == OI2F {
				return x
			}
			// round half away from zero: trunc(x + copysign(0.5,x)) is not exact for 0.49999999999999994; do it exactly
			b := fr.p.bank
			t := b.FTrunc(x)
			d := b.FBin(OFSub, x, t)
			up := b.FBin(OFLe, b.FP(0.5), d)
			dn := b.FBin(OFLe, d, b.FP(-0.5))
			return fpVal(b.Ite(up, b.FBin(OFAdd, t, b.FP(1)), b.Ite(dn, b.FBin(OFAdd, t, b.FP(-1)), t)))
		}
		return fallThrough
	}, "math.Round")
	reg(func(fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.Abs(x)
		}
		b := fr.p.bank
		x := a[0].(*Term)
		return fpVal(b.Ite(b.FBin(OFLt, x, b.FP(0)), b.FBin(OFMul, x, b.FP(-1)), x))
	}, "math.Abs")
	reg(func(fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return math.IsNaN(x)
		}
		x := a[0].(*Term)
		return boolVal(fr.p.bank.Not(fr.p.bank.FBin(OFEq, x, x)))
	}, "math.IsNaN")
	reg(func(fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case float64:
			return int64(math.Float64bits(x))
		}
		panic(unsup("Float64bits of symbolic float"))
	}, "math.Float64bits")
	reg(func(fr *Frame, a []Value) Value {
		if x, ok := a[0].(int64); ok {
			return math.Float64frombits(uint64(x))
		}
		return fr.p.bank.Bits2F(a[0].(*Term))
	}, "math.Float64frombits")
	reg(func(fr *Frame, a []Value) Value {
		if x, ok := a[0].(float64); ok {
			return int64(math.Float32bits(float32(x)))
		}
		panic(unsup("Float32bits"))
	}, "math.Float32bits")
	reg(func(fr *Frame, a []Value) Value { return math.Floor(a[0].(float64)) }, "math.Floor")
	reg(func(fr *Frame, a []Value) Value { return math.Ceil(a[0].(float64)) }, "math.Ceil")
	// sort
	reg(func(fr *Frame, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			return nil
		}
		less := a[1]
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && fr.p.decide(fr.call(less, []Value{int64(j), int64(j - 1)})); j-- {
				x, y := cp(s[j]), cp(s[j-1])
				store(&s[j], y)
				store(&s[j-1], x)
			}
		}
		return nil
	}, "sort.Slice", "sort.SliceStable")
	// uuid
	reg(func(fr *Frame, a []Value) Value {
		fr.p.fresh++
		arr := make(Array, 16)
		for i := range arr {
			arr[i] = int64(0)
		}
		arr[0], arr[1] = int64(fr.p.fresh>>8), int64(fr.p.fresh&255)
		arr[6], arr[8] = int64(0x40), int64(0x80)
		return Tuple{arr, Iface{}}
	}, "github.com/google/uuid.NewRandom")
	// base64
	reg(func(fr *Frame, a []Value) Value {
		s := a[1].(Slice)
		if isConc(s) {
			if hasHole(s) {
				return mkStr([]Piece{{k: pHole, h: &Hole{kind: "inj", name: "b64", v: unflat(s)}}})
			}
			return fallThrough
		}
		return mkStr([]Piece{{k: pHole, h: &Hole{kind: "inj", name: "b64", v: unflat(s)}}})
	}, "(*encoding/base64.Encoding).EncodeToString")
	// hash
	reg(func(fr *Frame, a []Value) Value {
		arr := make(Array, 32)
		for i := range arr {
			arr[i] = hashPad{}
		}
		arr[0] = &Hole{kind: "inj", name: "hash", v: unflat(a[0].(Slice))}
		return arr
	}, "golang.org/x/crypto/sha3.Sum256", "crypto/sha3.Sum256", "crypto/sha256.Sum256")
	// gocache janitor
	reg(func(fr *Frame, a []Value) Value { return Iface{} }, "(*github.com/TwiN/gocache/v2.Cache).StartJanitor")
	// url escaping with symbolic words
	esc := func(f func(string) string) intrinsic {
		return func(fr *Frame, a []Value) Value {
			if s, ok := a[0].(string); ok {
				return f(s)
			}
			var ps []Piece
			for _, p := range pieces(a[0]) {
				if p.k == pConst {
					p.s = f(p.s)
				} else if p.k == pByte {
					panic(unsup("escape of symbolic byte"))
				}
				ps = append(ps, p)
			}
			return mkStr(ps)
		}
	}
	reg(esc(urlQueryEscape), "net/url.QueryEscape")
	reg(esc(urlPathEscape), "net/url.PathEscape")
	reg(func(fr *Frame, a []Value) Value {
		if s, ok := a[0].(string); ok {
			r, err := urlQueryUnescape(s)
			if err != nil {
				return Tuple{"", mkErr(fr, err.Error())}
			}
			return Tuple{r, Iface{}}
		}
		var ps []Piece
		for _, p := range pieces(a[0]) {
			if p.k == pConst {
				r, err := urlQueryUnescape(p.s)
				if err != nil {
					return Tuple{"", mkErr(fr, err.Error())}
				}
				p.s = r
			}
			ps = append(ps, p)
		}
		return Tuple{mkStr(ps), Iface{}}
	}, "net/url.QueryUnescape")
	timeInit()
	timerInit()
	condInit()
	jsonStreamInit()
	pathInit()
}

type hashPad struct{}

func (fr *Frame) isSpace(v Value) Value {
	switch x := v.(type) {
	case int64:
		return x == ' ' || x == '\t' || x == '\n' || x == '\r' || x == '\v' || x == '\f'
	case *Term:
		b := fr.p.bank
		r := b.Eq(x, b.BV(8, ' '))
		for _, c := range "\t\n\r\v\f" {
			r = b.Or(r, b.Eq(x, b.BV(8, uint64(c))))
		}
		return boolVal(r)
	}
	return false
}

// ---- formatting (messages only; unknown shapes are rendered opaquely) ----

func (fr *Frame) fmtVal(v Value, verb byte) Value {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "<nil>"
		}
		if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
			if tkOf(i.t).k != kString || true {
				for _, m := range []string{"Error", "String"} {
					if f := fr.p.w.prog.methodByName(i.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 && tkOf(f.Signature.Results().At(0).Type()).k == kString {
						if p, ok := i.v.(*Value); ok && p == nil {
							return "<nil>"
						}
						return fr.callInfo(fr.p.w.prog.info(f), []Value{i.v}, nil)
					}
				}
			}
		}
		if verb == 'T' {
			return i.t.String()
		}
		v = i.v
	}
	switch x := v.(type) {
	case string:
		if verb == 'q' {
			return strconv.Quote(x)
		}
		return x
	case *SStr:
		if verb == 'q' {
			return concat(concat("\"", x), "\"")
		}
		return x
	case int64:
		switch verb {
		case 'x':
			return strconv.FormatInt(x, 16)
		case 'c':
			return string(rune(x))
		case 'q':
			return strconv.QuoteRune(rune(x))
		}
		return strconv.FormatInt(x, 10)
	case bool:
		return strconv.FormatBool(x)
	case float64:
		return strconv.FormatFloat(x, 'g', -1, 64)
	case Slice:
		if len(x) > 64 {
			return "[...]"
		}
		var r Value = "["
		for i, e := range x {
			if i > 0 {
				r = concat(r, " ")
			}
			if h, ok := e.(*Hole); ok {
				_ = h
				r = concat(r, "?")
				continue
			}
			r = concat(r, fr.fmtVal(e, verb))
		}
		return concat(r, "]")
	case *Term:
		if x.w == 64 {
			return mkStr([]Piece{{k: pHole, h: &Hole{kind: "jnum", v: x}}})
		}
	}
	return fmt.Sprintf("<%T>", v)
}

func (fr *Frame) sprintf(f Value, args Slice) Value {
	fs, ok := f.(string)
	if !ok {
		return f
	}
	var r Value = ""
	n := 0
	for i := 0; i < len(fs); i++ {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			return concat(r, fs[i:])
		}
		r = concat(r, fs[i:i+j])
		i += j + 1
		for i < len(fs) && strings.IndexByte("+-# 0123456789.", fs[i]) >= 0 {
			i++
		}
		if i >= len(fs) {
			break
		}
		if fs[i] == '%' {
			r = concat(r, "%")
			continue
		}
		if n < len(args) {
			r = concat(r, fr.fmtVal(args[n], fs[i]))
		}
		n++
	}
	return r
}

func (fr *Frame) isStr(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.t != nil && tkOf(i.t).k == kString
}

func (fr *Frame) sprint(args Slice, ln bool) Value {
	var r Value = ""
	for i, a := range args {
		if i > 0 && (ln || !fr.isStr(a) && !fr.isStr(args[i-1])) {
			r = concat(r, " ")
		}
		r = concat(r, fr.fmtVal(a, 'v'))
	}
	if ln {
		r = concat(r, "\n")
	}
	return r
}

// ---- atomics ----

func atomicIntrinsic(fn *ssa.Function) intrinsic {
	n := fn.Name()
	if r := fn.Signature.Recv(); r != nil {
		if nm, ok := r.Type().(*types.Pointer); ok {
			if named, ok := types.Unalias(nm.Elem()).(*types.Named); ok && named.Obj().Name() == "Value" {
				switch n {
				case "Load":
					return func(fr *Frame, a []Value) Value {
						if v, ok := fr.p.side[a[0].(*Value)]; ok {
							return v.(Iface)
						}
						return Iface{}
					}
				case "Store":
					return func(fr *Frame, a []Value) Value { fr.p.side[a[0].(*Value)] = a[1].(Iface); return nil }
				case "Swap":
					return func(fr *Frame, a []Value) Value {
						o, _ := fr.p.side[a[0].(*Value)].(Iface)
						fr.p.side[a[0].(*Value)] = a[1].(Iface)
						return o
					}
				}
			}
		}
		return nil
	}
	sync := func(fr *Frame, v Value) {
		r := fr.p.race
		if r == nil {
			return
		}
		pv := v.(*Value)
		o, _ := r.atom[pv]
		r.acquire(fr.g, o)
		r.atom[pv] = r.release(fr.g, o)
	}
	rtk := func() tk { return tkOf(fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()) }
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(fr *Frame, a []Value) Value { sync(fr, a[0]); return cp(*fr.deref(a[0])) }
	case strings.HasPrefix(n, "Store"):
		return func(fr *Frame, a []Value) Value { sync(fr, a[0]); store(fr.deref(a[0]), a[1]); return nil }
	case strings.HasPrefix(n, "Swap"):
		return func(fr *Frame, a []Value) Value {
			sync(fr, a[0])
			o := cp(*fr.deref(a[0]))
			store(fr.deref(a[0]), a[1])
			return o
		}
	case strings.HasPrefix(n, "Add"):
		return func(fr *Frame, a []Value) Value {
			sync(fr, a[0])
			k := rtk()
			v := fr.arith(token.ADD, *fr.deref(a[0]), a[1], k, k)
			store(fr.deref(a[0]), v)
			return v
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(fr *Frame, a []Value) Value {
			sync(fr, a[0])
			t := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
			if fr.p.decide(fr.eq(t, *fr.deref(a[0]), a[1])) {
				store(fr.deref(a[0]), a[2])
				return true
			}
			return false
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		op := token.AND
		if strings.HasPrefix(n, "Or") {
			op = token.OR
		}
		return func(fr *Frame, a []Value) Value {
			k := rtk()
			o := *fr.deref(a[0])
			store(fr.deref(a[0]), fr.arith(op, o, a[1], k, k))
			return o
		}
	}
	return nil
}

var _ = os.Stderr

func init() {
	intrinsics["maps.clone"] = func(fr *Frame, a []Value) Value {
		i := a[0].(Iface)
		m, ok := i.v.(*MapV)
		if !ok || m == nil {
			return i
		}
		n := newMap()
		n.nsym = m.nsym
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			c := &MapEnt{k: e.k, v: cp(e.v), ck: e.ck}
			n.ents = append(n.ents, c)
			n.count++
			if c.ck != "" {
				n.idx[c.ck] = c
			}
		}
		return Iface{i.t, n}
	}
}
