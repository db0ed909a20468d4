package main

import (
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// The nondeterminism API used by harnesses; the native twin lives in
// /verif/harness/nd.

func ndErrs(fr *Frame, v Value) int64 {
	i, ok := v.(int64)
	if !ok {
		panic(unsup("nd: concrete integer needed"))
	}
	return i
}

func connective(f func(b *Bank, x, y Value) Value) intrinsic {
	return func(fr *Frame, a []Value) Value {
		r := a[0]
		if s, ok := r.(Slice); ok { // variadic
			var acc Value
			for i, e := range s {
				if i == 0 {
					acc = e
				} else {
					acc = f(fr.p.bank, acc, e)
				}
			}
			return acc
		}
		return f(fr.p.bank, a[0], a[1])
	}
}

func ndIntrinsic(fn *ssa.Function) intrinsic {
	if f, ok := ndFns[fn.Name()]; ok && fn.Signature.Recv() == nil {
		return f
	}
	return nil
}

func (fr *Frame) ndSign(payload Slice, typ Value, key, kidOf Value) Slice {
	h := &jhead{alg: "ES512"}
	if typ != nil {
		h.typ = typ
	}
	if kidOf != nil {
		h.kid = fr.kidOf(kidOf)
	}
	return fr.signJWT(payload, h, key)
}

var ndFns map[string]intrinsic

func init() {
	ndFns = map[string]intrinsic{
		"Bool": func(fr *Frame, a []Value) Value { return fr.p.ndBool(str(a[0])) },
		"Int": func(fr *Frame, a []Value) Value {
			return fr.p.ndInt(str(a[0]), ndErrs(fr, a[1]), ndErrs(fr, a[2]))
		},
		"Choice": func(fr *Frame, a []Value) Value {
			return int64(fr.p.ndChoice(str(a[0]), int(ndErrs(fr, a[1]))))
		},
		"Flag": func(fr *Frame, a []Value) Value { // forking boolean
			return fr.p.ndChoice(str(a[0]), 2) == 1
		},
		"Str": func(fr *Frame, a []Value) Value {
			return mkStr([]Piece{{k: pAtom, t: fr.p.ndAtom(str(a[0]))}})
		},
		"Float": func(fr *Frame, a []Value) Value {
			// any double: a symbolic bit pattern
			t := fr.p.ndInt(str(a[0]), math.MinInt64, math.MaxInt64)
			return fr.p.bank.Bits2F(t.(*Term))
		},
		"Bytes": func(fr *Frame, a []Value) Value {
			return fr.p.ndBytes(str(a[0]), int(ndErrs(fr, a[1])), str(a[2]))
		},
		"Assume": func(fr *Frame, a []Value) Value { fr.p.assume(a[0]); return nil },
		"Assert": func(fr *Frame, a []Value) Value {
			fr.p.assert(a[0], str(a[1]))
			return nil
		},
		"Cover": func(fr *Frame, a []Value) Value { fr.p.covers[str(a[0])] = true; return nil },
		"And": func(fr *Frame, a []Value) Value {
			var r Value = true
			for _, e := range a[0].(Slice) {
				r = and(fr.p.bank, r, e)
			}
			return r
		},
		"Or": func(fr *Frame, a []Value) Value {
			var r Value = false
			for _, e := range a[0].(Slice) {
				r = or(fr.p.bank, r, e)
			}
			return r
		},
		"Not":     func(fr *Frame, a []Value) Value { return not(fr.p.bank, a[0]) },
		"Implies": func(fr *Frame, a []Value) Value { return or(fr.p.bank, not(fr.p.bank, a[0]), a[1]) },
		"Iff": func(fr *Frame, a []Value) Value {
			b := fr.p.bank
			return boolVal(b.Eq(b.boolTerm(a[0]), b.boolTerm(a[1])))
		},
		"IteInt": func(fr *Frame, a []Value) Value {
			b := fr.p.bank
			if c, ok := a[0].(bool); ok {
				if c {
					return a[1]
				}
				return a[2]
			}
			t := b.Ite(b.boolTerm(a[0]), b.intTerm(a[1], 64), b.intTerm(a[2], 64))
			return intVal(t, kI64)
		},
		"DeepEq": func(fr *Frame, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.t == nil || y.t == nil {
				return x.t == nil && y.t == nil
			}
			if x.t != y.t {
				return false
			}
			return fr.deepEq(x.t, x.v, y.v, 0)
		},
		"Key": func(fr *Frame, a []Value) Value { return signerIface(a[0]) },
		"KeySet": func(fr *Frame, a []Value) Value { // KeySet(ids ...int64) jwks.JWKS
			var ks []Value
			if s, ok := a[0].(Slice); ok {
				for _, id := range s {
					ks = append(ks, mkKey(&jkey{id: id, kid: fr.kidOf(id), use: "sig", alg: "ES512"}))
				}
			}
			return Struct{mkSet(ks)}
		},
		"SpoofSet": func(fr *Frame, a []Value) Value { // SpoofSet(id, kidOf int64)
			return Struct{mkSet([]Value{mkKey(&jkey{id: a[0], kid: fr.kidOf(a[1]), use: "sig", alg: "ES512"})})}
		},
		"HasKeys": func(fr *Frame, a []Value) Value { // HasKeys(set jwks.JWKS, ids ...int64) bool
			s := a[0].(Struct)[0].(Iface)
			ids, _ := a[1].(Slice)
			if s.t == nil {
				return len(ids) == 0
			}
			ks := hostOf(s).data.(*jset).keys
			if len(ks) != len(ids) {
				return false
			}
			var r Value = true
			for i, k := range ks {
				r = and(fr.p.bank, r, and(fr.p.bank, fr.idEq(keyOf(k).id, ids[i]), !keyOf(k).priv))
			}
			return r
		},
		"Sign": func(fr *Frame, a []Value) Value {
			return fr.ndSign(a[0].(Slice), a[1], a[2], a[2])
		},
		"SignKid": func(fr *Frame, a []Value) Value { return fr.ndSign(a[0].(Slice), a[1], a[2], a[3]) },
		"SignNoTyp": func(fr *Frame, a []Value) Value {
			return fr.ndSign(a[0].(Slice), nil, a[1], a[1])
		},
		"SignNoKid": func(fr *Frame, a []Value) Value {
			return fr.ndSign(a[0].(Slice), a[1], a[2], nil)
		},
		"SignJSON": func(fr *Frame, a []Value) Value { // SignJSON(payload, typ1, key1, typ2, key2)
			x := jwtOf(fr.ndSign(a[0].(Slice), a[1], a[2], a[2]))
			y := jwtOf(fr.ndSign(a[0].(Slice), a[3], a[4], a[4]))
			x.sigs = append(x.sigs, y.sigs...)
			x.json = true
			return Slice{&Hole{kind: "jwt", doc: x}}
		},
		"Open": func(fr *Frame, a []Value) Value { // Open(jwt) (payload []byte, typ string, key int64, ok bool)
			d := jwtOf(a[0])
			if d == nil || d.json {
				return Tuple{Slice(nil), "", int64(-1), false}
			}
			var typ Value = ""
			if d.sigs[0].h.typ != nil {
				typ = d.sigs[0].h.typ
			}
			return Tuple{Slice(append([]Value{}, d.payload...)), typ, d.sigs[0].id, true}
		},
		"Serve": func(fr *Frame, a []Value) Value { fr.p.serve = a[0]; return nil },
		"Redis": func(fr *Frame, a []Value) Value {
			fr.p.redis = a[0]
			return fr.redisOptions()
		},
		"Now": func(fr *Frame, a []Value) Value { return fr.p.clock },
		"Advance": func(fr *Frame, a []Value) Value {
			fr.p.sched.quiesceIfMain(fr)
			fr.p.clock = fr.addI(fr.p.clock, a[0])
			fr.p.expire(fr)
			return nil
		},
		"Quiesce": func(fr *Frame, a []Value) Value { fr.p.sched.quiesce(fr); return nil },
		"Yield":   func(fr *Frame, a []Value) Value { fr.p.sched.maybeYield(fr.g); return nil },
		"Obs": func(fr *Frame, a []Value) Value {
			fr.p.obs = append(fr.p.obs, obsRec{str(a[0]), a[1]})
			return nil
		},
		"Thorough": func(fr *Frame, a []Value) Value { return fr.p.e.tier == "thorough" },
		"Pick": func(fr *Frame, a []Value) Value { // Pick(quick, thorough int64)
			if fr.p.e.tier == "thorough" {
				return a[1]
			}
			return a[0]
		},
		"Bound": func(fr *Frame, a []Value) Value { // Bound(label, quick, thorough)
			v := a[1]
			if fr.p.e.tier == "thorough" {
				v = a[2]
			}
			fr.p.e.mu.Lock()
			fr.p.e.st.Bounds[str(a[0])] = v.(int64)
			fr.p.e.mu.Unlock()
			return v
		},
		"Races": func(fr *Frame, a []Value) Value {
			if a[0].(bool) {
				fr.p.race = newRace(fr.p)
			} else {
				fr.p.race = nil
			}
			return nil
		},
		"Schedules": func(fr *Frame, a []Value) Value { fr.p.schedChoices = int(ndErrs(fr, a[0])); return nil },
		"MapOrder":  func(fr *Frame, a []Value) Value { fr.p.mapRot = a[0].(bool); return nil },
		"Symbolic":  func(fr *Frame, a []Value) Value { return true },
		"Catch": func(fr *Frame, a []Value) (ret Value) { // Catch(f) (panicked bool)
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(targetPanic); ok {
						if debugOn {
							println("CAUGHT", panicText(r.(targetPanic)))
						}
						ret = true
						return
					}
					panic(r)
				}
			}()
			d := fr.g.depth
			fr.call(a[0], nil)
			fr.g.depth = d
			return false
		},
		"Stop": func(fr *Frame, a []Value) Value { panic(pathEnd{"assume"}) },
		// jwk.Set-free view of a map[string]any value: strings, numbers
		"IsNilMap": func(fr *Frame, a []Value) Value { m, ok := a[0].(*MapV); return ok && m == nil },
	}
	_ = types.Typ
}

func (s *Sched) quiesceIfMain(fr *Frame) {
	if fr.g == s.main {
		s.quiesce(fr)
	}
}
