package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Model of the jwx library (crypto is symbolic: a signature made with key k
// verifies exactly with k). Everything above the library runs for real.

type jkey struct {
	id   Value // key identity: int64 or BV64 term
	kid  Value // string rope or nil
	use  Value
	alg  Value
	priv bool
}
type jset struct{ keys []Value } // Iface of jwk.Key
type jhead struct{ typ, kid, alg Value }
type jsig struct {
	h  *jhead
	id Value // signing key
}
type jwtDoc struct {
	payload []Value
	sigs    []jsig
	json    bool
}

const jwxPath = "github.com/lestrrat-go/jwx/v3"

var jwxT struct {
	set, key, pkey, headers types.Type // *jwk.set, *jwk.ecdsaPublicKey, ...
	ecPriv, ecPub           types.Type
	sigAlg                  types.Type
	opt                     types.Type
}

func (pr *Program) namedPtr(path, name string) types.Type {
	pk := pr.pkgs[path]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return canon(types.NewPointer(o.Type()))
}

func (pr *Program) initJwx() {
	jwxT.set = pr.namedPtr(jwxPath+"/jwk", "set")
	jwxT.key = pr.namedPtr(jwxPath+"/jwk", "ecdsaPublicKey")
	jwxT.pkey = pr.namedPtr(jwxPath+"/jwk", "ecdsaPrivateKey")
	jwxT.headers = pr.namedPtr(jwxPath+"/jws", "stdHeaders")
	jwxT.ecPriv = pr.namedPtr("crypto/ecdsa", "PrivateKey")
	jwxT.ecPub = pr.namedPtr("crypto/ecdsa", "PublicKey")
	if pk := pr.pkgs[jwxPath+"/jwa"]; pk != nil {
		jwxT.sigAlg = canon(pk.Pkg.Scope().Lookup("SignatureAlgorithm").Type())
	}
}

func (fr *Frame) kidOf(id Value) Value {
	b := fr.p.bank
	t := b.Bin(OAdd, b.Extract(b.intTerm(id, 64), 31, 0), b.BV(32, 0xC0000000))
	return mkStr([]Piece{{k: pAtom, t: t}})
}

func signerIface(id Value) Iface {
	return Iface{jwxT.ecPriv, newPtr(&HostObj{"signer", id})}
}

func mkSet(keys []Value) Iface {
	return Iface{jwxT.set, newPtr(&HostObj{"jwkset", &jset{keys}})}
}
func mkKey(k *jkey) Iface {
	t := jwxT.key
	if k.priv {
		t = jwxT.pkey
	}
	return Iface{t, newPtr(&HostObj{"jwkkey", k})}
}

func keyOf(v Value) *jkey { return hostOf(v).data.(*jkey) }

func (fr *Frame) idEq(x, y Value) Value {
	b := fr.p.bank
	return boolVal(b.Eq(b.intTerm(x, 64), b.intTerm(y, 64)))
}

func optStr(v Value) Tuple {
	if v == nil {
		return Tuple{"", false}
	}
	return Tuple{v, true}
}

func (fr *Frame) optEq(x, y Value) Value {
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	return fr.strEq(x, y)
}

func (fr *Frame) jkeyEq(a, c *jkey) Value {
	b := fr.p.bank
	if a.priv != c.priv {
		return false
	}
	return and(b, fr.idEq(a.id, c.id), and(b, fr.optEq(a.kid, c.kid), and(b, fr.optEq(a.use, c.use), fr.optEq(a.alg, c.alg))))
}

func (fr *Frame) jsetEq(a, c *jset) Value {
	if len(a.keys) != len(c.keys) {
		return false
	}
	var r Value = true
	for i := range a.keys {
		r = and(fr.p.bank, r, fr.jkeyEq(keyOf(a.keys[i]), keyOf(c.keys[i])))
	}
	return r
}

func (fr *Frame) hostEq(a, c *HostObj) Value {
	if a == c {
		return true
	}
	if a.kind != c.kind {
		return false
	}
	switch a.kind {
	case "jwkset":
		return fr.jsetEq(a.data.(*jset), c.data.(*jset))
	case "jwkkey":
		return fr.jkeyEq(a.data.(*jkey), c.data.(*jkey))
	case "signer", "pub":
		return fr.idEq(a.data, c.data)
	case "jwsmsg":
		return a.data == c.data
	}
	panic(unsup("equality of modelled %s", a.kind))
}

// distinct signing operations give distinct tokens (ECDSA nonces).
func (fr *Frame) jwtEq(a, c *Hole) Value { return a.doc == c.doc }

func (fr *Frame) jwksEq(a, c *Hole) Value { return fr.jsetEq(a.doc.(*jset), c.doc.(*jset)) }

func sigAlgVal(name string) Value {
	return Struct{name, false, name == "HS256" || name == "HS384" || name == "HS512"}
}
func algName(v Value) Value {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	switch x := v.(type) {
	case Struct:
		return x[0]
	case string, *SStr:
		return x
	}
	panic(unsup("algorithm %T", v))
}

func (fr *Frame) signJWT(payload []Value, h *jhead, id Value) Slice {
	pl := append([]Value{}, payload...)
	return Slice{&Hole{kind: "jwt", doc: &jwtDoc{payload: pl, sigs: []jsig{{h, id}}}}}
}

func jwtOf(v Value) *jwtDoc {
	s, _ := v.(Slice)
	if len(s) == 1 {
		if h, ok := s[0].(*Hole); ok && h.kind == "jwt" {
			return h.doc.(*jwtDoc)
		}
	}
	return nil
}

func (fr *Frame) verifyJWT(d *jwtDoc, set *jset) bool {
	for _, s := range d.sigs {
		if s.h.kid == nil {
			continue
		}
		for _, kv := range set.keys {
			k := keyOf(kv)
			if k.kid == nil || !fr.p.decide(fr.strEq(k.kid, s.h.kid)) {
				continue
			}
			// first key with this kid decides
			if k.use != nil && !fr.p.decide(or(fr.p.bank, fr.strEq(k.use, ""), fr.strEq(k.use, "sig"))) {
				break
			}
			if k.alg != nil && !fr.p.decide(fr.strEq(k.alg, "ES512")) {
				break
			}
			if fr.p.decide(fr.idEq(k.id, s.id)) {
				return true
			}
			break
		}
	}
	return false
}

func nilErr() Iface { return Iface{} }

func (fr *Frame) jsonSet(set *jset) Slice {
	if len(set.keys) == 0 {
		el, _ := flat(`{"keys":[]}`)
		return el
	}
	cp := &jset{append([]Value{}, set.keys...)}
	return Slice{&Hole{kind: "jwks", doc: cp}}
}

func init() {
	hm := func(kind, name string, f hostFn) {
		if hostMethods[kind] == nil {
			hostMethods[kind] = map[string]hostFn{}
		}
		hostMethods[kind][name] = f
	}
	set := func(v Value) *jset { return hostOf(v).data.(*jset) }
	hm("signer", "Public", func(fr *Frame, a []Value) Value {
		return Iface{jwxT.ecPub, newPtr(&HostObj{"pub", hostOf(a[0]).data})}
	})
	// ---- jwk.Set ----
	hm("jwkset", "Len", func(fr *Frame, a []Value) Value { return int64(len(set(a[0]).keys)) })
	hm("jwkset", "AddKey", func(fr *Frame, a []Value) Value {
		s := set(a[0])
		for _, k := range s.keys {
			if fr.p.decide(fr.jkeyEq(keyOf(k), keyOf(a[1]))) {
				return mkErr(fr, "(jwk.Set).AddKey: key already exists")
			}
		}
		s.keys = append(append([]Value{}, s.keys...), a[1])
		return Iface{}
	})
	hm("jwkset", "Key", func(fr *Frame, a []Value) Value {
		s := set(a[0])
		i, ok := a[1].(int64)
		if !ok {
			panic(unsup("symbolic key index"))
		}
		if i < 0 || i >= int64(len(s.keys)) {
			return Tuple{Iface{}, false}
		}
		return Tuple{s.keys[i], true}
	})
	hm("jwkset", "LookupKeyID", func(fr *Frame, a []Value) Value {
		for _, kv := range set(a[0]).keys {
			k := keyOf(kv)
			if k.kid != nil && fr.p.decide(fr.strEq(k.kid, a[1])) {
				return Tuple{kv, true}
			}
		}
		return Tuple{Iface{}, false}
	})
	hm("jwkset", "Clone", func(fr *Frame, a []Value) Value {
		return Tuple{mkSet(append([]Value{}, set(a[0]).keys...)), Iface{}}
	})
	hm("jwkset", "Clear", func(fr *Frame, a []Value) Value { set(a[0]).keys = nil; return Iface{} })
	hm("jwkset", "MarshalJSON", func(fr *Frame, a []Value) Value {
		return Tuple{fr.jsonSet(set(a[0])), Iface{}}
	})
	hm("jwkset", "UnmarshalJSON", func(fr *Frame, a []Value) Value {
		s := set(a[0])
		n, ok := fr.jparse(a[1].(Slice))
		if !ok {
			return mkErr(fr, "failed to parse JWK set")
		}
		s.keys = nil
		switch n.k {
		case 'J':
			s.keys = append([]Value{}, n.h.doc.(*jset).keys...)
			return Iface{}
		case 'K':
			s.keys = []Value{mkKey(n.h.doc.(*jkey))}
			return Iface{}
		case '{':
			for i, k := range n.keys {
				if fr.p.decide(fr.strEq(k, "keys")) {
					c := n.arr[i]
					if c.k == 'n' {
						return Iface{}
					}
					if c.k != '[' {
						return mkErr(fr, "failed to decode \"keys\"")
					}
					for _, e := range c.arr {
						if e.k != 'K' {
							return mkErr(fr, "failed to decode key in \"keys\"")
						}
						s.keys = append(s.keys, mkKey(e.h.doc.(*jkey)))
					}
					return Iface{}
				}
			}
		}
		return mkErr(fr, "failed to parse sole key in key set")
	})
	// ---- jwk.Key ----
	hm("jwkkey", "KeyID", func(fr *Frame, a []Value) Value { return optStr(keyOf(a[0]).kid) })
	hm("jwkkey", "KeyUsage", func(fr *Frame, a []Value) Value { return optStr(keyOf(a[0]).use) })
	hm("jwkkey", "Algorithm", func(fr *Frame, a []Value) Value {
		k := keyOf(a[0])
		if k.alg == nil {
			return Tuple{Iface{}, false}
		}
		return Tuple{Iface{jwxT.sigAlg, sigAlgVal(str(k.alg))}, true}
	})
	hm("jwkkey", "Set", func(fr *Frame, a []Value) Value {
		k := keyOf(a[0])
		v := a[2].(Iface)
		switch str(a[1]) {
		case "kid":
			k.kid = v.v
		case "use":
			k.use = v.v
		case "alg":
			k.alg = algName(v)
		default:
			panic(unsup("jwk field %s", a[1]))
		}
		return Iface{}
	})
	hm("jwkkey", "MarshalJSON", func(fr *Frame, a []Value) Value {
		k := *keyOf(a[0])
		return Tuple{Slice{&Hole{kind: "jwkj", doc: &k}}, Iface{}}
	})
	// ---- jws headers ----
	head := func(v Value) *jhead { return hostOf(v).data.(*jhead) }
	hm("jwshead", "Set", func(fr *Frame, a []Value) Value {
		h := head(a[0])
		v := a[2].(Iface)
		switch str(a[1]) {
		case "typ":
			h.typ = v.v
		case "kid":
			h.kid = v.v
		case "alg":
			h.alg = algName(v)
		default:
			panic(unsup("jws header %s", a[1]))
		}
		return Iface{}
	})
	hm("jwshead", "Type", func(fr *Frame, a []Value) Value { return optStr(head(a[0]).typ) })
	hm("jwshead", "KeyID", func(fr *Frame, a []Value) Value { return optStr(head(a[0]).kid) })
	hm("jwshead", "Algorithm", func(fr *Frame, a []Value) Value {
		return Tuple{sigAlgVal("ES512"), true}
	})

	J := jwxPath
	mkHead := func(h *jhead) Iface { return Iface{jwxT.headers, newPtr(&HostObj{"jwshead", h})} }
	reg(func(fr *Frame, a []Value) Value { return mkSet(nil) }, J+"/jwk.NewSet")
	imp := func(fr *Frame, a []Value, pub bool) Value {
		raw := a[0].(Iface)
		h := hostOf(raw)
		if h == nil {
			return Tuple{Iface{}, mkErr(fr, "jwk: failed to import key")}
		}
		switch h.kind {
		case "signer":
			return Tuple{mkKey(&jkey{id: h.data, priv: !pub}), Iface{}}
		case "pub":
			return Tuple{mkKey(&jkey{id: h.data}), Iface{}}
		case "jwkkey":
			k := *h.data.(*jkey)
			if pub {
				k.priv = false
			}
			return Tuple{mkKey(&k), Iface{}}
		}
		return Tuple{Iface{}, mkErr(fr, "jwk: failed to import key")}
	}
	reg(func(fr *Frame, a []Value) Value { return imp(fr, a, false) }, J+"/jwk.Import", J+"/jwk.Import[github.com/lestrrat-go/jwx/v3/jwk.Key]")
	reg(func(fr *Frame, a []Value) Value { return imp(fr, a, true) }, J+"/jwk.PublicKeyOf")
	reg(func(fr *Frame, a []Value) Value {
		k := keyOf(a[0])
		k.kid = fr.kidOf(k.id)
		return Iface{}
	}, J+"/jwk.AssignKeyID")
	reg(func(fr *Frame, a []Value) Value { return mkHead(&jhead{}) }, J+"/jws.NewHeaders")
	opt := func(name string) {
		reg(func(fr *Frame, a []Value) Value {
			return Iface{jwxT.headers, newPtr(&HostObj{"jwsopt", Tuple{name, Tuple(append([]Value{}, a...))}})}
		}, J+"/jws."+name)
	}
	for _, n := range []string{"WithKey", "WithProtectedHeaders", "WithKeySet", "WithInferAlgorithmFromKey", "WithCompact", "WithRequireKid", "WithUseDefault", "WithMultipleKeysPerKeyID"} {
		opt(n)
	}
	optOf := func(v Value) (string, Tuple) {
		t := hostOf(v).data.(Tuple)
		return t[0].(string), t[1].(Tuple)
	}
	reg(func(fr *Frame, a []Value) Value {
		for _, o := range a[1].(Slice) {
			n, x := optOf(o)
			if n != "WithKey" {
				continue
			}
			h := &jhead{}
			for _, s := range x[2].(Slice) {
				sn, sx := optOf(s)
				if sn == "WithProtectedHeaders" {
					if hh := hostOf(sx[0]); hh != nil {
						*h = *hh.data.(*jhead)
					}
				}
			}
			k := x[1].(Iface)
			kh := hostOf(k)
			if kh == nil || kh.kind == "pub" {
				return Tuple{Slice(nil), mkErr(fr, "jws.Sign: failed to sign payload")}
			}
			// the test keys are P-521: only ES512 (and key-derived algorithms) can sign
			alg := algName(x[0])
			if !fr.p.decide(fr.strEq(alg, "ES512")) {
				return Tuple{Slice(nil), mkErr(fr, "jws.Sign: failed to generate signature")}
			}
			h.alg = "ES512"
			var id Value
			if kh.kind == "signer" {
				id = kh.data
			} else {
				id = kh.data.(*jkey).id
			}
			return Tuple{fr.signJWT(a[0].(Slice), h, id), Iface{}}
		}
		return Tuple{Slice(nil), mkErr(fr, "jws.Sign: no signers available")}
	}, J+"/jws.Sign")
	reg(func(fr *Frame, a []Value) Value {
		d := jwtOf(a[0])
		if d != nil && d.json {
			for _, o := range a[1].(Slice) {
				if n, _ := optOf(o); n == "WithCompact" {
					d = nil
					break
				}
			}
		}
		if d == nil {
			return Tuple{(*Value)(nil), mkErr(fr, "jws.Parse: failed to parse")}
		}
		return Tuple{newPtr(&HostObj{"jwsmsg", d}), Iface{}}
	}, J+"/jws.Parse")
	msg := func(fr *Frame, v Value) *jwtDoc {
		if _, ok := v.(*Value); ok {
			fr.deref(v)
		}
		return hostOf(v).data.(*jwtDoc)
	}
	reg(func(fr *Frame, a []Value) Value {
		d := msg(fr, a[0])
		out := make(Slice, len(d.sigs))
		for i := range d.sigs {
			out[i] = newPtr(&HostObj{"jwssig", d.sigs[i].h})
		}
		return out
	}, "("+J+"/jws.Message).Signatures")
	reg(func(fr *Frame, a []Value) Value {
		return Slice(append([]Value{}, msg(fr, a[0]).payload...))
	}, "("+J+"/jws.Message).Payload")
	reg(func(fr *Frame, a []Value) Value {
		if _, ok := a[0].(*Value); ok {
			fr.deref(a[0])
		}
		return mkHead(hostOf(a[0]).data.(*jhead))
	}, "("+J+"/jws.Signature).ProtectedHeaders")
	reg(func(fr *Frame, a []Value) Value {
		fail := Tuple{Slice(nil), mkErr(fr, "jws.Verify: could not verify message using any of the signatures or keys")}
		d := jwtOf(a[0])
		if d == nil {
			return fail
		}
		for _, o := range a[1].(Slice) {
			n, x := optOf(o)
			switch n {
			case "WithKeySet":
				for _, s := range x[1].(Slice) {
					if sn, _ := optOf(s); sn != "WithInferAlgorithmFromKey" {
						panic(unsup("jws.WithKeySet option %s", sn))
					}
				}
				if fr.verifyJWT(d, set(x[0])) {
					return Tuple{Slice(append([]Value{}, d.payload...)), Iface{}}
				}
			default:
				panic(unsup("jws.Verify option %s", n))
			}
		}
		return fail
	}, J+"/jws.Verify")
	reg(func(fr *Frame, a []Value) Value {
		if len(a[1].(Slice)) > 0 {
			panic(unsup("jwt.Parse with options"))
		}
		return Tuple{Iface{}, mkErr(fr, "jwt.Parse: no keys for verification are provided")}
	}, J+"/jwt.Parse")
	// key comparison used by ecdsa
	_ = msg
}

// jwxIntrinsic handles families of functions; anything not modelled is an
// explicit "unsupported" rather than being interpreted.
func jwxIntrinsic(path string, fn *ssa.Function) intrinsic {
	if path == jwxPath+"/jwa" && fn.Signature.Recv() == nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 {
		if canon(fn.Signature.Results().At(0).Type()) == jwxT.sigAlg {
			name := fn.Name()
			return func(fr *Frame, a []Value) Value { return sigAlgVal(name) }
		}
	}
	if path == jwxPath+"/jws" || path == jwxPath+"/jwk" || path == jwxPath+"/jwt" {
		if fn.Name() == "init" {
			return nil
		}
		n := fn.String()
		return func(fr *Frame, a []Value) Value {
			if len(a) > 0 {
				if p, ok := a[0].(*Value); ok && p == nil && fn.Signature.Recv() != nil {
					fr.rtPanic("invalid memory address or nil pointer dereference")
				}
				if h := hostOf(a[0]); h != nil && fn.Signature.Recv() != nil {
					if m := hostMethods[h.kind][fn.Name()]; m != nil {
						return m(fr, a)
					}
				}
			}
			panic(unsup("library function %s", n))
		}
	}
	if path == "crypto/ecdsa" && fn.Signature.Recv() != nil {
		return func(fr *Frame, a []Value) Value {
			if h := hostOf(a[0]); h != nil {
				if m := hostMethods[h.kind][fn.Name()]; m != nil {
					return m(fr, a)
				}
			}
			panic(unsup("library function %s", fn.String()))
		}
	}
	return nil
}
