package zzverif

import (
	"crypto"
	"encoding/json"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/jwx"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/jwks"
)

// tokenSigner is what all typed signers have in common.
type tokenSigner interface {
	JWT(i any) ([]byte, error)
	JWKS() jwks.JWKS
}

// signers makes the signer of a kind; 0..3 as parseAs, 4 is one of its own type.
func signer(kind int, derived bool, key crypto.Signer, typ string) tokenSigner {
	alg := jwa.ES512()
	if derived {
		g := oidfed.NewGeneralJWTSigner(key, alg)
		switch kind {
		case 0:
			return g.EntityStatementSigner()
		case 1:
			return g.TrustMarkSigner()
		case 2:
			return g.TrustMarkDelegationSigner()
		case 3:
			return g.ResolveResponseSigner()
		}
		return g.Typed(typ)
	}
	switch kind {
	case 0:
		return oidfed.NewEntityStatementSigner(key, alg)
	case 1:
		return oidfed.NewTrustMarkSigner(key, alg)
	case 2:
		return oidfed.NewTrustMarkDelegationSigner(key, alg)
	case 3:
		return oidfed.NewResolveResponseSigner(key, alg)
	}
	return &oidfed.TypedJWTSigner{GeneralJWTSigner: oidfed.NewGeneralJWTSigner(key, alg), HeaderType: typ}
}

// claimsToSign are claims of any kind, and what they are as JSON.
func claimsToSign(l string) any {
	now := nd.Now()
	o := obj{"iss": nd.Str(l + " iss"), "sub": nd.Str(l + " sub"), "iat": now, "exp": now + nd.Int(l+" lifetime", 1, 1<<30), "trust_mark_type": nd.Str(l + " type")}
	switch nd.Choice(l+" claims", 4) {
	case 0:
		return o
	case 1:
		o["extra"] = arr{nil, obj{"x": true}, nd.Int(l+" number", -1<<40, 1<<40)}
		return o
	case 2: // an own document
		return json.RawMessage(enc(o))
	}
	tm := oidfed.TrustMark{Issuer: o["iss"].(string), Subject: o["sub"].(string), TrustMarkType: o["trust_mark_type"].(string), Extra: obj{"x": arr{"y"}}}
	tm.IssuedAt.Time = unix(now)
	return tm
}

// H_P31_sign: what a signer signs.
func H_P31_sign() {
	key, other := nd.Int("key", 1, 3), nd.Int("other key", 1, 3)
	kind := nd.Choice("signer", 5)
	typ := nd.Str("typ")
	want := typ
	if kind < 4 {
		want = typs[kind]
	}
	s := signer(kind, nd.Flag("derived"), nd.Key(key), typ)
	claims := claimsToSign("claims")
	before := enc(claims)
	for i := 0; i < 2; i++ { // a signer can be used again
		tok, err := s.JWT(claims)
		nd.Assert(err == nil, "claims are signed")
		payload, t, id, ok := nd.Open(tok)
		nd.Assert(ok && t == want, "a token has the type of the signer")
		nd.Assert(id == key, "a token is signed with the key of the signer")
		nd.Assert(sameJSON(payload, before), "a token holds exactly the claims")
		m, err := jwx.Parse(tok)
		nd.Assert(err == nil, "a token is a JWT in compact serialization")
		b, err := m.VerifyWithSet(s.JWKS())
		nd.Assert(err == nil && sameJSON(b, before), "a token is valid with the published keys of the signer")
		_, err = m.VerifyWithSet(nd.KeySet(other))
		nd.Assert((err == nil) == (other == key), "a token is valid with no other key")
		_, err = m.VerifyWithSet(nd.KeySet(4, key, 5))
		nd.Assert(err == nil, "a token is valid if the key of the signer is among the keys")
		for p := 0; p < 4; p++ {
			iss, sub, tmt, ok := parseAs(p, tok)
			nd.Assert(ok == (want == typs[p]), "a token is accepted for the purpose of the signer only")
			if ok {
				c := decoded(rawJSON(before))
				nd.Assert(iss == c["iss"] && sub == c["sub"] && (p == 0 || p == 3 || tmt == c["trust_mark_type"]), "the claims are read back")
			}
		}
	}
	nd.Assert(sameJSON(before, enc(claims)), "the claims are left as they were")
	nd.Assert(nd.HasKeys(s.JWKS(), key), "exactly the key of the signer is published")
	nd.Cover("signed")
}

// H_P31_derived: signers derived from one general signer do not influence each other.
func H_P31_derived() {
	key := nd.Int("key", 1, 3)
	g := oidfed.NewGeneralJWTSigner(nd.Key(key), jwa.ES512())
	claims := claimsToSign("claims")
	n := int(nd.Bound("signers", 2, 3))
	var ss []tokenSigner
	var want []string
	for i := 0; i < n; i++ {
		typ := nd.Str("typ")
		switch k := nd.Choice("signer", 5); k {
		case 0:
			ss, want = append(ss, g.EntityStatementSigner()), append(want, typES)
		case 1:
			ss, want = append(ss, g.TrustMarkSigner()), append(want, typTM)
		case 2:
			ss, want = append(ss, g.TrustMarkDelegationSigner()), append(want, typTMD)
		case 3:
			ss, want = append(ss, g.ResolveResponseSigner()), append(want, typRR)
		case 4:
			ss, want = append(ss, g.Typed(typ)), append(want, typ)
		}
	}
	free := nd.Str("free type")
	for i, s := range ss {
		tok, err := s.JWT(claims)
		nd.Assert(err == nil, "claims are signed")
		_, t, id, ok := nd.Open(tok)
		nd.Assert(ok && t == want[i] && id == key, "every token has the type of its signer")
		tok, err = g.JWT(claims, free)
		nd.Assert(err == nil, "claims are signed")
		_, t, id, ok = nd.Open(tok)
		nd.Assert(ok && t == free && id == key, "the general signer signs with the type given")
		nd.Assert(nd.HasKeys(s.JWKS(), key) && nd.HasKeys(g.JWKS(), key), "they publish the same key")
	}
	nd.Cover("derived")
}

// H_P31_nothing: what cannot be signed.
func H_P31_nothing() {
	kind, derived := nd.Choice("signer", 5), nd.Flag("derived")
	var claims any = obj{"iss": nd.Str("iss")}
	var key crypto.Signer
	if nd.Flag("key") {
		key = nd.Key(1)
		claims = []any{obj{"iss": nd.Str("iss"), "x": func() {}}, json.RawMessage(nd.Str("iss") + "x"), json.RawMessage(`{"iss":`), obj{"x": json.RawMessage("{}}")}}[nd.Choice("claims", 4)]
	}
	s := signer(kind, derived, key, "typ")
	tok, err := s.JWT(claims)
	nd.Assert(err != nil && len(tok) == 0, "without a key, or claims that are no JSON, there is no token")
	nd.Cover("nothing")
}
