package zzverif

import (
	"strings"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

var typs = []string{typES, typTM, typTMD, typRR}

// parseAs runs one of the four parsers; ids are the claims handed out.
func parseAs(kind int, tok []byte) (iss, sub, typ string, ok bool) {
	switch kind {
	case 0:
		s, err := oidfed.ParseEntityStatement(tok)
		if err == nil {
			return s.Issuer, s.Subject, "", true
		}
		nd.Assert(s == nil, "no statement beside an error")
	case 1:
		m, err := oidfed.ParseTrustMark(tok)
		if err == nil {
			return m.Issuer, m.Subject, m.TrustMarkType, true
		}
		nd.Assert(m == nil, "no trust mark beside an error")
	case 2:
		m := oidfed.TrustMark{DelegationJWT: string(tok)}
		d, err := m.Delegation()
		if err == nil && d == nil {
			return "", "", "", false // no delegation
		}
		if err == nil {
			return d.Issuer, d.Subject, d.TrustMarkType, true
		}
		_, err = m.Delegation()
		nd.Assert(err != nil, "a rejected delegation stays rejected")
	case 3:
		r, err := oidfed.ParseResolveResponse(tok)
		if err == nil {
			return r.Issuer, r.Subject, "", true
		}
		nd.Assert(r == nil, "no resolve response beside an error")
	}
	return "", "", "", false
}

// H_P06_type: a token of any type is given to each of the parsers.
func H_P06_type() {
	kind := nd.Choice("parser", 4)
	iss, sub, tmt := nd.Str("iss"), nd.Str("sub"), nd.Str("trust mark type")
	payload := enc(obj{"iss": iss, "sub": sub, "iat": nd.Now(), "exp": nd.Now() + day, "trust_mark_type": tmt})
	var tok []byte
	right := false
	switch nd.Choice("header", 6) {
	case 0: // any word, with and without suffixes
		w := nd.Str("typ")
		for _, s := range []string{"", "+jwt", "+JWT", "application/", "entity-"}[nd.Choice("affix", 5):] {
			switch s {
			case "application/":
				w = s + w + "+jwt"
			case "entity-":
				w = s + w + "+jwt"
			default:
				w += s
			}
			break
		}
		right = w == typs[kind]
		tok = nd.Sign(payload, w, 1)
	case 1: // one of the registered types
		i := nd.Choice("registered", 4)
		right = i == kind
		tok = nd.Sign(payload, typs[i], 1)
	case 2:
		tok = nd.SignNoTyp(payload, 1)
	case 3:
		right = nd.Flag("right type")
		t := typs[kind]
		if !right {
			t = "JWT"
		}
		tok = nd.SignNoKid(payload, t, 1)
	case 5: // spellings of a registered type
		t := typs[nd.Choice("registered", 4)]
		t = []string{strings.ToUpper(t), strings.ToUpper(t[:1]) + t[1:], "application/" + t, " " + t, t + " ", t + ";v=1",
			t[:len(t)-4], t + "+jwt", "jwt", "JWT", ""}[nd.Choice("spelling", 11)]
		tok = nd.Sign(payload, t, 1)
	case 4: // not a token
		tok = [][]byte{payload, {}, []byte("a.b.c"), []byte("."), nil}[nd.Choice("garbage", 5)]
	}
	i, s, t, ok := parseAs(kind, tok)
	nd.Assert(ok == right, "exactly tokens of the right type are accepted")
	if !ok {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	nd.Assert(nd.And(i == iss, s == sub), "the claims are those of the signed payload")
	nd.Assert(nd.Or(t == "", t == tmt), "the trust mark type is that of the signed payload")
}

// H_P06_json: JWS JSON serialization lets one signature announce a type and
// another one verify; whatever is parsed must not verify as a type that the
// verified signature does not announce.
func H_P06_json() {
	kind := nd.Choice("parser", 2)
	now := nd.Now()
	payload := enc(obj{"iss": eL, "sub": eL, "iat": now, "exp": now + day, "trust_mark_type": "t"})
	t1, t2 := nd.Choice("first type", 4), nd.Choice("second type", 4)
	k1, k2 := nd.Int("first key", 1, 3), nd.Int("second key", 1, 3)
	trusted := nd.Int("trusted key", 1, 3)
	tok := nd.SignJSON(payload, typs[t1], k1, typs[t2], k2)
	accepted := false
	switch kind {
	case 0:
		if s, err := oidfed.ParseEntityStatement(tok); err == nil {
			accepted = s.Verify(nd.KeySet(trusted))
		}
	case 1:
		if m, err := oidfed.ParseTrustMark(tok); err == nil {
			accepted = m.VerifyExternal(nd.KeySet(trusted)) == nil
		}
	}
	if accepted {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	genuine := nd.Or(nd.And(k1 == trusted, t1 == kind), nd.And(k2 == trusted, t2 == kind))
	nd.Assert(nd.Implies(accepted, genuine), "a signature made for another purpose is not accepted")
}

// H_P06_signed: whatever a signer of one purpose signs has the type of that
// purpose, is signed with its key, and is read by the parser of that purpose only.
func H_P06_signed() {
	purpose := nd.Choice("purpose", 4)
	key := nd.Int("key", 1, 3)
	k := nd.Key(key)
	if nd.Flag("no key") {
		k = nil
	}
	alg := jwa.ES512()
	iss, sub, tmt := nd.Str("iss"), nd.Str("sub"), nd.Str("trust mark type")
	var doc any = obj{"iss": iss, "sub": sub, "iat": nd.Now(), "exp": nd.Now() + day, "trust_mark_type": tmt}
	want := typs[purpose]
	var jwt func(any) ([]byte, error)
	var set func() jwks.JWKS
	how := nd.Choice("signer", 4)
	switch how {
	case 0:
		switch purpose {
		case 0:
			s := oidfed.NewEntityStatementSigner(k, alg)
			jwt, set = s.JWT, s.JWKS
		case 1:
			s := oidfed.NewTrustMarkSigner(k, alg)
			jwt, set = s.JWT, s.JWKS
		case 2:
			s := oidfed.NewTrustMarkDelegationSigner(k, alg)
			jwt, set = s.JWT, s.JWKS
		case 3:
			s := oidfed.NewResolveResponseSigner(k, alg)
			jwt, set = s.JWT, s.JWKS
		}
	case 1:
		g := oidfed.NewGeneralJWTSigner(k, alg)
		switch purpose {
		case 0:
			s := g.EntityStatementSigner()
			jwt, set = s.JWT, s.JWKS
		case 1:
			s := g.TrustMarkSigner()
			jwt, set = s.JWT, s.JWKS
		case 2:
			s := g.TrustMarkDelegationSigner()
			jwt, set = s.JWT, s.JWKS
		case 3:
			s := g.ResolveResponseSigner()
			jwt, set = s.JWT, s.JWKS
		}
	case 2: // any type
		want = nd.Str("typ")
		if nd.Flag("registered") {
			want = typs[nd.Choice("registered type", 4)]
		}
		s := oidfed.NewGeneralJWTSigner(k, alg).Typed(want)
		jwt, set = s.JWT, s.JWKS
	case 3: // the documents themselves
		t := unixtime.Unixtime{Time: unix(nd.Now())}
		g := oidfed.NewGeneralJWTSigner(k, alg)
		switch purpose {
		case 0:
			doc = oidfed.EntityStatementPayload{Issuer: iss, Subject: sub, IssuedAt: t, ExpiresAt: t}
		case 1:
			doc = &oidfed.TrustMark{Issuer: iss, Subject: sub, IssuedAt: t, TrustMarkType: tmt}
		case 2:
			doc = oidfed.DelegationJWT{Issuer: iss, Subject: sub, IssuedAt: t, TrustMarkType: tmt}
		case 3:
			doc = &oidfed.ResolveResponse{Issuer: iss, Subject: sub, IssuedAt: t, ExpiresAt: t}
		}
		jwt, set = g.Typed(want).JWT, g.JWKS
	}
	tok, err := jwt(doc)
	if k == nil {
		nd.Assert(err != nil && tok == nil, "nothing is signed without a key")
		nd.Cover("no key")
		return
	}
	nd.Assert(err == nil, "the document is signed")
	_, typ, by, ok := nd.Open(tok)
	nd.Assert(ok && typ == want, "the token has the type of its purpose")
	nd.Assert(by == key, "the token is signed with the key of the signer")
	nd.Assert(nd.HasKeys(set(), key) && set().Len() == 1, "the signer publishes its key")
	kind := nd.Choice("parser", 4)
	i, s, t, ok := parseAs(kind, tok)
	nd.Assert(ok == (typ == typs[kind]), "exactly tokens of the right type are accepted")
	if ok {
		nd.Assert(nd.And(i == iss, s == sub), "the claims are those that were signed")
		nd.Assert(nd.Or(t == "", t == tmt), "the trust mark type is the one that was signed")
		nd.Cover("accepted")
	}
	// and nothing that is no document
	_, err = jwt(func() {})
	nd.Assert(err != nil, "what is no document is not signed")
}
