package zzverif

import (
	"github.com/go-oidfed/lib/apimodel"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// issuerWeb is a federation with anchor eT (key 1) and issuer eA (key 2); the
// verdict tells whether a valid chain from eA to eT exists.
func issuerWeb(deep bool) (w *web, trusted bool) {
	now := nd.Now()
	w = newWeb()
	ek, sk, tk := nd.Int("configuration key", 2, 3), nd.Int("key in statement", 2, 3), int64(1)
	if deep {
		tk = nd.Int("key of statement", 1, 2)
	}
	exp := nd.Int("statement expires", -1, 1)
	trusted = nd.And(ek == sk, tk == 1, exp >= 0)
	up := nd.Choice("unreachable", 4)
	trusted = trusted && up == 0
	w.cfg[eT] = func() []byte {
		if up == 1 {
			return nil
		}
		return nd.Sign(enc(obj{"iss": eT, "sub": eT, "iat": now, "exp": now + day, "jwks": nd.KeySet(1), "metadata": fedMeta(eT)}), typES, 1)
	}
	w.cfg[eA] = func() []byte {
		if up == 2 {
			return nil
		}
		return nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": now, "exp": now + day, "jwks": nd.KeySet(2), "metadata": fedMeta(eA), "authority_hints": arr{eT}}), typES, ek)
	}
	w.sub[eT] = func(sub string) []byte {
		if sub != eA || up == 3 {
			return nil
		}
		return nd.Sign(enc(obj{"iss": eT, "sub": eA, "iat": now - 5, "exp": now + exp, "jwks": nd.KeySet(sk)}), typES, tk)
	}
	w.start()
	return
}

// anchorOf is the trust anchor with arbitrary restrictions for marks of type t.
func anchorOf(t string) (*oidfed.EntityStatementPayload, func(iss string) bool) {
	ta := &oidfed.EntityStatementPayload{Issuer: eT, Subject: eT, JWKS: nd.KeySet(1)}
	ta.IssuedAt.Time, ta.ExpiresAt.Time = unix(nd.Now()), unix(nd.Now()+day)
	n := nd.Choice("issuer list", 5)
	if n == 0 {
		return ta, func(string) bool { return true }
	}
	listed := nd.Str("restricted type")
	l := [][]string{nil, {}, {eA}, {eT}, {eB, eA}}[n]
	if n == 1 && nd.Flag("no other type") {
		ta.TrustMarkIssuers = oidfed.AllowedTrustMarkIssuers{}
		return ta, func(string) bool { return true }
	}
	ta.TrustMarkIssuers = oidfed.AllowedTrustMarkIssuers{listed: l}
	return ta, func(iss string) bool { return nd.Or(listed != t, len(l) == 0, has(l, iss)) }
}

// H_P15_federation: an arbitrary mark is verified with an arbitrary trust anchor.
func H_P15_federation() {
	t := nd.Str("type")
	ta, allowed := anchorOf(t)
	iss := []string{eA, eT, eB}[nd.Choice("issuer", 3)]
	key := nd.Int("key", 1, 3)
	o := obj{"iss": iss, "sub": eL, "trust_mark_type": t}
	ok := nd.And(allowed(iss), period("mark", o))
	switch iss {
	case eT:
		ok = nd.And(ok, key == 1)
		nd.Serve(func(string, string, map[string][]string) (int, bool, []byte) { return 0, false, nil })
	default:
		_, trusted := issuerWeb(iss == eA)
		ok = nd.And(ok, iss == eA, trusted, key == 2)
	}
	switch nd.Choice("owner", 3) {
	case 1: // owner for the type, or another one
		ot := nd.Str("owned type")
		ta.TrustMarkOwners = oidfed.TrustMarkOwners{ot: {ID: eB, JWKS: nd.KeySet(4)}}
		dOK := false
		if nd.Flag("delegation") {
			dk := nd.Int("delegation key", 3, 4)
			dsub := []string{iss, eL}[nd.Choice("delegation for", 2)]
			o["delegation"] = string(nd.Sign(enc(obj{"iss": eB, "sub": dsub, "trust_mark_type": t, "iat": nd.Now()}), typTMD, dk))
			dOK = nd.And(dk == 4, dsub == iss)
		}
		ok = nd.And(ok, nd.Or(ot != t, dOK))
	case 2: // a delegation without owner is not examined
		o["delegation"] = "x"
	}
	tok := nd.Sign(enc(o), typTM, key)
	info := oidfed.TrustMarkInfo{TrustMarkType: t, TrustMarkJWT: string(tok)}
	if nd.Flag("announced as another type") {
		info.TrustMarkType = nd.Str("announced type")
		ok = nd.And(ok, info.TrustMarkType == t)
	}
	err := info.VerifyFederation(ta)
	nd.Assert(nd.Iff(err == nil, ok), "a mark is accepted in the federation exactly if all conditions hold")
	if err == nil {
		nd.Cover("accepted " + map[string]string{eA: "issuer", eT: "anchor"}[iss])
	} else {
		nd.Cover("rejected")
	}
}

// H_P15_resolved: the trust marks of a resolved entity.
func H_P15_resolved() {
	now := nd.Now()
	t := "t1"
	list := nd.Choice("issuer list", 3)
	anchor := obj{"iss": eT, "sub": eT, "iat": now, "exp": now + day, "jwks": nd.KeySet(1), "metadata": fedMeta(eT)}
	allowed := true
	switch list {
	case 1:
		anchor["trust_mark_issuers"] = obj{t: arr{eT}}
	case 2:
		anchor["trust_mark_issuers"] = obj{t: arr{eA}}
		allowed = false
	}
	var marks arr
	var want []bool
	n := int(nd.Bound("trust marks", 2, 3))
	for i := 0; i < n; i++ {
		l := "mark " + string(rune('1'+i))
		key := nd.Int(l+" key", 1, 2)
		sub := []string{eL, eA}[nd.Choice(l+" subject", 2)]
		o := obj{"iss": eT, "sub": sub, "trust_mark_type": t, "iat": now, "ref": l}
		ok := nd.And(key == 1, sub == eL, allowed)
		if nd.Flag(l + " exp") {
			d := nd.Int(l+" expires", -3, 3)
			o["exp"] = now + d
			ok = nd.And(ok, d >= 0)
		}
		marks = append(marks, obj{"trust_mark_type": t, "trust_mark": string(nd.Sign(enc(o), typTM, key))})
		want = append(want, ok)
	}
	w := newWeb()
	w.cfg[eT] = func() []byte { return nd.Sign(enc(anchor), typES, 1) }
	w.cfg[eL] = func() []byte {
		return nd.Sign(enc(obj{"iss": eL, "sub": eL, "iat": now, "exp": now + day, "jwks": nd.KeySet(2), "metadata": obj{"openid_provider": obj{}},
			"authority_hints": arr{eT}, "trust_marks": marks}), typES, 2)
	}
	w.sub[eT] = func(sub string) []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": sub, "iat": now, "exp": now + day, "jwks": nd.KeySet(2)}), typES, 1)
	}
	w.start()
	res, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(apimodel.ResolveRequest{Subject: eL, TrustAnchor: []string{eT}})
	nd.Assert(err == nil, "the entity can be resolved")
	k := 0
	for i := range want {
		if want[i] {
			nd.Assert(k < len(res.TrustMarks) && res.TrustMarks[k].TrustMarkJWT == marks[i].(obj)["trust_mark"], "every valid mark is reported")
			k++
			nd.Cover("mark reported")
		} else {
			nd.Cover("mark dropped")
		}
	}
	nd.Assert(len(res.TrustMarks) == k, "no other mark is reported")
}

// H_P15_malformed: what is no trust mark is rejected, and does not keep the
// valid marks beside it from being given.
func H_P15_malformed() {
	now, t := nd.Now(), nd.Str("type")
	good := obj{"iss": eT, "sub": eL, "trust_mark_type": t, "iat": now}
	bad := obj{}
	for k, v := range good {
		bad[k] = v
	}
	tok := []byte{}
	switch nd.Choice("malformed", 6) {
	case 0:
		tok = [][]byte{nil, []byte("x"), []byte("a.b.c"), enc(good)}[nd.Choice("no token", 4)]
	case 1:
		tok = nd.Sign(enc(good), []string{typES, typTMD, "JWT", ""}[nd.Choice("type of the token", 4)], 1)
	case 2:
		fields := []string{"iss", "sub", "trust_mark_type", "iat", "exp", "delegation", "logo_uri", "ref"}
		bad[fields[nd.Choice("field of another kind", int64(len(fields)))]] = obj{"x": 1}
		tok = nd.Sign(enc(bad), typTM, 1)
	case 3:
		delete(bad, "trust_mark_type")
		tok = nd.Sign(enc(bad), typTM, 1)
	case 4:
		tok = nd.Sign([]byte([]string{"", "null", "[]", "{", "1"}[nd.Choice("payload", 5)]), typTM, 1)
	case 5:
		tok = nd.Sign(enc(good), typTM, 3)
	}
	ta := &oidfed.EntityStatementPayload{Issuer: eT, Subject: eT, JWKS: nd.KeySet(1)}
	ta.IssuedAt.Time, ta.ExpiresAt.Time = unix(now), unix(now+day)
	nd.Serve(func(string, string, map[string][]string) (int, bool, []byte) { return 0, false, nil })
	b := oidfed.TrustMarkInfo{TrustMarkType: t, TrustMarkJWT: string(tok)}
	g := oidfed.TrustMarkInfo{TrustMarkType: t, TrustMarkJWT: string(nd.Sign(enc(good), typTM, 1))}
	marks := oidfed.TrustMarkInfos{b, g}
	if nd.Flag("the valid mark first") {
		marks = oidfed.TrustMarkInfos{g, b}
	}
	nd.Assert(b.VerifyFederation(ta) != nil, "what is no trust mark is rejected")
	got := marks.VerifiedFederation(ta)
	nd.Assert(len(got) == 1 && got[0].TrustMarkJWT == g.TrustMarkJWT, "the valid marks are given")
	nd.Assert(b.VerifyExternal(nd.KeySet(1)) != nil, "what is no trust mark is rejected")
	got = marks.VerifiedExternal(nd.KeySet(1))
	nd.Assert(len(got) == 1 && got[0].TrustMarkJWT == g.TrustMarkJWT, "the valid marks are given")
	nd.Cover("rejected")
}
