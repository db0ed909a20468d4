package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/jwks"
)

// period adds iat and exp claims and tells whether they contain the present.
func period(l string, o obj) bool {
	now := nd.Now()
	ok := true
	if nd.Flag(l + " iat") {
		d := nd.Int(l+" issued", -3, 3)
		o["iat"] = now + d
		ok = nd.And(ok, d <= 0)
	}
	if nd.Flag(l + " exp") {
		d := nd.Int(l+" expires", -3, 3)
		o["exp"] = now + d
		ok = nd.And(ok, d >= 0)
	}
	return ok
}

// signed signs with an arbitrary key, possibly pretending another key ID; the
// verdict says whether it verifies under the set of the key trusted.
func signed(l string, o obj, typ string) (tok []byte, set jwks.JWKS, verifies bool) {
	payload := enc(o)
	key, trusted := nd.Int(l+" key", 1, 3), nd.Int(l+" trusted key", 1, 3)
	set = nd.KeySet(trusted)
	verifies = key == trusted
	switch nd.Choice(l+" signature", 5) {
	case 0:
		return nd.Sign(payload, typ, key), set, verifies
	case 1: // pretends the trusted key
		return nd.SignKid(payload, typ, key, trusted), set, verifies
	case 2: // several trusted keys
		set = nd.KeySet(4, trusted, 5)
		return nd.Sign(payload, typ, key), set, verifies
	case 3: // no keys
		return nd.Sign(payload, typ, key), []jwks.JWKS{{}, nd.KeySet()}[nd.Choice(l+" no keys", 2)], false
	}
	return nd.SignNoKid(payload, typ, trusted), set, false
}

// other replaces a claim by another word or an empty one or leaves it out; it
// tells whether the claim still has the value.
func other(l string, o obj, claim, value string) bool {
	switch nd.Choice(l+" kind", nd.Pick(2, 3)) {
	case 0:
		w := nd.Str(l)
		o[claim] = w
		return w == value
	case 1:
		delete(o, claim)
	case 2:
		o[claim] = ""
	}
	return false
}

// H_P14_external: an arbitrary trust mark is verified with and without an owner.
func H_P14_external() {
	mtype := nd.Str("type")
	iss := nd.Str("issuer")
	o := obj{"iss": iss, "sub": eL, "trust_mark_type": mtype}
	ok := true
	owner := nd.Flag("owner given")
	var spec oidfed.TrustMarkOwnerSpec
	dOK := true
	switch nd.Choice("delegation", 3) {
	case 0:
		dOK = false // none
	case 1:
		o["delegation"] = "garbage"
		dOK = false
	case 2:
		d := obj{"iss": nd.Str("owner"), "sub": iss, "trust_mark_type": mtype}
		spec.ID = d["iss"].(string)
		differs := 0
		if owner {
			differs = nd.Choice("delegation differs in", 4)
		}
		switch differs {
		case 1:
			dOK = other("delegation sub", d, "sub", iss)
		case 2:
			dOK = other("delegation type", d, "trust_mark_type", mtype)
		case 3:
			dOK = other("delegation owner", d, "iss", spec.ID)
		}
		p := period("delegation", d)
		typ := typTMD
		tOK := true
		if differs == 0 && nd.Flag("delegation is no delegation") {
			typ, tOK = typTM, false
		}
		tok, set, v := signed("delegation", d, typ)
		o["delegation"] = string(tok)
		spec.JWKS = set
		dOK = nd.And(dOK, p, v, tOK)
	}
	ok = nd.And(ok, period("mark", o))
	tok, set, v := signed("mark", o, typTM)
	ok = nd.And(ok, v)
	ann := obj{"t": mtype}
	beside := true
	if !owner {
		beside = other("announced type", ann, "t", mtype)
	} else {
		ann["t"] = nd.Str("announced type")
		beside = ann["t"] == mtype
	}
	at, _ := ann["t"].(string)
	info := oidfed.TrustMarkInfo{TrustMarkType: at, TrustMarkJWT: string(tok)}
	var tmo []oidfed.TrustMarkOwnerSpec
	if owner {
		tmo = append(tmo, spec)
		ok = nd.And(ok, dOK)
	}
	err := info.VerifyExternal(set, tmo...)
	nd.Assert(nd.Iff(err == nil, nd.And(ok, beside)), "a trust mark is accepted exactly if all conditions hold")
	if err == nil {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
	m, perr := oidfed.ParseTrustMark(tok)
	nd.Assert(perr == nil, "the mark can be parsed")
	err = m.VerifyExternal(set, tmo...)
	nd.Assert(nd.Iff(err == nil, ok), "a parsed trust mark is accepted exactly if all conditions hold")
	nd.Assert(nd.Iff(len(oidfed.TrustMarkInfos{info}.VerifiedExternal(set, tmo...)) == 1, nd.And(ok, beside)), "filtering keeps exactly the valid marks")
}

// H_P14_history: the same mark is verified before and after time has passed and with other keys.
func H_P14_history() {
	now := nd.Now()
	exp := nd.Int("expires", 0, 10)
	dexp := nd.Int("delegation expires", 0, 10)
	d := nd.Sign(enc(obj{"iss": eT, "sub": eA, "trust_mark_type": "t", "iat": now, "exp": now + dexp}), typTMD, 2)
	tok := nd.Sign(enc(obj{"iss": eA, "sub": eL, "trust_mark_type": "t", "iat": now, "exp": now + exp, "delegation": string(d)}), typTM, 1)
	info := oidfed.TrustMarkInfo{TrustMarkType: "t", TrustMarkJWT: string(tok)}
	verify := func(key, dkey int64) bool {
		return info.VerifyExternal(nd.KeySet(key), oidfed.TrustMarkOwnerSpec{ID: eT, JWKS: nd.KeySet(dkey)}) == nil
	}
	nd.Assert(verify(1, 2), "a fresh mark is valid")
	k, dk := nd.Int("key", 1, 3), nd.Int("delegation key", 1, 3)
	nd.Assert(nd.Iff(verify(k, dk), nd.And(k == 1, dk == 2)), "other keys are not accepted after a success")
	p := nd.Int("pause", 0, 20)
	nd.Advance(p)
	nd.Assert(nd.Iff(verify(1, 2), nd.And(p <= exp, p <= dexp)), "a mark is not accepted once it or its delegation expired")
	nd.Cover("checked")
}

// H_P14_delegation: the delegation of a mark is verified on its own, with the
// owner's keys and with an arbitrary trust anchor.
func H_P14_delegation() {
	dtype := nd.Str("type")
	d := obj{"iss": nd.Str("owner"), "sub": eA, "trust_mark_type": dtype}
	iss := d["iss"].(string)
	typed := nd.Choice("type of the delegation", 3)
	if typed == 1 {
		d["trust_mark_type"], dtype = "", ""
	} else if typed == 2 {
		delete(d, "trust_mark_type")
		dtype = ""
	}
	ok := period("delegation", d)
	tok, set, v := signed("delegation", d, typTMD)
	ok = nd.And(ok, v)
	m, err := oidfed.ParseTrustMark(nd.Sign(enc(obj{"iss": eA, "sub": eL, "iat": nd.Now(), "trust_mark_type": "t", "delegation": string(tok)}), typTM, 1))
	nd.Assert(err == nil, "the mark can be parsed")
	djwt, err := m.Delegation()
	nd.Assert(err == nil && djwt != nil, "the delegation can be parsed")
	nd.Assert(djwt.Issuer == iss && djwt.Subject == eA && djwt.TrustMarkType == dtype, "the delegation has its claims")
	verr := djwt.VerifyExternal(set)
	nd.Assert(nd.Iff(verr == nil, ok), "a delegation is accepted with the owner's keys exactly if it is valid")
	ta := &oidfed.EntityStatementPayload{Issuer: eT, Subject: eT, JWKS: nd.KeySet(6)}
	named := false
	switch nd.Choice("owners", 3) {
	case 1:
		ta.TrustMarkOwners = oidfed.TrustMarkOwners{}
	case 2:
		t, o := nd.Str("owned type"), nd.Str("named owner")
		named = nd.And(t == dtype, o == iss)
		ta.TrustMarkOwners = oidfed.TrustMarkOwners{t: {ID: o, JWKS: set}, "another": {ID: eB, JWKS: nd.KeySet(6)}}
		nd.Assume(nd.And(t != "another", dtype != "another"))
	}
	verr = djwt.VerifyFederation(ta)
	nd.Assert(nd.Iff(verr == nil, nd.And(ok, named)), "a delegation is accepted with an anchor exactly if it is valid and from the owner the anchor names")
	if verr == nil {
		nd.Cover("accepted delegation")
	} else {
		nd.Cover("rejected delegation")
	}
}
