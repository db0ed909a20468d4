package zzverif

import (
	"encoding/json"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/unixtime"
)

// lifetimes makes an optional lifetime argument and the effective lifetime in
// seconds, where the argument overrides the configured one.
func lifetimes() (configured time.Duration, passed []time.Duration, effective int64) {
	c := nd.Int("configured lifetime", 0, 1<<31)
	configured = time.Duration(c) * time.Second
	effective = c
	if nd.Flag("lifetime passed") {
		p := nd.Int("passed lifetime", 0, 1<<31)
		passed = append(passed, time.Duration(p)*time.Second)
		effective = p
	}
	return
}

func extraOf(l string) map[string]any {
	if !nd.Flag(l) {
		return nil
	}
	return map[string]any{"extra_claim": nd.Str(l), "deep": []any{"x", obj{"y": true}}}
}

// checkTimes compares the times of an issued document.
func checkTimes(iat unixtime.Unixtime, exp *unixtime.Unixtime, lf int64) {
	nd.Assert(iat.Unix() == nd.Now(), "issued now")
	if exp == nil {
		nd.Cover("no expiry")
		nd.Assert(lf == 0, "a document without expiry has lifetime zero")
		return
	}
	nd.Cover("expiry")
	nd.Assert(lf != 0 && exp.Unix() == nd.Now()+lf, "expires after exactly the effective lifetime")
}

func eqExtra(got, want map[string]any) bool {
	if len(got) != len(want) {
		return false
	}
	for k, v := range want {
		w, ok := got[k]
		if !ok || !eqJSON(v, w) {
			return false
		}
	}
	return true
}

// H_P16_mark: a trust mark of an arbitrary spec is issued.
func H_P16_mark() {
	configured, passed, lf := lifetimes()
	key := nd.Int("key", 1, 3)
	other := oidfed.TrustMarkSpec{TrustMarkType: "other", Ref: "other"}
	spec := oidfed.TrustMarkSpec{TrustMarkType: nd.Str("type"), Lifetime: unixtime.DurationInSeconds{Duration: configured}}
	nd.Assume(spec.TrustMarkType != "other")
	if nd.Flag("ref") {
		spec.Ref = nd.Str("ref")
	}
	if nd.Flag("logo") {
		spec.LogoURI = nd.Str("logo")
	}
	if nd.Flag("delegation") {
		spec.DelegationJWT = nd.Str("delegation")
	}
	spec.Extra = extraOf("extra")
	spec.IncludeExtraClaimsInInfo = nd.Flag("extra in info")
	specs := []oidfed.TrustMarkSpec{other, spec}
	if nd.Flag("added later") {
		specs = specs[:1]
	}
	iss := oidfed.NewTrustMarkIssuer(eA, oidfed.NewTrustMarkSigner(nd.Key(key), jwa.ES512()), specs)
	if len(specs) == 1 {
		iss.AddTrustMark(spec)
	}
	want, sub := nd.Str("requested type"), nd.Str("subject")
	info, err := iss.IssueTrustMark(want, sub, passed...)
	if want == "other" {
		nd.Stop()
	}
	if want != spec.TrustMarkType {
		nd.Cover("refused")
		nd.Assert(err != nil && info == nil, "unknown types are refused")
		return
	}
	nd.Assert(err == nil && info.TrustMarkType == want, "known types are issued")
	payload, typ, by, ok := nd.Open([]byte(info.TrustMarkJWT))
	nd.Assert(ok && typ == typTM && by == key, "signed as a trust mark with the issuer's key")
	var m oidfed.TrustMark
	nd.Assert(json.Unmarshal(payload, &m) == nil, "the mark can be parsed")
	nd.Assert(m.Issuer == eA && m.Subject == sub && m.TrustMarkType == want, "issuer, subject and type")
	nd.Assert(m.Ref == spec.Ref && m.LogoURI == spec.LogoURI && m.DelegationJWT == spec.DelegationJWT, "reference, logo and delegation")
	nd.Assert(eqExtra(m.Extra, spec.Extra), "extra claims")
	checkTimes(m.IssuedAt, m.ExpiresAt, lf)
	if spec.IncludeExtraClaimsInInfo {
		nd.Assert(eqExtra(info.Extra, spec.Extra), "extra claims beside the mark")
	} else {
		nd.Assert(len(info.Extra) == 0, "no claims beside the mark")
	}
	var claims map[string]any
	nd.Assert(json.Unmarshal(payload, &claims) == nil, "the claims can be parsed")
	for _, c := range []struct {
		name string
		set  bool
	}{{"ref", spec.Ref != ""}, {"logo_uri", spec.LogoURI != ""}, {"delegation", spec.DelegationJWT != ""}, {"exp", lf != 0}} {
		_, ok := claims[c.name]
		nd.Assert(ok == c.set, "an optional claim is present exactly if it is configured")
	}
	v := info.VerifyExternal(nd.KeySet(key))
	nd.Assert(v == nil, "a fresh mark verifies with the issuer's key")
}

// H_P16_delegation: a delegation of an arbitrary spec is issued.
func H_P16_delegation() {
	configured, passed, lf := lifetimes()
	key := nd.Int("key", 1, 3)
	spec := oidfed.OwnedTrustMark{ID: nd.Str("type"), DelegationLifetime: configured}
	if nd.Flag("ref") {
		spec.Ref = nd.Str("ref")
	}
	spec.Extra = extraOf("extra")
	specs := []oidfed.OwnedTrustMark{spec}
	if nd.Flag("added later") {
		specs = nil
	}
	owner := oidfed.NewTrustMarkOwner(eT, oidfed.NewTrustMarkDelegationSigner(nd.Key(key), jwa.ES512()), specs)
	if specs == nil {
		owner.AddTrustMark(spec)
	}
	want, sub := nd.Str("requested type"), nd.Str("subject")
	tok, err := owner.DelegationJWT(want, sub, passed...)
	if want != spec.ID {
		nd.Cover("refused")
		nd.Assert(err != nil && tok == nil, "unknown types are refused")
		return
	}
	nd.Assert(err == nil, "known types are delegated")
	payload, typ, by, ok := nd.Open(tok)
	nd.Assert(ok && typ == typTMD && by == key, "signed as a delegation with the owner's key")
	var d oidfed.DelegationJWT
	nd.Assert(json.Unmarshal(payload, &d) == nil, "the delegation can be parsed")
	nd.Assert(d.Issuer == eT && d.Subject == sub && d.TrustMarkType == want && d.Ref == spec.Ref, "issuer, subject, type and reference")
	nd.Assert(eqExtra(d.Extra, spec.Extra), "extra claims")
	checkTimes(d.IssuedAt, d.ExpiresAt, lf)
}

// H_P16_history: types are added, replaced and issued in any order; issuing
// something, and what the caller does with it, has no effect on what follows.
func H_P16_history() {
	specs := map[string]float64{} // by type, the version of the specification
	var types []string
	key := nd.Int("key", 1, 3)
	iss := oidfed.NewTrustMarkIssuer(eA, oidfed.NewTrustMarkSigner(nd.Key(key), jwa.ES512()), nil)
	owner := oidfed.NewTrustMarkOwner(eT, oidfed.NewTrustMarkDelegationSigner(nd.Key(key), jwa.ES512()), nil)
	version := int64(0)
	inInfo := nd.Flag("extra in info")
	for n := int64(0); n < nd.Bound("steps", 4, 5); n++ {
		typ := nd.Str("type")
		known := false
		at := -1
		for i, t := range types {
			if t == typ {
				known, at = true, i
			}
		}
		if nd.Flag("add") {
			version++
			extra := obj{"version": float64(version)}
			iss.AddTrustMark(oidfed.TrustMarkSpec{TrustMarkType: typ, Extra: extra, IncludeExtraClaimsInInfo: inInfo})
			owner.AddTrustMark(oidfed.OwnedTrustMark{ID: typ, Extra: obj{"version": float64(version)}})
			if !known {
				types = append(types, typ)
			} else {
				nd.Cover("replaced")
				typ = types[at]
			}
			specs[typ] = float64(version)
			all := iss.TrustMarkTypes()
			nd.Assert(len(all) == len(types), "the types are those that were added")
			for _, t := range types {
				nd.Assert(has(all, t), "a type that was added is listed")
			}
			continue
		}
		if known && nd.Flag("delegation") {
			tok, err := owner.DelegationJWT(typ, eL)
			nd.Assert(err == nil, "known types are delegated")
			payload, _, _, _ := nd.Open(tok)
			var d oidfed.DelegationJWT
			nd.Assert(json.Unmarshal(payload, &d) == nil && d.TrustMarkType == typ, "the delegation can be parsed")
			nd.Assert(eqExtra(d.Extra, obj{"version": specs[types[at]]}), "the last specification of the type applies")
			nd.Cover("delegated")
			continue
		}
		info, err := iss.IssueTrustMark(typ, eL)
		nd.Assert((err == nil) == known, "exactly the types that were added are issued")
		if err != nil {
			nd.Cover("refused")
			continue
		}
		payload, _, _, _ := nd.Open([]byte(info.TrustMarkJWT))
		var m oidfed.TrustMark
		nd.Assert(json.Unmarshal(payload, &m) == nil && m.TrustMarkType == typ, "the mark can be parsed")
		want := obj{"version": specs[types[at]]}
		nd.Assert(eqExtra(m.Extra, want), "the last specification of the type applies")
		nd.Assert(!inInfo || eqExtra(info.Extra, want), "extra claims beside the mark")
		nd.Cover("issued")
		if info.Extra != nil && nd.Flag("note something") {
			info.Extra["note"] = "of the caller"
			nd.Cover("noted")
		}
	}
}
