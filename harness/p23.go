package zzverif

import (
	"reflect"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// keysJSON is the JSON representation of a key set.
func keysJSON(ids ...int64) any { return plainJSON(nd.KeySet(ids...)) }

// H_P23_configuration: entity configurations of an arbitrary entity.
func H_P23_configuration() {
	id := "https://" + nd.Str("entity")
	want := obj{"iss": id, "sub": id, "jwks": nd.KeySet(1)}
	var hints []string
	for n := nd.Choice("hints", nd.Bound("hints+1", 3, 4)); n > 0; n-- {
		hints = append(hints, "https://"+nd.Str("hint"))
	}
	if len(hints) > 0 {
		want["authority_hints"] = hints
	} else if nd.Flag("empty hints") {
		hints = []string{}
	}
	var md *oidfed.Metadata
	if nd.Flag("metadata") {
		md = &oidfed.Metadata{}
		m := obj{}
		if nd.Flag("federation entity") {
			md.FederationEntity = &oidfed.FederationEntityMetadata{OrganizationName: nd.Str("organization")}
			m["federation_entity"] = obj{"organization_name": md.FederationEntity.OrganizationName}
		}
		if nd.Flag("relying party") {
			md.RelyingParty = &oidfed.OpenIDRelyingPartyMetadata{RedirectURIS: []string{nd.Str("redirect URI")}, ClientRegistrationTypes: []string{"automatic"}}
			m["openid_relying_party"] = obj{"redirect_uris": md.RelyingParty.RedirectURIS, "client_registration_types": arr{"automatic"}}
		}
		want["metadata"] = m
	}
	var extra map[string]any
	if n := nd.Choice("extra claims", nd.Bound("extra claims+1", 3, 3)); n > 0 {
		extra = map[string]any{}
		for i := 0; i < n; i++ {
			registered := []string{"iss", "sub", "iat", "exp", "jwks", "authority_hints", "metadata"}
			j := nd.Choice("extra claim", int64(len(registered)+1))
			v := nd.Str("extra value")
			if j < len(registered) {
				if _, set := want[registered[j]]; !set && j > 4 {
					nd.Stop() // a registered claim given as extra claim
				}
				extra[registered[j]] = v // must not replace the registered claim
				continue
			}
			k := nd.Str("extra name")
			for _, c := range claims(reflect.ValueOf(oidfed.EntityStatementPayload{})) {
				nd.Assume(k != c.name)
			}
			extra[k] = v
			want[k] = v
		}
	}
	lifetime := int64(0)
	if extra == nil {
		lifetime = nd.Int("lifetime", -(1 << 40), 1<<40)
	}
	signer := oidfed.NewEntityStatementSigner(nd.Key(1), jwa.ES512())
	var f *oidfed.FederationEntity
	var err error
	if extra == nil && nd.Flag("leaf") {
		var l *oidfed.FederationLeaf
		l, err = oidfed.NewFederationLeaf(id, hints, nil, md, signer, lifetime, nd.Key(2), jwa.ES512(), extra)
		nd.Assert(err == nil && l != nil, "the entity can be created")
		f = &l.FederationEntity
	} else {
		f, err = oidfed.NewFederationEntity(id, hints, md, signer, lifetime, extra)
		nd.Assert(err == nil && f != nil, "the entity can be created")
	}
	if extra == nil && nd.Flag("trust mark rules") {
		f.TrustMarkIssuers = oidfed.AllowedTrustMarkIssuers{"type": {nd.Str("trust mark issuer")}, "other type": {}}
		f.TrustMarkOwners = oidfed.TrustMarkOwners{"type": {ID: nd.Str("owner"), JWKS: nd.KeySet(3)}}
		want["trust_mark_issuers"] = f.TrustMarkIssuers
		want["trust_mark_owners"] = obj{"type": obj{"sub": f.TrustMarkOwners["type"].ID, "jwks": nd.KeySet(3)}}
	}
	left := int64(86400)
	if lifetime > 0 {
		left = lifetime
		nd.Cover("configured lifetime")
	} else {
		nd.Cover("default lifetime")
	}
	for n := 0; n < 2; n++ {
		if n == 1 {
			nd.Advance(nd.Int("elapsed", 0, 1<<31))
		}
		tok, err := f.EntityConfigurationJWT()
		nd.Assert(err == nil, "the entity configuration can be created")
		payload, typ, key, ok := nd.Open(tok)
		nd.Assert(ok && key == 1 && typ == typES, "the entity configuration is signed with the own key under the entity statement type")
		c := decoded(rawJSON(payload))
		nd.Assert(c["iss"] == id && c["sub"] == id, "the entity configuration names the entity as issuer and subject")
		nd.Assert(eqJSON(c["iat"], float64(nd.Now())), "the entity configuration is issued now")
		nd.Assert(eqJSON(c["exp"], plainJSON(nd.Now()+left)), "the entity configuration expires after the configured lifetime")
		delete(c, "iat")
		delete(c, "exp")
		nd.Assert(eqJSON(plainJSON(want), any(map[string]any(c))), "the entity configuration carries exactly what is configured")
		st, err := oidfed.ParseEntityStatement(tok)
		nd.Assert(err == nil && st.Verify(nd.KeySet(1)) && st.TimeValid(), "the entity configuration verifies with the own keys")
	}
}

// H_P23_marks: the trust marks of an entity configuration.
func H_P23_marks() {
	f, err := oidfed.NewFederationEntity(eL, nil, nil, oidfed.NewEntityStatementSigner(nd.Key(1), jwa.ES512()), 0, nil)
	nd.Assert(err == nil, "the entity can be created")
	w := newWeb()
	start := nd.Now()
	w.cfg[eA] = func() []byte {
		return nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": start, "exp": start + 90*day, "jwks": nd.KeySet(2),
			"metadata": obj{"federation_entity": obj{"federation_trust_mark_endpoint": eA + "/mark"}}}), typES, 2)
	}
	fetched := []string{} // answers in the order of the requests
	w.other[eA+"/mark"] = func(p map[string][]string) (int, bool, []byte) {
		t := p["trust_mark_type"][0]
		if nd.Flag("issuer fails") {
			fetched = append(fetched, "")
			return 404, true, []byte(`{"error":"not_found"}`)
		}
		fetched = append(fetched, string(nd.Sign(enc(obj{"iss": eA, "sub": eL, "iat": nd.Now(), "exp": nd.Now() + day, "trust_mark_type": t}), typTM, 2)))
		return 200, false, []byte(fetched[len(fetched)-1])
	}
	w.start()
	kinds := []int{}
	given := map[int]string{}
	types := []string{}
	for n := nd.Choice("trust marks", nd.Bound("trust marks+1", 3, 4)); n > 0; n-- {
		k := nd.Choice("kind", 3)
		t := nd.Str("type")
		c := &oidfed.EntityConfigurationTrustMarkConfig{}
		switch k {
		case 0: // configured
			given[len(kinds)] = string(nd.Sign(enc(obj{"iss": eB, "sub": eL, "iat": nd.Now(), "trust_mark_type": t}), typTM, 3))
			c.JWT = given[len(kinds)]
		case 1: // from another issuer
			c.TrustMarkType, c.TrustMarkIssuer = t, eA
		case 2: // issued by the entity
			c.TrustMarkType, c.SelfIssued = t, true
		}
		nd.Assert(c.Verify(eL, "", oidfed.NewTrustMarkSigner(nd.Key(1), jwa.ES512())) == nil, "the trust mark configuration is accepted")
		f.TrustMarks = append(f.TrustMarks, c)
		kinds, types = append(kinds, k), append(types, t)
	}
	tok, err := f.EntityConfigurationJWT()
	nd.Assert(err == nil, "the entity configuration can be created")
	payload, _, _, _ := nd.Open(tok)
	marks, _ := decoded(rawJSON(payload))["trust_marks"].([]any)
	i := 0
	for n, k := range kinds {
		mark := given[n]
		if k == 1 {
			nd.Assert(len(fetched) > 0, "every trust mark is requested")
			mark, fetched = fetched[0], fetched[1:]
			if mark == "" {
				nd.Cover("unavailable")
				continue // not obtained: left out
			}
		}
		nd.Assert(i < len(marks), "every available trust mark is carried")
		m, _ := marks[i].(map[string]any)
		i++
		jwt, _ := m["trust_mark"].(string)
		nd.Assert(m["trust_mark_type"] == types[n] && jwt != "" && len(m) == 2, "trust marks are carried under their type")
		if k != 2 {
			nd.Assert(jwt == mark, "trust marks are carried unchanged")
			continue
		}
		p, typ, key, ok := nd.Open([]byte(jwt))
		c := decoded(rawJSON(p))
		nd.Assert(ok && typ == typTM && key == 1 && c["sub"] == eL && c["iss"] == eL && c["trust_mark_type"] == types[n], "self-issued trust marks are about the entity")
		nd.Cover("self-issued")
	}
	nd.Assert(i == len(marks), "no other trust mark is carried")
}

// H_P23_subordinate: statements about other entities.
func H_P23_subordinate() {
	f, err := oidfed.NewFederationEntity(eA, nil, nil, oidfed.NewEntityStatementSigner(nd.Key(1), jwa.ES512()), 0, nil)
	nd.Assert(err == nil, "the entity can be created")
	p := oidfed.EntityStatementPayload{Issuer: eA, Subject: "https://" + nd.Str("subject"), JWKS: nd.KeySet(2),
		Audience: nd.Str("audience"), SourceEndpoint: nd.Str("source")}
	p.IssuedAt.Time, p.ExpiresAt.Time = unix(nd.Now()), unix(nd.Now()+nd.Int("lifetime", 0, 1<<31))
	tok, err := f.SignEntityStatement(p)
	nd.Assert(err == nil, "the statement can be created")
	payload, typ, key, ok := nd.Open(tok)
	nd.Assert(ok && key == 1 && typ == typES, "statements are signed with the own key under the entity statement type")
	nd.Assert(eqJSON(any(map[string]any(decoded(rawJSON(payload)))), any(map[string]any(decoded(rawJSON(enc(obj{
		"iss": eA, "sub": p.Subject, "jwks": nd.KeySet(2), "aud": p.Audience, "source_endpoint": p.SourceEndpoint,
		"iat": p.IssuedAt.Unix(), "exp": p.ExpiresAt.Unix()})))))), "statements carry exactly the given claims")
	nd.Cover("statement")
}
