package zzverif

import (
	"encoding/json"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/unixtime"
)

// operations are what may happen at the same time; each one checks its own result.
func operations(cached bool) (ops []func()) {
	now := nd.Now()
	mark := func(sub string) string {
		return string(nd.Sign(enc(obj{"iss": eA, "sub": sub, "trust_mark_type": "t", "iat": now, "exp": now + 99}), typTM, 2))
	}
	w := newWeb()
	soon := false // within the grace period
	if cached {
		soon = nd.Flag("about to expire")
	}
	life := int64(day)
	if soon {
		life = 600
	}
	policy := obj{"openid_provider": obj{"scopes_supported": obj{"add": arr{"b"}, "superset_of": arr{"a"}}, "contacts": obj{"default": arr{"x"}}}}
	w.cfg[eL] = func() []byte {
		return nd.Sign(enc(obj{"iss": eL, "sub": eL, "iat": now - 6000, "exp": now + life, "jwks": nd.KeySet(3), "authority_hints": arr{eA},
			"trust_marks": arr{obj{"trust_mark_type": "t", "trust_mark": mark(eL)}},
			"metadata":    obj{"openid_provider": obj{"issuer": eL, "scopes_supported": arr{"a"}}}}), typES, 3)
	}
	w.cfg[eA] = func() []byte {
		return nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": now - 6000, "exp": now + life, "jwks": nd.KeySet(2), "metadata": fedMeta(eA), "authority_hints": arr{eT}}), typES, 2)
	}
	w.cfg[eT] = func() []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eT, "iat": now - 6000, "exp": now + life, "jwks": nd.KeySet(1), "metadata": fedMeta(eT),
			"trust_mark_issuers": obj{"t": arr{eA}}}), typES, 1)
	}
	w.sub[eA] = func(string) []byte {
		return nd.Sign(enc(obj{"iss": eA, "sub": eL, "iat": now - 6000, "exp": now + life, "jwks": nd.KeySet(3), "metadata_policy": policy}), typES, 2)
	}
	w.sub[eT] = func(string) []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eA, "iat": now - 6000, "exp": now + life, "jwks": nd.KeySet(2), "metadata_policy": policy}), typES, 1)
	}
	docs := map[string][]byte{eL + suffix: w.cfg[eL](), eA + suffix: w.cfg[eA](), eT + suffix: w.cfg[eT](), eA + "/fetch": w.sub[eA](""), eT + "/fetch": w.sub[eT]("")}
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		if b, ok := docs[url]; ok {
			return 200, false, b
		}
		return 0, false, nil
	})
	meta := func(m *oidfed.Metadata, err error) {
		nd.Assert(err == nil && m != nil && m.OpenIDProvider != nil && m.OpenIDProvider.Issuer == eL && len(m.OpenIDProvider.ScopesSupported) == 2 &&
			m.OpenIDProvider.ScopesSupported[0] == "a" && m.OpenIDProvider.ScopesSupported[1] == "b" &&
			len(m.OpenIDProvider.Contacts) == 1 && m.OpenIDProvider.Contacts[0] == "x", "the metadata is that of a single evaluation")
	}
	resolver := func() *oidfed.TrustResolver {
		return &oidfed.TrustResolver{TrustAnchors: oidfed.NewTrustAnchorsFromEntityIDs(eT), StartingEntity: eL}
	}
	var chain oidfed.TrustChain
	if cached {
		chains := resolver().ResolveToValidChains()
		nd.Assert(len(chains) == 1, "there is a chain")
		chain = chains[0]
	} else {
		var sts []*oidfed.EntityStatement
		for _, b := range [][]byte{w.cfg[eL](), w.sub[eA](""), w.sub[eT](""), w.cfg[eT]()} {
			s, err := oidfed.ParseEntityStatement(b)
			nd.Assert(err == nil, "parsed")
			sts = append(sts, s)
		}
		chain = sts
	}
	tms := oidfed.NewTrustMarkIssuer(eA, oidfed.NewTrustMarkSigner(nd.Key(2), jwa.ES512()), []oidfed.TrustMarkSpec{{TrustMarkType: "t",
		Lifetime: unixtime.DurationInSeconds{Duration: time.Minute}, Extra: map[string]any{"e": "x"}}, {TrustMarkType: "u"}})
	tmo := oidfed.NewTrustMarkOwner(eA, oidfed.NewTrustMarkDelegationSigner(nd.Key(2), jwa.ES512()), []oidfed.OwnedTrustMark{{ID: "u"}})
	deleg := string(nd.Sign(enc(obj{"iss": eB, "sub": eA, "trust_mark_type": "t", "iat": now}), typTMD, 1))
	shared, err := oidfed.ParseTrustMark(nd.Sign(enc(obj{"iss": eA, "sub": eL, "trust_mark_type": "t", "iat": now, "delegation": deleg}), typTM, 2))
	nd.Assert(err == nil, "parsed")
	own := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: "t", TrustMarkIssuer: eA, JWT: mark(eL)}
	nd.Assert(own.Verify(eL, "", nil) == nil, "the configuration is accepted")
	leaf, err := oidfed.NewFederationLeaf(eL, []string{eA}, oidfed.TrustAnchors{{EntityID: eT}}, &oidfed.Metadata{RelyingParty: &oidfed.OpenIDRelyingPartyMetadata{ClientName: "c"}},
		oidfed.NewEntityStatementSigner(nd.Key(3), jwa.ES512()), 0, nd.Key(2), jwa.ES512(), map[string]any{"extra": arr{"x"}})
	nd.Assert(err == nil, "the leaf can be created")
	leaf.TrustMarks = []*oidfed.EntityConfigurationTrustMarkConfig{own}
	producer := leaf.RequestObjectProducer()
	values := map[string]any{"aud": eA, "scope": "openid"}
	return []func(){
		func() { // chains
			chains := resolver().ResolveToValidChains()
			nd.Assert(len(chains) == 1 && len(chains[0]) == 4, "the chain is found")
			meta(chains[0].Metadata())
		},
		func() { // metadata of a shared chain
			meta(chain.Metadata())
		},
		func() { // the default resolver
			p, err := oidfed.DefaultMetadataResolver.ResolveResponsePayload(apimodel.ResolveRequest{Subject: eL, TrustAnchor: []string{eT}})
			meta(p.Metadata, err)
			nd.Assert(len(p.TrustMarks) == 1 && p.TrustMarks[0].TrustMarkType == "t", "the trust mark is valid")
		},
		func() { // trust marks of a shared statement
			marks := chain[0].TrustMarks.VerifiedFederation(&chain[3].EntityStatementPayload)
			nd.Assert(len(marks) == 1 && chain[0].TrustMarks[0].VerifyFederation(&chain[3].EntityStatementPayload) == nil, "the trust mark is valid")
		},
		func() { // a shared trust mark
			nd.Assert(shared.VerifyExternal(nd.KeySet(2), oidfed.TrustMarkOwnerSpec{ID: eB, JWKS: nd.KeySet(1)}) == nil, "the delegated trust mark is valid")
		},
		func() { // issuing
			info, err := tms.IssueTrustMark("t", eL)
			nd.Assert(err == nil && info.TrustMarkType == "t", "the trust mark is issued")
			b, typ, by, ok := nd.Open([]byte(info.TrustMarkJWT))
			nd.Assert(ok && typ == typTM && by == 2, "the trust mark is signed")
			var m oidfed.TrustMark
			nd.Assert(json.Unmarshal(b, &m) == nil && m.Subject == eL && m.ExpiresAt != nil && m.ExpiresAt.Unix() == now+60 && len(m.Extra) == 1, "the trust mark has the configured claims")
		},
		func() { // issuing of what has no extra claims
			info, err := tms.IssueTrustMark("u", eL)
			nd.Assert(err == nil && info.TrustMarkType == "u" && len(info.Extra) == 0, "the trust mark is issued")
			b, err := tmo.DelegationJWT("u", eL)
			nd.Assert(err == nil, "the delegation is issued")
			_, typ, by, ok := nd.Open(b)
			nd.Assert(ok && typ == typTMD && by == 2, "the delegation is signed")
			types := tms.TrustMarkTypes()
			nd.Assert(len(types) == 2 && types[0] != types[1], "two types can be issued")
		},
		func() { // the own entity configuration
			p := leaf.EntityConfigurationPayload()
			nd.Assert(p.Subject == eL && len(p.TrustMarks) == 1 && len(p.AuthorityHints) == 1 && len(p.Extra) == 1, "the entity configuration is complete")
			b, err := leaf.EntityConfigurationJWT()
			nd.Assert(err == nil, "the entity configuration is issued")
			s, err := oidfed.ParseEntityStatement(b)
			nd.Assert(err == nil && s.Verify(nd.KeySet(3)) && len(s.TrustMarks) == 1, "the entity configuration is signed")
		},
		func() { // request objects
			b, err := producer.RequestObject(values)
			nd.Assert(err == nil, "the request object is created")
			c, _, by, ok := nd.Open(b)
			m := map[string]any{}
			nd.Assert(ok && by == 2 && json.Unmarshal(c, &m) == nil && m["iss"] == eL && m["scope"] == "openid" && m["aud"] == eA, "the request object is bound to the client")
			b, err = producer.ClientAssertion(eA)
			nd.Assert(err == nil, "the client assertion is created")
			c, _, by, ok = nd.Open(b)
			m = map[string]any{}
			nd.Assert(ok && by == 2 && json.Unmarshal(c, &m) == nil && m["sub"] == eL && m["aud"] == eA, "the client assertion is bound to the client")
		},
	}
}

// atOnce runs two operations at the same time.
func atOnce(f, g func()) {
	done := make(chan int, 2)
	for _, h := range []func(){f, g} {
		go func() {
			h()
			done <- 1
		}()
	}
	<-done
	<-done
	nd.Quiesce()
	nd.Cover("both")
}

// H_P29_pairs: any two operations at the same time.
func H_P29_pairs() {
	nd.Races(true)
	nd.Schedules(nd.Bound("delays", 0, 1))
	ops := operations(nd.Flag("cached"))
	n := int64(len(ops))
	i := nd.Choice("first", n)
	j := nd.Choice("second", n)
	nd.Assume(i <= j)
	atOnce(ops[i], ops[j])
}

// H_P29_schedules: the same operation twice, in more interleavings.
func H_P29_schedules() {
	nd.Races(true)
	nd.Schedules(nd.Bound("delays of the same", 1, 2))
	ops := operations(true)
	i := nd.Choice("operation", int64(len(ops)))
	atOnce(ops[i], ops[i])
}
