package zzverif

import (
	"encoding/json"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// route is one way from eL to the trust anchor.
type route struct {
	valid    bool // the chain is valid
	resolves bool // its policies give metadata
	name     string
	tokens   []string // what to answer for it
}

// localWeb is a federation in which eL is below eT directly and by way of eA.
func localWeb(types ...string) (w *web, short, long *route) {
	now := nd.Now()
	w = newWeb()
	subject := obj{"iss": eL, "sub": eL, "iat": now, "exp": now + day, "jwks": nd.KeySet(4)}
	hints := nd.Choice("authority hints", nd.Bound("authority hints", 3, 4))
	subject["authority_hints"] = []arr{{eA, eT}, {eT, eA}, {eA}, {eT}}[hints]
	md := obj{}
	for _, t := range types {
		md[t] = obj{"issuer": eL}
	}
	subject["metadata"] = md
	short, long = &route{name: "short"}, &route{name: "long"}
	policy := func(r *route, l string) obj {
		k := nd.Choice(l+" policy", 4)
		r.resolves = k < 2
		claim := obj{"value": r.name}
		switch k {
		case 1:
			claim["essential"] = true
		case 2: // cannot be satisfied
			claim = obj{"one_of": arr{"other"}, "essential": true}
		case 3: // not a policy
			claim = obj{"one_of": arr{r.name}, "subset_of": arr{"x"}}
		}
		return obj{"openid_provider": obj{"organization_name": claim}, "federation_entity": obj{"organization_name": claim}}
	}
	key1, key2 := nd.Int("key of short statement", 1, 2), int64(2)
	if nd.Thorough() {
		key2 = nd.Int("key of long statement", 2, 3)
	}
	left := nd.Int("long statement expires", -3, 3)
	pShort, pLong := policy(short, "short"), policy(long, "long")
	short.valid = nd.And(hints != 2, key1 == 1)
	long.valid = nd.And(hints != 3, key2 == 2, left >= 0)
	w.cfg[eL] = func() []byte { return nd.Sign(enc(subject), typES, 4) }
	w.cfg[eA] = func() []byte {
		return nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": now, "exp": now + day, "jwks": nd.KeySet(2), "metadata": fedMeta(eA), "authority_hints": arr{eT}}), typES, 2)
	}
	w.cfg[eT] = func() []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eT, "iat": now, "exp": now + day, "jwks": nd.KeySet(1), "metadata": fedMeta(eT)}), typES, 1)
	}
	w.sub[eA] = func(sub string) []byte {
		return nd.Sign(enc(obj{"iss": eA, "sub": eL, "iat": now - 9, "exp": now + left, "jwks": nd.KeySet(4), "metadata_policy": pLong}), typES, key2)
	}
	w.sub[eT] = func(sub string) []byte {
		switch sub {
		case eL:
			return nd.Sign(enc(obj{"iss": eT, "sub": eL, "iat": now - 9, "exp": now + day, "jwks": nd.KeySet(4), "metadata_policy": pShort}), typES, key1)
		case eA:
			return nd.Sign(enc(obj{"iss": eT, "sub": eA, "iat": now - 9, "exp": now + day, "jwks": nd.KeySet(2)}), typES, 1)
		}
		return nil
	}
	w.start()
	return
}

// tokensOf are the statements of a route.
func (w *web) tokensOf(r *route) (s []string) {
	l := []string{eL + suffix, eT + "/fetch " + eL, eT + suffix}
	if r.name == "long" {
		l = []string{eL + suffix, eA + "/fetch " + eL, eT + "/fetch " + eA, eT + suffix}
	}
	for _, k := range l {
		s = append(s, string(w.memo[k]))
	}
	return
}

func nameIn(m *oidfed.Metadata) string {
	if m == nil {
		return "none"
	}
	if m.OpenIDProvider != nil {
		return m.OpenIDProvider.OrganizationName
	}
	if m.FederationEntity != nil {
		return m.FederationEntity.OrganizationName
	}
	return "empty"
}

// H_P28_metadata: two ways to the trust anchor, each valid or not, with usable policies or not.
func H_P28_metadata() {
	types := [][]string{{"openid_provider"}, {"federation_entity"}, {"openid_provider", "federation_entity"}}[nd.Choice("types", 3)]
	w, short, long := localWeb(types...)
	req := apimodel.ResolveRequest{Subject: eL, TrustAnchor: [][]string{{eT}, {eB, eT}, {eB}}[nd.Choice("trust anchors", nd.Bound("trust anchors", 2, 3))]}
	usable := req.TrustAnchor[len(req.TrustAnchor)-1] == eT
	if types[0] == "openid_provider" && nd.Flag("type") {
		req.EntityTypes = []string{"openid_provider"}
		types = req.EntityTypes
	}
	short.valid, long.valid = nd.And(usable, short.valid), nd.And(usable, long.valid)
	r := oidfed.LocalMetadataResolver{}
	op := nd.Choice("operation", 3)
	viaShort := nd.And(short.valid, short.resolves)
	viaLong := nd.And(long.valid, long.resolves, !viaShort)
	if op == 2 {
		valid, invalid := r.ResolvePossible(req)
		nd.Assert(nd.Iff(valid, nd.Or(viaShort, viaLong)) && valid != invalid, "an entity is valid exactly if a valid chain gives metadata")
		nd.Cover("possible")
		return
	}
	var p oidfed.ResolveResponsePayload
	var err error
	if op == 0 {
		p.Metadata, err = r.Resolve(req)
	} else {
		p, err = r.ResolveResponsePayload(req)
	}
	nd.Assert(nd.Iff(err == nil, nd.Or(viaShort, viaLong)), "metadata is resolved exactly if a valid chain gives metadata")
	if err != nil {
		nd.Cover("error")
		return
	}
	n := nameIn(p.Metadata)
	nd.Assert(nd.And(nd.Iff(n == "short", viaShort), nd.Iff(n == "long", viaLong)), "the metadata is that of the shortest chain that gives metadata")
	nd.Cover(n)
	nd.Assert(nd.DeepEq(p.Metadata.GuessEntityTypes(), types), "exactly the metadata of the requested types is given")
	if op == 0 {
		return
	}
	c := short
	if n == "long" {
		c = long
	}
	tokens := w.tokensOf(c)
	nd.Assert(len(p.TrustChain) == len(tokens), "the trust chain is that of the metadata")
	for i, t := range tokens {
		nd.Assert(string(p.TrustChain[i].RawJWT) == t, "the trust chain is that of the metadata")
	}
	nd.Assert(len(p.TrustMarks) == 0 && len(p.Extra) == 0, "nothing else is given")
}

// H_P28_marks: the trust marks in a resolve response.
func H_P28_marks() {
	now := nd.Now()
	w := newWeb()
	marks := arr{}
	var good []bool
	for n := nd.Choice("trust marks", nd.Bound("trust marks+1", 3, 4)); n > 0; n-- {
		left, key := nd.Int("mark expires", -9, 9), nd.Int("mark key", 1, 2)
		iss := []string{eT, eB}[nd.Choice("mark issuer", 2)]
		sub := []string{eL, eA}[nd.Choice("mark subject", 2)]
		typ := []string{"t", "u"}[nd.Choice("mark type", 2)]
		o := obj{"iss": iss, "sub": sub, "trust_mark_type": typ, "iat": now, "ref": nd.Str("ref")}
		if nd.Flag("mark expires at all") {
			o["exp"] = now + left
		} else {
			left = 1
		}
		marks = append(marks, obj{"trust_mark_type": "t", "trust_mark": string(nd.Sign(enc(o), typTM, key))})
		good = append(good, nd.And(left >= 0, key == 1, sub == eL, typ == "t", iss == eT))
	}
	cfg := obj{"iss": eL, "sub": eL, "iat": now, "exp": now + day, "jwks": nd.KeySet(4), "authority_hints": arr{eT},
		"metadata": obj{"openid_provider": obj{"issuer": nd.Str("issuer")}}}
	if len(marks) > 0 {
		cfg["trust_marks"] = marks
	}
	w.cfg[eL] = func() []byte { return nd.Sign(enc(cfg), typES, 4) }
	w.cfg[eT] = func() []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eT, "iat": now, "exp": now + day, "jwks": nd.KeySet(1), "metadata": fedMeta(eT)}), typES, 1)
	}
	w.sub[eT] = func(sub string) []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eL, "iat": now - 9, "exp": now + day, "jwks": nd.KeySet(4)}), typES, 1)
	}
	w.start()
	p, err := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(apimodel.ResolveRequest{Subject: eL, TrustAnchor: []string{eT}})
	nd.Assert(err == nil, "the entity is resolved")
	check := func(got oidfed.TrustMarkInfos) {
		i := 0
		for k, m := range marks {
			have := i < len(got) && got[i].TrustMarkJWT == m.(obj)["trust_mark"]
			nd.Assert(nd.Iff(have, good[k]), "exactly the valid trust marks are given")
			if have {
				nd.Assert(got[i].TrustMarkType == "t", "the type is given beside the trust mark")
				nd.Cover("trust mark")
				i++
			}
		}
		nd.Assert(len(got) == i, "exactly the valid trust marks are given")
	}
	check(p.TrustMarks)
	if !nd.Flag("publish") {
		return
	}
	// the whole as a signed response
	rr := oidfed.ResolveResponse{Issuer: eT, Subject: eL, ResolveResponsePayload: p}
	rr.IssuedAt.Time, rr.ExpiresAt.Time = unix(now), unix(now+day)
	doc, err := json.Marshal(rr)
	nd.Assert(err == nil, "the response is serialized")
	got, err := oidfed.ParseResolveResponse(nd.Sign(doc, typRR, 1))
	nd.Assert(err == nil && got.Issuer == eT && got.Subject == eL && got.IssuedAt.Equal(unix(now)) && got.ExpiresAt.Equal(unix(now+day)), "the response is parsed again")
	nd.Assert(got.Metadata != nil && sameJSON(enc(got.Metadata), enc(p.Metadata)), "the metadata is published")
	nd.Assert(len(got.TrustChain) == len(p.TrustChain), "the trust chain is published")
	for i := range p.TrustChain {
		nd.Assert(string(got.TrustChain[i].RawJWT) == string(p.TrustChain[i].RawJWT), "the trust chain is published")
	}
	check(got.TrustMarks)
	nd.Cover("published")
}
