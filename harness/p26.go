package zzverif

import (
	"errors"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// oracle is a resolver that answers as told.
type oracle struct {
	resolve  func(apimodel.ResolveRequest) (*oidfed.Metadata, error)
	possible func(apimodel.ResolveRequest) (bool, bool)
}

func (o oracle) Resolve(r apimodel.ResolveRequest) (*oidfed.Metadata, error) { return o.resolve(r) }
func (o oracle) ResolveResponsePayload(r apimodel.ResolveRequest) (p oidfed.ResolveResponsePayload, err error) {
	p.Metadata, err = o.resolve(r)
	return
}
func (o oracle) ResolvePossible(r apimodel.ResolveRequest) (bool, bool) { return o.possible(r) }

// given is a collector of given entities.
type given struct {
	req apimodel.EntityCollectionRequest
	es  []*oidfed.CollectedEntity
}

func (g given) CollectEntities(req apimodel.EntityCollectionRequest) []*oidfed.CollectedEntity {
	nd.Assert(nd.DeepEq(req, g.req), "the request is passed on")
	return g.es
}

// H_P26_combine: arbitrary verdicts of the filters and of the resolver for every entity.
func H_P26_combine() {
	ids := []string{"https://1.example", "https://2.example", "https://3.example", "https://4.example"}[:nd.Choice("entities", nd.Bound("entities+1", 4, 5))]
	var in, want []*oidfed.CollectedEntity
	nf := nd.Choice("filters", nd.Bound("filters+1", 3, 4))
	verdict := make([]map[string]bool, nf)
	for i := range verdict {
		verdict[i] = map[string]bool{}
	}
	possible := map[string]int{}
	for _, id := range ids {
		e := &oidfed.CollectedEntity{EntityID: id}
		in = append(in, e)
		possible[id] = nd.Choice("resolvable", 3)
		ok := possible[id] == 0
		for i := range verdict {
			verdict[i][id] = nd.Flag("verdict")
			ok = ok && verdict[i][id]
		}
		if ok {
			want = append(want, e)
		}
	}
	ta := nd.Str("trust anchor")
	oidfed.DefaultMetadataResolver = oracle{possible: func(r apimodel.ResolveRequest) (bool, bool) {
		nd.Assert(len(r.TrustAnchor) == 1 && r.TrustAnchor[0] == ta, "the requested trust anchor counts")
		p, ok := possible[r.Subject]
		nd.Assert(ok, "only collected entities are resolved")
		return p == 0, p == 1
	}}
	var fs []oidfed.EntityCollectionFilter
	for i := range verdict {
		fs = append(fs, oidfed.NewEntityCollectionFilter(func(e *oidfed.CollectedEntity) bool {
			nd.Assert(e != nil, "filters see the entities")
			return verdict[i][e.EntityID]
		}))
	}
	req := apimodel.EntityCollectionRequest{TrustAnchor: ta, EntityTypes: []string{nd.Str("type")}, Claims: []string{"metadata"}}
	c := oidfed.FilterableVerifiedChainsEntityCollector{Collector: given{req, in}, Filters: fs}
	for i := nd.Choice("repeat", 2); i >= 0; i-- {
		got := c.CollectEntities(req)
		nd.Assert(len(got) == len(want), "exactly the entities that meet all criteria are returned")
		for i := range got {
			nd.Assert(got[i] == want[i], "exactly the entities that meet all criteria are returned, in order")
		}
	}
	nd.Assert(len(c.Filters) == nf && len(in) == len(ids), "the collector is left as it was")
	for i, e := range in {
		nd.Assert(e.EntityID == ids[i], "the collected entities are left as they were")
	}
	if len(want) > 0 && len(want) < len(in) {
		nd.Cover("some")
	}
}

// H_P26_metadata: filters on the resolved metadata of a provider.
func H_P26_metadata() {
	list := func(l string, n int64) (s []string) {
		for k := nd.Choice(l, n); k > 0; k-- {
			s = append(s, nd.Str(l))
		}
		return
	}
	anchors := list("trust anchor", 3)
	sub := nd.Str("entity")
	needed := list("needed", nd.Bound("needed+1", 3, 4))
	supported := list("supported", nd.Bound("supported+1", 4, 5))
	var f oidfed.EntityCollectionFilter
	op := &oidfed.OpenIDProviderMetadata{}
	// values in the other claims must not count
	op.GrantTypesSupported, op.ScopesSupported, op.ClientRegistrationTypesSupported, op.ResponseTypesSupported = needed, needed, []string{"automatic", "explicit"}, needed
	word := ""
	switch nd.Choice("filter", 4) {
	case 0:
		f = oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(anchors, needed...)
		op.GrantTypesSupported = supported
	case 1:
		f = oidfed.EntityCollectionFilterOPSupportedScopesIncludes(anchors, needed...)
		op.ScopesSupported = supported
	case 2:
		f = oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(anchors)
		word = "explicit"
	case 3:
		f = oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(anchors)
		word = "automatic"
	}
	if word != "" {
		nd.Assume(len(needed) == 0)
		needed = []string{word}
		op.ClientRegistrationTypesSupported = supported
	}
	md := &oidfed.Metadata{OpenIDProvider: op}
	var err error
	kind := nd.Choice("metadata", 4)
	switch kind {
	case 1:
		md, err = nil, errors.New("not resolvable")
	case 2:
		md = nil
	case 3:
		md.OpenIDProvider = nil
		md.RelyingParty = &oidfed.OpenIDRelyingPartyMetadata{GrantTypes: needed, ClientRegistrationTypes: needed}
	}
	oidfed.DefaultMetadataResolver = oracle{resolve: func(r apimodel.ResolveRequest) (*oidfed.Metadata, error) {
		nd.Assert(r.Subject == sub && len(r.TrustAnchor) == len(anchors) && (len(anchors) == 0 || nd.DeepEq(r.TrustAnchor, anchors)),
			"the metadata of the entity is resolved with the given trust anchors")
		return md, err
	}}
	want := kind == 0
	for _, n := range needed {
		ok := false
		for _, s := range supported {
			ok = nd.Or(ok, s == n)
		}
		want = nd.And(want, ok)
	}
	if nd.Flag("no entity") {
		nd.Assert(!f.Filter(nil), "no entity meets no criterion")
		return
	}
	// what the entity says about itself does not count
	e := &oidfed.CollectedEntity{EntityID: sub, EntityTypes: []string{"openid_provider"}}
	got := f.Filter(e)
	nd.Assert(nd.Iff(got, want), "an entity is accepted exactly if its resolved metadata contains everything needed")
	if got {
		nd.Cover("accepted")
	} else {
		nd.Cover("rejected")
	}
}

// H_P26_types: the filter for providers.
func H_P26_types() {
	f := oidfed.EntityCollectionFilterOPs()
	e := &oidfed.CollectedEntity{EntityID: eA}
	want := false
	for n := nd.Choice("types", nd.Bound("types+1", 4, 6)); n > 0; n-- {
		t := nd.Str("type")
		e.EntityTypes = append(e.EntityTypes, t)
		want = nd.Or(want, t == "openid_provider")
	}
	if nd.Flag("no entity") {
		nd.Assert(!f.Filter(nil), "no entity meets no criterion")
		return
	}
	nd.Assert(nd.Iff(f.Filter(e), want), "exactly providers are accepted")
	nd.Cover("types")
}

// H_P26_federation: the whole collection in a federation of two providers and an intermediate.
func H_P26_federation() {
	now := nd.Now()
	w := newWeb()
	type member struct {
		id            string
		key           int64
		left          int64 // its statement is valid for
		skey          int64 // its statement is signed by
		grants, types bool
		kind          string
	}
	ms := []*member{{id: eA, key: 2, kind: "openid_provider"}, {id: eB, key: 3, kind: "openid_provider"}}
	for _, m := range ms {
		m.left = nd.Int(m.id+" statement expires", -5, 5)
		m.skey = nd.Int(m.id+" key of statement", 1, 2)
		m.grants = nd.Flag(m.id + " grant type")
		if nd.Flag(m.id + " is relying party") {
			m.kind = "openid_relying_party"
		}
	}
	policy := nd.Choice("policy", 3) // the authority adds, removes or leaves alone
	for _, m := range ms {
		w.cfg[m.id] = func() []byte {
			md := obj{"client_registration_types_supported": arr{"automatic"}}
			claim := "grant_types_supported"
			if m.kind != "openid_provider" {
				md, claim = obj{}, "grant_types"
			}
			if m.grants {
				md[claim] = arr{"special"}
			} else {
				md[claim] = arr{"ordinary"}
			}
			return nd.Sign(enc(obj{"iss": m.id, "sub": m.id, "iat": now, "exp": now + day, "jwks": nd.KeySet(m.key), "authority_hints": arr{eT},
				"metadata": obj{m.kind: md}}), typES, m.key)
		}
	}
	w.cfg[eT] = func() []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eT, "iat": now, "exp": now + day, "jwks": nd.KeySet(1),
			"metadata": obj{"federation_entity": obj{"federation_list_endpoint": eT + "/list", "federation_fetch_endpoint": eT + "/fetch"}}}), typES, 1)
	}
	w.sub[eT] = func(sub string) []byte {
		for _, m := range ms {
			if sub == m.id {
				o := obj{"iss": eT, "sub": sub, "iat": now - 9, "exp": now + m.left, "jwks": nd.KeySet(m.key)}
				switch policy {
				case 1:
					o["metadata_policy"] = obj{"openid_provider": obj{"grant_types_supported": obj{"add": "special"}}}
				case 2:
					o["metadata_policy"] = obj{"openid_provider": obj{"grant_types_supported": obj{"subset_of": arr{"ordinary"}}}}
				}
				return nd.Sign(enc(o), typES, m.skey)
			}
		}
		return nil
	}
	w.other[eT+"/list"] = func(map[string][]string) (int, bool, []byte) { return 200, true, enc(arr{eA, eB}) }
	w.start()
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	special := false
	op := nd.Choice("collector", 4)
	var got []*oidfed.CollectedEntity
	switch op {
	case 0:
		got = oidfed.VerifiedChainsEntityCollector{}.CollectEntities(req)
	case 1:
		req.EntityTypes = []string{"openid_relying_party"}
		got = (&oidfed.SimpleOPCollector{}).CollectEntities(req)
		nd.Assert(len(req.EntityTypes) == 1 && req.EntityTypes[0] == "openid_relying_party", "the request is left as it was")
	case 2:
		got = oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{oidfed.EntityCollectionFilterOPs()}}.CollectEntities(req)
	case 3:
		special = true
		if nd.Flag("with metadata") {
			req.Claims = []string{"metadata"}
		}
		got = oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{
			oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration([]string{eT}),
			oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes([]string{eT}, "special"),
		}}.CollectEntities(req)
	}
	n := 0
	for _, m := range ms {
		want := nd.And(m.left >= 0, m.skey == 1) || op == 1
		if op > 0 {
			want = want && m.kind == "openid_provider"
		}
		if special {
			want = want && policy != 2 && (m.grants || policy == 1)
		}
		found := 0
		for _, e := range got {
			if e.EntityID == m.id {
				found++
			}
		}
		nd.Assert(nd.Iff(found == 1, want) && found <= 1, "exactly the entities meeting the criterion are returned")
		n += found
	}
	nd.Assert(len(got) == n, "nothing else is returned")
	if n == 1 {
		nd.Cover("one")
	}
	if n == 2 {
		nd.Cover("both")
	}
}
