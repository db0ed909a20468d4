package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// verdicts of a resolve endpoint
const (
	positive = iota
	onlyChain
	negative
	undecided
	empty // positive, but without metadata
)

// endpoint is a resolve endpoint.
type endpoint struct {
	verdict int
	issuer  string // in the resolved metadata
	asked   []map[string][]string
	answer  func() (int, bool, []byte)
}

// newEndpoint is an endpoint that answers as it likes.
func newEndpoint(l, issuer string) *endpoint {
	e := &endpoint{verdict: undecided, issuer: issuer}
	now := nd.Now()
	o := obj{"iss": eT, "sub": eA, "iat": now, "exp": now + day}
	code := []int{400, 404, 500}[nd.Choice(l+" status", nd.Bound("statuses", 1, 3))]
	word := func(w string, v int) {
		e.verdict = v
		e.answer = func() (int, bool, []byte) { return code, true, enc(obj{"error": w, "error_description": "x"}) }
	}
	body := func(code int, json bool, b []byte) {
		e.answer = func() (int, bool, []byte) { return code, json, b }
	}
	switch nd.Choice(l+" answer", 14) {
	case 0:
		e.verdict = positive
		o["metadata"] = obj{"openid_provider": obj{"issuer": issuer}}
		if (l == "endpoint" || nd.Thorough()) && nd.Flag(l+" more claims") {
			o["trust_chain"], o["extra"] = arr{}, nd.Str("extra")
		}
		body(200, false, nd.Sign(enc(o), typRR, 1))
	case 1:
		e.verdict = empty
		body(200, false, nd.Sign(enc(o), typRR, 1))
	case 2:
		word("invalid_trust_chain", negative)
	case 3:
		word("invalid_metadata", onlyChain)
	case 4:
		word("invalid_subject", undecided)
	case 5:
		word("invalid_trust_anchor", undecided)
	case 6:
		w := nd.Str("error word")
		nd.Assume(nd.And(w != "invalid_trust_chain", w != "invalid_metadata"))
		word(w, undecided)
	case 7:
		body(0, false, nil)
	case 8:
		body(500, false, []byte("<html>oops</html>"))
	case 9:
		body(503, true, []byte(`{}`))
	case 10:
		body(200, false, []byte("garbage"))
	case 11:
		body(200, true, []byte(`{}`))
	case 12: // a token, but no resolve response
		o["metadata"] = obj{"openid_provider": obj{"issuer": issuer}}
		typ := nd.Str("typ")
		nd.Assume(typ != typRR)
		body(200, false, nd.Sign(enc(o), typ, 1))
	case 13: // metadata of the wrong shape
		o["metadata"] = "x"
		body(200, false, nd.Sign(enc(o), typRR, 1))
	}
	return e
}

// checkAsked checks the requests an endpoint got.
func (e *endpoint) checkAsked(n int, req apimodel.ResolveRequest) {
	nd.Assert(len(e.asked) == n, "the endpoint is asked exactly if needed")
	for _, p := range e.asked {
		nd.Assert(nd.DeepEq(p["sub"], []string{req.Subject}), "the subject is passed on")
		nd.Assert(nd.DeepEq(p["trust_anchor"], req.TrustAnchor), "the trust anchors are passed on")
		nd.Assert(len(req.EntityTypes) == len(p["entity_type"]) && (len(req.EntityTypes) == 0 || nd.DeepEq(p["entity_type"], req.EntityTypes)),
			"the entity types are passed on")
	}
}

// verdict of a resolver, for comparisons
func isOP(m *oidfed.Metadata, issuer string) bool {
	return m != nil && m.OpenIDProvider != nil && m.OpenIDProvider.Issuer == issuer
}

// H_P25_simple: one remote resolver, every kind of answer.
func H_P25_simple() {
	e := newEndpoint("endpoint", nd.Str("issuer"))
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		nd.Assert(url == eT+"/resolve" && method == "GET", "the given endpoint is asked")
		e.asked = append(e.asked, params)
		return e.answer()
	})
	req := apimodel.ResolveRequest{Subject: nd.Str("subject"), TrustAnchor: []string{eT}}
	if nd.Flag("several") {
		req.TrustAnchor = []string{eB, nd.Str("anchor"), eT}
		req.EntityTypes = []string{nd.Str("type"), "openid_provider"}
	}
	r := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: eT + "/resolve"}
	want := e.verdict == positive
	switch nd.Choice("operation", 3) {
	case 0:
		m, err := r.Resolve(req)
		nd.Assert((err == nil) == want, "metadata exactly from a positive response")
		nd.Assert(!want || isOP(m, e.issuer), "the metadata is that of the response")
		nd.Cover("metadata")
	case 1:
		p, err := r.ResolveResponsePayload(req)
		nd.Assert((err == nil) == want, "metadata exactly from a positive response")
		nd.Assert(!want || isOP(p.Metadata, e.issuer), "the metadata is that of the response")
		nd.Cover("payload")
	case 2:
		valid, invalid := r.ResolvePossible(req)
		if e.verdict == empty {
			nd.Assert(!invalid, "a positive response does not make an entity invalid")
		} else {
			nd.Assert(valid == (want || e.verdict == onlyChain), "valid exactly if the endpoint says so")
			nd.Assert(invalid == (e.verdict == negative), "invalid exactly if the endpoint says so")
		}
		nd.Cover("possible")
	}
	e.checkAsked(1, req)
}

// resolveWorld has two trust anchors; the subject eA is valid below eT exactly if valid.
func resolveWorld() (asked map[string]*endpoint, valid map[string]bool) {
	now := nd.Now()
	asked, valid = map[string]*endpoint{}, map[string]bool{}
	skey := nd.Int("key of statement", 1, 2)
	left := int64(3)
	if nd.Thorough() {
		left = nd.Int("statement expires", -3, 3)
	}
	w := newWeb()
	for i, ta := range []string{eT, eB} {
		k := int64(1 + 2*i)
		kind := nd.Choice(ta+" configuration", 4)
		if kind == 3 {
			asked[ta] = newEndpoint(ta, ta+"/resolved")
		}
		valid[ta] = ta == eT && kind > 1
		w.cfg[ta] = func() []byte {
			o := obj{"iss": ta, "sub": ta, "iat": now, "exp": now + day, "jwks": nd.KeySet(k)}
			switch kind {
			case 0:
				return nil
			case 2:
				o["metadata"] = fedMeta(ta)
			case 3:
				o["metadata"] = obj{"federation_entity": obj{"federation_fetch_endpoint": ta + "/fetch", "federation_resolve_endpoint": ta + "/resolve"}}
			}
			return nd.Sign(enc(o), typES, k)
		}
		w.other[ta+"/resolve"] = func(p map[string][]string) (int, bool, []byte) {
			e := asked[ta]
			e.asked = append(e.asked, p)
			return e.answer()
		}
	}
	valid[eT] = nd.And(valid[eT], skey == 1, left >= 0)
	w.cfg[eA] = func() []byte {
		return nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": now, "exp": now + day, "jwks": nd.KeySet(2), "authority_hints": arr{eT},
			"metadata": obj{"openid_provider": obj{"issuer": "local"}}}), typES, 2)
	}
	w.sub[eT] = func(string) []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eA, "iat": now - 9, "exp": now + left, "jwks": nd.KeySet(2)}), typES, skey)
	}
	w.start()
	return
}

// H_P25_smart: two trust anchors of any kind, with or without resolve endpoints that answer as they like.
func H_P25_smart() {
	asked, valid := resolveWorld()
	req := apimodel.ResolveRequest{Subject: eA, TrustAnchor: [][]string{{eT}, {eB, eT}, {eT, eB}, {eB}}[nd.Choice("trust anchors", 4)]}
	if nd.Thorough() && nd.Flag("type") {
		req.EntityTypes = []string{"openid_provider"}
	}
	local := nd.And(has(req.TrustAnchor, eT), valid[eT])
	op := nd.Choice("operation", 3)
	want := map[string]int{}
	decided := ""
	for _, ta := range req.TrustAnchor {
		e := asked[ta]
		if e == nil || decided != "" {
			continue
		}
		want[ta] = 1
		nd.Assume(op != 2 || e.verdict != empty) // might be either
		if e.verdict == positive || op == 2 && e.verdict != undecided {
			decided = ta
		}
	}
	r := oidfed.SmartRemoteMetadataResolver{}
	var m *oidfed.Metadata
	var err error
	switch op {
	case 0:
		m, err = r.Resolve(req)
	case 1:
		var p oidfed.ResolveResponsePayload
		p, err = r.ResolveResponsePayload(req)
		m = p.Metadata
	case 2:
		ok, invalid := r.ResolvePossible(req)
		if decided == "" {
			nd.Assert(nd.Iff(ok, local) && ok != invalid, "without usable answer the local result counts")
			nd.Cover("possible: local")
			break
		}
		nd.Assert(ok == (asked[decided].verdict != negative) && ok != invalid, "the first usable answer counts")
		nd.Cover("possible: remote")
	}
	for ta, e := range asked {
		e.checkAsked(want[ta], req)
	}
	if op == 2 {
		return
	}
	if decided != "" {
		nd.Assert(err == nil && isOP(m, decided+"/resolved"), "the first positive answer counts")
		nd.Cover("remote")
		return
	}
	nd.Assert(nd.Iff(err == nil, local), "without positive answer the local result counts")
	if err == nil {
		nd.Assert(isOP(m, "local"), "without positive answer the local result counts")
		nd.Cover("local")
	}
}

// H_P25_collect: collecting entities with remote endpoints.
func H_P25_collect() {
	now := nd.Now()
	nothing := map[string]bool{} // endpoints without usable answer
	found := map[string]string{}
	var asked []string
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	if nd.Flag("criteria") {
		req.EntityTypes = []string{"openid_provider", nd.Str("type")}
		req.TrustMarkTypes = []string{nd.Str("trust mark")}
		req.Claims = []string{"entity_types"}
		req.NameQuery = "some name"
		req.FromEntityID = nd.Str("from")
		req.Limit = uint64(nd.Int("limit", 1, 100))
	}
	kind := map[string]int{eT: nd.Choice(eT, 4), eB: nd.Choice(eB, 4)}
	answer := map[string]int{}
	for _, ta := range []string{eT, eB} {
		if kind[ta] == 3 {
			answer[ta] = nd.Choice(ta+" answer", 8)
			nothing[ta] = answer[ta] > 1
		}
	}
	for _, ta := range []string{eT, eB} {
		found[ta] = "https://" + nd.Str("found") + ".example"
	}
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		for _, ta := range []string{eT, eB} {
			k := kind[ta]
			switch url {
			case ta + suffix:
				if k == 0 {
					return 0, false, nil
				}
				fe := obj{"federation_list_endpoint": ta + "/list"}
				switch k {
				case 2:
					fe["federation_collection_endpoint"] = 7
				case 3:
					fe["federation_collection_endpoint"] = ta + "/collect"
				}
				return 200, false, nd.Sign(enc(obj{"iss": ta, "sub": ta, "iat": now, "exp": now + day, "jwks": nd.KeySet(1),
					"metadata": obj{"federation_entity": fe}}), typES, 1)
			case ta + "/list":
				return 200, true, enc(arr{eA})
			case ta + "/collect":
				asked = append(asked, ta)
				nd.Assert(nd.DeepEq(params["trust_anchor"], []string{req.TrustAnchor}), "the trust anchor is passed on")
				if req.Limit != 0 {
					nd.Assert(nd.And(nd.DeepEq(params["entity_type"], req.EntityTypes), nd.DeepEq(params["trust_mark_type"], req.TrustMarkTypes),
						nd.DeepEq(params["claims"], req.Claims), nd.DeepEq(params["name_query"], []string{req.NameQuery}),
						nd.DeepEq(params["from_entity_id"], []string{req.FromEntityID}), len(params["limit"]) == 1), "the criteria are passed on")
					nd.Cover("criteria")
				}
				switch answer[ta] {
				case 0:
					return 200, true, enc(obj{"federation_entities": arr{obj{"entity_id": found[ta], "entity_types": arr{"x"}}}, "next_entity_id": "n"})
				case 1:
					return 200, true, []byte(`{"federation_entities":[]}`)
				case 2:
					return 0, false, nil
				case 3:
					return 500, false, []byte("<html>oops</html>")
				case 4:
					return 404, true, []byte(`{"error":"not_found"}`)
				case 5:
					return 200, true, []byte(`{`)
				case 6:
					return 503, true, []byte(`{"federation_entities":[]}`)
				}
				return 200, false, []byte("<html>down for maintenance</html>")
			}
		}
		if url == eA+suffix {
			return 200, false, nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": now, "exp": now + day, "jwks": nd.KeySet(2),
				"metadata": obj{"openid_provider": obj{"issuer": eA}}}), typES, 2)
		}
		return 404, true, []byte(`{"error":"not_found"}`)
	})
	list := [][]string{nil, {eB}, {eT, eB}, {eB, eT}}[nd.Choice("trust anchors", 4)]
	decided := ""
	order := []string{eT}
	if has(list, eB) {
		order = append(order, eB)
	}
	var want []string
	for _, ta := range order {
		if decided == "" && kind[ta] == 3 {
			want = append(want, ta)
			if !nothing[ta] {
				decided = ta
			}
		}
	}
	var got []*oidfed.CollectedEntity
	if nd.Flag("simple") {
		got = oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: eB + "/collect"}.CollectEntities(req)
		nd.Assert(nd.DeepEq(asked, []string{eB}), "the given endpoint is asked")
		if answer[eB] != 0 {
			nd.Assert(len(got) == 0, "entities exactly from the endpoint")
			return
		}
		decided = eB
	} else {
		got = oidfed.SmartRemoteEntityCollector{TrustAnchors: list}.CollectEntities(req)
		nd.Assert(len(asked) == len(want) && (len(want) == 0 || nd.DeepEq(asked, want)), "endpoints are asked in order until one answers")
	}
	switch {
	case decided != "" && answer[decided] == 0:
		nd.Assert(len(got) == 1 && got[0].EntityID == found[decided], "the first usable answer counts")
		nd.Cover("remote")
	case decided != "":
		nd.Assert(len(got) == 0, "an empty collection is an answer")
		nd.Cover("empty")
	case kind[eT] == 0 || len(req.EntityTypes) > 0:
		nd.Assert(len(got) == 0, "without usable answer the entities are collected locally")
	default:
		nd.Assert(len(got) == 1 && got[0].EntityID == eA, "without usable answer the entities are collected locally")
		nd.Cover("local")
	}
}
