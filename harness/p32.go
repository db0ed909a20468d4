package zzverif

import (
	"encoding/json"
	"net/url"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// remote is a server that answers as it likes and records what it is asked.
type remote struct {
	asked  int
	method string
	url    string
	params map[string][]string
	status int
	json   bool
	body   []byte
}

func (r *remote) start() {
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		r.asked++
		r.method, r.url, r.params = method, url, params
		return r.status, r.json, r.body
	})
}

// fails makes the server fail.
func (r *remote) fails() {
	switch nd.Choice("failure", nd.Bound("failures", 6, 8)) {
	case 0:
		r.status = 0
	case 1:
		r.status, r.json, r.body = 404, true, enc(oidfed.ErrorNotFound("nothing here"))
	case 2:
		r.status, r.json, r.body = 500, false, []byte("<html>oops</html>")
	case 3:
		r.status, r.json, r.body = 503, true, []byte("{}")
	case 4:
		r.status, r.json, r.body = 400, true, enc(obj{"error": nd.Str("code")})
	case 5:
		r.status, r.json, r.body = 403, false, []byte{}
	case 6:
		r.status, r.json, r.body = 429, true, []byte(`{"error":5}`)
	case 7:
		r.status, r.json, r.body = 502, true, []byte(`[]`)
	}
}

// words that need care in a URL, and any other
func anyID(l string) string {
	switch nd.Choice(l+" shape", nd.Bound("identifier shapes", 4, 6)) {
	case 0:
		return nd.Str(l)
	case 1:
		return "https://" + nd.Str(l) + ".example"
	case 2:
		return "https://x.example/?a=b&sub=c#d"
	case 3:
		return "100% ä+b;c,d/"
	case 4:
		return "https://" + nd.Str(l) + "/a b"
	}
	return "\"<>\\^`{|}~"
}

// endpointURL is an endpoint with or without an own query.
func endpointURL(path string) (u, base string, own url.Values) {
	base = "https://" + nd.Str("host") + ".example/" + path
	own = url.Values{}
	switch nd.Choice("endpoint", 4) {
	case 0:
	case 1:
		base += "/"
	case 2:
		base = "https://a.example:8443"
		base += "/" + path
	case 3:
		w := nd.Str("tenant")
		own.Add("tenant", w)
		return base + "?tenant=" + w, base, own
	}
	return base, base, own
}

// wants checks the request the server got.
func (r *remote) wants(n int, method, u string, params url.Values) {
	nd.Assert(r.asked == n, "there is exactly one request")
	nd.Assert(r.method == method && r.url == u, "the request goes to the endpoint given")
	got := url.Values{}
	for k, v := range r.params { // parameters that are sent as empty are not there
		if len(v) > 0 && !(len(v) == 1 && v[0] == "") {
			got[k] = v
		}
	}
	nd.Assert(len(got) == len(params), "exactly the parameters asked for are sent")
	for k, v := range params {
		nd.Assert(nd.DeepEq(got[k], v), "every parameter has the value asked for")
	}
}

func failed(err error, r *remote) {
	nd.Assert(err != nil, "a failure is an error")
	if r.status == 404 {
		nd.Assert(strings.Contains(err.Error(), "not_found") && strings.Contains(err.Error(), "nothing here") && strings.Contains(err.Error(), "404"),
			"the error names what the server said")
	}
}

// H_P32_statements: entity configurations and statements about subordinates.
func H_P32_statements() {
	var r remote
	r.start()
	now := nd.Now()
	var get func() (*oidfed.EntityStatement, error)
	var u string
	params := url.Values{}
	iss, sub := nd.Str("issuer"), ""
	if nd.Flag("configuration") {
		iss = "https://" + iss
		switch nd.Choice("identifier", 5) {
		case 0:
		case 1:
			iss += "/path"
		case 2:
			iss += ".example:8443/path/more"
		case 3:
			u = iss + suffix
			iss += "/"
		case 4:
			u = iss + "/path" + suffix
			iss += "/path/"
		}
		if u == "" {
			u = iss + suffix
		}
		sub = iss
		get = func() (*oidfed.EntityStatement, error) { return oidfed.GetEntityConfiguration(iss) }
	} else {
		sub = anyID("subject")
		var e string
		e, u, params = endpointURL("fetch")
		params.Add("sub", sub)
		get = func() (*oidfed.EntityStatement, error) { return oidfed.FetchEntityStatement(e, sub, iss) }
	}
	n := 0
	if nd.Flag("fails first") {
		r.fails()
		s, err := get()
		failed(err, &r)
		nd.Assert(s == nil, "there is no statement beside an error")
		n++
		r.wants(n, "GET", u, params)
		nd.Cover("failure")
	}
	r.status, r.json = 200, false
	r.body = nd.Sign(enc(obj{"iss": iss, "sub": sub, "iat": now, "exp": now + day, "jwks": nd.KeySet(1)}), typES, 1)
	for i := 0; i < 2; i++ { // the second one is cached
		s, err := get()
		nd.Assert(err == nil && s.Issuer == iss && s.Subject == sub, "the statement is that of the server, also after a failure")
		r.wants(n+1, "GET", u, params)
	}
	nd.Cover("statement")
}

func notEmpty(v url.Values, k string, s ...string) {
	for _, x := range s {
		if x != "" {
			v.Add(k, x)
		}
	}
}

// H_P32_resolve: requests of remote resolution.
func H_P32_resolve() {
	var r remote
	r.start()
	now := nd.Now()
	e, u, params := endpointURL("resolve")
	req := apimodel.ResolveRequest{Subject: anyID("subject")}
	for n := nd.Choice("anchors", 3); n >= 0; n-- {
		a := nd.Str("anchor")
		if n == 0 {
			a = anyID("last anchor")
		}
		req.TrustAnchor = append(req.TrustAnchor, a)
	}
	for n := nd.Choice("types", nd.Bound("types+1", 2, 3)); n > 0; n-- {
		req.EntityTypes = append(req.EntityTypes, nd.Str("type"))
	}
	params.Add("sub", req.Subject)
	notEmpty(params, "trust_anchor", req.TrustAnchor...)
	notEmpty(params, "entity_type", req.EntityTypes...)
	c := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: e}
	n := 0
	if nd.Flag("fails first") {
		r.fails()
		m, err := c.Resolve(req)
		nd.Assert(err != nil && m == nil, "a failure is an error")
		n++
		r.wants(n, "GET", u, params)
		nd.Cover("failure")
	}
	r.status, r.json = 200, false
	r.body = nd.Sign(enc(obj{"iss": eT, "sub": req.Subject, "iat": now, "exp": now + day, "metadata": obj{"openid_provider": obj{"issuer": "x"}}}), typRR, 1)
	m, err := c.Resolve(req)
	nd.Assert(err == nil && isOP(m, "x"), "the metadata is that of the server, also after a failure")
	r.wants(n+1, "GET", u, params)
	nd.Cover("metadata")
}

// H_P32_collect: requests of remote collection.
func H_P32_collect() {
	var r remote
	r.start()
	e, u, params := endpointURL("collection")
	var req apimodel.EntityCollectionRequest
	if nd.Flag("page") {
		req.FromEntityID = anyID("from")
		req.Limit = uint64(nd.Int("limit", 1, 1<<40))
		notEmpty(params, "from_entity_id", req.FromEntityID)
	}
	if nd.Flag("anchor") {
		req.TrustAnchor, req.NameQuery = anyID("anchor"), nd.Str("name")
		notEmpty(params, "trust_anchor", req.TrustAnchor)
		notEmpty(params, "name_query", req.NameQuery)
	}
	if nd.Flag("lists") {
		req.TrustMarkTypes, req.EntityTypes = []string{nd.Str("trust mark type"), "t2"}, []string{nd.Str("type")}
		req.Claims = []string{nd.Str("claim"), "c2"}
		notEmpty(params, "trust_mark_type", req.TrustMarkTypes...)
		notEmpty(params, "entity_type", req.EntityTypes...)
		notEmpty(params, "claims", req.Claims...)
	}
	c := oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: e}
	check := func(n int) {
		lim := r.params["limit"]
		nd.Assert(len(lim) == 1 && string(enc(req.Limit)) == lim[0], "the limit is sent")
		delete(r.params, "limit")
		r.wants(n, "GET", u, params)
	}
	n := 0
	if nd.Flag("fails first") {
		r.fails()
		nd.Assert(len(c.CollectEntities(req)) == 0, "a failure gives no entities")
		n++
		check(n)
		nd.Cover("failure")
	}
	id := nd.Str("entity")
	r.status, r.json, r.body = 200, true, enc(obj{"federation_entities": arr{obj{"entity_id": id}, obj{"entity_id": "e2"}}})
	es := c.CollectEntities(req)
	nd.Assert(len(es) == 2 && es[0].EntityID == id && es[1].EntityID == "e2", "the entities are those of the server, also after a failure")
	check(n + 1)
	nd.Cover("entities")
}

// H_P32_mark: requests for trust marks.
func H_P32_mark() {
	var r remote
	now := nd.Now()
	e, u, params := endpointURL("mark")
	sub, typ := anyID("subject"), anyID("type")
	params.Add("sub", sub)
	params.Add("trust_mark_type", typ)
	c := oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: typ, TrustMarkIssuer: eA, Refresh: true}
	own := ""
	if nd.Flag("own") { // the endpoint is given by the entity itself
		nd.Assume(sub != eA)
		c.TrustMarkIssuer, own = sub, e
	}
	nd.Assert(c.Verify(sub, own, nil) == nil, "the configuration is accepted")
	nd.Serve(func(method, url string, p map[string][]string) (int, bool, []byte) {
		if url == eA+suffix {
			nd.Assert(own == "" && method == "GET" && len(p) == 0, "only the issuer is asked")
			return 200, false, nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": now, "exp": now + 9*day, "jwks": nd.KeySet(1),
				"metadata": obj{"federation_entity": obj{"federation_trust_mark_endpoint": e}}}), typES, 1)
		}
		r.asked++
		r.method, r.url, r.params = method, url, p
		return r.status, r.json, r.body
	})
	n := 0
	if nd.Flag("fails first") {
		r.fails()
		tok, err := c.TrustMarkJWT()
		failed(err, &r)
		nd.Assert(tok == "", "there is no trust mark beside an error")
		n++
		r.wants(n, "GET", u, params)
		nd.Cover("failure")
		nd.Advance(61)
	}
	r.status, r.json = 200, false
	r.body = nd.Sign(enc(obj{"iss": eA, "sub": sub, "iat": nd.Now(), "exp": nd.Now() + day, "trust_mark_type": typ}), typTM, 1)
	for i := 0; i < 2; i++ {
		tok, err := c.TrustMarkJWT()
		nd.Assert(err == nil && tok == string(r.body), "the trust mark is that of the server, also after a failure")
		r.wants(n+1, "GET", u, params)
	}
	nd.Cover("mark")
}

// H_P32_errors: the error documents of the library.
func H_P32_errors() {
	d := nd.Str("description")
	if nd.Flag("awkward") {
		d = []string{"", "\"quoted\" \\ <b>", "ä\n"}[nd.Choice("text", 3)]
	}
	all := []struct {
		code string
		f    func(string) oidfed.Error
	}{
		{"invalid_request", oidfed.ErrorInvalidRequest}, {"invalid_client", oidfed.ErrorInvalidClient}, {"invalid_issuer", oidfed.ErrorInvalidIssuer},
		{"invalid_subject", oidfed.ErrorInvalidSubject}, {"invalid_trust_anchor", oidfed.ErrorInvalidTrustAnchor},
		{"invalid_trust_chain", oidfed.ErrorInvalidTrustChain}, {"invalid_metadata", oidfed.ErrorInvalidMetadata}, {"not_found", oidfed.ErrorNotFound},
		{"server_error", oidfed.ErrorServerError}, {"unsupported_parameter", oidfed.ErrorUnsupportedParameter},
		{"temporarily_unavailable", oidfed.ErrorTemporarilyUnavailable},
	}
	e := all[nd.Choice("error", int64(len(all)))]
	doc := enc(e.f(d))
	nd.Assert(eqJSON(decoded(rawJSON(doc)), obj{"error": e.code, "error_description": d}), "an error document has its code and description")
	var back oidfed.Error
	nd.Assert(json.Unmarshal(doc, &back) == nil && back == e.f(d), "an error document can be read")
	code := []int{400, 401, 404, 500, 503}[nd.Choice("status", 5)]
	r := remote{status: code, json: true, body: doc}
	r.start()
	s, err := oidfed.GetEntityConfiguration(eA)
	nd.Assert(s == nil && err != nil && strings.Contains(err.Error(), e.code), "a client gets the error")
	valid, invalid := oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: eT + "/resolve"}.ResolvePossible(apimodel.ResolveRequest{Subject: eA, TrustAnchor: []string{eT}})
	nd.Assert(valid == (e.code == "invalid_metadata") && invalid == (e.code == "invalid_trust_chain"), "a resolver draws the right conclusion")
	nd.Cover("error")
}
