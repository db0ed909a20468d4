package zzverif

import (
	"net/http"
	"net/url"

	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// claimOf is a claim name and a value as a caller may supply them.
func claimOf(l string) (string, any) {
	names := []string{"iss", "sub", "client_id", "client_secret", "exp", "iat", "jti", "scope"}
	i := nd.Choice(l+" name", int64(len(names)+1))
	name := ""
	if i < len(names) {
		name = names[i]
	} else {
		name = nd.Str(l + " name")
	}
	switch nd.Choice(l+" value", 6) {
	case 0:
		return name, nd.Str(l)
	case 1:
		return name, nd.Int(l, -1<<40, 1<<40)
	case 2:
		return name, []string{nd.Str(l)}
	case 3:
		return name, nil
	case 4:
		return name, ""
	}
	return name, obj{"x": nd.Str(l)}
}

// bound checks a token issued by the entity and returns its claims without
// issuer, audience, times and identifier.
func bound(tok []byte, entity string, key int64, aud any, lifetime int64, jti string) (obj, string) {
	payload, typ, id, ok := nd.Open(tok)
	nd.Assert(ok && id == key, "tokens are signed with the key of this entity")
	_ = typ
	c := decoded(rawJSON(payload))
	nd.Assert(c["iss"] == entity, "tokens name this entity as issuer")
	nd.Assert(eqJSON(c["aud"], plainJSON(aud)), "tokens name the intended audience")
	nd.Assert(eqJSON(c["iat"], float64(nd.Now())), "tokens are issued now")
	nd.Assert(eqJSON(c["exp"], plainJSON(nd.Now()+lifetime)), "tokens expire after the configured lifetime")
	got, isStr := c["jti"].(string)
	nd.Assert(isStr && got != "", "tokens carry an identifier")
	nd.Assert(jti == "" || got == jti, "a supplied identifier is used")
	for _, n := range []string{"iss", "aud", "iat", "exp", "jti"} {
		delete(c, n)
	}
	return c, got
}

type rawJSON []byte

func (r rawJSON) MarshalJSON() ([]byte, error) { return r, nil }

// H_P22_object: request objects from arbitrary caller-supplied claims.
func H_P22_object() {
	entity := "https://" + nd.Str("entity")
	lifetime := nd.Int("lifetime", 1, 1<<31)
	rop := oidfed.NewRequestObjectProducer(entity, nd.Key(2), jwa.ES512(), lifetime)
	if nd.Flag("no claims") {
		tok, err := rop.RequestObject(nil)
		nd.Assert(err != nil && tok == nil, "a request object needs an audience")
		return
	}
	in := obj{}
	n := nd.Choice("claims", nd.Bound("supplied claims+1", 3, 4))
	for i := 0; i < n; i++ {
		k, v := claimOf("claim")
		if _, ok := in[k]; ok || k == "aud" {
			nd.Stop()
		}
		in[k] = v
	}
	var aud any
	switch nd.Choice("audience", 3) {
	case 0:
		tok, err := rop.RequestObject(in)
		nd.Assert(err != nil && tok == nil, "a request object needs an audience")
		return
	case 1:
		aud = nd.Str("aud")
	case 2:
		aud = []string{nd.Str("aud"), nd.Str("second aud")}
	}
	in["aud"] = aud
	given := obj{}
	for k, v := range in {
		given[k] = v
	}
	tok, err := rop.RequestObject(in)
	nd.Assert(err == nil, "request objects can be created")
	jti, _ := given["jti"].(string)
	c, id := bound(tok, entity, 2, aud, lifetime, jti)
	nd.Assert(c["client_id"] == entity, "request objects name this entity as client")
	delete(c, "client_id")
	want := obj{}
	for k, v := range given {
		switch k {
		case "iss", "aud", "iat", "exp", "jti", "client_id", "sub", "client_secret":
		default:
			want[k] = v
		}
	}
	nd.Assert(eqJSON(plainJSON(want), any(map[string]any(c))), "request objects carry the supplied claims, but no subject or client secret")
	nd.Cover("request object")
	nd.Assert(len(in) == len(given), "the claims of the caller are not changed")
	for k, v := range given {
		w, ok := in[k]
		nd.Assert(ok && eqJSON(plainJSON(v), plainJSON(w)), "the claims of the caller are not changed")
	}
	tok, err = rop.RequestObject(in)
	nd.Assert(err == nil, "request objects can be created")
	_, second := bound(tok, entity, 2, aud, lifetime, jti)
	nd.Assert(jti != "" || id != second, "every request object has its own identifier")
}

// H_P22_assertion: client assertions.
func H_P22_assertion() {
	entity, aud := "https://"+nd.Str("entity"), "https://"+nd.Str("audience")
	lifetime := nd.Int("lifetime", 1, 1<<31)
	nd.Advance(nd.Int("elapsed", 0, 1<<31))
	rop := oidfed.NewRequestObjectProducer(entity, nd.Key(2), jwa.ES512(), lifetime)
	tok, err := rop.ClientAssertion(aud)
	nd.Assert(err == nil, "client assertions can be created")
	c, id := bound(tok, entity, 2, aud, lifetime, "")
	nd.Assert(c["sub"] == entity && len(c) == 1, "client assertions name this entity as subject")
	tok, err = rop.ClientAssertion(aud)
	nd.Assert(err == nil, "client assertions can be created")
	_, second := bound(tok, entity, 2, aud, lifetime, "")
	nd.Assert(id != second, "every client assertion has its own identifier")
	nd.Cover("client assertion")
}

// stubResolver gives fixed metadata.
type stubResolver struct {
	f func(apimodel.ResolveRequest) (*oidfed.Metadata, error)
}

func (s stubResolver) Resolve(r apimodel.ResolveRequest) (*oidfed.Metadata, error) { return s.f(r) }
func (s stubResolver) ResolveResponsePayload(apimodel.ResolveRequest) (p oidfed.ResolveResponsePayload, err error) {
	panic("not needed")
}
func (s stubResolver) ResolvePossible(apimodel.ResolveRequest) (bool, bool) { panic("not needed") }

// client is a leaf entity and the provider it knows.
func client(entity, op string, md *oidfed.Metadata) *oidfed.FederationLeaf {
	oidfed.DefaultMetadataResolver = stubResolver{func(r apimodel.ResolveRequest) (*oidfed.Metadata, error) {
		nd.Assert(r.Subject == op && len(r.TrustAnchor) == 2 && r.TrustAnchor[0] == eT && r.TrustAnchor[1] == eA,
			"the metadata of the intended provider is resolved with the own trust anchors")
		return md, nil
	}}
	f, err := oidfed.NewFederationLeaf(entity, nil, oidfed.TrustAnchors{{EntityID: eT}, {EntityID: eA}}, nil,
		oidfed.NewEntityStatementSigner(nd.Key(1), jwa.ES512()), 0, nd.Key(2), jwa.ES512(), nil)
	nd.Assert(err == nil, "the leaf can be created")
	return f
}

// extraParams are parameters as a caller may add them.
func extraParams(names []string) (url.Values, map[string][]string) {
	in, want := url.Values{}, map[string][]string{}
	n := nd.Choice("additional parameters", nd.Bound("additional parameters+1", 2, 3))
	for i := 0; i < n; i++ {
		k := ""
		if j := nd.Choice("parameter", int64(len(names)+1)); j < len(names) {
			k = names[j]
		} else {
			k = nd.Str("parameter")
		}
		if _, ok := in[k]; ok {
			nd.Stop()
		}
		vs := []string{}
		for m := nd.Choice("values", 3); m > 0; m-- {
			vs = append(vs, nd.Str("value"))
		}
		in[k] = vs
		want[k] = vs
	}
	if n == 0 && nd.Flag("nil parameters") {
		return nil, want
	}
	return in, want
}

func unchanged(in url.Values, given map[string][]string) {
	nd.Assert(len(in) == len(given), "the parameters of the caller are not changed")
	for k, v := range given {
		nd.Assert(nd.DeepEq(in[k], v), "the parameters of the caller are not changed")
	}
}

// H_P22_url: authorization URLs.
func H_P22_url() {
	entity, op := "https://"+nd.Str("entity"), "https://"+nd.Str("provider")
	if nd.Flag("no provider") {
		md := &oidfed.Metadata{}
		if nd.Flag("no metadata") {
			md = nil
		}
		f := client(entity, op, md)
		u, err := f.GetAuthorizationURL(op, "https://cb.example", "", "openid", nil)
		nd.Assert(err != nil && u == "", "there is no authorization URL for an entity that is no provider")
		nd.Cover("no provider")
		return
	}
	base := "https://op.example/" + nd.Str("path")
	query := map[string][]string{}
	endpoint := base
	if nd.Flag("endpoint with query") {
		v := nd.Str("tenant")
		endpoint += "?tenant=" + v
		query["tenant"] = []string{v}
	}
	md := &oidfed.Metadata{OpenIDProvider: &oidfed.OpenIDProviderMetadata{Issuer: op, AuthorizationEndpoint: endpoint}}
	f := client(entity, op, md)
	redirect := "https://" + nd.Str("redirect") + []string{"", "/cb?x=1&scope=y", "/a b%20+#f"}[nd.Choice("redirect URI", 3)]
	state, scope := nd.Str("state"), "openid"
	switch nd.Choice("scope", 3) {
	case 1:
		scope += " " + nd.Str("scope")
	case 2:
		scope += "&client_id=" + nd.Str("scope")
	}
	in, given := extraParams([]string{"aud", "client_id", "redirect_uri", "response_type", "scope", "state", "sub", "iss", "exp", "jti", "client_secret", "request"})
	u, err := f.GetAuthorizationURL(op, redirect, state, scope, in)
	nd.Assert(err == nil, "an authorization URL can be created")
	unchanged(in, given)

	// follow the URL
	seen := 0
	nd.Serve(func(method, at string, params map[string][]string) (int, bool, []byte) {
		seen++
		nd.Assert(at == base, "the authorization URL points at the authorization endpoint")
		one := func(name string) string {
			nd.Assert(len(params[name]) == 1, "the parameters of the authorization request are unambiguous")
			return params[name][0]
		}
		nd.Assert(one("client_id") == entity && one("redirect_uri") == redirect && one("scope") == scope && one("response_type") == "code",
			"the authorization URL carries client, redirect URI and scope")
		jti := ""
		if v := given["jti"]; len(v) == 1 {
			jti = v[0]
		}
		c, _ := bound([]byte(one("request")), entity, 2, op, 60, jti)
		nd.Assert(c["client_id"] == entity && c["redirect_uri"] == redirect && c["scope"] == scope && c["response_type"] == "code" && c["state"] == state,
			"the request object carries the same client, redirect URI and scope")
		want := obj{"client_id": entity, "redirect_uri": redirect, "scope": scope, "response_type": "code", "state": state}
		for k, v := range given {
			switch k {
			case "aud", "iss", "iat", "exp", "jti", "sub", "client_secret":
				continue
			}
			if _, ok := want[k]; !ok {
				want[k] = v
				if len(v) == 1 {
					want[k] = v[0]
				}
			}
		}
		nd.Assert(eqJSON(plainJSON(want), any(map[string]any(c))), "the request object carries the additional parameters and nothing else")
		for k, v := range query {
			nd.Assert(nd.DeepEq(params[k], v), "the query of the authorization endpoint is kept")
		}
		nd.Assert(len(params) == 5+len(query), "the authorization URL carries nothing else")
		return 200, false, nil
	})
	res, err := http.Get(u)
	nd.Assert(err == nil && res != nil && seen == 1, "the authorization URL can be followed")
	nd.Cover("followed")
}

// H_P22_exchange: the code exchange.
func H_P22_exchange() {
	entity, op := "https://"+nd.Str("entity"), "https://"+nd.Str("provider")
	redirect, code := "https://"+nd.Str("redirect"), nd.Str("code")
	if nd.Flag("no provider") {
		f := client(entity, op, &oidfed.Metadata{})
		res, errRes, err := f.CodeExchange(op, code, redirect, nil)
		nd.Assert(err != nil && res == nil && errRes == nil, "there is no code exchange with an entity that is no provider")
		nd.Cover("no provider")
		return
	}
	endpoint := "https://op.example/" + nd.Str("path")
	f := client(entity, op, &oidfed.Metadata{OpenIDProvider: &oidfed.OpenIDProviderMetadata{Issuer: op, TokenEndpoint: endpoint}})
	fixed := []string{"grant_type", "code", "redirect_uri", "client_id", "client_assertion", "client_assertion_type"}
	in, given := extraParams(fixed)
	answer := nd.Choice("answer", 7)
	token, errCode, extra := nd.Str("access token"), nd.Str("error"), nd.Str("extra")
	wrong := ""
	if answer == 5 {
		fields := []string{"access_token", "token_type", "expires_in", "refresh_token", "scope", "id_token", "error"}
		wrong = fields[nd.Choice("wrong kind", int64(len(fields)))]
	}
	seen := 0
	nd.Serve(func(method, at string, params map[string][]string) (int, bool, []byte) {
		seen++
		nd.Assert(method == "POST" && at == endpoint, "the code is sent to the token endpoint")
		for i, v := range []string{"authorization_code", code, redirect, entity, "", "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"} {
			nd.Assert(len(params[fixed[i]]) == 1 && (v == "" || params[fixed[i]][0] == v), "the token request is bound to this client, code and redirect URI")
		}
		c, _ := bound([]byte(params["client_assertion"][0]), entity, 2, endpoint, 60, "")
		nd.Assert(c["sub"] == entity && len(c) == 1, "client assertions name this entity as subject")
		n := 0
		for k, v := range given {
			if !has(fixed, k) && len(v) > 0 {
				nd.Assert(nd.DeepEq(params[k], v), "additional parameters are sent")
				n++
			}
		}
		nd.Assert(len(params) == len(fixed)+n, "nothing else is sent")
		switch answer {
		case 0:
			return 0, false, nil
		case 1:
			return 400, true, enc(obj{"error": errCode})
		case 2:
			return 200, true, []byte("<html>")
		case 3:
			return 400, true, enc(obj{"error": errCode, "access_token": token})
		}
		out := obj{"access_token": token, "expires_in": 3, "custom": extra}
		if answer == 6 {
			out["token_type"], out["refresh_token"], out["scope"], out["id_token"] = "Bearer", "r."+token, "openid "+extra, "i."+token
		}
		if answer == 5 {
			out[wrong] = []int{1}
		}
		return 200, true, enc(out)
	})
	res, errRes, err := f.CodeExchange(op, code, redirect, in)
	nd.Assert(seen == 1, "one token request is sent")
	unchanged(in, given)
	switch answer {
	case 0, 2, 5:
		nd.Assert(err != nil && res == nil && errRes == nil, "failures are errors")
		nd.Cover("failed")
	case 1, 3:
		nd.Assert(err == nil && res == nil && errRes != nil && errRes.Error == errCode, "error responses are reported")
		nd.Cover("error response")
	default:
		nd.Assert(err == nil && errRes == nil && res != nil && res.AccessToken == token && res.ExpiresIn == 3 &&
			len(res.Extra) == 1 && eqJSON(res.Extra["custom"], extra), "the token response is given")
		if answer == 6 {
			nd.Assert(res.TokenType == "Bearer" && res.RefreshToken == "r."+token && res.Scopes == "openid "+extra && res.IDToken == "i."+token,
				"the token response is given")
		}
		nd.Cover("tokens")
	}
}
