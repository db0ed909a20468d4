package zzverif

import (
	"encoding/json"
	"reflect"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/cache"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// ident is an entity identifier that may contain separators.
func ident(l string) string {
	return []string{"", "https://", "a:"}[nd.Choice(l+" prefix", 3)] + nd.Str(l) +
		[]string{"", ":", ":" + nd.Str(l+" rest"), "/" + nd.Str(l+" path")}[nd.Choice(l+" suffix", 4)]
}

// H_P20_keys: different pairs have different cache entries.
func H_P20_keys() {
	s, i := ident("subject"), ident("issuer")
	t, j := s, i
	if nd.Flag("other subject") {
		t = ident("second subject")
	}
	if nd.Flag("other issuer") {
		j = ident("second issuer")
	}
	same := cache.EntityStmtCacheKey(s, i) == cache.EntityStmtCacheKey(t, j)
	nd.Assert(nd.Iff(same, nd.And(s == t, i == j)), "cache entries are distinguished by subject and issuer")
	nd.Cover("compared")
}

// H_P20_history: a history of requests, faults and elapsed time.
func H_P20_history() {
	ids := []string{"https://a.example", "https://b.example"}
	type pair struct{ sub, iss int }
	version := map[pair]int64{}
	exp, issued := map[pair]int64{}, map[pair]int64{}
	fail := false
	served := 0
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		served++
		p := pair{-1, -1}
		for k, id := range ids {
			if url == id+suffix {
				p = pair{k, k}
			}
			if url == id+"/fetch" && len(params["sub"]) == 1 {
				for l, sub := range ids {
					if params["sub"][0] == sub {
						p = pair{l, k}
					}
				}
			}
		}
		if fail || p.sub < 0 {
			return 0, false, nil
		}
		version[p]++
		iat := nd.Now() - nd.Int("age", 0, 3*3600)
		e := nd.Now() + nd.Int("left", -10, 3*3600)
		exp[p], issued[p] = e, iat
		return 200, false, nd.Sign(enc(obj{"iss": ids[p.iss], "sub": ids[p.sub], "iat": iat, "exp": e,
			"version": version[p]}), typES, 1)
	})
	grace := nd.Int("grace", 0, 2*3600)
	oidfed.ResolverCacheGracePeriod = time.Duration(grace) * time.Second
	quarters := []int64{2, 3, 4, 1, 0}[nd.Choice("factor", nd.Bound("refresh factors", 2, 5))]
	oidfed.ResolverCacheLifetimeElapsedGraceFactor = float64(quarters) / 4
	steps := nd.Bound("steps", 3, 4)
	for n := int64(0); n < steps; n++ {
		if n > 0 {
			nd.Advance(nd.Int("elapsed", 0, 2*3600))
		}
		fail = nd.Flag("unreachable")
		p := pair{nd.Choice("subject", 2), nd.Choice("issuer", 2)}
		before, until, from := version[p], exp[p], issued[p]
		calls := served
		var st *oidfed.EntityStatement
		var err error
		if p.sub == p.iss {
			st, err = oidfed.GetEntityConfiguration(ids[p.sub])
		} else {
			st, err = oidfed.FetchEntityStatement(ids[p.iss]+"/fetch", ids[p.sub], ids[p.iss])
		}
		now := nd.Now()
		nd.Quiesce()
		if err == nil {
			nd.Assert(st != nil && st.Issuer == ids[p.iss] && st.Subject == ids[p.sub], "the statement of the requested pair is given")
			v := st.Extra["version"]
			if v == float64(before) {
				nd.Cover("cached")
				nd.Assert(now <= until && st.ExpiresAt.Unix() == until, "expired statements are not given from the cache")
				refreshed := served > calls
				elapsed, left, total := now-from, until-now, until-from
				nd.Assert(nd.Implies(nd.And(left < grace, 4*elapsed > quarters*total), refreshed),
					"a statement is refreshed in the background within the grace period")
				nd.Assert(nd.Implies(nd.Or(left > grace, 4*elapsed < quarters*total), !refreshed),
					"a statement is not refreshed outside of the grace period")
				if refreshed {
					nd.Cover("refreshed")
				}
			} else {
				nd.Cover("obtained")
				nd.Assert(!fail && v == float64(before+1), "the last obtained statement is given")
			}
		} else {
			nd.Cover("unreachable")
			nd.Assert(fail, "a reachable statement is given")
			nd.Assert(before == 0 || now >= until, "a valid cached statement is given")
		}
	}
}

// mdTypes are the metadata types.
var mdTypes = []struct {
	name string
	mk   func() any
}{
	{"openid_provider", func() any { return &oidfed.OpenIDProviderMetadata{} }},
	{"openid_relying_party", func() any { return &oidfed.OpenIDRelyingPartyMetadata{} }},
	{"oauth_authorization_server", func() any { return &oidfed.OAuthAuthorizationServerMetadata{} }},
	{"oauth_client", func() any { return &oidfed.OAuthClientMetadata{} }},
	{"oauth_resource", func() any { return &oidfed.OAuthProtectedResourceMetadata{} }},
	{"federation_entity", func() any { return &oidfed.FederationEntityMetadata{} }},
	{"other_type", func() any { return &oidfed.FederationEntityMetadata{} }},
}

func sameJSON(a, b []byte) bool {
	var x, y any
	return json.Unmarshal(a, &x) == nil && json.Unmarshal(b, &y) == nil && eqJSON(x, y)
}

// twice obtains the same entity configuration from the web and from the cache.
func twice(id string, doc []byte) (fresh, cached *oidfed.EntityStatement) {
	calls := 0
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		calls++
		return 200, false, doc
	})
	fresh, err := oidfed.GetEntityConfiguration(id)
	nd.Assert(err == nil, "the statement is obtained")
	cached, err = oidfed.GetEntityConfiguration(id)
	nd.Assert(err == nil, "the cached statement can be used")
	nd.Assert(calls == 1, "the statement is cached")
	return
}

// H_P20_metadata: metadata from the cache is treated as metadata from the web.
func H_P20_metadata() {
	mt := mdTypes[nd.Choice("type", int64(len(mdTypes)))]
	v := reflect.ValueOf(mt.mk()).Elem()
	cs := claims(v)
	c := cs[nd.Choice("claim", int64(len(cs)))]
	params := obj{"unknown": "x"}
	zero := map[reflect.Kind]any{reflect.String: "", reflect.Bool: false, reflect.Int: 0, reflect.Int64: 0, reflect.Slice: arr{}, reflect.Map: obj{}}[c.f.Kind()]
	state := nd.Choice("presence", 3)
	switch state {
	case 1:
		if zero == nil {
			nd.Stop()
		}
		params[c.name] = zero
	case 2:
		fill("all: value", c.f)
		params[c.name] = c.f.Interface()
	}
	now := nd.Now()
	fresh, cached := twice("https://a.example", nd.Sign(enc(obj{"iss": "https://a.example", "sub": "https://a.example",
		"iat": now, "exp": now + day, "metadata": obj{mt.name: params}}), typES, 1))
	a, err := json.Marshal(fresh.Metadata)
	nd.Assert(err == nil, "metadata can be serialized")
	b, err := json.Marshal(cached.Metadata)
	nd.Assert(err == nil && sameJSON(a, b), "cached metadata is the metadata")

	operand := params[c.name]
	if state != 2 {
		w := reflect.ValueOf(mt.mk()).Elem()
		d := claims(w)
		for _, x := range d {
			if x.name == c.name {
				fill("all: operand", x.f)
				operand = x.f.Interface()
			}
		}
	}
	op := obj{}
	switch nd.Choice("operator", 4) {
	case 0:
		op["default"] = operand
	case 1:
		op["essential"] = true
	case 2:
		op["one_of"] = arr{operand}
	case 3:
		if c.f.Kind() != reflect.Slice {
			nd.Stop()
		}
		op["subset_of"] = operand
	}
	var pol oidfed.MetadataPolicies
	nd.Assert(json.Unmarshal(enc(obj{mt.name: obj{c.name: op}}), &pol) == nil, "the policy is valid")
	x, errX := fresh.Metadata.ApplyPolicy(&pol)
	y, errY := cached.Metadata.ApplyPolicy(&pol)
	nd.Assert((errX == nil) == (errY == nil), "policies accept the cached metadata as they accept the metadata")
	if errX != nil {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	a, err = json.Marshal(x)
	nd.Assert(err == nil, "resolved metadata can be serialized")
	b, err = json.Marshal(y)
	nd.Assert(err == nil && sameJSON(a, b), "policies have the same result for cached metadata")
}

// H_P20_statement: all claims and the signature survive the cache.
func H_P20_statement() {
	var p oidfed.EntityStatementPayload
	v := reflect.ValueOf(&p).Elem()
	cs := claims(v)
	switch i := nd.Choice("claim", int64(len(cs)+1)); i {
	case len(cs):
		for _, c := range cs {
			fill("all: "+c.name, c.f)
		}
	default:
		fill("value of "+cs[i].name, cs[i].f)
	}
	if nd.Flag("extra claim") {
		name := nd.Str("name")
		for _, c := range cs {
			nd.Assume(name != c.name)
		}
		p.Extra = obj{name: extraValue("extra")}
	}
	now := nd.Now()
	p.IssuedAt.Time, p.ExpiresAt.Time = unix(now), unix(now+day)
	signer := nd.Int("signer", 1, 3)
	doc := nd.Sign(enc(p), typES, signer)
	fresh, cached := twice("https://a.example", doc)
	nd.Assert(sameClaims(reflect.ValueOf(fresh.EntityStatementPayload), reflect.ValueOf(cached.EntityStatementPayload)), "all claims survive the cache")
	nd.Assert(string(raw(oidfed.TrustChain{cached}, 0)) == string(doc), "the signed statement survives the cache")
	id := nd.Int("verified with", 1, 3)
	nd.Assert(cached.Verify(nd.KeySet(id)) == (id == signer), "the signature of the cached statement is verified")
	nd.Assert(fresh.Verify(nd.KeySet(id)) == (id == signer), "the signature of the statement is verified")
	nd.Cover("compared")
}

// H_P20_expiry: cache entries are given exactly until they expire, and an
// entry replaces the previous one.
func H_P20_expiry() {
	var elapsed, until int64 // ns
	present := false
	for n := int64(0); n < nd.Bound("entries", 2, 3); n++ {
		d := nd.Int("lifetime", 0, 3*3600)*1e9 + int64(nd.Choice("ns", 5)) - 2
		v := nd.Str("value")
		nd.Assert(cache.Set("a key", v, time.Duration(d)) == nil, "values can be cached")
		until = elapsed + d
		present = d > 0
		s := nd.Int("elapsed", 0, 2*3600)
		nd.Advance(s)
		elapsed += s * 1e9
		var got string
		ok, err := cache.Get("a key", &got)
		nd.Assert(err == nil, "values can be read")
		nd.Assert(nd.Implies(nd.Or(!present, elapsed > until), !ok), "nothing is given after its expiry")
		nd.Assert(nd.Implies(nd.And(present, elapsed < until), ok), "values are given until their expiry")
		nd.Assert(!ok || got == v, "the last value is given")
		if ok {
			nd.Cover("given")
		} else {
			nd.Cover("expired")
		}
		if ok, err = cache.Get("another key", &got); ok || err != nil {
			nd.Assert(false, "other keys have no value")
		}
	}
}

// useRedis makes the library use a redis server, which is unreachable while down.
func useRedis(down *bool) {
	type entry struct {
		val   string
		until int64 // ms
	}
	store := map[string]entry{}
	opts := nd.Redis(func(op, key string, value []byte, unit string, n int64) ([]byte, bool, string) {
		now := time.Now().UnixMilli()
		if *down {
			return nil, false, "LOADING"
		}
		switch op {
		case "get":
			e, ok := store[key]
			if !ok || (e.until != 0 && now >= e.until) {
				return nil, false, ""
			}
			return []byte(e.val), true, ""
		case "del", "unlink":
			delete(store, key)
		case "set":
			e := entry{val: string(value)}
			switch unit {
			case "ex", "px":
				if n <= 0 {
					return nil, false, "invalid expire time in 'set' command"
				}
				if unit == "ex" {
					n *= 1000
				}
				e.until = now + n
			case "keepttl":
				e.until = store[key].until
			}
			store[key] = e
		}
		return nil, true, ""
	})
	nd.Assert(cache.UseRedisCache(opts) == nil, "a reachable redis server can be used")
}

// H_P20_redis: entries in a redis server, which fails at times.
func H_P20_redis() {
	down := false
	useRedis(&down)
	var elapsed, until int64 // ns
	present := false
	last := ""
	keys := []string{"a key", "another key"}
	for n := int64(0); n < nd.Bound("redis entries", 2, 3); n++ {
		d := nd.Int("lifetime", 0, 3*3600)*1e9 + []int64{0, -1, 1, 5e6, -5e6, 1500e6}[nd.Choice("ns", 6)]
		v := nd.Str("value")
		down = nd.Flag("down when set")
		err := cache.Set("a key", v, time.Duration(d))
		nd.Assert((err == nil) == !down, "a failure is an error")
		if err == nil {
			until, present, last = elapsed+d, d > 0, v
		}
		s := nd.Int("elapsed", 0, 2*3600)
		nd.Advance(s)
		elapsed += s * 1e9
		down = nd.Flag("down when read")
		var got string
		ok, err := cache.Get("a key", &got)
		if down {
			nd.Assert(err != nil && !ok, "a failure is an error")
			nd.Cover("failure")
			continue
		}
		nd.Assert(err == nil, "values can be read")
		nd.Assert(nd.Implies(nd.Or(!present, elapsed > until+1e6), !ok), "nothing is given after its expiry")
		nd.Assert(nd.Implies(nd.And(present, elapsed < until-1e6), ok), "values are given until their expiry")
		nd.Assert(!ok || got == last, "the last value is given")
		if ok {
			nd.Cover("given")
		} else {
			nd.Cover("expired")
		}
		ok, err = cache.Get(keys[1], &got)
		nd.Assert(!ok && err == nil, "other keys have no value")
	}
}

// H_P20_faults: a cache that fails does not change what is obtained.
func H_P20_faults() {
	down := false
	useRedis(&down)
	now := nd.Now()
	calls, version := 0, 0
	fail := false
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		calls++
		if fail {
			return 0, false, nil
		}
		version++
		return 200, false, nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": now, "exp": now + day, "version": version}), typES, 1)
	})
	cached := 0
	for n := int64(0); n < nd.Bound("requests", 3, 5); n++ {
		down, fail = nd.Flag("cache down"), nd.Flag("unreachable")
		before := calls
		st, err := oidfed.GetEntityConfiguration(eA)
		if !down && cached > 0 {
			nd.Assert(err == nil && calls == before && st.Extra["version"] == float64(cached), "the statement is given from the cache")
			nd.Cover("cached")
			continue
		}
		nd.Assert(calls == before+1, "the statement is obtained")
		nd.Assert((err == nil) == !fail, "the statement is given exactly if it is reachable")
		if err != nil {
			nd.Assert(st == nil, "no statement beside an error")
			nd.Cover("unreachable")
			continue
		}
		nd.Assert(st.Issuer == eA && st.Extra["version"] == float64(version), "the statement is the one obtained")
		if !down {
			cached = version
		}
		nd.Cover("obtained")
	}
}
