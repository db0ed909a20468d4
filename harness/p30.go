package zzverif

import (
	"encoding/json"
	"time"

	"gopkg.in/yaml.v3"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/unixtime"
)

// yamlCopy writes v as YAML and reads it again.
func yamlCopy(v, into any) {
	b, err := yaml.Marshal(v)
	nd.Assert(err == nil, "the value can be written as YAML")
	nd.Assert(yaml.Unmarshal(b, into) == nil, "what was written as YAML can be read")
}

// spec is a trust mark specification, as a document and as the value it stands for.
func spec(l string) (obj, oidfed.TrustMarkSpec) {
	var s oidfed.TrustMarkSpec
	doc := obj{}
	if nd.Flag(l + " type") {
		s.TrustMarkType = nd.Str("type")
		doc["trust_mark_type"] = s.TrustMarkType
	}
	if nd.Flag(l + " lifetime") {
		n := nd.Int("lifetime", 0, 1<<31)
		s.Lifetime = unixtime.DurationInSeconds{Duration: time.Duration(n) * time.Second}
		doc["lifetime"] = n
		if i := nd.Choice("fraction", 5); i > 0 {
			// a fraction of seconds, as a number of nanoseconds
			ns := []int64{500000000, 1250000000, 86400000000001, 90000000000}[i-1]
			s.Lifetime.Duration = time.Duration(ns)
			doc["lifetime"] = []float64{0.5, 1.25, 86400.000000001, 90}[i-1]
		}
	}
	if nd.Flag(l + " texts") {
		s.Ref, s.LogoURI, s.DelegationJWT = nd.Str("ref"), nd.Str("logo"), nd.Str("delegation")
		doc["ref"], doc["logo_uri"], doc["delegation_jwt"] = s.Ref, s.LogoURI, s.DelegationJWT
		s.IncludeExtraClaimsInInfo = nd.Flag(l + " include")
		doc["include_extra_claims_in_info"] = s.IncludeExtraClaimsInInfo
	}
	return doc, s
}

// sameSpec compares specifications, but not their extra claims.
func sameSpec(a, b oidfed.TrustMarkSpec) bool {
	return nd.And(a.TrustMarkType == b.TrustMarkType, a.Lifetime == b.Lifetime, a.Ref == b.Ref, a.LogoURI == b.LogoURI,
		a.IncludeExtraClaimsInInfo == b.IncludeExtraClaimsInInfo, a.DelegationJWT == b.DelegationJWT)
}

// extras are claims a specification does not know.
func extras() obj {
	o := obj{}
	switch nd.Choice("extra", nd.Bound("extra claims", 5, 6)) {
	case 1:
		o["extra"] = nd.Str("value")
	case 2:
		o["Ref"], o["-"] = nd.Str("value"), nd.Int("number", -9, 1<<40)
	case 3:
		o["extra"] = obj{"ref": arr{nd.Str("value"), true, nil}, "lifetime": obj{}}
		o["extra2"] = nil
	case 4:
		k := nd.Str("claim")
		for _, n := range []string{"trust_mark_type", "lifetime", "ref", "logo_uri", "include_extra_claims_in_info", "delegation_jwt"} {
			nd.Assume(k != n)
		}
		o[k] = "x"
	case 5:
		o["a"], o["b"], o["c"] = arr{}, obj{}, false
	}
	return o
}

// H_P30_spec: trust mark specifications.
func H_P30_spec() {
	doc, want := spec("spec")
	more := extras()
	for k, v := range more {
		doc[k] = v
	}
	var s, j, c oidfed.TrustMarkSpec
	nd.Assert(yaml.Unmarshal(enc(doc), &s) == nil, "a specification can be read")
	nd.Assert(sameSpec(s, want), "the specification is the one given")
	nd.Assert(eqJSON(plainJSON(s.Extra), plainJSON(nilIfEmpty(more))), "exactly the unknown claims are extra claims")
	nd.Assert(json.Unmarshal(enc(doc), &j) == nil && sameSpec(j, want) && eqJSON(plainJSON(s.Extra), plainJSON(j.Extra)), "YAML and JSON give the same specification")
	yamlCopy(s, &c)
	nd.Assert(sameSpec(c, want), "a specification survives being written")
	nd.Assert(eqJSON(plainJSON(c.Extra), plainJSON(s.Extra)), "the extra claims survive being written")
	nd.Cover("spec")
}

func nilIfEmpty(o obj) any {
	if len(o) == 0 {
		return nil
	}
	return o
}

// H_P30_shadow: extra claims never alter those that are registered.
func H_P30_shadow() {
	_, s := spec("spec")
	reg := []string{"trust_mark_type", "lifetime", "ref", "logo_uri", "include_extra_claims_in_info", "delegation_jwt"}
	v := []any{nd.Str("value"), 7, nil, true}[nd.Choice("value", 4)]
	s.Extra = map[string]any{reg[nd.Choice("claim", 6)]: v, "extra": "x"}
	var c oidfed.TrustMarkSpec
	yamlCopy(s, &c)
	nd.Assert(sameSpec(c, s), "extra claims do not alter registered ones")
	nd.Assert(len(c.Extra) == 1 && c.Extra["extra"] == "x", "other extra claims survive")
	nd.Cover("shadow")
}

// H_P30_config: the configuration of trust marks.
func H_P30_config() {
	doc := obj{}
	var w struct {
		typ, iss, jwt string
		self, refresh bool
		min, grace    int64
	}
	if nd.Flag("texts") {
		w.typ, w.iss, w.jwt = nd.Str("type"), nd.Str("issuer"), nd.Str("jwt")
		doc["trust_mark_type"], doc["trust_mark_issuer"], doc["trust_mark_jwt"] = w.typ, w.iss, w.jwt
	}
	if nd.Flag("flags") {
		w.self, w.refresh = nd.Flag("self issued"), nd.Flag("refresh")
		doc["self_issued"], doc["refresh"] = w.self, w.refresh
	}
	if nd.Flag("durations") {
		w.min, w.grace = nd.Int("min lifetime", 0, 1<<31), nd.Int("grace period", 0, 1<<31)
		doc["min_lifetime"], doc["refresh_grace_period"] = w.min, w.grace
		w.min, w.grace = w.min*1e9, w.grace*1e9
		if nd.Flag("fraction") {
			w.min, w.grace = 1500000000, 250000000
			doc["min_lifetime"], doc["refresh_grace_period"] = 1.5, 0.25
		}
	}
	var ws oidfed.TrustMarkSpec
	extra := false
	if nd.Flag("spec") {
		var d obj
		d, ws = spec("self issuance")
		if extra = nd.Flag("extra"); extra {
			d["extra"] = "x"
		}
		doc["self_issuance_spec"] = d
	}
	same := func(c *oidfed.EntityConfigurationTrustMarkConfig) {
		nd.Assert(nd.And(c.TrustMarkType == w.typ, c.TrustMarkIssuer == w.iss, c.JWT == w.jwt, c.SelfIssued == w.self, c.Refresh == w.refresh), "the configuration is the one given")
		nd.Assert(nd.And(int64(c.MinLifetime.Duration) == w.min, int64(c.RefreshGracePeriod.Duration) == w.grace), "the durations are those given")
		nd.Assert(sameSpec(c.SelfIssuanceSpec, ws), "the specification is the one given")
		if extra {
			nd.Assert(len(c.SelfIssuanceSpec.Extra) == 1 && c.SelfIssuanceSpec.Extra["extra"] == "x", "the extra claim is given")
		} else {
			nd.Assert(len(c.SelfIssuanceSpec.Extra) == 0, "there is no extra claim")
		}
	}
	var a, b oidfed.EntityConfigurationTrustMarkConfig
	nd.Assert(yaml.Unmarshal(enc(doc), &a) == nil, "a configuration can be read")
	same(&a)
	yamlCopy(&a, &b)
	same(&b)
	nd.Cover("config")
}

// H_P30_anchors: trust anchors and trust mark owners, with keys.
func H_P30_anchors() {
	n := nd.Choice("anchors", 3)
	docs, ods := arr{}, arr{}
	var ids []string
	var keys [][]int64
	for i := int64(0); i < int64(n); i++ {
		id := nd.Str("id")
		ids = append(ids, id)
		d, o := obj{"entity_id": id}, obj{"entity_id": id}
		switch nd.Choice("keys", 4) {
		case 0:
			keys = append(keys, nil)
		case 1:
			d["jwks"], o["jwks"] = nil, nil
			keys = append(keys, nil)
		case 2:
			d["jwks"], o["jwks"] = nd.KeySet(i+1), nd.KeySet(i+1)
			keys = append(keys, []int64{i + 1})
		case 3:
			d["jwks"], o["jwks"] = nd.KeySet(i+1, 3), nd.KeySet(i+1, 3)
			keys = append(keys, []int64{i + 1, 3})
		}
		docs, ods = append(docs, d), append(ods, o)
	}
	if nd.Flag("anchors") {
		var a, b oidfed.TrustAnchors
		nd.Assert(yaml.Unmarshal(enc(docs), &a) == nil, "trust anchors can be read")
		yamlCopy(a, &b)
		for _, t := range []oidfed.TrustAnchors{a, b} {
			nd.Assert(len(t) == len(ids), "all trust anchors are given")
			for i, x := range t {
				nd.Assert(x.EntityID == ids[i] && nd.HasKeys(x.JWKS, keys[i]...), "a trust anchor has its identifier and keys")
			}
		}
		nd.Cover("anchors")
		return
	}
	var a, b []oidfed.TrustMarkOwnerSpec
	nd.Assert(yaml.Unmarshal(enc(ods), &a) == nil, "trust mark owners can be read")
	yamlCopy(a, &b)
	for _, t := range [][]oidfed.TrustMarkOwnerSpec{a, b} {
		nd.Assert(len(t) == len(ids), "all owners are given")
		for i, x := range t {
			nd.Assert(x.ID == ids[i] && nd.HasKeys(x.JWKS, keys[i]...), "an owner has its identifier and keys")
		}
	}
	nd.Cover("owners")
}

// H_P30_lists: single values and lists.
func H_P30_lists() {
	var doc any
	var want []string
	switch n := nd.Choice("values", nd.Bound("values+2", 4, 6)); n {
	case 0:
		doc = nil
	case 1:
		want = []string{nd.Str("value")}
		doc = want[0]
	default:
		l := arr{}
		for i := 2; i < n; i++ {
			s := nd.Str("value")
			want, l = append(want, s), append(l, s)
		}
		doc = l
	}
	var a, b struct {
		V oidfed.SliceOrSingleValue[string] `yaml:"v"`
		W string                            `yaml:"w"`
	}
	nd.Assert(yaml.Unmarshal(enc(obj{"v": doc, "w": "x"}), &a) == nil && a.W == "x", "a value or list can be read")
	yamlCopy(a, &b)
	for _, v := range []oidfed.SliceOrSingleValue[string]{a.V, b.V} {
		nd.Assert(len(v) == len(want), "all values are given")
		for i := range want {
			nd.Assert(v[i] == want[i], "the values are those given")
		}
	}
	if len(want) == 1 {
		var s struct{ V string }
		yamlCopy(a, &s)
		nd.Assert(s.V == want[0], "a single value is written as such")
		nd.Cover("single")
	}
	var x, y struct {
		V oidfed.SliceOrSingleValue[int64] `yaml:"v"`
	}
	n := nd.Int("number", -9, 9)
	doc = n
	if nd.Flag("list of numbers") {
		doc = arr{n, 5}
	}
	nd.Assert(yaml.Unmarshal(enc(obj{"v": doc}), &x) == nil, "a number or list can be read")
	yamlCopy(x, &y)
	for _, v := range []oidfed.SliceOrSingleValue[int64]{x.V, y.V} {
		nd.Assert(len(v) >= 1 && v[0] == n && (len(v) == 1 || v[1] == 5), "the numbers are those given")
	}
	nd.Assert(yaml.Unmarshal(enc(obj{"v": obj{"a": 1}}), &x) != nil, "an object is no value")
	nd.Cover("lists")
}
