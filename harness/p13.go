package zzverif

import (
	"encoding/json"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// anyJSON makes a JSON value of any shape; strings are arbitrary words.
func anyJSON(l string, shapes int64) any {
	switch nd.Choice(l+" shape", shapes) {
	case 0:
		return nil
	case 1:
		return nd.Str(l)
	case 2:
		return []any{}
	case 3:
		return []any{nd.Str(l), "b"}
	case 4:
		return 1
	case 5:
		return []any{1, nd.Str(l), nil, []any{"x"}, obj{"k": nil}}
	case 6:
		return obj{"k": nd.Str(l)}
	case 7:
		return true
	case 8:
		return []any{obj{"k": "v"}}
	case 9:
		return 1.5
	case 10:
		return []any{[]any{}, true}
	}
	return obj{"kty": "EC", "keys": []any{}}
}

// untrusted parameters by their type in the library
var wild = []param{
	{"openid_provider", "grant_types_supported"},
	{"openid_provider", "issuer"},
	{"openid_provider", "request_parameter_supported"},
	{"openid_relying_party", "default_max_age"},
	{"openid_relying_party", "scope"},
	{"openid_relying_party", "jwks"},
	{"openid_relying_party", "custom"},
	{"custom_entity", "custom"},
	{"federation_entity", "contacts"},
	{"openid_provider", "claims_parameter_supported"},
	{"openid_relying_party", "extra object"},
	{"oauth_client", "redirect_uris"},
	{"oauth_authorization_server", "require_request_uri_registration"},
	{"oauth_resource", "resource"},
}

func wildMeta(q param, l string, shapes int64) *oidfed.Metadata {
	o := obj{}
	if nd.Flag(l + " set") {
		o[q.name] = anyJSON(l, shapes)
	}
	var doc any = obj{q.et: o}
	if q.et == "custom_entity" && nd.Flag("no object") {
		doc = obj{q.et: anyJSON("entity", 4)}
	}
	var m oidfed.Metadata
	if json.Unmarshal(enc(doc), &m) != nil {
		nd.Stop()
	}
	return &m
}

func wildPolicy(q param, p map[string]any) *oidfed.MetadataPolicies {
	var m oidfed.MetadataPolicies
	if json.Unmarshal(enc(obj{q.et: obj{q.name: p}}), &m) != nil {
		nd.Stop()
	}
	return &m
}

func survives(c oidfed.TrustChain) {
	m, err := c.Metadata()
	nd.Assert((err == nil) == (m != nil), "metadata or an error")
	if err != nil {
		nd.Cover("error")
		return
	}
	nd.Cover("metadata")
	_, err = json.Marshal(m)
	nd.Assert(err == nil, "the metadata can be serialized")
}

var wildOps = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential", "unknown"}

// H_P13_entry: up to two operators with operands of any shape.
func H_P13_entry() {
	q := wild[nd.Choice("param", nd.Bound("kinds of parameters", 9, 14))]
	shapes := nd.Bound("shapes of operands", 6, 9)
	p := map[string]any{}
	i := nd.Choice("operator", 8)
	p[wildOps[i]] = anyJSON("operand", shapes)
	if j := i + nd.Choice("second operator", int64(8-i)); j > i {
		p[wildOps[j]] = anyJSON("second", nd.Pick(4, 6))
		if wildOps[j] == "essential" && nd.Flag("essential") {
			p[wildOps[j]] = true
		}
	}
	c := chainOf(3)
	c[0].Metadata = wildMeta(q, "value", nd.Pick(4, 6))
	c[1].MetadataPolicy = wildPolicy(q, p)
	survives(c)
}

// H_P13_shape: one operator with an operand of any shape on a value of any shape.
func H_P13_shape() {
	q := wild[nd.Choice("param", 14)]
	p := map[string]any{wildOps[nd.Choice("operator", 8)]: anyJSON("operand", 12)}
	if nd.Flag("essential") {
		p["essential"] = true
	}
	c := chainOf(3)
	c[0].Metadata = wildMeta(q, "value", nd.Pick(7, 12))
	c[1].MetadataPolicy = wildPolicy(q, p)
	survives(c)
}

// H_P13_merge: the same or different operators from two superiors.
func H_P13_merge() {
	q := wild[nd.Choice("param", nd.Pick(2, 9))]
	i := nd.Choice("operator", 8)
	j := i
	if nd.Flag("different operators") {
		j = nd.Choice("other operator", 8)
	}
	shapes := nd.Bound("shapes of merged operands", 9, 12)
	c := chainOf(4)
	c[0].Metadata = wildMeta(q, "value", 2)
	c[1].MetadataPolicy = wildPolicy(q, map[string]any{wildOps[i]: anyJSON("operand", shapes)})
	c[2].MetadataPolicy = wildPolicy(q, map[string]any{wildOps[j]: anyJSON("other operand", shapes)})
	survives(c)
}

// H_P13_document: metadata policy documents of any shape.
func H_P13_document() {
	et := []string{"openid_provider", "oauth_client", "custom_entity", "oauth_resource"}[nd.Choice("type", 4)]
	var doc any
	switch nd.Choice("depth", 4) {
	case 0:
		doc = anyJSON("doc", 12)
	case 1:
		doc = obj{et: anyJSON("doc", 12)}
	case 2:
		doc = obj{et: obj{"contacts": anyJSON("doc", 12)}}
	case 3:
		doc = obj{et: obj{"contacts": obj{"value": anyJSON("doc", 12), nd.Str("operator"): anyJSON("operand", 4)}}}
	}
	var mp oidfed.MetadataPolicies
	if json.Unmarshal(enc(doc), &mp) != nil {
		nd.Cover("not parsed")
		return
	}
	var m oidfed.Metadata
	if json.Unmarshal(enc(obj{et: anyJSON("metadata", 7)}), &m) != nil {
		nd.Stop()
	}
	c := chainOf(3)
	if nd.Flag("metadata") {
		c[0].Metadata = &m
	}
	c[1].MetadataPolicy = &mp
	survives(c)
}
