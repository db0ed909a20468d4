package zzverif

import (
	"encoding/json"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// eqJSON compares decoded JSON values.
func eqJSON(a, b any) bool {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !eqJSON(v, w) {
				return false
			}
		}
		return true
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !eqJSON(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	switch b.(type) {
	case map[string]any, []any:
		return false
	}
	return a == b
}

func decoded(v any) map[string]any {
	var out map[string]any
	if err := json.Unmarshal(enc(v), &out); err != nil {
		panic(err)
	}
	return out
}

// the parameters present in the documents of P11; word stands for an arbitrary string
var frame = map[string][]string{
	"openid_provider":            {"issuer", "grant_types_supported", "jwks_uri", "custom", "registration_endpoint", "request_parameter_supported"},
	"openid_relying_party":       {"redirect_uris", "client_name", "default_max_age", "custom", "scope"},
	"oauth_authorization_server": {"token_endpoint", "contacts"},
	"oauth_client":               {"redirect_uris", "client_name", "logo_uri"},
	"oauth_resource":             {"resource", "scopes_supported"},
	"federation_entity":          {"federation_fetch_endpoint", "contacts", "organization_name"},
	"custom_entity":              {"custom", "things"},
	"other_entity":               {"custom"},
}

var frameTypes = []string{
	"openid_provider", "openid_relying_party", "custom_entity", "federation_entity",
	"oauth_client", "oauth_resource", "oauth_authorization_server", "other_entity",
}

func frameValue(name, word string) any {
	switch name {
	case "grant_types_supported", "redirect_uris", "contacts", "scopes_supported", "things":
		return []string{word, "fix"}
	case "request_parameter_supported":
		return true
	case "default_max_age":
		return 3600
	case "custom":
		return obj{"deep": []any{word, 1, nil, true, obj{"x": word}}}
	}
	return word
}

// H_P11_frame: a document with any subset of some entity types; one or two
// policies for parameters of present or absent entity types.
func H_P11_frame() {
	n := nd.Bound("entity types", 4, 6)
	off := int64(nd.Choice("first entity type", nd.Pick(3, 3)))
	doc := obj{}
	for i := int64(0); i < n; i++ {
		et := frameTypes[(i+off*2)%int64(len(frameTypes))]
		if !nd.Flag(et) {
			continue
		}
		o := obj{}
		w := nd.Str(et)
		for _, name := range frame[et] {
			o[name] = frameValue(name, w)
		}
		doc[et] = o
	}
	var m oidfed.Metadata
	if err := json.Unmarshal(enc(doc), &m); err != nil {
		panic(err)
	}
	before := decoded(&m)
	named := map[string]map[string]pol{}
	c := chainOf(3 + nd.Choice("length", 2))
	c[0].Metadata = &m
	if nd.Flag("other claims of the subject") {
		c[0].Extra = map[string]any{"policy": 1}
	}
	for i := int64(0); i < nd.Bound("policies", 1, 2); i++ {
		et := frameTypes[(int64(nd.Choice("policy for type", n+1))+off*2)%int64(len(frameTypes))]
		names := append(append([]string{}, frame[et]...), "absent")
		name := names[nd.Choice("policy for parameter", int64(len(names)))]
		if named[et] == nil {
			named[et] = map[string]pol{}
		}
		p := pol{}
		switch frameValue(name, "").(type) {
		case string:
			switch nd.Choice("operator", 3) {
			case 0:
				p["value"] = nd.Str("operand")
			case 1:
				p["value"] = nil
			case 2:
				p["default"] = nd.Str("operand")
			}
		case []string:
			p[[]string{"add", "subset_of", "value"}[nd.Choice("operator", 3)]] = []string{nd.Str("operand")}
		case bool:
			p["value"] = false
		case int:
			p["value"] = 7
		default:
			p["value"] = []string{"replaced"}
		}
		named[et][name] = p
		pols := &oidfed.MetadataPolicies{}
		if err := json.Unmarshal(enc(obj{et: obj{name: map[string]any(p)}}), pols); err != nil {
			panic(err)
		}
		s := c[1+nd.Choice("policy at", int64(len(c)-2))]
		if s.MetadataPolicy != nil {
			nd.Stop()
		}
		s.MetadataPolicy = pols
	}
	got, err := c.Metadata()
	nd.Assert(err == nil && got != nil, "the metadata can be resolved")
	after := decoded(got)
	for et := range after {
		nd.Assert(before[et] != nil, "no metadata is created for absent entity types")
	}
	for et, v := range before {
		w, ok := after[et].(map[string]any)
		nd.Assert(ok, "no entity type is lost")
		o := v.(map[string]any)
		for name, x := range o {
			if named[et][name] == nil {
				y, ok := w[name]
				nd.Assert(ok && eqJSON(x, y), "a parameter without policy is unchanged")
			}
		}
		for name := range w {
			_, ok := o[name]
			nd.Assert(ok || named[et][name] != nil, "no parameter without policy is created")
		}
		for name, p := range named[et] {
			nd.Cover("policy applied")
			x, set := o[name]
			res, _ := p.apply(pv{set, plain(x)})
			y, ok := w[name]
			if res.v == false && !ok {
				y, ok = false, true // false is the default
			}
			if !res.set && ok && (y == "" || y == nil) {
				ok = false // required parameters are always serialized
			}
			nd.Assert(agrees(plain(y), ok, res), "the named parameter has the specified value")
		}
	}
}
