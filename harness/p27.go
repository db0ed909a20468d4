package zzverif

import (
	"encoding/json"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// H_P27_find: any type is looked up in metadata with any types.
func H_P27_find() {
	here := mdTypes[nd.Choice("type", int64(len(mdTypes)))]
	other := mdTypes[nd.Choice("other type", int64(len(mdTypes)))].name
	value := nd.Str("value")
	content := obj{"organization_name": value, "contacts": arr{nd.Str("contact"), "c"}, "unknown": obj{"a": nd.Str("unknown")}}
	if nd.Flag("no claims") {
		content = obj{}
	}
	doc := obj{}
	if other != here.name {
		doc[other] = obj{"organization_name": "of the other type"}
	}
	doc[here.name] = content
	extra := ""
	if nd.Flag("one more") {
		extra = "x_" + nd.Str("one more")
		doc[extra] = obj{"organization_name": "of one more"}
	}
	var m oidfed.Metadata
	nd.Assert(json.Unmarshal(enc(doc), &m) == nil, "metadata is parsed")
	name, want := here.name, any(content)
	switch nd.Choice("lookup", 4) {
	case 1: // anything else
		name = "x_" + nd.Str("something")
		if nd.And(name == extra, extra != "") {
			want = doc[extra]
		} else {
			want = nil
		}
	case 2: // removed again
		delete(doc, here.name)
		m = oidfed.Metadata{}
		nd.Assert(json.Unmarshal(enc(doc), &m) == nil, "metadata is parsed")
		want = nil
	case 3:
		name = []string{"Extra", "-", "", "OpenIDProvider", "openid_provider,omitempty"}[nd.Choice("odd name", 5)]
		want = nil
	}
	before := enc(m)
	out := here.mk()
	var err error
	var got []byte
	switch nd.Choice("into", 3) {
	case 0:
		err = m.FindEntityMetadata(name, out)
		got = enc(out)
	case 1:
		o := map[string]any{}
		err = m.FindEntityMetadata(name, &o)
		got = enc(o)
	case 2:
		o := struct {
			Name string `json:"organization_name"`
		}{"-"}
		err = m.FindEntityMetadata(name, &o)
		nd.Assert(nd.Iff(err == nil, want != nil), "a type is found exactly if it is there")
		if want != nil {
			w := "-"
			if s, ok := want.(obj)["organization_name"]; ok {
				w = s.(string)
			}
			nd.Assert(o.Name == w, "the claims of the type are given")
		}
		return
	}
	nd.Assert(nd.Iff(err == nil, want != nil), "a type is found exactly if it is there")
	if want != nil {
		g := map[string]any{}
		nd.Assert(json.Unmarshal(got, &g) == nil, "all claims of the type are given")
		w := want.(obj)
		for c, v := range g {
			if _, ok := w[c]; !ok && (v == nil || v == "") {
				delete(g, c) // required ones are always written
			}
		}
		nd.Assert(sameJSON(enc(g), enc(w)), "all claims of the type are given")
		nd.Cover("found")
	} else {
		nd.Cover("not found")
	}
	nd.Assert(sameJSON(before, enc(m)), "the metadata is left as it was")
}

// H_P27_types: the types, names and claims of any metadata.
func H_P27_types() {
	doc := obj{}
	names, tags, values := map[string]string{}, map[string]string{}, map[string][]string{}
	fallback := map[string]string{"openid_provider": "organization_name", "openid_relying_party": "client_name",
		"oauth_authorization_server": "organization_name", "oauth_client": "client_name", "oauth_resource": "resource_name",
		"federation_entity": "organization_name"}
	mark := mdTypes[nd.Choice("type", int64(len(mdTypes)))].name
	var types []string
	query := nd.Choice("query", 4)
	for i, t := range mdTypes {
		o := obj{"jwks_uri": "https://x.example"}
		if t.name == mark {
			if query == 1 && nd.Flag("display name") {
				o["display_name"] = nd.Str("display name")
				names[t.name] = o["display_name"].(string)
			}
			for _, c := range []string{"organization_name", "client_name", "resource_name"} {
				if query == 1 && nd.Flag(c) {
					o[c] = nd.Str(c)
					if names[t.name] == "" && fallback[t.name] == c {
						names[t.name] = o[c].(string)
					}
				}
			}
			if query == 2 && nd.Flag("policy uri") {
				o["policy_uri"] = nd.Str("policy uri")
				tags[t.name] = o["policy_uri"].(string)
			}
			if n := nd.Choice("keywords", 3); query == 3 && n > 0 {
				l := arr{}
				for ; n > 0; n-- {
					k := nd.Str("keyword")
					l = append(l, k)
					values[t.name] = append(values[t.name], k)
				}
				o["keywords"] = l
			}
		} else if i%3 != 0 && !nd.Thorough() || !nd.Flag(t.name) {
			continue
		} else {
			o["policy_uri"], tags[t.name] = "p", "p"
		}
		doc[t.name] = o
		types = append(types, t.name)
	}
	if nd.Flag("one more") {
		t := []string{"a", "x"}[nd.Choice("one more", 2)]
		doc[t] = obj{"policy_uri": "x"}
		types = append(types, t)
	}
	var m oidfed.Metadata
	nd.Assert(json.Unmarshal(enc(doc), &m) == nil, "metadata is parsed")
	before := enc(m)
	switch query {
	case 0:
		nd.MapOrder(true)
		got := m.GuessEntityTypes()
		nd.Assert(len(got) == len(types), "the types are exactly those present")
		for _, t := range types {
			nd.Assert(has(got, t), "the types are exactly those present")
		}
		nd.Assert(nd.DeepEq(got, m.GuessEntityTypes()), "the types are the same every time")
		nd.MapOrder(false)
		nd.Cover("types")
	case 1:
		got := m.GuessDisplayNames()
		delete(names, "other_type") // not known to the library
		for _, t := range mdTypes {
			nd.Assert(got[t.name] == names[t.name], "the display name is that of the type")
			if _, ok := doc[t.name]; !ok {
				_, ok = got[t.name]
				nd.Assert(!ok, "only types present have names")
			}
		}
		nd.Cover("names")
	case 2:
		got := map[string]string{}
		m.IterateStringClaim("policy_uri", func(t, v string) {
			_, ok := got[t]
			nd.Assert(!ok, "every type is given once")
			got[t] = v
		})
		delete(tags, "other_type") // not known to the library
		nd.Assert(len(got) == len(tags) && nd.DeepEq(got, tags), "the claim is given for exactly the types that have it")
		nd.Cover("claim")
	case 3:
		got := map[string][]string{}
		m.IterateStringSliceClaim("keywords", func(t string, v []string) {
			_, ok := got[t]
			nd.Assert(!ok, "every type is given once")
			got[t] = v
		})
		delete(values, "other_type")
		nd.Assert(len(got) == len(values) && nd.DeepEq(got, values), "the claim is given for exactly the types that have it")
		nd.Cover("list claim")
	}
	nd.Assert(sameJSON(before, enc(m)), "the metadata is left as it was")
}
