package zzverif

import (
	"strconv"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// kinds of federation members
const (
	authority = iota // member kinds
	listingFails
	leafEntity
	absent
	broken
	bare // no metadata
	nMembers
)

// member is an entity of a federation to be collected.
type member struct {
	id     string
	kind   int
	fault  int
	listed []int
}

// lists tells which members the listing of m names, if it has one.
func (m *member) lists() []int {
	if m.kind == authority {
		return m.listed
	}
	return nil
}

// members serves a federation.
func members(ms []*member) {
	now := nd.Now()
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		for i, m := range ms {
			o := obj{"iss": m.id, "sub": m.id, "iat": now, "exp": now + 90*day, "jwks": nd.KeySet(1)}
			if url == m.id+suffix {
				switch m.kind {
				case authority, listingFails:
					o["metadata"] = obj{"federation_entity": obj{"federation_list_endpoint": m.id + "/list", "organization_name": m.id}}
				case leafEntity:
					o["metadata"] = obj{"openid_provider": obj{"issuer": m.id}}
				case absent:
					return 0, false, nil
				case broken:
					return 200, false, []byte("garbage")
				}
				return 200, false, nd.Sign(enc(o), typES, int64(i+1))
			}
			if url == m.id+"/list" && len(params) == 0 {
				if m.kind == listingFails {
					switch m.fault {
					case 0:
						return 0, false, nil
					case 1:
						return 500, false, []byte("<html>oops</html>")
					case 2:
						return 404, true, []byte(`{"error":"not_found"}`)
					case 3:
						return 200, true, []byte(`[1,2`)
					case 4:
						return 503, true, []byte(`{}`)
					}
					return 200, false, []byte("<html>down for maintenance</html>")
				}
				l := arr{}
				for _, j := range m.listed {
					if j < len(ms) {
						l = append(l, ms[j].id)
					} else {
						l = append(l, "https://unknown.example")
					}
				}
				return 200, true, enc(l)
			}
		}
		return 404, true, []byte(`{"error":"not_found"}`)
	})
}

// collected are the members that must be collected below the first one.
func collected(ms []*member, want func(*member) bool) map[string]bool {
	out, visited := map[string]bool{}, map[int]bool{0: true}
	for todo := []int{0}; len(todo) > 0; todo = todo[1:] {
		for _, j := range ms[todo[0]].lists() {
			if j >= len(ms) || ms[j].kind >= absent {
				continue
			}
			if want(ms[j]) {
				out[ms[j].id] = true
			}
			if !visited[j] {
				visited[j] = true
				todo = append(todo, j)
			}
		}
	}
	return out
}

// compare compares a collection with the members to be collected.
func compare(got []*oidfed.CollectedEntity, want map[string]bool) {
	seen := map[string]bool{}
	for _, e := range got {
		nd.Assert(e != nil && want[e.EntityID], "only listed, reachable and matching entities are collected")
		nd.Assert(!seen[e.EntityID], "every entity is collected once")
		seen[e.EntityID] = true
	}
	nd.Assert(len(got) == len(want), "every listed, reachable and matching entity is collected")
}

func listing(l string, n int) (s []int) {
	for i := 0; i < n; i++ {
		if nd.Flag(l) {
			s = append(s, i)
		}
	}
	return
}

// H_P24_graph: arbitrary federations with faults that disappear.
func H_P24_graph() {
	ids := []string{eT, eA, eB, eL}[:nd.Bound("entities", 3, 4)]
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	match := func(m *member) bool { return true }
	switch nd.Choice("requested types", nd.Bound("type filters", 2, 3)) {
	case 1:
		req.EntityTypes = []string{"openid_provider"}
		match = func(m *member) bool { return m.kind == leafEntity }
	case 2:
		req.EntityTypes = []string{"x", "federation_entity"}
		match = func(m *member) bool { return m.kind == authority || m.kind == listingFails }
	}
	var ms []*member
	faults, fault := false, -1
	for _, id := range ids {
		m := &member{id: id, kind: nd.Choice(id+" kind", nMembers)}
		switch m.kind {
		case authority:
			m.listed = listing(id+" lists", len(ids))
			if id == eT && len(req.EntityTypes) == 1 {
				switch nd.Choice("odd listing", 3) {
				case 1: // something unknown first
					m.listed = append([]int{len(ids)}, m.listed...)
				case 2: // everything twice
					m.listed = append(m.listed, m.listed...)
				}
			}
		case listingFails:
			if fault < 0 {
				fault = nd.Choice("fault", 6)
			}
			m.fault = fault
			m.listed = []int{len(ids) - 1, 0}
			faults = true
		case absent, broken:
			faults = true
		}
		ms = append(ms, m)
	}
	members(ms)
	c := &oidfed.SimpleEntityCollector{}
	first := collected(ms, match)
	got := c.CollectEntities(req)
	compare(got, first)
	if len(first) > 1 {
		nd.Cover("several")
	}
	if len(first) == 0 {
		nd.Cover("none")
	}
	if !faults {
		return
	}
	// the faults are over
	for _, m := range ms {
		switch m.kind {
		case listingFails:
			m.kind = authority
		case absent, broken:
			m.kind = leafEntity
		}
	}
	nd.Advance(nd.Int("elapsed", 0, day))
	compare(c.CollectEntities(req), collected(ms, match))
	nd.Cover("recovered")
}

// H_P24_interleavings: the workers of a collection run in any order.
func H_P24_interleavings() {
	nd.Races(true)
	nd.Schedules(nd.Bound("context switches", 1, 2))
	ms := []*member{{id: eT, listed: []int{1, 2}}, {id: eA, listed: []int{2, 0}}, {id: eB, listed: []int{1}}}
	switch nd.Choice("shape", 3) {
	case 1:
		ms[2].kind = leafEntity
	case 2:
		ms[1].kind = absent
	}
	members(ms)
	want := collected(ms, func(*member) bool { return true })
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	c := &oidfed.SimpleEntityCollector{}
	if nd.Flag("two collections at once") {
		done := make(chan []*oidfed.CollectedEntity)
		for i := 0; i < 2; i++ {
			go func() { done <- c.CollectEntities(req) }()
		}
		compare(<-done, want)
		compare(<-done, want)
		nd.Cover("two")
		return
	}
	compare(c.CollectEntities(req), want)
	nd.Cover("one")
}

// uiClaims are the display claims of the metadata of an entity.
var uiClaims = []string{"display_name", "description", "logo_uri", "policy_uri", "information_uri"}

// H_P24_match: one entity with arbitrary metadata and trust marks.
func H_P24_match() {
	now := nd.Now()
	md, types := obj{}, []string{}
	want := map[string]map[string]any{} // display information per entity type
	about := nd.Flag("about metadata")
	for _, t := range []string{"openid_provider", "federation_entity"} {
		if about && !nd.Flag(t) {
			continue
		}
		o, ui := obj{}, map[string]any{}
		if t == "openid_provider" {
			o["issuer"] = eA
		}
		if about && nd.Flag(t+" display claims") {
			for _, c := range uiClaims {
				v := nd.Str(c)
				o[c], ui[c] = v, v
			}
			v := []string{nd.Str("keyword"), nd.Str("keyword")}
			o["keywords"], ui["keywords"] = v, plainJSON(v)
		} else if about && nd.Flag(t+" organization name") {
			o["organization_name"] = nd.Str("organization")
			ui["display_name"] = o["organization_name"]
		}
		md[t] = o
		types = append(types, t)
		if len(ui) > 0 {
			want[t] = ui
		}
	}
	if nd.Flag("other type") {
		t := "x_" + nd.Str("other type")
		md[t] = obj{"display_name": "x"}
		types = append(types, t)
	}
	cfg := obj{"iss": eA, "sub": eA, "iat": now, "exp": now + day, "jwks": nd.KeySet(2), "metadata": md}
	marked := map[string]bool{}
	marks := arr{}
	n := 0
	if !about {
		n = nd.Choice("trust marks", nd.Bound("trust marks+1", 3, 4))
	}
	for ; n > 0; n-- {
		t := []string{"t1", "t2"}[nd.Choice("mark type", 2)]
		o := obj{"iss": eT, "sub": eA, "trust_mark_type": t, "iat": now}
		ok := true
		key := int64(1)
		switch nd.Choice("mark", 4) {
		case 1:
			o["sub"], ok = eB, false
		case 2:
			key, ok = 3, false
		case 3:
			left := nd.Int("mark expires", -9, 9)
			o["exp"], ok = now+left, left >= 0
		}
		marks = append(marks, obj{"trust_mark_type": t, "trust_mark": string(nd.Sign(enc(o), typTM, key))})
		marked[t] = marked[t] || ok
	}
	if len(marks) > 0 {
		cfg["trust_marks"] = marks
	}
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		switch url {
		case eT + suffix:
			return 200, false, nd.Sign(enc(obj{"iss": eT, "sub": eT, "iat": now, "exp": now + day, "jwks": nd.KeySet(1),
				"metadata": obj{"federation_entity": obj{"federation_list_endpoint": eT + "/list"}}}), typES, 1)
		case eA + suffix:
			return 200, false, nd.Sign(enc(cfg), typES, 2)
		case eT + "/list":
			return 200, true, enc(arr{eA})
		}
		return 404, true, []byte(`{"error":"not_found"}`)
	})
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	match := true
	if nd.Flag("type requested") {
		t := []string{"openid_provider", "x_" + nd.Str("requested type")}[nd.Choice("requested type", 2)]
		req.EntityTypes = []string{t}
		if nd.Flag("two types requested") {
			req.EntityTypes = []string{"federation_entity", t}
		}
		match = false
		for _, t := range req.EntityTypes {
			for _, u := range types {
				match = nd.Or(match, t == u)
			}
		}
	}
	k := 0
	if !about {
		k = nd.Choice("trust marks requested", 3)
	}
	switch k {
	case 1:
		req.TrustMarkTypes = []string{"t1"}
		match = nd.And(match, marked["t1"])
	case 2:
		req.TrustMarkTypes = []string{"t1", "t2"}
		match = nd.And(match, marked["t1"], marked["t2"])
	}
	k = 0
	if about {
		k = nd.Choice("claims requested", 4)
	}
	switch k {
	case 1:
		req.Claims = []string{"entity_types"}
	case 2:
		req.Claims = []string{"display_name", "keywords"}
	case 3:
		req.Claims = []string{"logo_uri", "policy_uri"}
	}
	requested := func(c string) bool { return req.Claims == nil || has(req.Claims, c) }
	got := (&oidfed.SimpleEntityCollector{}).CollectEntities(req)
	nd.Assert(nd.Iff(len(got) == 1, match) && len(got) <= 1, "an entity is collected exactly if it has a requested type and all requested trust marks")
	if len(got) == 0 {
		nd.Cover("not collected")
		return
	}
	e := got[0]
	nd.Assert(e.EntityID == eA, "the entity is collected")
	if requested("entity_types") {
		nd.Assert(len(e.EntityTypes) == len(types), "all entity types are given")
		for _, t := range types {
			nd.Assert(has(e.EntityTypes, t), "all entity types are given")
		}
	} else {
		nd.Assert(len(e.EntityTypes) == 0, "only requested claims are given")
	}
	n = 0
	for t, ui := range want {
		m := obj{}
		for c, v := range ui {
			if requested(c) {
				m[c] = v
			}
		}
		if len(m) == 0 {
			continue
		}
		n++
		info, ok := e.UIInfos[t]
		nd.Assert(ok && eqJSON(plainJSON(info), any(map[string]any(m))), "the requested display information is given")
		nd.Assert(len(info.Extra) == 0, "display information is given in the fields meant for it")
		nd.Cover("display information")
	}
	nd.Assert(len(e.UIInfos) == n, "no other display information is given")
}

// H_P24_resolved: trust marks and trust chains of collected entities.
func H_P24_resolved() {
	now := nd.Now()
	skey := nd.Int("key of statement", 1, 2)
	left := nd.Int("statement expires", -5, 5)
	valid := nd.And(skey == 1, left >= 0)
	marks := arr{}
	good := []bool{}
	for n := nd.Choice("trust marks", nd.Bound("trust marks+1", 3, 4)); n > 0; n-- {
		left, key := nd.Int("mark expires", -9, 9), nd.Int("mark key", 1, 2)
		sub := []string{eA, eB}[nd.Choice("mark subject", 2)]
		marks = append(marks, obj{"trust_mark_type": "t", "trust_mark": string(nd.Sign(enc(obj{"iss": eT, "sub": sub, "trust_mark_type": "t",
			"iat": now, "exp": now + left, "ref": nd.Str("ref")}), typTM, key))})
		good = append(good, nd.And(left >= 0, key == 1, sub == eA))
	}
	cfgA := obj{"iss": eA, "sub": eA, "iat": now, "exp": now + day, "jwks": nd.KeySet(2), "authority_hints": arr{eT},
		"metadata": obj{"openid_provider": obj{"issuer": eA}}}
	if len(marks) > 0 {
		cfgA["trust_marks"] = marks
	}
	var tokens [][]byte
	w := newWeb()
	w.cfg[eT] = func() []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eT, "iat": now, "exp": now + day, "jwks": nd.KeySet(1),
			"metadata": obj{"federation_entity": obj{"federation_list_endpoint": eT + "/list", "federation_fetch_endpoint": eT + "/fetch"}}}), typES, 1)
	}
	w.cfg[eA] = func() []byte { return nd.Sign(enc(cfgA), typES, 2) }
	w.sub[eT] = func(string) []byte {
		return nd.Sign(enc(obj{"iss": eT, "sub": eA, "iat": now - 9, "exp": now + left, "jwks": nd.KeySet(2)}), typES, skey)
	}
	w.other[eT+"/list"] = func(map[string][]string) (int, bool, []byte) { return 200, true, enc(arr{eA}) }
	w.start()
	for _, k := range []string{eA + suffix, eT + "/fetch " + eA, eT + suffix} {
		var b []byte
		switch k {
		case eA + suffix:
			_, _, b = w.answer(k, w.cfg[eA])
		case eT + suffix:
			_, _, b = w.answer(k, w.cfg[eT])
		default:
			_, _, b = w.answer(k, func() []byte { return w.sub[eT](eA) })
		}
		tokens = append(tokens, b)
	}
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT, Claims: []string{"entity_types"}}
	for _, c := range []string{"trust_marks", "metadata", "trust_chain"} {
		if nd.Flag(c) {
			req.Claims = append(req.Claims, c)
		}
	}
	got := (&oidfed.SimpleEntityCollector{}).CollectEntities(req)
	nd.Assert(len(got) == 1 && got[0].EntityID == eA, "entities without valid chain are collected too")
	e := got[0]
	if has(req.Claims, "trust_marks") {
		i := 0
		for k, m := range marks {
			have := i < len(e.TrustMarks) && e.TrustMarks[i].TrustMarkJWT == m.(obj)["trust_mark"]
			nd.Assert(nd.Iff(have, good[k]), "exactly the valid trust marks are given")
			if have {
				nd.Cover("trust mark")
				i++
			}
		}
		nd.Assert(len(e.TrustMarks) == i, "exactly the valid trust marks are given")
	} else {
		nd.Assert(len(e.TrustMarks) == 0, "only requested claims are given")
	}
	if !has(req.Claims, "trust_chain") {
		nd.Assert(len(e.TrustChain) == 0, "only requested claims are given")
		return
	}
	nd.Assert(nd.Iff(len(e.TrustChain) > 0, valid), "a trust chain is given exactly if it is valid")
	if len(e.TrustChain) > 0 {
		nd.Cover("trust chain")
		nd.Assert(len(e.TrustChain) == 3, "the trust chain is complete")
		for i, t := range tokens {
			nd.Assert(string(e.TrustChain[i].RawJWT) == string(t), "the trust chain consists of the statements obtained")
		}
	}
}

// H_P24_query: display name queries and trust marks, with matching and other entities at any place of the federation.
func H_P24_query() {
	now := nd.Now()
	type what struct {
		name   string
		typ    string
		marked bool
	}
	ids := []string{eT, eA, eB}
	listed := [][]int{{1}, {2}, {0}} // below each entity
	switch nd.Choice("shape", 3) {
	case 1:
		listed = [][]int{{1, 2}, {2}, {1}}
	case 2:
		listed = [][]int{{0, 1}, {1, 0, 2}, {}}
	}
	by := nd.Choice("request", 3)
	ws := []what{}
	for i := range ids {
		w := what{name: "other", typ: []string{"openid_provider", "openid_relying_party"}[i%2]}
		if by == 0 {
			w.name = []string{"Wanted", "an unwanted dog", "other", ""}[nd.Choice("name", nd.Bound("names", 3, 4))]
		} else {
			w.marked = nd.Flag("marked")
		}
		ws = append(ws, w)
	}
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		for i, id := range ids {
			if url == id+"/list" && len(params) == 0 {
				l := arr{}
				for _, j := range listed[i] {
					l = append(l, ids[j])
				}
				return 200, true, enc(l)
			}
			if url == id+suffix {
				m := obj{}
				if ws[i].name != "" {
					m["display_name"] = ws[i].name
				}
				o := obj{"iss": id, "sub": id, "iat": now, "exp": now + day, "jwks": nd.KeySet(int64(i + 1)),
					"metadata": obj{ws[i].typ: m, "federation_entity": obj{"federation_list_endpoint": id + "/list"}}}
				if ws[i].marked {
					o["trust_marks"] = arr{obj{"trust_mark_type": "t", "trust_mark": string(nd.Sign(enc(obj{"iss": eT, "sub": id, "trust_mark_type": "t", "iat": now}), typTM, 1))}}
				}
				return 200, false, nd.Sign(enc(o), typES, int64(i+1))
			}
		}
		return 404, true, []byte(`{"error":"not_found"}`)
	})
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	var match func(i int) bool
	switch by {
	case 0:
		req.NameQuery = []string{"wanted", "dog", "WANT D", "nobody"}[nd.Choice("query", nd.Bound("queries", 2, 4))]
		match = func(i int) bool {
			switch req.NameQuery {
			case "wanted":
				return ws[i].name == "Wanted" || ws[i].name == "an unwanted dog"
			case "dog", "WANT D":
				return ws[i].name == "an unwanted dog"
			}
			return false
		}
	case 1:
		req.TrustMarkTypes = []string{"t"}
		match = func(i int) bool { return ws[i].marked }
	case 2:
		req.TrustMarkTypes = []string{"t"}
		req.EntityTypes = []string{"openid_relying_party", "x"}
		match = func(i int) bool { return ws[i].marked && ws[i].typ == "openid_relying_party" }
	}
	want := map[string]bool{}
	seen := map[int]bool{0: true}
	for todo := []int{0}; len(todo) > 0; todo = todo[1:] {
		for _, j := range listed[todo[0]] {
			if match(j) {
				want[ids[j]] = true
			}
			if !seen[j] {
				seen[j] = true
				todo = append(todo, j)
			}
		}
	}
	got := (&oidfed.SimpleEntityCollector{}).CollectEntities(req)
	compare(got, want)
	for _, e := range got {
		for i, id := range ids {
			if id == e.EntityID && ws[i].name != "" {
				nd.Assert(len(e.UIInfos) == 1 && e.UIInfos[ws[i].typ].DisplayName == ws[i].name, "the display name is given")
			}
		}
		nd.Cover("found")
	}
	if len(got) == 0 {
		nd.Cover("nothing")
	}
}

// H_P24_many: more subordinates than a collection has workers.
func H_P24_many() {
	n := int(nd.Bound("subordinates", 140, 300))
	now := nd.Now()
	kind := nd.Choice("kind", 4)
	id := func(i int) string { return "https://e" + strconv.Itoa(i) + ".example" }
	set := nd.KeySet(1)
	all := map[string]int{eT: -1}
	l := arr{}
	for i := 0; i < n; i++ {
		all[id(i)] = i
		l = append(l, id(i))
	}
	has := func(i int) bool { return kind == 0 || kind == 3 || i >= n-2 }
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		host, rest := url, ""
		for i := len("https://"); i < len(url); i++ {
			if url[i] == '/' {
				host, rest = url[:i], url[i:]
				break
			}
		}
		i, ok := all[host]
		switch {
		case !ok:
		case i < 0 && rest == "/list":
			return 200, true, enc(l)
		case rest == "/list":
			return 200, true, []byte("[]")
		case i >= 0 && !has(i) && kind == 1:
			return 0, false, nil
		default:
			o := obj{"iss": host, "sub": host, "iat": now, "exp": now + day, "jwks": set}
			if i < 0 || kind == 3 {
				o["metadata"] = obj{"federation_entity": obj{"federation_list_endpoint": host + "/list"}}
			} else if has(i) {
				o["metadata"] = obj{"openid_provider": obj{"issuer": host}}
			}
			return 200, false, nd.Sign(enc(o), typES, 1)
		}
		return 404, true, []byte(`{"error":"not_found"}`)
	})
	got := (&oidfed.SimpleEntityCollector{}).CollectEntities(apimodel.EntityCollectionRequest{TrustAnchor: eT})
	want := map[string]bool{}
	for i := 0; i < n; i++ {
		if has(i) {
			want[id(i)] = true
		}
	}
	compare(got, want)
	nd.Cover("collected")
}
