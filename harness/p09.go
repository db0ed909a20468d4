package zzverif

import (
	"encoding/json"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// anyEntry makes an entry with any combination of operators.
func (a *atoms) anyEntry(l string, n, max int64) pol {
	p := pol{}
	list := true
	for _, op := range opNames {
		if int64(len(p)) >= n || !nd.Flag(l+" "+op) {
			continue
		}
		switch op {
		case "essential":
			p[op] = nd.Flag(l + " is essential")
		case "value":
			switch nd.Choice(l+" value kind", 3) {
			case 0:
				p[op] = nil
			case 1:
				p[op] = a.str(l + " value")
				list = false
			default:
				p[op] = a.list(l+" value", max)
			}
		case "default":
			if _, isStr := p["value"].(string); isStr || !has1(p, "value") && !has1(p, "add") && nd.Flag(l+" string default") {
				p[op] = a.str(l + " default")
				list = false
			} else {
				p[op] = a.list(l+" default", max)
			}
		default:
			p[op] = a.list(l+" "+op, max)
		}
	}
	if !list && (has1(p, "add") || has1(p, "subset_of") || has1(p, "superset_of")) && !has1(p, "one_of") {
		nd.Stop() // a single value beside list operators is not specified
	}
	return p
}

// H_P09_single: one entry, verified directly and as the only policy, at any
// position between superiors that set nothing for the parameter.
func H_P09_single() {
	a := &atoms{nd.Bound("words in operands", 7, 8)}
	p := a.anyEntry("p", nd.Bound("operators per entry", 5, 6), nd.Bound("list length", 3, 3))
	if v, ok := p["value"]; ok && v == nil && (has1(p, "add") || has1(p, "subset_of") || has1(p, "superset_of")) && !has1(p, "one_of") {
		nd.Stop()
	}
	err := p.entry().Verify("test")
	ok := p.valid()
	nd.Assert((err == nil) == ok, "an entry is valid exactly if its operators may be combined and agree")
	if ok {
		nd.Cover("valid")
	} else {
		nd.Cover("invalid")
	}
}

// H_P09_around: a small entry as the only policy of a chain for any parameter
// of any entity type, at any position between superiors that set nothing for it.
func H_P09_around() {
	a := &atoms{nd.Bound("words in operands (position)", 2, 4)}
	p := a.anyEntry("p", 2, nd.Bound("list length (position)", 1, 2))
	if v, ok := p["value"]; ok && v == nil && (has1(p, "add") || has1(p, "subset_of") || has1(p, "superset_of")) && !has1(p, "one_of") {
		nd.Stop()
	}
	ok := p.valid()
	q := listParams[nd.Choice("param", 8)]
	ps := []*oidfed.MetadataPolicies{nil, nil, nil}
	for i := range ps {
		switch nd.Choice("around", 3) {
		case 1:
			ps[i] = &oidfed.MetadataPolicies{}
		case 2:
			ps[i] = polsOf(param{q.et, "other"}, pol{"essential": false})
		}
	}
	ps[nd.Choice("position", 3)] = polsOf(q, p)
	m, err := oidfed.MergeMetadataPolicies(ps...)
	nd.Assert((err == nil) == ok, "merging accepts exactly the valid policies")
	if err == nil {
		nd.Cover("accepted")
		got, err := polOf(m, q)
		nd.Assert(err == nil && samePol(got, p), "the only policy of a parameter is the merged one")
	} else {
		nd.Cover("rejected")
	}
}

// polOf reads the policy entry of a parameter back.
func polOf(m *oidfed.MetadataPolicies, q param) (pol, error) {
	var o map[string]map[string]map[string]any
	if err := json.Unmarshal(enc(m), &o); err != nil {
		return nil, err
	}
	out := pol{}
	for k, v := range o[q.et][q.name] {
		out[k] = plain(v)
	}
	return out, nil
}

func samePol(a, b pol) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !same(v, w) {
			return false
		}
	}
	return true
}

// H_P09_chain: resolving the metadata of a chain fails if the policies of any
// of its statements are invalid or contradict each other.
func H_P09_chain() {
	a := &atoms{nd.Bound("words in operands (chain)", 3, 4)}
	q := chainParams[nd.Choice("param", nd.Pick(2, 5))]
	list := q.name != "custom_list" || nd.Flag("list")
	n := nd.Bound("operators per entry (chain)", 2, 2)
	c := oidfed.TrustChain{stmt(eL, eL)}
	c[0].Metadata = metaOf(q, pv{})
	first := nd.Choice("first policy", 3)
	second := nd.Choice("second policy", 3)
	if second < first {
		nd.Stop()
	}
	ok := true
	empty := q.name == "custom_list"
	var ps []pol
	ids := []string{eL, eA, eB, eT}
	for i := 0; i < 3; i++ {
		s := stmt(ids[i+1], ids[i])
		if i == first || i == second {
			p := a.entryOf([]string{"p", "q", "r"}[i], list, n, nd.Bound("list length (chain)", 1, 2))
			ps = append(ps, p)
			s.MetadataPolicy = polsOf(q, p)
		} else if empty {
			s.MetadataPolicy = &oidfed.MetadataPolicies{}
		}
		c = append(c, s)
	}
	c = append(c, stmt(eT, eT))
	_, err := c.Metadata()
	if mixedNull(ps) {
		nd.Stop()
	}
	m := ps[0]
	ok = m.valid()
	if len(ps) > 1 && ok {
		m, ok = m.merge(ps[1])
	}
	if !ok {
		nd.Cover("rejected")
		nd.Assert(err != nil, "a chain with contradicting policies has no metadata")
		return
	}
	nd.Cover("accepted")
	_, accepted := m.apply(pv{})
	nd.Assert((err == nil) == accepted, "a chain with valid policies is judged by their effect")
}

// stmt is a statement of a chain.
func stmt(iss, sub string) *oidfed.EntityStatement {
	s := &oidfed.EntityStatement{}
	s.Issuer, s.Subject = iss, sub
	s.IssuedAt.Time = unix(nd.Now())
	s.ExpiresAt.Time = unix(nd.Now() + day)
	return s
}

var chainParams = []param{
	{"openid_relying_party", "custom_list"},
	{"openid_provider", "grant_types_supported"},
	{"custom_entity", "things"},
	{"federation_entity", "contacts"},
	{"oauth_client", "redirect_uris"},
}
