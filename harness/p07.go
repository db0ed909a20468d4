package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// H_P07_entry: an arbitrary valid entry applied to an arbitrary value.
func H_P07_entry() {
	a := &atoms{nd.Bound("words in value and operands", 6, 8)}
	list := nd.Flag("list")
	p := a.entryOf("p", list, nd.Bound("operators per entry", 4, 6), nd.Bound("list length", 2, 3))
	x := a.valueOf("v", list, nd.Pick(2, 3))
	e := p.entry()
	if e.Verify("test") != nil {
		nd.Stop() // P09
	}
	var in any
	if x.set {
		in = generic(x.v)
	}
	got, err := e.ApplyTo(in, x.set, "test")
	want, ok := p.apply(x)
	nd.Assert((err == nil) == ok, "the entry accepts exactly the specified values")
	if !ok {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	g := plain(got)
	nd.Assert(agrees(g, got != nil, want), "the result is the specified one")
	if l, isList := g.([]string); isList && (!x.set || distinct(x.list())) && (!has1(p, "value") && !has1(p, "default")) {
		nd.Assert(distinct(l) || !has1(p, "add") || !x.set, "add introduces no duplicates")
	}
}

func distinct(l []string) bool {
	for i := range l {
		if elem(l[i], l[:i]) {
			return false
		}
	}
	return true
}

var listParams = []param{
	{"openid_relying_party", "contacts"},
	{"openid_provider", "grant_types_supported"},
	{"oauth_client", "redirect_uris"},
	{"openid_relying_party", "custom_list"},
	{"custom_entity", "things"},
	{"federation_entity", "contacts"},
	{"oauth_resource", "scopes_supported"},
	{"oauth_authorization_server", "grant_types_supported"},
}

var stringParams = []param{
	{"openid_provider", "organization_name"},
	{"openid_relying_party", "application_type"},
	{"openid_relying_party", "custom_string"},
	{"custom_entity", "thing"},
	{"federation_entity", "logo_uri"},
}

// H_P07_metadata: the same for parameters of real metadata, parsed from JSON.
func H_P07_metadata() {
	a := &atoms{nd.Bound("words in value and operands", 4, 5)}
	list := nd.Flag("list")
	ps := stringParams
	if list {
		ps = listParams
	}
	q := ps[nd.Choice("param", int64(len(ps)))]
	p := a.entryOf("p", list, nd.Bound("operators per entry", 3, 4), nd.Bound("list length", 2, 2))
	x := a.valueOf("v", list, nd.Pick(2, 3))
	m, ps2 := metaOf(q, x), polsOf(q, p)
	merged, err := oidfed.MergeMetadataPolicies(ps2)
	if err != nil {
		nd.Stop() // P09
	}
	res, err := m.ApplyPolicy(merged)
	want, ok := p.apply(x)
	nd.Assert((err == nil) == ok, "the metadata is accepted exactly as specified")
	if !ok {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	got, set := get(res, q)
	nd.Assert(agrees(got, set, want), "the parameter has the specified value")
}

// H_P07_scope: scope is a list of words written as one string.
func H_P07_scope() {
	words := []string{"openid", "email", "profile"}
	sub := func(l string, n int64) []string { return append([]string{}, subset(nd.Choice(l, n), words...)...) }
	q := param{[]string{"openid_relying_party", "oauth_client"}[nd.Choice("type", 2)], "scope"}
	p := pol{}
	for _, op := range []string{"value", "add", "default", "subset_of", "superset_of", "essential"} {
		if int64(len(p)) >= nd.Pick(2, 3) || !nd.Flag("has "+op) {
			continue
		}
		if op == "essential" {
			p[op] = true
		} else {
			p[op] = sub(op, 8)
		}
	}
	x := pv{}
	o := pv{}
	if nd.Flag("set") {
		l := sub("v", 8)
		s := ""
		for i, w := range l {
			if i > 0 {
				s += " "
			}
			s += w
		}
		if s == "" {
			nd.Stop() // an empty scope is no scope
		}
		x, o = pv{true, s}, pv{true, l}
	}
	m, ps := metaOf(q, x), polsOf(q, p)
	merged, err := oidfed.MergeMetadataPolicies(ps)
	if err != nil {
		nd.Stop()
	}
	res, err := m.ApplyPolicy(merged)
	want, ok := p.apply(o)
	if ok && want.set && len(want.list()) == 0 {
		// nothing left: not distinguished from absence
		if err != nil {
			nd.Assert(p.essential() || has1(p, "superset_of"), "an empty scope is only rejected when needed")
			return
		}
		got, _ := get(res, q)
		nd.Assert(got == nil || got == "", "the scope is empty")
		return
	}
	nd.Assert((err == nil) == ok, "the scope is accepted exactly as specified")
	if !ok {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	got, set := get(res, q)
	if !want.set {
		nd.Assert(!set, "the scope stays absent")
		return
	}
	s, isStr := got.(string)
	nd.Assert(isStr, "the scope is one string")
	var l []string
	for s != "" {
		w := ""
		for len(s) > 0 && s[0] != ' ' {
			w += s[:1]
			s = s[1:]
		}
		if len(s) > 0 {
			s = s[1:]
		}
		l = append(l, w)
	}
	nd.Assert(same(l, want.v), "the scope has the specified words")
}

// H_P07_scalars: boolean and numeric parameters.
func H_P07_scalars() {
	num := nd.Flag("number")
	q := param{"openid_relying_party", []string{"require_auth_time", "custom_bool"}[nd.Choice("param", 2)]}
	if num {
		q.name = []string{"default_max_age", "custom_number"}[nd.Choice("nparam", 2)]
	}
	val := func(l string) any {
		if num {
			return nd.Choice(l, 3)
		}
		return nd.Choice(l, 2) == 1
	}
	vals := func(l string) any {
		n := nd.Choice(l+" len", 3)
		if num {
			o := []int{}
			for i := 0; i < n; i++ {
				o = append(o, val(l).(int))
			}
			return o
		}
		o := []bool{}
		for i := 0; i < n; i++ {
			o = append(o, val(l).(bool))
		}
		return o
	}
	p := pol{}
	for _, op := range []string{"value", "default", "one_of", "essential"} {
		if !nd.Flag("has " + op) {
			continue
		}
		switch op {
		case "essential":
			p[op] = nd.Flag("essential")
		case "one_of":
			p[op] = vals(op)
		default:
			if op == "value" && nd.Flag("null") {
				p[op] = nil
			} else {
				p[op] = val(op)
			}
		}
	}
	x := pv{}
	if nd.Flag("set") {
		x = pv{true, val("v")}
	}
	m, ps := metaOf(q, x), polsOf(q, p)
	merged, err := oidfed.MergeMetadataPolicies(ps)
	if err != nil {
		nd.Stop()
	}
	res, err := m.ApplyPolicy(merged)
	want, ok := p.apply(x)
	zero := want.set && (want.v == any(0) || want.v == any(false))
	nd.Assert((err == nil) == ok, "the metadata is accepted exactly as specified")
	if !ok {
		nd.Cover("rejected")
		return
	}
	nd.Cover("accepted")
	got, set := get(res, q)
	if zero {
		nd.Assert(!set || same(got, want.v), "a false or 0 is false or 0")
		return
	}
	nd.Assert(agrees(got, set, want), "the parameter has the specified value")
}
