package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// H_P08_merge: the policies of two superiors are merged and applied to an
// arbitrary value; the outcome is that of the specified merge, and what is
// accepted satisfies each of the two policies on its own.
func H_P08_merge() {
	a := &atoms{nd.Bound("words in value and operands", 4, 6)}
	list := nd.Flag("list")
	n := nd.Bound("operators per entry", 2, 3)
	p := a.entryOf("p", list, n, nd.Bound("list length", 2, 2))
	q := a.entryOf("q", list, n, nd.Pick(2, 2))
	mergeCheck(a, []pol{p, q}, list, nd.Pick(1, 2))
}

// H_P08_three: three levels of policies.
func H_P08_three() {
	a := &atoms{nd.Bound("words in value and operands (three levels)", 4, 5)}
	list := nd.Flag("list")
	n := nd.Bound("operators per entry (three levels)", 1, 2)
	ps := []pol{}
	for _, l := range []string{"p", "q", "r"} {
		ps = append(ps, a.entryOf(l, list, n, nd.Bound("list length (three levels)", 2, 2)))
	}
	mergeCheck(a, ps, list, nd.Pick(1, 2))
}

func mergeCheck(a *atoms, ps []pol, list bool, vlen int64) {
	var in []oidfed.MetadataPolicy
	for _, p := range ps {
		in = append(in, oidfed.MetadataPolicy{"x": p.entry()})
	}
	m, err := oidfed.CombineMetadataPolicy("test", in...)
	want, ok := ps[0], ps[0].valid()
	for _, q := range ps[1:] {
		if ok {
			want, ok = want.merge(q)
		}
	}
	if mixedNull(ps) {
		nd.Stop()
	}
	if err != nil {
		nd.Assert(!ok, "policies that can be merged are merged")
		nd.Cover("merge rejected")
		return
	}
	nd.Assert(ok, "contradicting policies are rejected")
	x := a.valueOf("v", list, vlen)
	var raw any
	if x.set {
		raw = generic(x.v)
	}
	got, err := m["x"].ApplyTo(raw, x.set, "test")
	res, accepted := want.apply(x)
	nd.Assert((err == nil) == accepted, "the merged policy accepts exactly the specified values")
	if err != nil {
		nd.Cover("value rejected")
		return
	}
	nd.Cover("value accepted")
	nd.Assert(agrees(plain(got), got != nil, res), "the merged policy has the specified result")
	for _, p := range ps {
		nd.Assert(p.restricts(pv{got != nil, plain(got)}), "the result satisfies every single policy")
	}
}

// mixedNull: null values beside list operators are not specified.
func mixedNull(ps []pol) bool {
	null, lists := false, false
	for _, p := range ps {
		if v, ok := p["value"]; ok && v == nil {
			null = true
		}
		lists = lists || has1(p, "add") || has1(p, "subset_of") || has1(p, "superset_of")
	}
	return null && lists
}

// restricts tells whether a final value satisfies a policy.
func (p pol) restricts(x pv) bool {
	if v, ok := p["value"]; ok {
		if v == nil && x.set || v != nil && !(x.set && same(x.v, v)) {
			return false
		}
	}
	if a, ok := p["add"].([]string); ok && !within(a, x.list()) {
		return false
	}
	if o, ok := p["one_of"]; ok && x.set && !anyOf(x.v, o) {
		return false
	}
	if s, ok := p["subset_of"].([]string); ok && x.set && !within(x.list(), s) {
		return false
	}
	if s, ok := p["superset_of"].([]string); ok && x.set && !within(s, x.list()) {
		return false
	}
	return !p.essential() || x.set
}

// H_P08_metadata: policies of two superiors for a parameter of any entity type,
// as they stand in statements, are merged and applied to metadata.
func H_P08_metadata() {
	a := &atoms{nd.Bound("words in value and operands (metadata)", 3, 4)}
	list := nd.Flag("list")
	params := stringParams
	if list {
		params = listParams
	}
	q := params[nd.Choice("param", int64(len(params)))]
	n := nd.Bound("operators per entry (metadata)", 1, 2)
	p1 := a.entryOf("p", list, n, nd.Pick(1, 2))
	p2 := a.entryOf("q", list, n, nd.Pick(1, 2))
	if mixedNull([]pol{p1, p2}) {
		nd.Stop()
	}
	in := []*oidfed.MetadataPolicies{polsOf(q, p1), polsOf(q, p2)}
	if nd.Flag("statement without policy between") {
		in = []*oidfed.MetadataPolicies{nil, in[0], nil, in[1]}
	}
	m, err := oidfed.MergeMetadataPolicies(in...)
	want, ok := p1, p1.valid()
	if ok {
		want, ok = p1.merge(p2)
	}
	nd.Assert((err == nil) == ok, "exactly the policies that do not contradict each other are merged")
	if err != nil {
		nd.Cover("merge rejected")
		return
	}
	x := a.valueOf("v", list, nd.Pick(1, 2))
	res, err := metaOf(q, x).ApplyPolicy(m)
	o, accepted := want.apply(x)
	nd.Assert((err == nil) == accepted, "the merged policies accept exactly the specified metadata")
	if err != nil {
		nd.Cover("metadata rejected")
		return
	}
	nd.Cover("metadata accepted")
	got, set := get(res, q)
	nd.Assert(agrees(got, set, o), "the merged policies have the specified result")
	for _, p := range []pol{p1, p2} {
		nd.Assert(p.restricts(pv{set, got}) || !set && o.set && len(o.list()) == 0, "the result satisfies every single policy")
	}
}
