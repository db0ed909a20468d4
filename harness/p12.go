package zzverif

import (
	"encoding/json"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// spareEntry is p.entry with operand lists that have room for appending.
func (p pol) spareEntry(spare int) (oidfed.MetadataPolicyEntry, [][]any) {
	e := p.entry()
	var backing [][]any
	for k, v := range e {
		if l, ok := v.([]any); ok {
			b := make([]any, len(l), len(l)+spare)
			copy(b, l)
			e[k] = b
			backing = append(backing, b)
		}
	}
	return e, backing
}

func untouched(backing [][]any) bool {
	for _, b := range backing {
		for _, x := range b[len(b):cap(b)] {
			if x != nil {
				return false
			}
		}
	}
	return true
}

// H_P12_merge: policies are merged twice and in another order; none of them changes.
func H_P12_merge() {
	a := &atoms{nd.Bound("words in operands (merge)", 3, 5)}
	ps := []pol{}
	var in []oidfed.MetadataPolicy
	var backing [][]any
	list := nd.Flag("list")
	for _, l := range []string{"p", "q", "r"} {
		p := a.entryOf(l, list, nd.Bound("operators per entry (merge)", 1, 2), nd.Pick(1, 2))
		ps = append(ps, p)
		e, b := p.spareEntry(2)
		backing = append(backing, b...)
		in = append(in, oidfed.MetadataPolicy{"x": e})
	}
	i, j := 0, 1
	if nd.Flag("other pair first") {
		i, j = 1, 2
	}
	m1, err1 := oidfed.CombineMetadataPolicy("test", in[i], in[j])
	if err1 == nil && nd.Flag("apply") {
		x := a.valueOf("v", list, 1)
		var raw any
		if x.set {
			raw = generic(x.v)
		}
		_, _ = m1["x"].ApplyTo(raw, x.set, "test")
		if x.set {
			nd.Assert(same(plain(raw), x.v), "the metadata value is unchanged")
		}
	}
	_, _ = oidfed.CombineMetadataPolicy("test", in...)
	for i, p := range ps {
		nd.Assert(samePol(p, entryPol(in[i]["x"])), "a merged policy is unchanged")
		nd.Assert(len(in[i]) == 1, "a merged policy has no further entries")
	}
	nd.Assert(untouched(backing), "memory behind an operand is not written")
	m2, err2 := oidfed.CombineMetadataPolicy("test", in[i], in[j])
	nd.Assert((err1 == nil) == (err2 == nil), "merging again has the same outcome")
	if err1 == nil {
		nd.Cover("merged")
		nd.Assert(samePol(entryPol(m1["x"]), entryPol(m2["x"])), "merging again has the same result")
	}
}

func entryPol(e oidfed.MetadataPolicyEntry) pol {
	out := pol{}
	for k, v := range e {
		out[string(k)] = plain(v)
	}
	return out
}

// H_P12_chains: chains that share their upper statements are evaluated in any
// order, some of them more than once; each gives the result it gives alone.
func H_P12_chains() {
	a := &atoms{nd.Bound("words in values and operands", 3, 5)}
	q := chainParams[nd.Choice("param", nd.Pick(2, 5))]
	list := q.name != "custom_list"
	n := nd.Pick(1, 2)
	up, low1, low2 := a.entryOf("upper", list, n, 1), a.entryOf("lower", list, 1, 1), pol{}
	if nd.Thorough() {
		low2 = a.entryOf("other", list, 1, 1)
	} else if nd.Flag("other") {
		if list {
			low2["add"] = []string{"fix"}
		} else {
			low2["one_of"] = []string{"fix", a.str("other")}
		}
	}
	if mixedNull([]pol{up, low1, low2}) {
		nd.Stop()
	}
	x1, x2 := a.valueOf("first", list, 1), pv{true, "fix"}
	if list {
		x2.v = []string{"fix", "more"}
	}
	build := func(c1, c2 bool) (oidfed.TrustChain, oidfed.TrustChain, [][]any) {
		var backing [][]any
		set := func(s *oidfed.EntityStatement, p pol) {
			e, b := p.spareEntry(2)
			backing = append(backing, b...)
			s.MetadataPolicy = polsOf(q, pol{"essential": false})
			for _, m := range []oidfed.MetadataPolicy{s.MetadataPolicy.RelyingParty, s.MetadataPolicy.OpenIDProvider, s.MetadataPolicy.Extra[q.et]} {
				if m != nil {
					m[q.name] = e
				}
			}
		}
		ta := stmt(eT, eT)
		sup := stmt(eT, eA)
		set(sup, up)
		l1, l2 := stmt(eL, eL), stmt(eB, eB)
		l1.Metadata, l2.Metadata = metaOf(q, x1), metaOf(q, x2)
		s1, s2 := stmt(eA, eL), stmt(eA, eB)
		set(s1, low1)
		set(s2, low2)
		return oidfed.TrustChain{l1, s1, sup, ta}, oidfed.TrustChain{l2, s2, sup, ta}, backing
	}
	type result struct {
		v       any
		set, ok bool
	}
	eval := func(c oidfed.TrustChain) result {
		m, err := c.Metadata()
		if err != nil {
			return result{}
		}
		v, set := get(m, q)
		return result{v, set, true}
	}
	eq := func(a, b result) bool {
		return a.ok == b.ok && a.set == b.set && (!a.set || same(a.v, b.v))
	}
	alone1, _, _ := build(true, false)
	want1 := eval(alone1)
	_, alone2, _ := build(false, true)
	want2 := eval(alone2)
	c1, c2, backing := build(true, true)
	before := [...]map[string]any{decoded(c1[0]), decoded(c1[1]), decoded(c1[2]), decoded(c2[0]), decoded(c2[1])}
	order := 1 + nd.Choice("order", 2)
	var r1, r2 result
	switch order {
	case 0:
		r1 = eval(c1)
		r2 = eval(c2)
	case 1:
		r2 = eval(c2)
		r1 = eval(c1)
	case 2:
		_ = eval(c1)
		r2 = eval(c2)
		r1 = eval(c1)
	}
	nd.Assert(eq(r1, want1) && eq(r2, want2), "a chain has the same metadata whatever was evaluated before")
	if want1.ok && want2.ok {
		nd.Cover("both have metadata")
	}
	after := [...]map[string]any{decoded(c1[0]), decoded(c1[1]), decoded(c1[2]), decoded(c2[0]), decoded(c2[1])}
	for i := range before {
		nd.Assert(eqJSON(before[i], after[i]), "statements are unchanged")
	}
	nd.Assert(untouched(backing), "memory behind an operand is not written")
}

// H_P12_apply: applying a policy to metadata with parameters of any entity type
// leaves the metadata and the policy as they are, so that a second application
// has the same result.
func H_P12_apply() {
	a := &atoms{nd.Bound("words in value and operands (apply)", 3, 5)}
	list := nd.Flag("list")
	params := stringParams
	if list {
		params = listParams
	}
	q := params[nd.Choice("param", int64(len(params)))]
	p := a.entryOf("p", list, nd.Bound("operators per entry (apply)", 2, 3), nd.Pick(1, 2))
	x := a.valueOf("v", list, nd.Pick(2, 2))
	m, ps := metaOf(q, x), polsOf(q, p)
	ps2, err := oidfed.MergeMetadataPolicies(ps)
	if err != nil {
		nd.Stop()
	}
	if nd.Flag("policy of one statement") {
		ps2 = ps
	}
	before, policy := enc(m), enc(ps2)
	r1, err1 := m.ApplyPolicy(ps2)
	nd.Assert(eqJSON(tree(before), tree(enc(m))), "the metadata is unchanged")
	nd.Assert(eqJSON(tree(policy), tree(enc(ps2))), "the policy is unchanged")
	r2, err2 := m.ApplyPolicy(ps2)
	nd.Assert((err1 == nil) == (err2 == nil), "applying again has the same outcome")
	if err1 != nil {
		nd.Cover("metadata rejected")
		return
	}
	nd.Cover("metadata accepted")
	nd.Assert(eqJSON(tree(enc(r1)), tree(enc(r2))), "applying again has the same result")
}

func tree(data []byte) map[string]any {
	var o map[string]any
	if err := json.Unmarshal(data, &o); err != nil {
		panic(err)
	}
	return o
}
