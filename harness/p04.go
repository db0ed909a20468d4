package zzverif

import (
	"fmt"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// line is a federation whose entities form a single chain.
func line(ids ...string) *world {
	return newWorld(ids, func(id string) []string {
		for i := range ids {
			if ids[i] == id && i+1 < len(ids) {
				return []string{ids[i+1]}
			}
		}
		return nil
	})
}

func resolves(ids []string) bool {
	r := oidfed.TrustResolver{TrustAnchors: anchors(ids[len(ids)-1]), StartingEntity: ids[0]}
	cs := r.ResolveToValidChainsWithoutVerifyingMetadata()
	nd.Assert(len(cs) <= 1, "there is only one path")
	if len(cs) == 1 {
		nd.Cover("accepted")
		nd.Assert(len(cs[0]) == len(ids)+1, "the chain is complete")
	} else {
		nd.Cover("rejected")
	}
	return len(cs) == 1
}

func stmtOf(ids []string, i int) string { return "ST " + ids[i+1] + " " + ids[i] }

// H_P04_pathlen: arbitrary max_path_length constraints at every level.
func H_P04_pathlen() {
	ids := []string{eL, eA, eB, "https://c.example.org", eT}
	w := line(ids...)
	want := true
	for i := 0; i+1 < len(ids); i++ {
		if !nd.Flag("constrained " + ids[i+1]) {
			continue
		}
		m := nd.Int("max "+ids[i+1], -1, 5)
		w.extra[stmtOf(ids, i)] = func(o obj) { o["constraints"] = obj{"max_path_length": m} }
		want = nd.And(want, int64(i) <= m)
	}
	w.start()
	nd.Assert(nd.Iff(want, resolves(ids)), "a chain is returned exactly if every path length constraint holds")
}

// nameMatch: a constraint with a leading dot matches hosts below it, any
// other constraint the host itself.
func nameMatch(c, host string) bool {
	if len(c) > 0 && c[0] == '.' {
		if len(host) < len(c) {
			return false
		}
		return host[len(host)-len(c):] == c
	}
	return c == host
}

// H_P04_naming: arbitrary permitted and excluded names on the statements of
// the upper two authorities; names are compared byte by byte.
func H_P04_naming() {
	hosts := []string{"a.b", "b.a.b", "ab"}
	ids := []string{"https://a.b", "https://b.a.b:8443/x", "https://ab/fed", eT}
	w := line(ids...)
	n := nd.Bound("name length", 3, 4)
	word := func(l string) string {
		k := nd.Choice(l+" len", n+1)
		if k == 0 {
			return ""
		}
		return nd.Bytes(l, int64(k), ".ab")
	}
	want := true
	for _, i := range []int{2, 1} {
		l := ids[i+1]
		mode := nd.Choice("mode "+l, 5) // none, permitted, excluded, both, empty permitted
		if mode == 0 || (i == 1 && !nd.Thorough() && mode != 1) {
			continue
		}
		nc := obj{}
		var perm, excl []string
		if mode == 1 || mode == 3 {
			perm = []string{word("perm " + l)}
			if nd.Flag("two " + l) {
				perm = append(perm, ".b")
			}
			nc["permitted"] = perm
		}
		if mode == 4 {
			perm = []string{}
			nc["permitted"] = perm
		}
		if mode == 2 || mode == 3 {
			excl = []string{word("excl " + l)}
			nc["excluded"] = excl
		}
		w.extra[stmtOf(ids, i)] = func(o obj) { o["constraints"] = obj{"naming_constraints": nc} }
		for k := 0; k <= i; k++ {
			in := perm == nil
			for _, c := range perm {
				in = nd.Or(in, nameMatch(c, hosts[k]))
			}
			for _, c := range excl {
				in = nd.And(in, nd.Not(nameMatch(c, hosts[k])))
			}
			want = nd.And(want, in)
		}
	}
	w.start()
	nd.Assert(nd.Iff(want, resolves(ids)), "a chain is returned exactly if every naming constraint holds")
}

// H_P04_types: arbitrary entity types (known and unknown to the library) of
// the entities and arbitrary allowed types of the authorities.
func H_P04_types() {
	ids := []string{eL, eA, eB, eT}
	w := line(ids...)
	types := []string{"openid_provider", "openid_relying_party", "oauth_resource", "custom_type"}
	mine := map[string][]string{}
	for i, id := range ids[:2] {
		mask := nd.Choice("types "+id, nd.Pick(3, 5))
		mine[id] = [][]string{{}, {types[i]}, {types[3]}, {types[2]}, {types[0], types[3]}}[mask]
		w.extra["EC "+id] = func(o obj) {
			m := o["metadata"].(obj)
			for _, t := range mine[id] {
				m[t] = obj{}
			}
		}
	}
	want := true
	for i := 0; i < 3; i++ {
		l := ids[i+1]
		if i == 1 && !nd.Thorough() {
			continue
		}
		n := nd.Choice("allowed "+l, 4) // none, empty, one, two
		if n == 0 {
			continue
		}
		allowed := []string{}
		for k := 1; k < n; k++ {
			allowed = append(allowed, nd.Str("allowed "+l))
		}
		w.extra[stmtOf(ids, i)] = func(o obj) { o["constraints"] = obj{"allowed_entity_types": allowed} }
		for k := 0; k <= i && k < 2; k++ {
			for _, t := range mine[ids[k]] {
				in := false
				for _, a := range allowed {
					in = nd.Or(in, a == t)
				}
				want = nd.And(want, in)
			}
		}
	}
	w.start()
	nd.Assert(nd.Iff(want, resolves(ids)), "a chain is returned exactly if every entity type below is allowed")
}

// H_P04_branches: constraints on one branch do not affect another.
func H_P04_branches() {
	w := newWorld([]string{eL, eA, eB, eT}, func(id string) []string {
		switch id {
		case eL:
			return []string{eA, eB}
		case eA, eB:
			return []string{eT}
		}
		return nil
	})
	types := []string{"openid_provider", "openid_relying_party"}
	w.extra["EC "+eL] = func(o obj) { o["metadata"] = obj{types[0]: obj{}} }
	w.extra["EC "+eA] = func(o obj) { o["metadata"].(obj)[types[1]] = obj{} }
	want := map[string]bool{}
	for _, b := range []string{eA, eB} {
		max := nd.Int("max "+b, 0, 2)
		allow := nd.Str("allow " + b)
		host := map[string]string{eA: "a.example.org", eB: "b.example.org"}
		excl := nd.Choice("excl "+b, 3)
		name := []string{"none.example", host[eA], host[eB]}[excl]
		w.extra["ST "+eT+" "+b] = func(o obj) {
			o["constraints"] = obj{"max_path_length": max, "allowed_entity_types": []string{types[0], allow}, "naming_constraints": obj{"excluded": []string{name}}}
		}
		ok := nd.And(1 <= max, name != host[b])
		if b == eA {
			ok = nd.And(ok, allow == types[1])
		}
		want[b] = ok
	}
	w.start()
	r := oidfed.TrustResolver{TrustAnchors: anchors(eT), StartingEntity: eL}
	cs := r.ResolveToValidChainsWithoutVerifyingMetadata()
	for _, b := range []string{eA, eB} {
		n := 0
		for _, c := range cs {
			if c[1].Issuer == b {
				n++
			}
		}
		nd.Assert(nd.Iff(want[b], n == 1), "each branch is judged by its own constraints")
	}
	nd.Cover("judged")
}

// H_P04_wide: lists of many names and types, one of which is arbitrary.
func H_P04_wide() {
	ids := []string{"https://a.b", "https://b.a.b:8443/x", eT}
	hosts := []string{"a.b", "b.a.b"}
	w := line(ids...)
	n := nd.Bound("list length", 6, 12)
	pos := nd.Choice("position", n)
	types := []string{"openid_provider", "openid_relying_party", "oauth_client", "oauth_resource", "oauth_authorization_server", "custom"}
	w.extra["EC "+ids[0]] = func(o obj) {
		m := o["metadata"].(obj)
		for _, t := range types {
			m[t] = obj{}
		}
		// not authentic metadata, but the types count
	}
	want := true
	c := obj{}
	switch nd.Choice("constraint", 3) {
	case 0, 1:
		word := "." + nd.Bytes("name", 2, ".ab")
		var l []string
		for i := 0; i < int(n); i++ {
			if i == pos {
				l = append(l, word)
			} else {
				l = append(l, fmt.Sprintf("h%d.example", i))
			}
		}
		all, none := true, true
		for _, h := range hosts {
			all = nd.And(all, nameMatch(word, h))
			none = nd.And(none, nd.Not(nameMatch(word, h)))
		}
		if nd.Flag("excluded") {
			c["naming_constraints"] = obj{"excluded": l}
			want = none
		} else {
			c["naming_constraints"] = obj{"permitted": l}
			want = all
		}
	default:
		l := append([]string{"x0", "x1"}, types...)
		l = append(l, "x2")
		at := pos % len(types)
		a := nd.Str("allowed")
		l[2+at] = a
		c["allowed_entity_types"] = l
		want = a == types[at]
	}
	w.extra[stmtOf(ids, 1)] = func(o obj) { o["constraints"] = c }
	w.start()
	nd.Assert(nd.Iff(want, resolves(ids)), "long lists of constraints are enforced as a whole")
}
