package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// pathOf is a chain with n statements issued, at its end, by ta.
func pathOf(n int, ta string) (c oidfed.TrustChain) {
	for i := 0; i < n; i++ {
		s := &oidfed.EntityStatement{}
		s.Issuer, s.Subject = eA, eL
		if i == n-1 {
			s.Issuer = ta
		}
		c = append(c, s)
	}
	return
}

// intermediates is the path length of a chain with n statements.
func intermediates(n int) int {
	if n < 3 {
		return 0
	}
	return n - 3
}

// sameChain tells if two chains are the same chain.
func sameChain(a, b oidfed.TrustChain) bool {
	return len(a) == len(b) && (len(a) == 0 || a[0] == b[0])
}

// selected checks that got are exactly the wanted chains, in order.
func selected(chains, got oidfed.TrustChains, want []bool, msg string) {
	n := 0
	for i, w := range want {
		if w {
			nd.Assert(n < len(got) && sameChain(got[n], chains[i]), msg)
			n++
		}
	}
	nd.Assert(n == len(got), msg)
	if n > 0 {
		nd.Cover("selected")
	}
	if n < len(want) {
		nd.Cover("dropped")
	}
}

func someChains(l string) (chains oidfed.TrustChains, tas []string) {
	n := nd.Choice(l, nd.Bound("chains+1", 4, 5))
	for i := 0; i < n; i++ {
		k := nd.Choice("statements", nd.Bound("statements of a chain+1", 6, 7))
		ta := nd.Str("anchor")
		chains = append(chains, pathOf(k, ta))
		tas = append(tas, ta)
	}
	return
}

// filterOf is a filter and whether it wants each of the chains.
func filterOf(l string, chains oidfed.TrustChains, tas []string) (f oidfed.TrustChainsFilter, want []bool) {
	want = make([]bool, len(chains))
	switch nd.Choice(l, 4) {
	case 0: // anchor
		ta := nd.Str(l + " anchor")
		for i, c := range chains {
			want[i] = len(c) > 0 && tas[i] == ta
		}
		return oidfed.TrustChainsFilterTrustAnchor(ta), want
	case 1: // maximal length
		m := nd.Int(l+" maximum", -2, 5)
		for i, c := range chains {
			want[i] = int64(intermediates(len(c))) <= m
		}
		return oidfed.TrustChainsFilterMaxPathLength(int(m)), want
	case 2: // any predicate
		verdict := map[*oidfed.EntityStatement]bool{}
		empty := nd.Flag(l + " empty")
		for i, c := range chains {
			want[i] = empty
			if len(c) > 0 {
				want[i] = nd.Flag(l + " verdict")
				verdict[c[0]] = want[i]
			}
		}
		return oidfed.NewTrustChainsFilterFromCheckerFnc(func(c oidfed.TrustChain) bool {
			if len(c) == 0 {
				return empty
			}
			return verdict[c[0]]
		}), want
	}
	// valid metadata
	for i, c := range chains {
		want[i] = len(c) > 0
		if len(c) > 1 && nd.Flag(l+" invalid") {
			c[1].MetadataPolicyCrit = []oidfed.PolicyOperatorName{"unknown"}
		}
		want[i] = len(c) == 1 || len(c) > 1 && c[1].MetadataPolicyCrit == nil
	}
	return oidfed.TrustChainsFilterValidMetadata, want
}

// H_P21_filter: filters and their combination.
func H_P21_filter() {
	chains, tas := someChains("chains")
	orig := append(oidfed.TrustChains{}, chains...)
	f, want := filterOf("filter", chains, tas)
	fs := []oidfed.TrustChainsFilter{f}
	if len(chains) <= int(nd.Bound("chains with two filters", 2, 3)) && nd.Flag("two filters") {
		g, w := filterOf("second filter", chains, tas)
		if _, w2 := want, w; len(chains) > 0 && w2 != nil {
			for i := range want {
				want[i] = want[i] && w[i]
			}
		}
		fs = append(fs, g)
	}
	got := chains.Filter(fs...)
	selected(orig, got, want, "filters select exactly the chains that satisfy them, in order")
	for i := range orig {
		nd.Assert(sameChain(chains[i], orig[i]), "filters do not change the chains")
	}
}

// H_P21_shortest: the minimal-path filter.
func H_P21_shortest() {
	chains, _ := someChains("chains")
	orig := append(oidfed.TrustChains{}, chains...)
	minimum := 1 << 30
	for _, c := range chains {
		minimum = min(minimum, intermediates(len(c)))
	}
	want := make([]bool, len(chains))
	for i, c := range chains {
		want[i] = intermediates(len(c)) == minimum
	}
	got := chains.Filter(oidfed.TrustChainsFilterMinPathLength)
	selected(orig, got, want, "the shortest chains are selected, in order")
	again := got.Filter(oidfed.TrustChainsFilterMinPathLength)
	nd.Assert(len(again) == len(got), "the filter can be used again")
}

// H_P21_sort: sorting by arbitrary scores, up and down.
func H_P21_sort() {
	n := nd.Choice("chains", nd.Bound("sorted chains+1", 6, 7))
	score := map[*oidfed.EntityStatement]int64{}
	var chains oidfed.TrustChains
	for i := 0; i < n; i++ {
		c := pathOf(1+i%3, eT)
		score[c[0]] = nd.Int("score", -1<<40, 1<<40)
		chains = append(chains, c)
	}
	orig := append(oidfed.TrustChains{}, chains...)
	scorer := func(c oidfed.TrustChain) int { return int(score[c[0]]) }
	up := nd.Flag("ascending")
	var got oidfed.TrustChains
	if up {
		got = chains.SortAsc(scorer)
	} else {
		got = chains.SortDesc(scorer)
	}
	nd.Assert(len(got) == n, "sorting keeps the number of chains")
	seen := map[*oidfed.EntityStatement]bool{}
	for i, c := range got {
		nd.Assert(len(c) > 0 && !seen[c[0]], "sorting gives a permutation")
		seen[c[0]] = true
		if i > 0 {
			a, b := score[got[i-1][0]], score[c[0]]
			nd.Assert(nd.Or(nd.And(up, a <= b), nd.And(!up, a >= b)), "sorted chains are ordered by score")
		}
	}
	for _, c := range orig {
		nd.Assert(seen[c[0]], "sorting gives a permutation")
	}
	nd.Cover("sorted")
}

// H_P21_length: path length, also as a score, and expiry.
func H_P21_length() {
	n := nd.Choice("statements", nd.Bound("statements+1", 8, 12))
	c := pathOf(n, eT)
	l := n - 3
	if n < 3 {
		l = 0
	}
	nd.Assert(c.PathLen() == l, "the path length is the number of intermediates")
	nd.Assert(oidfed.TrustChainScoringPathLen(c) == l, "the path length score is the path length")
	if n == 0 {
		nd.Assert(c.ExpiresAt().IsZero(), "an empty chain has no expiry")
		return
	}
	for _, s := range c {
		s.ExpiresAt.Time = unix(nd.Int("exp", -1<<40, 1<<40))
		s.IssuedAt.Time = unix(nd.Int("iat", -1<<40, 1<<40))
	}
	e := c.ExpiresAt().Unix()
	one := false
	for _, s := range c {
		nd.Assert(e <= s.ExpiresAt.Unix(), "a chain expires with its first expiring statement")
		one = nd.Or(one, e == s.ExpiresAt.Unix())
	}
	nd.Assert(one, "a chain expires with one of its statements")
	nd.Cover("dated")
}
