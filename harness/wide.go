package zzverif

import (
	"fmt"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// The other harnesses leave small inputs wholly open. Those here use large
// ones that are open in one or two places, which may be anywhere.

// many are n different words, of which one is open.
func many(l string, n int64, pos int) []string {
	out := []string{}
	for i := 0; i < int(n); i++ {
		if i == pos {
			out = append(out, nd.Str(l))
		} else {
			out = append(out, fmt.Sprintf("w%d", i))
		}
	}
	return out
}

// H_P07_wide: operators with long operands applied to long values.
func H_P07_wide() {
	n := nd.Bound("words in long lists", 7, 12)
	op := []string{"add", "subset_of", "superset_of", "value", "default", "one_of"}[nd.Choice("operator", 6)]
	x := pv{true, many("v", n-int64(nd.Choice("fewer values", 2)), nd.Choice("open value", n))}
	p := pol{op: many("o", n-int64(nd.Choice("fewer operands", 2)), nd.Choice("open operand", n))}
	if op == "one_of" {
		x.v = nd.Str("single value")
	}
	if op == "default" {
		x.set = nd.Flag("set")
	}
	e := p.entry()
	nd.Assert(e.Verify("test") == nil, "the policy is valid")
	var in any
	if x.set {
		in = generic(x.v)
	}
	got, err := e.ApplyTo(in, x.set, "test")
	want, ok := p.apply(x)
	nd.Assert((err == nil) == ok, "the entry accepts exactly the specified long values")
	if !ok {
		nd.Cover("rejected long list")
		return
	}
	nd.Cover("accepted long list")
	nd.Assert(agrees(plain(got), got != nil, want), "the long result is the specified one")
}

// H_P08_wide: two policies with long operands are merged.
func H_P08_wide() {
	n := nd.Bound("words in long operands", 5, 7)
	ops := [][2]string{{"subset_of", "subset_of"}, {"superset_of", "superset_of"}, {"add", "add"}, {"superset_of", "subset_of"}, {"add", "subset_of"}, {"value", "subset_of"}, {"one_of", "one_of"}, {"value", "value"}, {"value", "superset_of"}}
	c := ops[nd.Choice("operators", int64(len(ops)))]
	p := pol{c[0]: many("p", n, nd.Choice("open in p", n))}
	q := pol{c[1]: many("q", n-int64(nd.Choice("fewer", 2)), nd.Choice("open in q", n))}
	if c[0] != c[1] && nd.Flag("swapped") {
		p, q = q, p
	}
	a := &atoms{1}
	ps := []pol{p, q}
	mergeCheck(a, ps, c[0] != "one_of", 1)
}

// H_P08_levels: many superiors, two of which have arbitrary policies.
func H_P08_levels() {
	n := nd.Bound("levels", 6, 8)
	a := &atoms{nd.Bound("words in value and operands (many levels)", 3, 3)}
	list := nd.Flag("list")
	k := nd.Bound("operators per entry (many levels)", 1, 2)
	i, j := nd.Choice("first level", n), nd.Choice("second level", n)
	if i >= j {
		nd.Stop()
	}
	var ps []pol
	for l := 0; l < int(n); l++ {
		switch {
		case l == i:
			ps = append(ps, a.entryOf("p", list, k, 2))
		case l == j:
			ps = append(ps, a.entryOf("q", list, k, 2))
		default:
			ps = append(ps, pol{"essential": l%2 == 1})
		}
	}
	mergeCheck(a, ps, list, 1)
}

// longChain is a chain of n statements.
func longChain(n int) oidfed.TrustChain {
	id := func(i int) string {
		switch i {
		case 0:
			return eL
		case n - 2:
			return eT
		}
		return fmt.Sprintf("https://i%d.example.org", i)
	}
	c := oidfed.TrustChain{stmt(eL, eL)}
	for i := 1; i < n-1; i++ {
		c = append(c, stmt(id(i), id(i-1)))
	}
	return append(c, stmt(eT, eT))
}

// H_P09_levels: a long chain in which two statements have arbitrary policies.
func H_P09_levels() {
	n := int(nd.Bound("statements of a long chain", 8, 12))
	a := &atoms{nd.Bound("words in operands (long chain)", 3, 4)}
	q := chainParams[nd.Choice("param", nd.Pick(2, 5))]
	c := longChain(n)
	c[0].Metadata = metaOf(q, pv{})
	i, j := 1+nd.Choice("lower", int64(n-2)), 1+nd.Choice("upper", int64(n-2))
	if i >= j {
		nd.Stop()
	}
	p, r := a.entryOf("p", true, nd.Pick(1, 2), 1), a.entryOf("r", true, nd.Pick(1, 2), 1)
	if mixedNull([]pol{p, r}) {
		nd.Stop()
	}
	for k := 1; k < n-1; k++ {
		s := pol{}
		switch k {
		case i:
			s = p
		case j:
			s = r
		}
		c[k].MetadataPolicy = polsOf(q, s)
	}
	_, err := c.Metadata()
	m, ok := r, r.valid()
	if ok {
		m, ok = r.merge(p)
	}
	if !ok {
		nd.Cover("rejected long chain")
		nd.Assert(err != nil, "a long chain with contradicting policies has no metadata")
		return
	}
	nd.Cover("accepted long chain")
	_, accepted := m.apply(pv{})
	nd.Assert((err == nil) == accepted, "a long chain with valid policies is judged by their effect")
}

// H_P10_long: one of many critical operators somewhere in a long chain is arbitrary.
func H_P10_long() {
	n := int(nd.Bound("statements of a long chain", 8, 12))
	k := nd.Bound("critical operators of a statement", 4, 8)
	c := longChain(n)
	c[0].Metadata = metaOf(chainParams[0], pv{true, []string{"a", "b"}})
	at, pos := nd.Choice("statement", int64(n)), nd.Choice("position", k)
	word := nd.Str("crit")
	for i := range c {
		for j := 0; j < int(k); j++ {
			name := opNames[(i+j)%len(opNames)]
			if i == at && j == pos {
				name = word
			}
			c[i].MetadataPolicyCrit = append(c[i].MetadataPolicyCrit, oidfed.PolicyOperatorName(name))
		}
		if i > 0 && i < n-1 {
			c[i].MetadataPolicy = &oidfed.MetadataPolicies{}
		}
	}
	_, err := c.Metadata()
	nd.Assert(nd.Iff(err == nil, known(word)), "a critical operator is examined wherever it stands")
	nd.Cover("long chain")
}

// H_P11_long: the policies of all statements of a long chain apply.
func H_P11_long() {
	n := int(nd.Bound("statements of a long chain", 8, 12))
	c := longChain(n)
	q := chainParams[nd.Choice("param", 5)]
	own := nd.Str("own")
	c[0].Metadata = metaOf(q, pv{true, []string{own}})
	at, at2 := 1+nd.Choice("policy in statement", int64(n-2)), 1+nd.Choice("another policy in statement", int64(n-2))
	add, add2 := nd.Str("added"), nd.Str("also added")
	for i := 1; i < n-1; i++ {
		p := pol{}
		if i == at2 {
			p["add"] = []string{add2}
		}
		if i == at {
			if i == at2 {
				nd.Stop()
			}
			p["add"] = []string{add}
		}
		c[i].MetadataPolicy = polsOf(q, p)
	}
	m, err := c.Metadata()
	nd.Assert(err == nil, "the long chain has metadata")
	l := []string{own}
	if at < at2 {
		add, add2 = add2, add
	}
	for _, a := range []string{add, add2} {
		if !elem(a, l) {
			l = append(l, a)
		}
	}
	got, set := get(m, q)
	nd.Assert(agrees(got, set, pv{true, l}), "the policies of all statements of a long chain apply")
	before, err := oidfed.TrustChain(c[:1]).Metadata()
	nd.Assert(err == nil, "the metadata of the subject is kept")
	got, set = get(before, q)
	nd.Assert(agrees(got, set, pv{true, []string{own}}), "the metadata of the subject is kept")
	nd.Cover("long chain")
}

// H_P14_wide: many marks of an entity, one of which is arbitrary.
func H_P14_wide() {
	n := nd.Bound("trust marks", 7, 16)
	pos := nd.Choice("position", n)
	now := nd.Now()
	var infos oidfed.TrustMarkInfos
	ok, typ := true, "t"
	for i := 0; i < int(n); i++ {
		o := obj{"iss": eA, "sub": eL, "trust_mark_type": fmt.Sprintf("t%d", i), "iat": now - 1, "exp": now + 1, "ref": fmt.Sprint(i)}
		info := oidfed.TrustMarkInfo{TrustMarkType: fmt.Sprintf("t%d", i)}
		if i == pos {
			typ = nd.Str("type")
			info.TrustMarkType, o["trust_mark_type"] = typ, typ
			k := nd.Int("key", 1, 2)
			ok = nd.And(period("mark", o), k == 1)
			info.TrustMarkJWT = string(nd.Sign(enc(o), typTM, k))
		} else {
			info.TrustMarkJWT = string(nd.Sign(enc(o), typTM, 1))
		}
		infos = append(infos, info)
	}
	got := infos.VerifiedExternal(nd.KeySet(1))
	nd.Assert(nd.Iff(len(got) == int(n), ok), "exactly the valid ones of many marks are kept")
	nd.Assert(nd.Or(ok, len(got) == int(n)-1), "exactly the valid ones of many marks are kept")
	k := 0
	for i := range infos {
		if k < len(got) && got[k].TrustMarkJWT == infos[i].TrustMarkJWT {
			k++
		} else {
			nd.Assert(i == pos, "every valid one of many marks is kept")
		}
	}
	nd.Assert(k == len(got), "the marks keep their order")
	// the first mark of a type is found
	t := nd.Str("wanted type")
	f := infos.FindByID(t)
	want := -1
	for i := int(n) - 1; i >= 0; i-- {
		if infos[i].TrustMarkType == t {
			want = i
		}
	}
	nd.Assert((f != nil) == (want >= 0), "a mark is found by its type exactly if there is one")
	nd.Assert(f == nil || f.TrustMarkJWT == infos[want].TrustMarkJWT, "the first mark of a type is found")
	nd.Cover("many marks")
}

// H_P15_wide: long lists of trust mark issuers and of owners.
func H_P15_wide() {
	n := nd.Bound("issuers per type", 7, 16)
	pos := nd.Choice("position", n)
	t := nd.Str("type")
	now := nd.Now()
	ta := &oidfed.EntityStatementPayload{Issuer: eT, Subject: eT, JWKS: nd.KeySet(1)}
	ta.IssuedAt.Time, ta.ExpiresAt.Time = unix(now), unix(now+day)
	ta.TrustMarkIssuers = oidfed.AllowedTrustMarkIssuers{}
	ta.TrustMarkOwners = oidfed.TrustMarkOwners{}
	var l []string
	word := "https://" + nd.Str("issuer")
	for i := 0; i < int(n); i++ {
		id := fmt.Sprintf("https://i%d.example.org", i)
		if i == pos {
			id = word
		}
		l = append(l, id)
		ta.TrustMarkIssuers[fmt.Sprintf("other%d", i)] = []string{id}
		ta.TrustMarkOwners[fmt.Sprintf("owned%d", i)] = oidfed.TrustMarkOwnerSpec{ID: id, JWKS: nd.KeySet(int64(i%3 + 1))}
		nd.Assume(nd.And(t != fmt.Sprintf("other%d", i), t != fmt.Sprintf("owned%d", i)))
	}
	ta.TrustMarkIssuers[t] = l
	if nd.Flag("anchor listed") {
		l[pos] = eT
	}
	nd.Serve(func(string, string, map[string][]string) (int, bool, []byte) { return 0, false, nil })
	o := obj{"iss": eT, "sub": eL, "trust_mark_type": t, "iat": now}
	info := oidfed.TrustMarkInfo{TrustMarkType: t, TrustMarkJWT: string(nd.Sign(enc(o), typTM, 1))}
	nd.Assert(nd.Iff(info.VerifyFederation(ta) == nil, l[pos] == eT), "a mark is accepted exactly if its issuer is anywhere in the list")
	nd.Cover("long list")
}

// H_P21_wide: filters over many chains of many lengths.
func H_P21_wide() {
	n := int(nd.Bound("many chains", 14, 20))
	var chains oidfed.TrustChains
	var lens []int
	pos, odd := nd.Choice("position", int64(n)), nd.Choice("length there", 9)
	for i := 0; i < n; i++ {
		k := (i * 5) % 7
		if i == pos {
			k = odd
		}
		lens = append(lens, k)
		chains = append(chains, longChain(k+3))
	}
	min, max := 99, 0
	for _, k := range lens {
		if k < min {
			min = k
		}
		if k > max {
			max = k
		}
	}
	limit := nd.Choice("limit", 10)
	which := nd.Choice("filter", 2)
	want := make([]bool, n)
	for i, k := range lens {
		if which == 0 {
			want[i] = k == min
		} else {
			want[i] = k <= limit
		}
	}
	switch which {
	case 0:
		selected(chains, chains.Filter(oidfed.TrustChainsFilterMinPathLength), want, "exactly the shortest of many chains are selected")
	case 1:
		selected(chains, chains.Filter(oidfed.TrustChainsFilterMaxPathLength(limit)), want, "exactly those of many chains within the limit are selected")
	}
	orig := append(oidfed.TrustChains{}, chains...)
	for d, sorted := range []func(oidfed.TrustChainScoringFnc) oidfed.TrustChains{chains.SortAsc, chains.SortDesc} {
		got := sorted(oidfed.TrustChainScoringPathLen)
		used := map[int]bool{}
		for i, c := range got {
			if i > 0 {
				nd.Assert(d == 0 && len(got[i-1]) <= len(c) || d == 1 && len(got[i-1]) >= len(c), "many chains are ordered by length")
			}
			for j := range orig {
				if sameChain(orig[j], c) {
					used[j] = true
				}
			}
		}
		nd.Assert(len(got) == n && len(used) == n, "sorting many chains gives a permutation")
	}
	nd.Cover("many chains")
}

// H_P28_wide: many ways to a trust anchor; the shortest usable one counts.
func H_P28_wide() {
	now := nd.Now()
	n := int(nd.Bound("ways", 4, 6))
	w := newWeb()
	hints := arr{}
	order := nd.Choice("order of the hints", 3)
	pos := nd.Choice("open way", int64(n))
	key, left := nd.Int("key", 1, 2), nd.Int("expires", -2, 2)
	bad := nd.Choice("unusable up to", int64(n+1)) // the ways shorter than that have unusable policies
	valid := nd.And(key == 1, left >= 0)
	entity := func(way, k int) string { return fmt.Sprintf("https://i%d-%d.example.org", way, k) }
	for i := 0; i < n; i++ {
		i := (i*(order+1) + order) % n
		if order == 1 && n%2 == 0 {
			i = n - 1 - i
		}
		h := eT
		if i > 0 {
			h = entity(i, 1)
		}
		if !has1s(hints, h) {
			hints = append(hints, h)
		}
	}
	for i := 0; i < n; i++ {
		h := eT
		if i > 0 {
			h = entity(i, 1)
		}
		if !has1s(hints, h) {
			hints = append(hints, h)
		}
	}
	cfg := func(id string, o obj) {
		o["iss"], o["sub"], o["iat"], o["exp"] = id, id, now, now+day
		w.cfg[id] = func() []byte { return nd.Sign(enc(o), typES, 1) }
	}
	cfg(eL, obj{"jwks": nd.KeySet(1), "authority_hints": hints, "metadata": obj{"openid_provider": obj{"issuer": eL}}})
	cfg(eT, obj{"jwks": nd.KeySet(1), "metadata": fedMeta(eT)})
	pol := func(i int) obj {
		claim := obj{"value": fmt.Sprint(i)}
		if i < bad {
			claim = obj{"one_of": arr{"x"}, "essential": true}
		}
		return obj{"openid_provider": obj{"organization_name": claim}}
	}
	st := func(iss, sub string, way int, last bool) []byte {
		o := obj{"iss": iss, "sub": sub, "iat": now - 9, "exp": now + day, "jwks": nd.KeySet(1)}
		k := int64(1)
		if last {
			o["metadata_policy"] = pol(way)
			if way == pos {
				k = key
				o["exp"] = now + left
			}
		}
		return nd.Sign(enc(o), typES, k)
	}
	for i := 1; i < n; i++ {
		for k := 1; k <= i; k++ {
			up, i, k := entity(i, k+1), i, k
			if k == i {
				up = eT
			}
			id := entity(i, k)
			cfg(id, obj{"jwks": nd.KeySet(1), "authority_hints": arr{up}, "metadata": fedMeta(id)})
			w.sub[id] = func(sub string) []byte {
				if k == 1 {
					return st(id, eL, i, true)
				}
				return st(id, entity(i, k-1), i, false)
			}
		}
	}
	w.sub[eT] = func(sub string) []byte {
		if sub == eL {
			return st(eT, eL, 0, true)
		}
		return st(eT, sub, -1, false)
	}
	w.start()
	m, err := oidfed.LocalMetadataResolver{}.Resolve(apimodel.ResolveRequest{Subject: eL, TrustAnchor: []string{eB, "https://no.example.org", eT2, eT}})
	want := -1
	for i := n - 1; i >= bad; i-- {
		if i != pos || valid {
			want = i
		}
	}
	nd.Assert((err == nil) == (want >= 0), "an entity with many ways is resolved exactly if one of them is usable")
	if err != nil {
		nd.Cover("no way")
		return
	}
	nd.Assert(nameIn(m) == fmt.Sprint(want), "the shortest usable one of many ways is taken")
	nd.Cover("many ways")
}

func has1s(l arr, x string) bool {
	for _, e := range l {
		if e == x {
			return true
		}
	}
	return false
}

// keysAmong are n key IDs, of which one is open.
func keysAmong(l string, n int64, pos int, open int64) (ids []int64) {
	for i := int64(0); i < n; i++ {
		if int(i) == pos {
			ids = append(ids, open)
		} else {
			ids = append(ids, 100+i)
		}
	}
	return
}

// H_P01_wide: many published keys, the right one anywhere or nowhere, in any
// of the documents of a chain or in the configured keys of the anchor.
func H_P01_wide() {
	ids := []string{eL, eA, eB, eT}
	w := line(ids...)
	n := nd.Bound("published keys", 7, 16)
	pos := nd.Choice("position", n)
	key := nd.Int("key", 0, 4)
	docs := []string{"EC " + eL, "EC " + eT, stmtOf(ids, 0), stmtOf(ids, 1), stmtOf(ids, 2)}
	signer := []int64{0, 3, 0, 1, 2}
	k := nd.Choice("document", int64(len(docs)+1))
	tas := anchors(eT)
	want := false
	if k < len(docs) {
		w.extra[docs[k]] = func(o obj) { o["jwks"] = nd.KeySet(keysAmong("key", n, pos, key)...) }
		want = key == signer[k]
	} else {
		tas[0].JWKS = nd.KeySet(keysAmong("key", n, pos, key)...)
		want = key == 3
	}
	w.start()
	r := oidfed.TrustResolver{TrustAnchors: tas, StartingEntity: eL}
	cs := r.ResolveToValidChains()
	if len(cs) == 1 {
		nd.Cover("chain with many keys")
	}
	if k == 0 {
		// the subject's own set does not count
		return
	}
	nd.Assert(nd.Iff(len(cs) == 1, want), "a signature is accepted exactly if its key is anywhere among the published ones")
}

// H_P03_long: a long chain, one document of which has an arbitrary life; the
// entity is resolved again some time later.
func H_P03_long() {
	ids := []string{eL}
	for i := int64(0); i < nd.Bound("intermediates of a long chain", 6, 12); i++ {
		ids = append(ids, fmt.Sprintf("https://i%d.example.org", i))
	}
	ids = append(ids, eT)
	w := line(ids...)
	start := nd.Now()
	var docs []string
	for i := range ids {
		docs = append(docs, "EC "+ids[i])
		if i+1 < len(ids) {
			docs = append(docs, stmtOf(ids, i))
		}
	}
	iat, exp := start+nd.Int("issued", -5, 5), start+nd.Int("expires", -5, 90)
	doc := docs[nd.Choice("document", int64(len(docs)))]
	w.extra[doc] = func(o obj) { o["iat"], o["exp"] = iat, exp }
	w.start()
	get := func() bool {
		r := oidfed.TrustResolver{TrustAnchors: anchors(eT), StartingEntity: eL}
		cs := r.ResolveToValidChains()
		for _, c := range cs {
			for _, s := range c {
				nd.Assert(s.IssuedAt.Unix() <= nd.Now() && s.ExpiresAt.Unix() >= nd.Now(), "every statement of a long chain is valid now")
			}
			nd.Cover("long chain")
		}
		return len(cs) > 0
	}
	get()
	nd.Advance(nd.Int("pause", 0, 60))
	get()
}

// H_P20_many: many cached statements; each is given back as what it was, and
// exactly until it expires.
func H_P20_many() {
	n := nd.Bound("cached statements", 12, 24)
	now := nd.Now()
	life := nd.Int("life", 1, 100)
	pos := nd.Choice("open statement", n)
	var ids []string
	calls := map[string]int{}
	for i := 0; i < int(n); i++ {
		ids = append(ids, fmt.Sprintf("https://e%d.example", i))
	}
	docs := map[string][]byte{}
	for i, id := range ids {
		exp := now + 1000
		if i == pos {
			exp = now + life
		}
		docs[id+suffix] = nd.Sign(enc(obj{"iss": id, "sub": id, "iat": now, "exp": exp, "jwks": nd.KeySet(int64(i + 1)), "ref": i}), typES, int64(i+1))
	}
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		calls[url]++
		return 200, false, docs[url]
	})
	get := func() {
		for i, id := range ids {
			s, err := oidfed.GetEntityConfiguration(id)
			nd.Assert(err == nil && s.Issuer == id && s.Subject == id, "each of many statements is obtained")
			nd.Assert(string(raw(oidfed.TrustChain{s}, 0)) == string(docs[id+suffix]), "each of many statements is the one asked for")
			nd.Assert(s.Verify(nd.KeySet(int64(i+1))), "each of many statements is the one asked for")
		}
	}
	get()
	get()
	for _, id := range ids {
		nd.Assert(calls[id+suffix] == 1, "each of many statements is cached")
	}
	p := nd.Int("pause", 0, 200)
	nd.Advance(p)
	get()
	for i, id := range ids {
		k := calls[id+suffix]
		nd.Assert(nd.Implies(nd.Or(i != pos, p < life), k == 1), "each of many statements is given until it expires")
		nd.Assert(nd.Implies(nd.And(i == pos, p > life), k == 2), "none of many statements is given after it expired")
	}
	nd.Cover("many statements")
}

// H_P24_wide: a deep and wide federation, one member of which is of any kind.
func H_P24_wide() {
	n := nd.Bound("members", 12, 20)
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	ms := []*member{{id: eT, kind: authority, listed: []int{1, 2, 3}}}
	for i := 1; i < int(n); i++ {
		m := &member{id: fmt.Sprintf("https://m%d.example", i), kind: leafEntity}
		if i+3 < int(n) { // three lines, each below the other, with a way back
			m.kind, m.listed = authority, []int{i + 3, (i + 4) % int(n)}
		}
		ms = append(ms, m)
	}
	m := ms[1+nd.Choice("open member", n-1)]
	m.kind = nd.Choice("kind", nMembers)
	m.fault = nd.Choice("fault", 6)
	if m.kind != listingFails && m.fault != 0 {
		nd.Stop()
	}
	match := func(m *member) bool { return true }
	if nd.Flag("type") {
		req.EntityTypes = []string{"a", "b", "c", "d", "openid_provider"}
		match = func(m *member) bool { return m.kind == leafEntity }
	}
	members(ms)
	for i := 0; i < 2; i++ {
		compare((&oidfed.SimpleEntityCollector{}).CollectEntities(req), collected(ms, match))
	}
	nd.Cover("large federation")
}

// H_P25_wide: many trust anchors with resolve endpoints, one of which answers.
func H_P25_wide() {
	n := nd.Bound("trust anchors", 6, 12)
	pos := nd.Choice("position", n)
	e := newEndpoint("open endpoint", "https://answer.example")
	now := nd.Now()
	w := newWeb()
	var tas []string
	asked := map[string]int{}
	for i := 0; i < int(n); i++ {
		ta := fmt.Sprintf("https://ta%d.example", i)
		tas = append(tas, ta)
		w.cfg[ta] = func() []byte {
			return nd.Sign(enc(obj{"iss": ta, "sub": ta, "iat": now, "exp": now + day, "jwks": nd.KeySet(1),
				"metadata": obj{"federation_entity": obj{"federation_resolve_endpoint": ta + "/resolve"}}}), typES, 1)
		}
		w.other[ta+"/resolve"] = func(p map[string][]string) (int, bool, []byte) {
			asked[ta]++
			if i == pos {
				e.asked = append(e.asked, p)
				return e.answer()
			}
			return 404, true, enc(obj{"error": "not_found"})
		}
	}
	w.start()
	req := apimodel.ResolveRequest{Subject: eA, TrustAnchor: tas}
	r := oidfed.SmartRemoteMetadataResolver{}
	ok := e.verdict == positive
	if nd.Flag("possible") {
		nd.Assume(e.verdict != empty)
		valid, invalid := r.ResolvePossible(req)
		nd.Assert(valid == (ok || e.verdict == onlyChain), "the verdict is that of the endpoint that gives one")
		ok = e.verdict != undecided
		_ = invalid
	} else {
		m, err := r.Resolve(req)
		nd.Assert((err == nil) == ok, "metadata exactly if one of many endpoints gives it")
		nd.Assert(!ok || isOP(m, e.issuer), "the metadata is that of the endpoint that gives it")
	}
	for i, ta := range tas {
		k := 1
		if ok && i > pos {
			k = 0
		}
		nd.Assert(asked[ta] == k, "the endpoints are asked in order until one decides")
	}
	e.checkAsked(1, req)
	nd.Cover("many endpoints")
}

// H_P26_wide: many entities and filters, one verdict of which is arbitrary, and
// long lists of needed and supported values.
func H_P26_wide() {
	n := nd.Bound("many entities", 9, 16)
	if nd.Flag("values") {
		needed, supported := many("needed", n-2, nd.Choice("open needed", n-2)), many("supported", n, nd.Choice("open supported", n))
		want := true
		for _, s := range needed {
			want = nd.And(want, elem(s, supported))
		}
		f := oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes([]string{eT}, needed...)
		op := &oidfed.OpenIDProviderMetadata{GrantTypesSupported: supported}
		if nd.Flag("scopes") {
			f = oidfed.EntityCollectionFilterOPSupportedScopesIncludes([]string{eT}, needed...)
			op = &oidfed.OpenIDProviderMetadata{ScopesSupported: supported}
		}
		oidfed.DefaultMetadataResolver = oracle{resolve: func(r apimodel.ResolveRequest) (*oidfed.Metadata, error) {
			return &oidfed.Metadata{OpenIDProvider: op}, nil
		}}
		nd.Assert(nd.Iff(f.Filter(&oidfed.CollectedEntity{EntityID: eA}), want), "a provider passes exactly if it supports all of many values")
		nd.Cover("many values")
		return
	}
	entity, filter := nd.Choice("open entity", n), nd.Choice("open filter", 7)
	accepted := nd.Flag("accepted")
	resolvable := nd.Flag("resolvable")
	var in []*oidfed.CollectedEntity
	for i := 0; i < int(n); i++ {
		in = append(in, &oidfed.CollectedEntity{EntityID: fmt.Sprintf("https://e%d.example", i)})
	}
	var fs []oidfed.EntityCollectionFilter
	for i := 0; i < 7; i++ {
		fs = append(fs, oidfed.NewEntityCollectionFilter(func(e *oidfed.CollectedEntity) bool {
			return accepted || i != filter || e.EntityID != in[entity].EntityID
		}))
	}
	oidfed.DefaultMetadataResolver = oracle{possible: func(r apimodel.ResolveRequest) (bool, bool) {
		return resolvable || r.Subject != in[entity].EntityID, false
	}}
	req := apimodel.EntityCollectionRequest{TrustAnchor: eT}
	orig := append([]*oidfed.CollectedEntity{}, in...)
	got := oidfed.FilterableVerifiedChainsEntityCollector{Collector: given{req, in}, Filters: fs}.CollectEntities(req)
	k := 0
	for i, e := range orig {
		if i == entity && !(accepted && resolvable) {
			continue
		}
		nd.Assert(k < len(got) && got[k] == e, "exactly those of many entities that meet all criteria are returned, in order")
		k++
	}
	nd.Assert(k == len(got), "exactly those of many entities that meet all criteria are returned, in order")
	nd.Cover("many entities")
}
