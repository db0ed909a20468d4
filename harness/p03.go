package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// H_P03_times: issuance and expiry of every document are arbitrary; after an
// arbitrary time the entity is resolved again, with documents that may or may
// not have been renewed.
func H_P03_times() {
	const L, I, T = "https://leaf", "https://im", "https://ta"
	start := nd.Now()
	epoch := 0
	w := newWeb()
	doc := func(l, iss, sub string, key, jwk int64, hints []string, meta obj) func() []byte {
		type ver struct{ iat, exp int64 }
		var cur *ver
		ep := 0
		return func() []byte {
			if cur != nil && ep != epoch {
				if nd.Flag(l + " renewed") {
					cur = nil
				}
				ep = epoch
			}
			if cur == nil {
				ep = epoch
				cur = &ver{start + nd.Int(l+".iat", -60, 60), start + nd.Int(l+".exp", -60, 120)}
			}
			o := obj{"iss": iss, "sub": sub, "iat": cur.iat, "exp": cur.exp, "jwks": nd.KeySet(jwk)}
			if hints != nil {
				o["authority_hints"] = hints
			}
			if meta != nil {
				o["metadata"] = meta
			}
			return nd.Sign(enc(o), typES, key)
		}
	}
	docs := map[string]func() []byte{
		L + suffix:   doc("L", L, L, 1, 1, []string{I}, obj{"openid_provider": obj{}}),
		I + suffix:   doc("I", I, I, 2, 2, []string{T}, fedMeta(I)),
		T + suffix:   doc("T", T, T, 3, 3, nil, fedMeta(T)),
		I + "/fetch": doc("I>L", I, L, 2, 1, nil, nil),
		T + "/fetch": doc("T>I", T, I, 3, 2, nil, nil),
	}
	if !nd.Thorough() { // two-level federation
		docs[L+suffix] = doc("L", L, L, 1, 1, []string{T}, obj{"openid_provider": obj{}})
		docs[T+"/fetch"] = doc("T>L", T, L, 3, 1, nil, nil)
	}
	for u, f := range docs {
		w.other[u] = func(map[string][]string) (int, bool, []byte) { return 200, false, f() }
	}
	w.start()
	check := func(cs oidfed.TrustChains, when string) {
		now := nd.Now()
		for _, c := range cs {
			nd.Cover("chain " + when)
			for _, s := range c {
				nd.Assert(s.IssuedAt.Unix() <= now, "no statement of a returned chain is issued in the future")
				nd.Assert(s.ExpiresAt.Unix() >= now, "no statement of a returned chain is expired")
			}
		}
		if len(cs) == 0 {
			nd.Cover("no chain " + when)
		}
	}
	r := oidfed.TrustResolver{TrustAnchors: anchors(T), StartingEntity: L}
	check(r.ResolveToValidChains(), "first")
	nd.Advance(nd.Int("pause", 0, 120))
	epoch = 1
	if nd.Flag("same resolver") {
		check(r.ResolveToValidChains(), "later")
	} else {
		r2 := oidfed.TrustResolver{TrustAnchors: anchors(T), StartingEntity: L}
		check(r2.ResolveToValidChains(), "later")
	}
}

// H_P03_metadata: the validity of a chain also bounds how long its resolved
// metadata is used.
func H_P03_metadata() {
	const L, T = "https://leaf", "https://ta"
	start := nd.Now()
	w := newWorld([]string{L, T}, func(id string) []string {
		if id == L {
			return []string{T}
		}
		return nil
	})
	life := map[string]int64{}
	for _, d := range []string{"EC " + L, "EC " + T, "ST " + T + " " + L} {
		w.extra[d] = func(o obj) {
			life[d] = nd.Int("life "+d, 1, 100)
			o["exp"] = start + life[d]
		}
	}
	w.start()
	meta := func() bool {
		r := oidfed.TrustResolver{TrustAnchors: anchors(T), StartingEntity: L}
		cs := r.ResolveToValidChains()
		for _, c := range cs {
			m, err := c.Metadata()
			nd.Assert(err == nil && m != nil && m.FederationEntity != nil, "metadata of a valid chain resolves")
		}
		return len(cs) > 0
	}
	nd.Assert(meta(), "the chain is valid at first")
	nd.Advance(nd.Int("pause", 0, 120))
	now := nd.Now()
	want := true
	for _, d := range []string{"EC " + L, "EC " + T, "ST " + T + " " + L} {
		want = nd.And(want, start+life[d] >= now)
	}
	got := meta()
	nd.Assert(nd.Iff(want, got), "the entity resolves exactly until its first statement expires")
	if got {
		nd.Cover("still valid")
	} else {
		nd.Cover("expired")
	}
}
