package zzverif

import (
	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// linked is the oracle of P01: every link of the chain is justified.
func linked(c oidfed.TrustChain, start string, tas []oidfed.TrustAnchor, pins map[string][]int64) {
	n := len(c)
	nd.Assert(n >= 1, "a returned chain is not empty")
	nd.Assert(nd.And(c[0].Issuer == start, c[0].Subject == start), "the chain starts with the entity's own configuration")
	last := c[n-1]
	nd.Assert(last.Issuer == last.Subject, "the chain ends with an entity configuration")
	okTA := false
	for i := 1; i < n-1; i++ {
		nd.Assert(c[i].Subject == c[i-1].Issuer, "each statement is about the issuer of the one before")
	}
	if n > 1 {
		nd.Assert(n >= 3 && last.Issuer == c[n-2].Issuer, "the anchor's configuration follows its own statement")
	}
	signer := make([]int64, n)
	for i := range c {
		_, typ, id, ok := nd.Open(raw(c, i))
		nd.Assert(ok && typ == typES, "statements are signed entity statements")
		signer[i] = id
	}
	for i := 0; i < n-1; i++ {
		if i == n-2 {
			continue
		}
		nd.Assert(nd.HasKeys(c[i+1].JWKS, signer[i]), "the superior vouches for the signing key")
	}
	for _, ta := range tas {
		if ta.EntityID != last.Issuer {
			continue
		}
		okTA = true
		if pin, ok := pins[ta.EntityID]; ok {
			nd.Assert(signer[n-1] == pin[0], "the anchor's configuration is signed with the pinned key")
			if n > 1 {
				nd.Assert(signer[n-2] == pin[0], "the anchor's statement is signed with the pinned key")
			}
		} else {
			nd.Assert(nd.HasKeys(last.JWKS, signer[n-1]), "the anchor's configuration is self-signed")
			if n > 1 {
				nd.Assert(nd.HasKeys(last.JWKS, signer[n-2]), "the anchor's statement is signed with its published key")
			}
		}
	}
	nd.Assert(okTA, "the chain ends at a configured anchor")
}

// H_P01_links: leaf - intermediate - anchor; every issuer, subject, published
// key and signing key is arbitrary.
func H_P01_links() {
	const L, I, T = "https://leaf", "https://im", "https://ta"
	now := nd.Now()
	w := newWeb()
	name := func(l string) string { return "https://" + nd.Str(l) }
	stmt := func(l string, hints []string, auth string) []byte {
		o := obj{"iss": name(l + ".iss"), "sub": name(l + ".sub"), "iat": now, "exp": now + day,
			"jwks": nd.KeySet(nd.Int(l+".jwk", 0, 3))}
		if hints != nil {
			o["authority_hints"] = hints
		}
		if auth != "" {
			o["metadata"] = fedMeta(auth)
		} else {
			o["metadata"] = obj{"openid_provider": obj{}}
		}
		return nd.Sign(enc(o), typES, nd.Int(l+".sig", 0, 3))
	}
	w.cfg[L] = func() []byte { return stmt("L", []string{I, T}, "") }
	w.cfg[I] = func() []byte { return stmt("I", []string{T}, I) }
	w.cfg[T] = func() []byte { return stmt("T", nil, T) }
	w.sub[I] = func(s string) []byte { return stmt("I>", nil, "") }
	w.sub[T] = func(s string) []byte { return stmt("T>", nil, "") }
	w.start()
	tas := []oidfed.TrustAnchor{{EntityID: T}}
	pins := map[string][]int64{}
	if nd.Flag("pinned") {
		tas[0].JWKS = nd.KeySet(0)
		pins[T] = []int64{0}
	}
	r := oidfed.TrustResolver{TrustAnchors: tas, StartingEntity: L}
	cs := r.ResolveToValidChainsWithoutVerifyingMetadata()
	for _, c := range cs {
		nd.Cover("chain")
		if len(c) == 4 {
			nd.Cover("chain through intermediate")
		}
		linked(c, L, tas, pins)
	}
}
