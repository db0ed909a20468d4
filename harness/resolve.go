package zzverif

import (
	"fmt"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// ids of a chain: the issuers from the subject up to the anchor.
func chainIDs(c oidfed.TrustChain) string {
	var s []string
	for i, st := range c {
		if i == len(c)-1 && len(c) > 1 {
			break // the anchor's configuration repeats the last issuer
		}
		if i == 0 {
			s = append(s, st.Subject)
		} else {
			s = append(s, st.Issuer)
		}
	}
	return strings.Join(s, " ")
}

// world is a federation whose edges and faults are chosen lazily.
type world struct {
	*web
	ids    []string            // entity IDs
	key    map[string]int64    // signing key of each entity
	hints  map[string][]string // chosen hints
	bad    map[string]string   // document -> fault
	faults int                 // remaining number of faults
	pick   func(id string) []string
	kinds  []string               // fault kinds
	extra  map[string]func(o obj) // document -> additional claims
}

func (w *world) hintsOf(id string) []string {
	h, ok := w.hints[id]
	if !ok {
		h = w.pick(id)
		w.hints[id] = h
	}
	return h
}

// fault decides lazily whether a document is faulty.
func (w *world) fault(doc string) string {
	f, ok := w.bad[doc]
	if ok {
		return f
	}
	if w.faults > 0 && len(w.kinds) > 0 {
		if k := nd.Choice("fault "+doc, int64(len(w.kinds)+1)); k > 0 {
			f = w.kinds[k-1]
			w.faults--
		}
	}
	w.bad[doc] = f
	return f
}

func (w *world) sign(doc string, o obj, key int64) []byte {
	now := nd.Now()
	if f := w.extra[doc]; f != nil {
		f(o)
	}
	switch w.fault(doc) {
	case "unreachable":
		return nil
	case "expired":
		o["exp"] = now - 10
	case "future":
		o["iat"] = now + 10
	case "missigned":
		key = 99
	case "issuer":
		o["iss"] = "https://other"
	case "subject":
		o["sub"] = "https://other"
	case "keys":
		o["jwks"] = nd.KeySet(98)
	case "endpoint":
		if _, ok := o["metadata"]; ok {
			o["metadata"] = obj{"federation_entity": obj{}}
		} else {
			return nil
		}
	case "meta":
		delete(o, "metadata")
	case "type":
		return nd.Sign(enc(o), typTM, key)
	case "garbage":
		return []byte("not a token")
	}
	return nd.Sign(enc(o), typES, key)
}

func newWorld(ids []string, pick func(id string) []string) *world {
	w := &world{web: newWeb(), ids: ids, key: map[string]int64{}, hints: map[string][]string{}, bad: map[string]string{}, pick: pick,
		extra: map[string]func(obj){}}
	for i, id := range ids {
		w.key[id] = int64(i)
		w.cfg[id] = func() []byte {
			now := nd.Now()
			o := obj{"iss": id, "sub": id, "iat": now, "exp": now + day, "jwks": nd.KeySet(w.key[id]), "metadata": fedMeta(id)}
			if h := w.hintsOf(id); len(h) > 0 {
				o["authority_hints"] = h
			}
			return w.sign("EC "+id, o, w.key[id])
		}
		w.sub[id] = func(sub string) []byte {
			now := nd.Now()
			k, ok := w.key[sub]
			if !ok {
				return nil
			}
			o := obj{"iss": id, "sub": sub, "iat": now, "exp": now + day, "jwks": nd.KeySet(k)}
			return w.sign("ST "+id+" "+sub, o, w.key[id])
		}
	}
	return w
}

// good reports whether the documents of the link are all usable.
func (w *world) goodLink(from, to string) bool {
	return w.bad["EC "+to] == "" && w.bad["ST "+to+" "+from] == ""
}

// paths enumerates the valid simple paths from id to a configured anchor,
// ending at the first one.
func (w *world) paths(id string, tas []string, seen []string) (out []string) {
	seen = append(append([]string{}, seen...), id)
	if has(tas, id) {
		return []string{strings.Join(seen, " ")}
	}
	done := []string{}
	for _, h := range w.hintsOf(id) {
		if has(seen, h) || has(done, h) || !has(w.ids, h) || !w.goodLink(id, h) {
			continue
		}
		done = append(done, h)
		out = append(out, w.paths(h, tas, seen)...)
	}
	return out
}

func count(s []string, x string) int {
	n := 0
	for _, e := range s {
		if e == x {
			n++
		}
	}
	return n
}

func subset(mask int, of ...string) (out []string) {
	for i, s := range of {
		if mask>>i&1 == 1 {
			out = append(out, s)
		}
	}
	return
}

// checkComplete compares the returned chains with the valid paths.
func (w *world) checkComplete(start string, tas []string, cs oidfed.TrustChains) {
	var got []string
	for _, c := range cs {
		got = append(got, chainIDs(c))
	}
	var want []string
	if w.bad["EC "+start] == "" {
		want = w.paths(start, tas, nil)
	}
	for _, p := range want {
		nd.Assert(count(got, p) >= 1, "every valid path is returned")
		nd.Assert(count(got, p) <= 1, "every valid path is returned once")
	}
	for _, g := range got {
		nd.Assert(has(want, g), "only valid paths are returned")
	}
	nd.Obs("paths", strings.Join(got, " | "))
	switch {
	case len(want) > 1:
		nd.Cover("several chains")
	case len(want) == 1:
		nd.Cover("one chain")
	default:
		nd.Cover("no chain")
	}
}

const (
	eL  = "https://leaf.example.org"
	eA  = "https://a.example.org"
	eB  = "https://b.example.org/fed"
	eT  = "https://ta.example.com"
	eT2 = "https://ta2.example.com"
)

func anchors(ids ...string) (t []oidfed.TrustAnchor) {
	for _, i := range ids {
		t = append(t, oidfed.TrustAnchor{EntityID: i})
	}
	return
}

// H_P02_faults: one (thorough: two) arbitrary faulty documents anywhere in a
// diamond-shaped federation with arbitrary hints of the leaf.
func H_P02_faults() {
	w := newWorld([]string{eL, eA, eB, eT}, func(id string) []string {
		switch id {
		case eL:
			return subset(nd.Choice("hints L", 8), eA, eB, eT)
		case eA:
			return []string{eT, eB}
		case eB:
			return []string{eA, eT, eL}
		}
		return nil
	})
	w.faults = int(nd.Bound("faults", 1, 2))
	w.kinds = []string{"unreachable", "expired", "future", "missigned", "issuer", "subject", "keys", "endpoint", "type", "garbage"}
	w.start()
	r := oidfed.TrustResolver{TrustAnchors: anchors(eT), StartingEntity: eL}
	cs := r.ResolveToValidChainsWithoutVerifyingMetadata()
	// a configuration without endpoint is fine for the leaf and the anchor's statements need it
	if w.bad["EC "+eL] == "endpoint" {
		w.bad["EC "+eL] = ""
	}
	for k, f := range w.bad {
		if f == "keys" && strings.HasPrefix(k, "EC ") && k != "EC "+eT {
			w.bad[k] = "" // the keys its superior published count
		}
	}
	w.checkComplete(eL, []string{eT}, cs)
}

// H_P02_hints: hints are arbitrary words (known entities, unknown ones,
// repeated ones); every document is fine.
func H_P02_hints() {
	n := nd.Bound("hints per entity", 2, 3)
	budget := nd.Bound("symbolic hints", 5, 6)
	w := newWorld([]string{"https://leaf", "https://aa", "https://bb", "https://ta", "https://tb"}, func(id string) (h []string) {
		for i := int64(0); i < n && budget > 0; i++ {
			if !nd.Flag(id + " more") {
				break
			}
			budget--
			h = append(h, "https://"+nd.Str(id+" hint"))
		}
		return h
	})
	w.start()
	tas := []string{"https://ta", "https://tb"}
	r := oidfed.TrustResolver{TrustAnchors: anchors(tas...), StartingEntity: "https://leaf"}
	w.checkComplete("https://leaf", tas, r.ResolveToValidChainsWithoutVerifyingMetadata())
}

// sdoc is a statement all of whose relevant claims are arbitrary.
type sdoc struct {
	iss, sub string
	iat, exp int64
	jwk, sig int64
	present  bool
	made     bool
	hints    []string
	meta     obj
	l        string
}

func (d *sdoc) make() *sdoc {
	if !d.made {
		d.made = true
		now := nd.Now()
		d.iss, d.sub = "https://"+nd.Str(d.l+".iss"), "https://"+nd.Str(d.l+".sub")
		d.iat, d.exp = now-5, now+nd.Int(d.l+".exp", -5, 5)
		if nd.Thorough() {
			d.iat = now + nd.Int(d.l+".iat", -5, 5)
		}
		d.jwk, d.sig = nd.Int(d.l+".jwk", 0, 4), nd.Int(d.l+".sig", 0, 4)
		d.present = !nd.Thorough() || nd.Flag(d.l+".present")
	}
	return d
}

func (d *sdoc) bytes() []byte {
	d.make()
	if !d.present {
		return nil
	}
	o := obj{"iss": d.iss, "sub": d.sub, "iat": d.iat, "exp": d.exp, "jwks": nd.KeySet(d.jwk)}
	if d.hints != nil {
		o["authority_hints"] = d.hints
	}
	if d.meta != nil {
		o["metadata"] = d.meta
	}
	return nd.Sign(enc(o), typES, d.sig)
}

// ok: the document exists, is about the right entity and currently valid.
func (d *sdoc) ok(iss, sub string, now int64) bool {
	d.make()
	return nd.And(d.present, d.iss == iss, d.sub == sub, d.iat <= now, d.exp >= now)
}

// H_P02_formula: leaf below an intermediate and an anchor; issuer, subject,
// validity, published and signing key of every document are arbitrary. A
// chain is returned exactly if its documents justify it.
func H_P02_formula() {
	const L, I, T = "https://leaf", "https://im", "https://ta"
	now := nd.Now()
	eL := &sdoc{l: "L", hints: []string{I, T}, meta: obj{"openid_provider": obj{}}}
	eI := &sdoc{l: "I", hints: []string{T}, meta: fedMeta(I)}
	eT := &sdoc{l: "T", meta: fedMeta(T)}
	sIL, sTI, sTL := &sdoc{l: "I>L"}, &sdoc{l: "T>I"}, &sdoc{l: "T>L"}
	w := newWeb()
	w.cfg[L], w.cfg[I], w.cfg[T] = eL.bytes, eI.bytes, eT.bytes
	w.sub[I] = func(s string) []byte {
		if s != L {
			nd.Stop()
		}
		return sIL.bytes()
	}
	w.sub[T] = func(s string) []byte {
		if s == L {
			return sTL.bytes()
		} else if s == I {
			return sTI.bytes()
		}
		nd.Stop()
		return nil
	}
	w.start()
	tas := anchors(T)
	pinned := nd.Flag("pinned")
	if pinned {
		tas[0].JWKS = nd.KeySet(0)
	}
	r := oidfed.TrustResolver{TrustAnchors: tas, StartingEntity: L}
	cs := r.ResolveToValidChainsWithoutVerifyingMetadata()
	long, short := 0, 0
	for _, c := range cs {
		if len(c) == 4 {
			long++
		} else if len(c) == 3 {
			short++
		} else {
			nd.Assert(false, "only the two possible chains are returned")
		}
	}
	taKey := func() int64 {
		if pinned {
			return 0
		}
		return eT.jwk
	}
	common := nd.And(eL.ok(L, L, now), eT.ok(T, T, now), eT.sig == taKey())
	wantShort := nd.And(common, sTL.ok(T, L, now), sTL.sig == taKey(), eL.sig == sTL.jwk)
	wantLong := nd.And(common, eI.ok(I, I, now), sIL.ok(I, L, now), sTI.ok(T, I, now), sTI.sig == taKey(),
		sIL.sig == sTI.jwk, eI.sig == sTI.jwk, eL.sig == sIL.jwk)
	nd.Assert(nd.Iff(wantShort, short == 1), "the direct chain is returned exactly if it is valid")
	nd.Assert(nd.Iff(wantLong, long == 1), "the chain through the intermediate is returned exactly if it is valid")
	nd.Assert(short <= 1 && long <= 1, "no chain is returned twice")
	if short+long == 2 {
		nd.Cover("both chains")
	}
	if short == 1 && long == 0 {
		nd.Cover("only direct")
	}
	if short == 0 && long == 1 {
		nd.Cover("only through intermediate")
	}
}

// H_P05_termination: arbitrary hint words for every entity including the
// anchor, with defective configurations; every resolution ends, no chain
// repeats an entity.
func H_P05_termination() {
	n := nd.Bound("hints per entity", 2, 3)
	budget := nd.Bound("symbolic hints", 3, 5)
	const L, T = "https://leaf", "https://ta"
	w := newWorld([]string{L, "https://aa", "https://bb", T}, func(id string) (h []string) {
		for i := int64(0); i < n && budget > 0; i++ {
			if !nd.Flag(id + " more") {
				break
			}
			budget--
			h = append(h, "https://"+nd.Str(id+" hint"))
		}
		return h
	})
	w.faults = int(nd.Bound("defects", 1, 2))
	w.kinds = []string{"meta", "endpoint", "keys"}
	w.start()
	start := []string{L, T}[nd.Choice("start", 2)]
	r := oidfed.TrustResolver{TrustAnchors: anchors(T), StartingEntity: start}
	cs := r.ResolveToValidChains()
	nd.Assert(w.calls <= 200, "resolution is bounded by the number of simple paths")
	for _, c := range cs {
		ids := strings.Split(chainIDs(c), " ")
		for i := range ids {
			nd.Assert(count(ids, ids[i]) == 1, "no entity occurs twice in a chain")
		}
		nd.Cover(fmt.Sprint("chain of ", len(ids)))
	}
	nd.Cover("ends")
}

// H_P05_degenerate: documents without any of the optional or required parts.
func H_P05_degenerate() {
	w := newWeb()
	now := nd.Now()
	doc := func(l, iss, sub string, meta obj) []byte {
		o := obj{}
		if !nd.Flag(l + " no iss") {
			o["iss"] = iss
		}
		if !nd.Flag(l + " no sub") {
			o["sub"] = sub
		}
		switch nd.Choice(l+" times", 3) {
		case 0:
			o["iat"], o["exp"] = now, now+day
		case 1:
			o["exp"] = now + day
		}
		if !nd.Flag(l + " no jwks") {
			o["jwks"] = nd.KeySet(1)
		}
		if meta != nil && !nd.Flag(l+" no meta") {
			o["metadata"] = meta
		}
		if iss != eT {
			o["authority_hints"] = []string{eT}
		}
		return nd.Sign(enc(o), typES, 1)
	}
	w.cfg[eL] = func() []byte { return doc("L", eL, eL, obj{"openid_provider": obj{}}) }
	w.cfg[eT] = func() []byte { return doc("T", eT, eT, fedMeta(eT)) }
	w.sub[eT] = func(string) []byte { return doc("S", eT, eL, nil) }
	w.start()
	r := oidfed.TrustResolver{TrustAnchors: anchors(eT), StartingEntity: eL}
	if nd.Flag("types") {
		r.Types = []string{"openid_provider"}
	}
	cs := r.ResolveToValidChains()
	for _, c := range cs {
		nd.Cover("chain")
		_, err := c.Metadata()
		nd.Assert(err == nil, "metadata resolves")
	}
	nd.Cover("ends")
}

// H_P02_long: a long line of authorities with one arbitrary defect anywhere.
func H_P02_long() {
	ids := []string{eL}
	for i := int64(0); i < nd.Bound("intermediates", 7, 12); i++ {
		ids = append(ids, fmt.Sprintf("https://i%d.example.org", i))
	}
	ids = append(ids, eT)
	w := line(ids...)
	w.faults = 1
	w.kinds = []string{"unreachable", "expired", "missigned", "issuer", "future", "subject"}[:nd.Bound("kinds of defects", 4, 6)]
	w.start()
	r := oidfed.TrustResolver{TrustAnchors: anchors(eT2, eT), StartingEntity: eL}
	cs := r.ResolveToValidChains()
	w.checkComplete(eL, []string{eT}, cs)
	for _, c := range cs {
		nd.Assert(len(c) == len(ids)+1, "the chain is complete")
		linked(c, eL, r.TrustAnchors, nil)
	}
}

// H_P02_wide: an entity with many authorities, one of which has an arbitrary
// defect; some are below several anchors.
func H_P02_wide() {
	n := nd.Bound("authorities", 8, 20)
	ids := []string{eL, eT, eT2}
	var auth []string
	for i := int64(0); i < n; i++ {
		auth = append(auth, fmt.Sprintf("https://i%d.example.org", i))
	}
	ids = append(ids, auth...)
	w := newWorld(ids, func(id string) []string {
		switch id {
		case eL:
			return append(append([]string{"https://unknown.example"}, auth...), eT)
		case eT, eT2:
			return nil
		case auth[1]:
			return []string{eT2, eT}
		case auth[2]:
			return []string{auth[3], eT2}
		}
		return []string{eT}
	})
	w.faults = 1
	w.kinds = []string{"unreachable", "expired", "missigned", "issuer", "future", "subject"}[:nd.Bound("kinds of defects", 3, 6)]
	w.start()
	r := oidfed.TrustResolver{TrustAnchors: anchors(eT, eT2), StartingEntity: eL}
	w.checkComplete(eL, []string{eT, eT2}, r.ResolveToValidChains())
}
