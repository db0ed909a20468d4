package zzverif

import (
	"github.com/lestrrat-go/jwx/v3/jwa"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/unixtime"
)

const never = int64(1) << 50 // "expiry" of a mark that does not expire

// issuer is a trust mark issuer that answers as it likes and remembers the
// last good mark it delivered.
type issuer struct {
	typ      string
	n        int
	cur      string // current good mark
	exp      int64  // its expiry
	attempts []int64
	delivers bool // the next answer is a good mark
	expSoon  bool // lifetimes are small
}

func (i *issuer) lifetime(l string) (o obj, exp int64) {
	i.n++
	o = obj{"iss": eA, "sub": eL, "iat": nd.Now(), "trust_mark_type": i.typ, "number": i.n}
	if nd.Flag(l + " expires") {
		exp = nd.Now() + nd.Int(l+" lifetime", 1, 8000)
		o["exp"] = exp
		return
	}
	return o, never
}

// answer is one answer of the trust mark endpoint.
func (i *issuer) answer(kinds int64) (int, bool, []byte) {
	o, exp := i.lifetime("mark")
	k := int64(1)
	switch nd.Choice("answer", kinds) {
	case 1:
		return 0, false, nil
	case 2:
		return 404, true, []byte(`{"error":"not_found"}`)
	case 3:
		return 200, false, []byte("garbage")
	case 4:
		o["trust_mark_type"] = "another type"
		return 200, false, nd.Sign(enc(o), typTM, k)
	case 5:
		o["sub"] = eB
		return 200, false, nd.Sign(enc(o), typTM, k)
	case 6:
		o["iat"], o["exp"] = nd.Now()-10, nd.Now()-nd.Int("expired since", 1, 9)
		return 200, false, nd.Sign(enc(o), typTM, k)
	case 7:
		return 200, false, nd.Sign(enc(o), typES, k)
	case 8:
		return 500, false, []byte("oops")
	}
	i.cur, i.exp = string(nd.Sign(enc(o), typTM, k)), exp
	i.delivers = true
	return 200, false, []byte(i.cur)
}

func (i *issuer) start(kinds int64) {
	w := newWeb()
	start := nd.Now()
	w.cfg[eA] = func() []byte {
		return nd.Sign(enc(obj{"iss": eA, "sub": eA, "iat": start, "exp": start + 90*day, "jwks": nd.KeySet(1),
			"metadata": obj{"federation_entity": obj{"federation_trust_mark_endpoint": eA + "/mark"}}}), typES, 1)
	}
	w.other[eA+"/mark"] = func(p map[string][]string) (int, bool, []byte) {
		nd.Assert(len(p["sub"]) == 1 && p["sub"][0] == eL && len(p["trust_mark_type"]) == 1 && p["trust_mark_type"][0] == i.typ, "the entity's mark of the configured type is requested")
		i.attempts = append(i.attempts, nd.Now())
		return i.answer(kinds)
	}
	w.start()
}

// remains tells whether the current mark is valid for more than min seconds.
func (i *issuer) remains(min int64) bool { return i.cur != "" && i.exp-nd.Now() > min }

// check compares one answer of the refresher with the issuer's view before (was) the request.
func (i *issuer) check(was issuer, min int64, tok string, err error) {
	now := nd.Now()
	if was.remains(min) {
		nd.Cover("served unchanged")
		nd.Assert(err == nil && tok == was.cur, "a mark is served unchanged while its remaining lifetime exceeds the minimum")
		return
	}
	tried := len(i.attempts) > len(was.attempts)
	if !tried {
		nd.Cover("too early")
		nd.Assert(len(was.attempts) > 0 && now-was.attempts[len(was.attempts)-1] < 60, "a mark that is needed is requested unless that was tried within the last minute")
		nd.Assert(err != nil, "no stale mark is served")
		return
	}
	if i.delivers {
		nd.Cover("renewed")
		nd.Assert(err == nil && tok == i.cur, "the renewed mark is served")
	} else {
		nd.Cover("failed")
		nd.Assert(err != nil, "no mark is served if renewal fails")
	}
}

func (i *issuer) rate() {
	for k := 1; k < len(i.attempts); k++ {
		nd.Assert(i.attempts[k]-i.attempts[k-1] >= 60, "renewal is attempted at most once a minute")
	}
}

// config is an arbitrary refresher configuration of the issuer.
func (i *issuer) config() (c *oidfed.EntityConfigurationTrustMarkConfig, min, grace int64, refresh bool) {
	c = &oidfed.EntityConfigurationTrustMarkConfig{}
	min, grace, refresh = 10, 3600, true
	if !nd.Flag("defaults") {
		min = nd.Int("minimum", 1, 4000)
		c.MinLifetime.Duration = unix(min).Sub(unix(0))
		grace = 600
		c.RefreshGracePeriod = unixtime.NewDurationInSeconds(600)
	}
	if nd.Flag("mark configured") {
		o, exp := i.lifetime("configured")
		i.cur, i.exp = string(nd.Sign(enc(o), typTM, 1)), exp
		c.JWT = i.cur
		refresh = nd.Flag("refresh")
		c.Refresh = refresh
	} else {
		c.TrustMarkType, c.TrustMarkIssuer = i.typ, eA
	}
	return
}

// H_P17_history: a sequence of requests for a mark obtained from another issuer.
func H_P17_history() { requests(nd.Bound("kinds of answers", 5, 6), nd.Bound("requests", 3, 4)) }

// H_P17_answers: a few requests with all kinds of answers.
func H_P17_answers() { requests(nd.Bound("kinds of answers", 9, 9), nd.Bound("requests", 2, 3)) }

func requests(kinds, n int64) {
	i := &issuer{typ: "a"}
	c, min, grace, refresh := i.config()
	i.start(kinds)
	nd.Assert(c.Verify(eL, "", nil) == nil, "the configuration is accepted")
	nd.Assert(c.TrustMarkType == i.typ && c.TrustMarkIssuer == eA, "type and issuer are known")
	for s := int64(0); s < n; s++ {
		nd.Advance(nd.Int("pause", 0, 7200))
		was := *i
		i.delivers = false
		tok, err := c.TrustMarkJWT()
		nd.Quiesce()
		if !refresh {
			nd.Cover("refresh off")
			nd.Assert(err == nil && tok == was.cur && len(i.attempts) == 0, "the configured mark is served when refreshing is off")
			continue
		}
		i.check(was, min, tok, err)
		if was.remains(min) && was.exp-nd.Now() < grace && (len(was.attempts) == 0 || nd.Now()-was.attempts[len(was.attempts)-1] >= 60) {
			nd.Cover("renewed in background")
			nd.Assert(len(i.attempts) > len(was.attempts), "a mark is renewed in the background within the grace period")
		}
	}
	i.rate()
}

// H_P17_self: a sequence of requests for a self-issued mark.
func H_P17_self() {
	lf := nd.Int("lifetime", 0, 8000)
	key := nd.Int("key", 1, 2)
	c := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: "a", SelfIssued: true, Refresh: nd.Flag("refresh")}
	c.SelfIssuanceSpec.Lifetime.Duration = unix(lf).Sub(unix(0))
	nd.Assert(c.Verify(eL, "", oidfed.NewTrustMarkSigner(nd.Key(key), jwa.ES512())) == nil, "the configuration is accepted")
	cur, exp, last := "", int64(0), int64(-100)
	n := nd.Bound("requests", 4, 6)
	for s := int64(0); s < n; s++ {
		nd.Advance(nd.Int("pause", 0, 7200))
		tok, err := c.TrustMarkJWT()
		nd.Quiesce()
		now := nd.Now()
		if cur != "" && exp-now > 10 {
			nd.Assert(err == nil && tok == cur, "a mark is served unchanged while its remaining lifetime exceeds the minimum")
			if exp-now >= 3600 {
				continue
			}
			// it may have been renewed in the background: ask again
			tok, err = c.TrustMarkJWT()
			nd.Quiesce()
			nd.Assert(err == nil, "a mark keeps being served while it is renewed")
		} else if err != nil {
			nd.Cover("too early")
			nd.Assert(now-last < 60, "an expired mark is renewed unless that was tried within the last minute")
			continue
		}
		if tok == cur {
			nd.Assert(now-last < 60, "a mark close to its expiry is renewed")
			continue
		}
		nd.Cover("renewed")
		nd.Assert(now-last >= 60, "renewal is attempted at most once a minute")
		last = now
		tm, e := oidfed.ParseTrustMark([]byte(tok))
		nd.Assert(e == nil && tm.Issuer == eL && tm.Subject == eL && tm.TrustMarkType == "a", "a mark of this entity for itself")
		nd.Assert(tm.VerifyExternal(nd.KeySet(key)) == nil, "the mark is valid")
		cur, exp = tok, never
		if lf != 0 {
			exp = now + lf
		}
	}
}

// H_P17_configuration: the entity configuration contains exactly the marks that can be served.
func H_P17_configuration() {
	i := &issuer{typ: "a"}
	c, min, _, refresh := i.config()
	i.start(nd.Bound("kinds of answers", 4, 9))
	nd.Assert(c.Verify(eL, "", nil) == nil, "the configuration is accepted")
	self := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: "b", SelfIssued: true}
	nd.Assert(self.Verify(eL, "", oidfed.NewTrustMarkSigner(nd.Key(1), jwa.ES512())) == nil, "the configuration is accepted")
	f, err := oidfed.NewFederationEntity(eL, nil, nil, oidfed.NewEntityStatementSigner(nd.Key(1), jwa.ES512()), 0, nil)
	nd.Assert(err == nil, "the entity is created")
	f.TrustMarks = []*oidfed.EntityConfigurationTrustMarkConfig{c, self}
	n := nd.Bound("configurations", 2, 3)
	for s := int64(0); s < n; s++ {
		nd.Advance(nd.Int("pause", 0, 7200))
		was := *i
		i.delivers = false
		p := f.EntityConfigurationPayload()
		nd.Quiesce()
		k := 0
		if !refresh || was.remains(min) || i.delivers {
			want := i.cur
			if !refresh || was.remains(min) {
				want = was.cur
			}
			nd.Assert(len(p.TrustMarks) > 0 && p.TrustMarks[0].TrustMarkType == "a" && p.TrustMarks[0].TrustMarkJWT == want, "the mark is in the configuration")
			k = 1
		}
		nd.Assert(len(p.TrustMarks) == k+1 && p.TrustMarks[k].TrustMarkType == "b", "a failing mark does not affect the others")
	}
}

// H_P17_race: concurrent requests while the mark is refreshed in the background.
func H_P17_race() {
	nd.Races(true)
	nd.Schedules(nd.Bound("context switches", 1, 2))
	i := &issuer{typ: "a"}
	c := &oidfed.EntityConfigurationTrustMarkConfig{Refresh: true, JWT: string(nd.Sign(enc(obj{"iss": eA, "sub": eL, "iat": nd.Now(), "trust_mark_type": "a", "exp": nd.Now() + nd.Int("remaining", 5, 100)}), typTM, 1))}
	i.start(2)
	nd.Assert(c.Verify(eL, "", nil) == nil, "the configuration is accepted")
	done := make(chan int, 2)
	for k := 0; k < 2; k++ {
		go func() {
			_, _ = c.TrustMarkJWT()
			done <- 1
		}()
	}
	<-done
	<-done
	_, _ = c.TrustMarkJWT()
	nd.Quiesce()
	i.rate()
}
