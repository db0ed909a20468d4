// Package zzverif holds the verification harnesses. It is compiled into the
// repository's module through an overlay; every H_Pxx_* function is one
// harness for property Pxx.
package zzverif

import (
	"encoding/json"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

type obj = map[string]any
type arr = []any

const (
	typES  = "entity-statement+jwt"
	typTM  = "trust-mark+jwt"
	typTMD = "trust-mark-delegation+jwt"
	typRR  = "resolve-response+jwt"
	suffix = "/.well-known/openid-federation"
	day    = 86400
)

func enc(v any) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// web is a set of HTTP resources; missing ones are transport failures.
type web struct {
	cfg   map[string]func() []byte           // entity id -> entity configuration
	sub   map[string]func(sub string) []byte // authority id -> fetch endpoint
	other map[string]func(map[string][]string) (int, bool, []byte)
	memo  map[string][]byte
	calls int
}

func newWeb() *web {
	return &web{cfg: map[string]func() []byte{}, sub: map[string]func(string) []byte{},
		other: map[string]func(map[string][]string) (int, bool, []byte){}, memo: map[string][]byte{}}
}

// start installs the web; every document is generated once, when first asked for.
func (w *web) start() {
	nd.Serve(func(method, url string, params map[string][]string) (int, bool, []byte) {
		w.calls++
		if f, ok := w.other[url]; ok {
			return f(params)
		}
		for id, f := range w.cfg {
			if url == id+suffix {
				return w.answer(url, f)
			}
		}
		for id, f := range w.sub {
			if url == id+"/fetch" {
				s := ""
				if v := params["sub"]; len(v) == 1 {
					s = v[0]
				}
				return w.answer(url+" "+s, func() []byte { return f(s) })
			}
		}
		return 404, true, []byte(`{"error":"not_found"}`)
	})
}

func (w *web) answer(k string, f func() []byte) (int, bool, []byte) {
	b, ok := w.memo[k]
	if !ok {
		b = f()
		w.memo[k] = b
	}
	if b == nil {
		return 0, false, nil
	}
	return 200, false, b
}

// fedMeta is the metadata of an authority.
func fedMeta(id string) obj {
	return obj{"federation_entity": obj{"federation_fetch_endpoint": id + "/fetch"}}
}

// raw returns the signed token of the i-th statement of a chain.
func raw(c oidfed.TrustChain, i int) []byte { return c.Messages()[i].RawJWT }

func has(s []string, x string) bool {
	for _, e := range s {
		if e == x {
			return true
		}
	}
	return false
}

func unix(s int64) time.Time { return time.Unix(s, 0) }
