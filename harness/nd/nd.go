// Package nd is the nondeterminism API of the verification harnesses. The
// symbolic engine intercepts every function here; this file is the native
// implementation used to replay solver models against the real build.
package nd

import (
	"bufio"
	"bytes"
	"context"
	"crypto"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/lestrrat-go/jwx/v3/jwa"
	"github.com/lestrrat-go/jwx/v3/jwk"
	"github.com/lestrrat-go/jwx/v3/jws"
	"github.com/redis/go-redis/v9"

	ihttp "github.com/go-oidfed/lib/internal/http"
	"github.com/go-oidfed/lib/jwks"
)

// Start is the time at which harnesses start, natively and in the engine; it
// lies in the future.
const Start = 2524608000

type witness struct {
	Harness string            `json:"harness"`
	Tier    string            `json:"tier"`
	Vals    map[string]int64  `json:"vals"`
	Strs    map[string]string `json:"strs"`
	Bytes   map[string]string `json:"bytes"`
}

type result struct {
	Status string   `json:"status"`
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
}

var (
	mu     sync.Mutex
	wit    witness
	names  = map[string]int{}
	res    result
	covers = map[string]bool{}
	out    string
)

// Load reads a witness file (native replay only).
func Load(file, outFile string) (string, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return "", err
	}
	out = outFile
	if err = json.Unmarshal(b, &wit); err != nil {
		return "", err
	}
	write("running", "")
	return wit.Harness, nil
}

func write(status, msg string) {
	res.Status, res.Msg = status, msg
	res.Covers = nil
	for c := range covers {
		res.Covers = append(res.Covers, c)
	}
	sort.Strings(res.Covers)
	b, _ := json.Marshal(res)
	_ = os.WriteFile(out, b, 0o644)
}

// Finish records the outcome and ends the process (native replay only).
func Finish(status, msg string) {
	mu.Lock()
	write(status, msg)
	os.Exit(0)
}

func uniq(label string) string {
	mu.Lock()
	defer mu.Unlock()
	n := names[label]
	names[label] = n + 1
	if n == 0 {
		return label
	}
	return fmt.Sprintf("%s#%d", label, n)
}

// Bool is an arbitrary boolean.
func Bool(label string) bool { return wit.Vals[uniq(label)] != 0 }

// Flag is an arbitrary boolean explored by case split.
func Flag(label string) bool { return wit.Vals[uniq(label)] != 0 }

// Int is an arbitrary integer in [lo, hi].
func Int(label string, lo, hi int64) int64 {
	n := uniq(label)
	if v, ok := wit.Vals[n]; ok {
		return v
	}
	return lo
}

// Float is an arbitrary double.
func Float(label string) float64 { return math.Float64frombits(uint64(wit.Vals[uniq(label)])) }

// Choice is an arbitrary value in [0, n), explored by case split.
func Choice(label string, n int64) int { return int(wit.Vals[uniq(label)]) }

// Str is an arbitrary non-empty word over [A-Za-z0-9_-].
func Str(label string) string {
	n := uniq(label)
	if s, ok := wit.Strs[n]; ok {
		return s
	}
	return "unset" + fmt.Sprint(len(names))
}

// Bytes is an arbitrary string of n bytes over an alphabet ("" for any).
func Bytes(label string, n int64, alphabet string) string {
	k := uniq(label)
	if s, ok := wit.Bytes[k]; ok {
		b, _ := hex.DecodeString(s)
		return string(b)
	}
	c := "a"
	if alphabet != "" {
		c = alphabet[:1]
	}
	return strings.Repeat(c, int(n))
}

// Assume restricts the explored inputs.
func Assume(c bool) {
	if !c {
		Finish("assume", caller())
	}
}

// Stop abandons this execution as out of bounds.
func Stop() { Finish("assume", caller()) }

func caller() string {
	_, f, l, _ := runtime.Caller(2)
	return fmt.Sprintf("%s:%d", f, l)
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		fmt.Fprintln(os.Stderr, "ASSERT", msg, caller())
		Finish("assert", msg)
	}
}

// Cover marks a situation that some execution must reach.
func Cover(label string) {
	mu.Lock()
	covers[label] = true
	mu.Unlock()
}

// And, Or, Not, Implies and Iff do not split paths.
func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}
func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}
func Not(c bool) bool        { return !c }
func Implies(a, b bool) bool { return !a || b }
func Iff(a, b bool) bool     { return a == b }

// IteInt selects without splitting paths.
func IteInt(c bool, a, b int64) int64 {
	if c {
		return a
	}
	return b
}

// DeepEq is reflect.DeepEqual.
func DeepEq(a, b any) bool { return reflect.DeepEqual(a, b) }

// ---- keys and tokens ----

var keys = map[int64]*ecdsa.PrivateKey{}
var keyIDs = map[string]int64{}

func key(id int64) *ecdsa.PrivateKey {
	mu.Lock()
	defer mu.Unlock()
	if k, ok := keys[id]; ok {
		return k
	}
	k, err := ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	if err != nil {
		panic(err)
	}
	keys[id] = k
	keyIDs[thumb(k)] = id
	return k
}

func thumb(k any) string {
	j, err := jwk.PublicKeyOf(k)
	if err != nil {
		panic(err)
	}
	t, err := j.Thumbprint(crypto.SHA256)
	if err != nil {
		panic(err)
	}
	return base64.RawURLEncoding.EncodeToString(t)
}

// Key is the signing key with the given identity.
func Key(id int64) crypto.Signer { return key(id) }

func pub(id, kidOf int64) jwk.Key {
	k, err := jwk.PublicKeyOf(key(id).Public())
	if err != nil {
		panic(err)
	}
	_ = k.Set(jwk.KeyIDKey, thumb(key(kidOf)))
	_ = k.Set(jwk.KeyUsageKey, "sig")
	_ = k.Set(jwk.AlgorithmKey, jwa.ES512())
	return k
}

// KeySet is the key set holding the public keys of the given identities.
func KeySet(ids ...int64) jwks.JWKS {
	s := jwk.NewSet()
	for _, i := range ids {
		_ = s.AddKey(pub(i, i))
	}
	return jwks.JWKS{Set: s}
}

// SpoofSet holds key id under the key ID of another key.
func SpoofSet(id, kidOf int64) jwks.JWKS {
	s := jwk.NewSet()
	_ = s.AddKey(pub(id, kidOf))
	return jwks.JWKS{Set: s}
}

// HasKeys reports whether the set holds exactly the given public keys in order.
func HasKeys(set jwks.JWKS, ids ...int64) bool {
	if set.Set == nil {
		return len(ids) == 0
	}
	if set.Len() != len(ids) {
		return false
	}
	for i, id := range ids {
		k, ok := set.Key(i)
		if !ok {
			return false
		}
		if priv, err := jwk.IsPrivateKey(k); err == nil && priv {
			return false
		}
		t, err := k.Thumbprint(crypto.SHA256)
		if err != nil || base64.RawURLEncoding.EncodeToString(t) != thumb(key(id)) {
			return false
		}
	}
	return true
}

func sign(payload []byte, typ *string, id int64, kid *int64) []byte {
	h := jws.NewHeaders()
	if typ != nil {
		_ = h.Set(jws.TypeKey, *typ)
	}
	if kid != nil {
		_ = h.Set(jws.KeyIDKey, thumb(key(*kid)))
	}
	b, err := jws.Sign(payload, jws.WithKey(jwa.ES512(), key(id), jws.WithProtectedHeaders(h)))
	if err != nil {
		panic(err)
	}
	return b
}

// Sign signs payload with key id and the given typ header.
func Sign(payload []byte, typ string, id int64) []byte { return sign(payload, &typ, id, &id) }

// SignKid signs with key id but claims the key ID of another key.
func SignKid(payload []byte, typ string, id, kidOf int64) []byte {
	return sign(payload, &typ, id, &kidOf)
}

// SignNoTyp signs without a typ header.
func SignNoTyp(payload []byte, id int64) []byte { return sign(payload, nil, id, &id) }

// SignNoKid signs without a kid header.
func SignNoKid(payload []byte, typ string, id int64) []byte { return sign(payload, &typ, id, nil) }

// SignJSON makes a general JSON serialization with two signatures.
func SignJSON(payload []byte, typ1 string, id1 int64, typ2 string, id2 int64) []byte {
	a := bytes.Split(sign(payload, &typ1, id1, &id1), []byte("."))
	b := bytes.Split(sign(payload, &typ2, id2, &id2), []byte("."))
	return []byte(fmt.Sprintf(`{"payload":"%s","signatures":[{"protected":"%s","signature":"%s"},{"protected":"%s","signature":"%s"}]}`,
		a[1], a[0], a[2], b[0], b[2]))
}

// Open decodes a compact token and identifies its signing key.
func Open(token []byte) (payload []byte, typ string, id int64, ok bool) {
	p := bytes.Split(token, []byte("."))
	if len(p) != 3 {
		return nil, "", -1, false
	}
	hb, err1 := base64.RawURLEncoding.DecodeString(string(p[0]))
	payload, err2 := base64.RawURLEncoding.DecodeString(string(p[1]))
	if err1 != nil || err2 != nil {
		return nil, "", -1, false
	}
	var h struct {
		Typ string `json:"typ"`
	}
	if json.Unmarshal(hb, &h) != nil {
		return nil, "", -1, false
	}
	mu.Lock()
	defer mu.Unlock()
	for id, k := range keys {
		if _, err := jws.Verify(token, jws.WithKey(jwa.ES512(), k.Public())); err == nil {
			return payload, h.Typ, id, true
		}
	}
	return nil, "", -1, false
}

// ---- environment ----

type handler func(method, url string, params map[string][]string) (status int, json bool, body []byte)

type transport struct{}

var serve handler

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	h := serve
	if h == nil {
		return nil, errors.New("connection failed")
	}
	params := map[string][]string(r.URL.Query())
	if r.Method == "POST" && r.Body != nil {
		b, _ := io.ReadAll(r.Body)
		r.Body.Close()
		r2, _ := http.NewRequest("POST", "http://x/", bytes.NewReader(b))
		r2.Header = r.Header
		if r2.ParseForm() == nil {
			for k, v := range r2.PostForm {
				params[k] = append(params[k], v...)
			}
		}
	}
	u := *r.URL
	u.RawQuery = ""
	st, js, body := h(r.Method, u.String(), params)
	if st == 0 {
		return nil, errors.New("connection failed")
	}
	ct := "application/octet-stream"
	if js {
		ct = "application/json"
	}
	return &http.Response{StatusCode: st, Status: http.StatusText(st), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
		Header: http.Header{"Content-Type": []string{ct}}, Body: io.NopCloser(bytes.NewReader(body)), ContentLength: int64(len(body)), Request: r}, nil
}

// Serve answers every outgoing HTTP request; status 0 is a transport failure.
func Serve(h func(method, url string, params map[string][]string) (status int, json bool, body []byte)) {
	serve = h
	ihttp.Do().SetTransport(transport{})
	ihttp.Do().SetRetryCount(0)
	http.DefaultTransport = transport{}
	http.DefaultClient.Transport = transport{}
}

// Redis gives the options for a connection to a redis server that passes
// every command to h; unit and n are the expiration of a set command. A
// non-empty error text is answered as an error.
func Redis(h func(op, key string, value []byte, unit string, n int64) (reply []byte, found bool, err string)) *redis.Options {
	return &redis.Options{Addr: "redis:6379", MaxRetries: -1, Protocol: 2, DisableIdentity: true,
		Dialer: func(context.Context, string, string) (net.Conn, error) {
			a, b := net.Pipe()
			go serveRedis(b, h)
			return a, nil
		}}
}

func serveRedis(c net.Conn, h func(op, key string, value []byte, unit string, n int64) ([]byte, bool, string)) {
	r := bufio.NewReader(c)
	line := func() (string, bool) {
		s, err := r.ReadString('\n')
		return strings.TrimRight(s, "\r\n"), err == nil
	}
	for {
		l, ok := line()
		if !ok || l == "" || l[0] != '*' {
			return
		}
		n, _ := strconv.Atoi(l[1:])
		var args []string
		for i := 0; i < n; i++ {
			l, ok = line()
			if !ok || l == "" || l[0] != '$' {
				return
			}
			m, _ := strconv.Atoi(l[1:])
			b := make([]byte, m+2)
			if _, err := io.ReadFull(r, b); err != nil {
				return
			}
			args = append(args, string(b[:m]))
		}
		arg := func(i int) string {
			if i < len(args) {
				return args[i]
			}
			return ""
		}
		op := strings.ToLower(arg(0))
		out := ""
		switch op {
		case "ping", "get", "set", "del", "unlink":
			exp, _ := strconv.ParseInt(arg(4), 10, 64)
			var val []byte
			if op == "set" {
				val = []byte(arg(2))
			}
			reply, found, err := h(op, arg(1), val, strings.ToLower(arg(3)), exp)
			switch {
			case err != "":
				out = "-ERR " + err + "\r\n"
			case op == "get" && !found:
				out = "$-1\r\n"
			case op == "get":
				out = fmt.Sprintf("$%d\r\n%s\r\n", len(reply), reply)
			case op == "ping":
				out = "+PONG\r\n"
			case op == "set":
				out = "+OK\r\n"
			default:
				out = ":1\r\n"
			}
		default:
			out = "-ERR unknown command\r\n"
		}
		if _, err := io.WriteString(c, out); err != nil {
			return
		}
	}
}

// Now is the current time in whole seconds.
func Now() int64 { return time.Now().Unix() }

// Advance lets time pass (whole seconds).
func Advance(secs int64) {
	synctest.Wait()
	for secs > 0 {
		s := min(secs, int64(1)<<32)
		time.Sleep(time.Duration(s) * time.Second)
		secs -= s
	}
}

// Quiesce waits until all other goroutines have ended or blocked.
func Quiesce() { synctest.Wait() }

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Obs records a value compared between the model and the native run.
func Obs(label string, v any) {
	mu.Lock()
	defer mu.Unlock()
	s := fmt.Sprint(v)
	if v == nil {
		s = "nil"
	}
	res.Obs = append(res.Obs, label+"="+s)
}

// Thorough reports the tier.
func Thorough() bool { return wit.Tier == "thorough" }

// Pick selects by tier.
func Pick(quick, thorough int64) int64 {
	if Thorough() {
		return thorough
	}
	return quick
}

// Bound selects by tier and records the bound.
func Bound(label string, quick, thorough int64) int64 { return Pick(quick, thorough) }

// Races switches happens-before race detection on.
func Races(on bool) {}

// Schedules bounds the number of explored scheduling choices.
func Schedules(n int64) {}

// MapOrder explores map iteration orders.
func MapOrder(on bool) {}

// Symbolic reports whether the symbolic engine runs the harness.
func Symbolic() bool { return false }

// Catch reports whether f panics.
func Catch(f func()) (panicked bool) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Fprintln(os.Stderr, "CAUGHT", r)
			buf := make([]byte, 4096)
			fmt.Fprintln(os.Stderr, string(buf[:runtime.Stack(buf, false)]))
			panicked = true
		}
	}()
	f()
	return false
}
