package zzverif

import (
	"bytes"
	"cmp"
	"context"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"iter"
	"maps"
	"math"
	"mime"
	"net/http"
	"net/url"
	"path"
	"reflect"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

type node struct {
	id string
	n  int64
}

func H_P00_slices() {
	a, b, c := nd.Str("a"), nd.Str("b"), nd.Str("c")
	l := []string{a, b, c}
	i := slices.Index(l, c)
	nd.Assert(l[i] == c, "index")
	nd.Assert(slices.ContainsFunc(l, func(s string) bool { return s == b }), "contains func")
	m := slices.DeleteFunc(slices.Clone(l), func(s string) bool { return s == a })
	nd.Assert(!slices.Contains(m, a), "deleted")
	u := slices.Compact(slices.Clone(l))
	nd.Assert(len(u) <= 3, "compact")
	nd.Assert(slices.Equal(l, []string{a, b, c}), "equal")
	r := slices.Clone(l)
	slices.Reverse(r)
	nd.Assert(r[0] == c, "reverse")
	l2 := slices.Insert(slices.Clone(l), 1, "x")
	nd.Assert(l2[1] == "x" && l2[2] == b, "insert")
	l3 := slices.Concat(l, r)
	nd.Assert(len(l3) == 6, "concat")
	mm := map[string]struct{}{}
	for _, x := range l {
		mm[x] = struct{}{}
	}
	ks := slices.Collect(maps.Keys(mm))
	nd.Assert(len(ks) == len(mm), "keys")
	for k := range maps.Keys(mm) {
		nd.Assert(k == a || k == b || k == c, "k")
	}
	for i, x := range slices.All(l) {
		nd.Assert(l[i] == x, "all")
	}
	for i := range 3 {
		nd.Assert(l[i] != "", "range int")
	}
	maps.DeleteFunc(mm, func(k string, _ struct{}) bool { return k == a })
	nd.Assert(len(mm) <= 2, "delfunc")
	ch := slices.Collect(slices.Chunk(l, 2))
	nd.Assert(len(ch) == 2, "chunk")
	cp := maps.Clone(mm)
	maps.Copy(cp, map[string]struct{}{"z": {}})
	nd.Assert(len(cp) >= 1, "copy")
	ns := []node{{a, nd.Int("x", 0, 10)}, {b, nd.Int("y", 0, 10)}, {c, nd.Int("z", 0, 10)}}
	slices.SortFunc(ns, func(p, q node) int { return cmp.Compare(p.n, q.n) })
	nd.Assert(ns[0].n <= ns[1].n && ns[1].n <= ns[2].n, "sorted")
	slices.SortStableFunc(ns, func(p, q node) int { return cmp.Compare(q.n, p.n) })
	sort.Slice(ns, func(i, j int) bool { return ns[i].n < ns[j].n })
	sort.SliceStable(ns, func(i, j int) bool { return ns[i].n < ns[j].n })
	mn := slices.MinFunc(ns, func(p, q node) int { return cmp.Compare(p.n, q.n) })
	nd.Assert(mn.n == ns[0].n, "min")
	nd.Assert(min(ns[0].n, ns[1].n) == ns[0].n, "min builtin")
	nd.Assert(max(ns[0].n, ns[2].n) == ns[2].n, "max builtin")
	_, f := slices.BinarySearchFunc(ns, ns[1].n, func(p node, k int64) int { return cmp.Compare(p.n, k) })
	nd.Assert(f, "bs")
	nums := []int64{ns[1].n, ns[0].n}
	slices.Sort(nums)
	nd.Assert(slices.Max(nums) == nums[1], "max")
	clear(mm)
	nd.Assert(len(mm) == 0, "clear")
	cs := []string{"b", "a"}
	sort.Strings(cs)
	nd.Assert(cs[0] == "a", "strings")
	nd.Cover("x")
}

func seq(l []string) iter.Seq2[int, string] {
	return func(y func(int, string) bool) {
		for i, x := range l {
			if !y(i, x) {
				return
			}
		}
	}
}

func H_P00_strings() {
	a, b := nd.Str("a"), nd.Str("b")
	u := "https://" + a + "/" + b
	x, ok := strings.CutPrefix(u, "https://")
	nd.Assert(ok && x == a+"/"+b, "cutprefix")
	p, q, ok := strings.Cut(x, "/")
	nd.Assert(ok && p == a && q == b, "cut")
	y, ok := strings.CutSuffix(u+"/", "/")
	nd.Assert(ok && y == u, "cutsuffix")
	nd.Assert(strings.TrimSuffix(u+"/", "/") == u, "trimsuffix")
	nd.Assert(strings.TrimRight(u+"/", "/") == u, "trimright")
	nd.Assert(strings.HasPrefix(u, "https://"+a), "pref")
	nd.Assert(strings.Join([]string{a, b}, " ") == a+" "+b, "join")
	nd.Assert(len(strings.Split(a+" "+b, " ")) == 2, "split")
	nd.Assert(slices.Equal(strings.Fields(a+"  "+b), []string{a, b}), "fields")
	nd.Assert(len(strings.SplitN(a+" "+b+" c", " ", 2)) == 2, "splitn")
	nd.Assert(strings.Contains(u, "://"), "contains")
	nd.Assert(strings.Index(u, "://") == 5, "index")
	nd.Assert(strings.LastIndex("x/"+a, "/") == 1, "lastindex")
	var sb strings.Builder
	sb.WriteString(a)
	sb.WriteByte(':')
	sb.WriteString(b)
	sb.WriteRune('!')
	nd.Assert(sb.String() == a+":"+b+"!", "builder")
	var bb bytes.Buffer
	bb.WriteString(a)
	fmt.Fprintf(&bb, "-%s", b)
	nd.Assert(bb.String() == a+"-"+b, "buffer")
	nd.Assert(fmt.Sprintf("%s|%v|%q|%d|%t", a, b, "k", 3, true) == a+"|"+b+`|"k"|3|true`, "sprintf")
	nd.Assert(fmt.Sprint(a, b) == a+b, "sprint")
	nd.Assert(strings.ReplaceAll("x/y", "/", ".") == "x.y", "replace")
	nd.Assert(strings.EqualFold("Ab", "aB"), "fold")
	nd.Assert(strings.Count("a.b.c", ".") == 2, "count")
	nd.Assert(strings.ToLower("AbC") == "abc", "lower")
	nd.Assert(strings.TrimSpace(" "+a+" ") == a, "trimspace")
	nd.Assert(strings.IndexFunc("abC", unicode.IsUpper) == 2, "indexfunc")
	nd.Assert(strings.Repeat("ab", 2) == "abab", "repeat")
	nd.Assert(strings.Map(func(r rune) rune { return r }, "ab") == "ab", "map")
	for i, s := range seq([]string{a, b}) {
		nd.Assert(i == 0 && s == a || s == b, "seq")
		if i == 1 {
			break
		}
	}
	for s := range strings.SplitSeq("a b", " ") {
		nd.Assert(s != "", "splitseq")
	}
	nd.Assert(path.Join("/a", "b") == "/a/b", "path")
	uu, err := url.Parse("https://h.example/p?x=1")
	nd.Assert(err == nil && uu.Host == "h.example" && uu.JoinPath("z").String() == "https://h.example/p/z?x=1", "url")
	v, err := url.ParseQuery("a=1&b=2")
	nd.Assert(err == nil && v.Get("a") == "1", "query")
	jp, err := url.JoinPath("https://h.example/", ".well-known/x")
	nd.Assert(err == nil && jp == "https://h.example/.well-known/x", "joinpath")
	n, err := strconv.Atoi("12")
	nd.Assert(err == nil && n == 12, "atoi")
	nd.Assert(strconv.FormatInt(12, 10) == "12" && strconv.Quote("a") == `"a"`, "fmtint")
	re := regexp.MustCompile(`^a+b$`)
	nd.Assert(re.MatchString("aab"), "regexp")
	nd.Assert(string([]byte(a)) == a, "bytes")
	nd.Assert(bytes.Equal([]byte(a), []byte(a)) && bytes.HasPrefix([]byte("abc"), []byte("a")), "bytes eq")
	s, err := base64.RawURLEncoding.DecodeString(base64.RawURLEncoding.EncodeToString([]byte("hello")))
	nd.Assert(err == nil && string(s) == "hello", "b64")
	nd.Assert(len([]rune("äb")) == 2, "rune")
	nd.Assert(strings.Compare("a", "b") < 0 && cmp.Compare("a", "b") < 0, "cmp")
	nd.Cover("x")
}

type myErr struct{ s string }

func (e *myErr) Error() string { return e.s }

var sentinel = errors.New("sentinel")

func H_P00_misc() {
	e := fmt.Errorf("ctx: %w", &myErr{"x"})
	var m *myErr
	nd.Assert(errors.As(e, &m) && m.s == "x", "as")
	j := errors.Join(sentinel, e)
	nd.Assert(errors.Is(j, sentinel) && errors.As(j, &m), "join")
	nd.Assert(j.Error() == "sentinel\nctx: x", "join text")
	e2 := fmt.Errorf("%w and %w", sentinel, e)
	nd.Assert(errors.Is(e2, sentinel), "multi")
	var once sync.Once
	n := 0
	once.Do(func() { n++ })
	once.Do(func() { n++ })
	nd.Assert(n == 1, "once")
	ov := sync.OnceValue(func() int { n++; return n })
	nd.Assert(ov() == 2 && ov() == 2, "oncevalue")
	var pool = sync.Pool{New: func() any { return new(int) }}
	x := pool.Get().(*int)
	pool.Put(x)
	var ai atomic.Int64
	ai.Add(2)
	nd.Assert(ai.Load() == 2 && ai.CompareAndSwap(2, 3), "atomic")
	var ap atomic.Pointer[node]
	ap.Store(&node{id: "x"})
	nd.Assert(ap.Load().id == "x", "ptr")
	var av atomic.Value
	av.Store("s")
	nd.Assert(av.Load() == "s", "value")
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	nd.Assert(ctx.Err() == nil, "ctx")
	ctx2, c2 := context.WithCancel(context.WithValue(ctx, node{}, 3))
	c2()
	nd.Assert(ctx2.Err() != nil && ctx2.Value(node{}) == 3, "ctx2")
	var wg sync.WaitGroup
	var mu sync.RWMutex
	sum := 0
	for i := range 3 {
		wg.Add(1)
		go func() { defer wg.Done(); mu.Lock(); defer mu.Unlock(); sum += i }()
	}
	wg.Wait()
	mu.RLock()
	nd.Assert(sum == 3, "sum")
	mu.RUnlock()
	sem := make(chan struct{}, 2)
	res := make(chan int)
	go func() {
		defer close(res)
		for i := range 3 {
			sem <- struct{}{}
			res <- i
			<-sem
		}
	}()
	tot := 0
	for r := range res {
		tot += r
	}
	nd.Assert(tot == 3, "chan")
	cond := sync.NewCond(&sync.Mutex{})
	ready := false
	go func() { cond.L.Lock(); ready = true; cond.L.Unlock(); cond.Broadcast() }()
	cond.L.Lock()
	for !ready {
		cond.Wait()
	}
	cond.L.Unlock()
	var sm sync.Map
	sm.Store("a", 1)
	v, ok := sm.LoadOrStore("a", 2)
	nd.Assert(ok && v == 1, "syncmap")
	sm.Range(func(k, v any) bool { return true })
	sm.Delete("a")
	_, ok = sm.LoadAndDelete("a")
	nd.Assert(!ok, "lad")
	select {
	case <-time.After(time.Second):
	case <-ctx.Done():
		nd.Assert(false, "early")
	}
	now := time.Now()
	t := now.Add(time.Hour)
	nd.Assert(t.After(now) && now.Before(t) && t.Sub(now) == time.Hour && time.Until(t) == time.Hour && t.Compare(now) > 0 && !t.Equal(now), "time")
	nd.Assert(t.Truncate(time.Hour).Unix() <= t.Unix() && t.Round(time.Second).Unix() == t.Unix() && t.UnixMilli() == t.Unix()*1000 && t.UTC().Equal(t) && !t.IsZero(), "time2")
	tm := time.AfterFunc(time.Second, func() {})
	tm.Stop()
	tk := time.NewTicker(time.Second)
	<-tk.C
	tk.Stop()
	nd.Assert((3*time.Second).Seconds() == 3 && math.Floor(2.5) == 2 && math.MaxInt64 > 5 && !math.IsNaN(1), "math")
	dec := json.NewDecoder(strings.NewReader(`{"a":1}`))
	var o map[string]any
	nd.Assert(dec.Decode(&o) == nil && o["a"] == float64(1), "decoder")
	dec = json.NewDecoder(bytes.NewReader([]byte(`{"a":1}`)))
	dec.UseNumber()
	var o2 map[string]json.Number
	nd.Assert(dec.Decode(&o2) == nil && o2["a"] == "1", "number")
	var bb bytes.Buffer
	enc := json.NewEncoder(&bb)
	enc.SetEscapeHTML(false)
	nd.Assert(enc.Encode(o) == nil && bb.String() == "{\"a\":1}\n", "encoder")
	mi, err := json.MarshalIndent(o, "", " ")
	nd.Assert(err == nil && len(mi) > 0, "indent")
	nd.Assert(json.Valid([]byte(`{}`)), "valid")
	rv := reflect.ValueOf(&node{"x", 1}).Elem()
	nd.Assert(rv.Kind() == reflect.Struct && rv.NumField() == 2 && rv.Type().Field(0).Name == "id" && reflect.DeepEqual(node{"x", 1}, node{"x", 1}) && reflect.TypeFor[node]() == reflect.TypeOf(node{}), "reflect")
	func() { defer func() { nd.Assert(recover() != nil, "recover") }(); var mp map[string]int; mp["a"] = 1 }()
	lbl := 0
outer:
	for i := 0; i < 3; i++ {
		for k := 0; k < 3; k++ {
			if k == 1 {
				continue outer
			}
			if i == 2 {
				break outer
			}
			lbl++
		}
	}
	nd.Assert(lbl == 2, "label")
	switch {
	case n > 1:
		fallthrough
	case n > 100:
		lbl = 9
	default:
		lbl = 0
	}
	nd.Assert(lbl == 9, "fall")
	arr3 := [3]int{1, 2, 3}
	sl := arr3[:2:2]
	sl = append(sl, 9)
	nd.Assert(arr3[2] == 3 && len(sl) == 3, "3idx")
	pa := (*[2]int)(sl[:2])
	nd.Assert(pa[1] == 2, "arrptr")
	f := node.get
	nd.Assert(f(node{"q", 1}) == "q", "mexpr")
	g := (&node{"w", 1}).get
	nd.Assert(g() == "w", "mval")
	nd.Assert(gen([]int{1, 2, 3}, func(i int) bool { return i > 1 }) == 2, "generic")
	nd.Cover("x")
}
func (n node) get() string { return n.id }
func gen[T any](l []T, f func(T) bool) (c int) {
	for _, x := range l {
		if f(x) {
			c++
		}
	}
	return
}

func H_P00_more() {
	a, b, c := nd.Str("a"), nd.Str("b"), nd.Str("c")
	mm := map[string]int{a: 1, b: 2, c: 3}
	ks := slices.Sorted(maps.Keys(mm))
	for i := 1; i < len(ks); i++ {
		nd.Assert(ks[i-1] < ks[i], "sorted keys")
	}
	l := []string{a, b, c}
	sort.Strings(l)
	nd.Assert(sort.StringsAreSorted(l), "sortstrings")
	slices.Sort(l)
	slices.SortFunc(l, strings.Compare)
	nd.Assert(slices.IsSorted(l), "sort2")
	_, ok := slices.BinarySearch(l, b)
	nd.Assert(ok, "bs")
	h := "https://" + a + ".example/"
	nd.Assert(h[len(h)-1] == '/', "last")
	nd.Assert(h[:len(h)-1] == "https://"+a+".example", "cutlast")
	nd.Assert(h[0] == 'h' && h[8:] == a+".example/", "from")
	rd, err := io.ReadAll(strings.NewReader(h))
	nd.Assert(err == nil && string(rd) == h, "readall")
	rd, err = io.ReadAll(bytes.NewReader([]byte(h)))
	nd.Assert(err == nil && string(rd) == h, "readall2")
	u, err := url.Parse(h)
	nd.Assert(err == nil && u.Host == a+".example" && u.Scheme == "https" && u.Path == "/", "parse")
	nd.Assert(u.JoinPath(".well-known", b).String() == h+".well-known/"+b, "joinpath")
	jp, err := url.JoinPath(h, "x", b)
	nd.Assert(err == nil && jp == h+"x/"+b, "url.JoinPath")
	u.RawQuery = url.Values{"sub": {b}, "iss": {c}}.Encode()
	nd.Assert(u.String() == h+"?iss="+c+"&sub="+b, "query")
	nd.Assert(u.Query().Get("sub") == b, "query get")
	u2, err := url.Parse(u.String())
	nd.Assert(err == nil && u2.Query().Get("iss") == c, "reparse")
	rel, err := u2.Parse("/z")
	nd.Assert(err == nil && rel.Path == "/z", "ref")
	nd.Assert(u2.Hostname() == a+".example" && u2.Port() == "", "hostname")
	nd.Assert(url.QueryEscape(h) == "https%3A%2F%2F"+a+".example%2F", "qescape")
	nd.Assert(url.PathEscape(a) == a, "pescape")
	nd.Assert(path.Base("/x/"+a) == a && path.Dir("/x/"+a) == "/x", "base")
	nd.Assert(path.Join("x", a, "..", b) == "x/"+b, "pjoin")
	nd.Assert(strings.EqualFold(a, a), "fold")
	var set = make(map[string]bool)
	for _, w := range []string{a, b} {
		if !set[w] {
			set[w] = true
		}
	}
	nd.Assert(set[a] && set[b], "set")
	nd.Assert(strconv.Quote("x") == `"x"`, "quote")
	k := a + "|" + b
	p, q, _ := strings.Cut(k, "|")
	nd.Assert(p == a && q == b, "key")
	type key struct{ a, b string }
	km := map[key]int{{a, b}: 1}
	nd.Assert(km[key{a, b}] == 1, "structkey")
	am := map[[2]string]int{{a, b}: 1}
	nd.Assert(am[[2]string{a, b}] == 1, "arrkey")
	im := map[any]int{a: 1}
	nd.Assert(im[a] == 1, "ifacekey")
	x, y := nd.Int("x", -5, 5), nd.Int("y", 1, 5)
	nd.Assert(x/y*y+x%y == x, "divmod")
	nd.Assert(x&1 == 0 || x&1 == 1, "and")
	nd.Assert(x<<2 == 4*x, "shl")
	nd.Assert(time.Duration(y)*time.Second > 0, "dur")
	nd.Assert(int64(int32(x)) == x && uint64(y) > 0, "conv")
	nd.Assert(strconv.FormatInt(y, 10) != "", "fmt")
	nd.Assert(float64(x) <= 5, "float")
	t := time.Unix(x+100, 0)
	nd.Assert(t.Unix() == x+100 && t.Add(time.Duration(y)*time.Second).After(t), "t")
	if n := y; n > 3 {
		nd.Assert(n >= 4, "n")
	}
	arr := make([]int64, 0, 4)
	arr = append(arr, x, y)
	arr = slices.Grow(arr, 10)
	nd.Assert(arr[1] == y, "grow")
	nd.Assert(cmp.Or("", a) == a, "or")
	s := fmt.Sprintf("%d:%s", y, a)
	nd.Assert(strings.HasSuffix(s, ":"+a), "suffix")
	nd.Assert(errors.Is(fmt.Errorf("%s: %w", a, sentinel), sentinel), "werr")
	nd.Assert(fmt.Errorf("e %s", a).Error() == "e "+a, "etext")
	ct, cn := context.WithTimeout(context.Background(), time.Second)
	defer cn()
	<-ct.Done()
	nd.Assert(errors.Is(ct.Err(), context.DeadlineExceeded), "deadline")
	st := context.AfterFunc(context.Background(), func() {})
	st()
	cc, cnc := context.WithCancelCause(context.Background())
	cnc(sentinel)
	nd.Assert(context.Cause(cc) == sentinel, "cause")
	nd.Cover("x")
}

func H_P00_http() {
	a := nd.Str("a")
	req, err := http.NewRequest(http.MethodGet, "https://"+a+".example/x", nil)
	nd.Assert(err == nil && req.Method == "GET" && req.URL.Path == "/x", "req")
	req.Header.Set("content-type", "x")
	nd.Assert(req.Header.Get("Content-Type") == "x", "hdr")
	mt, _, err := mime.ParseMediaType("application/json; charset=utf-8")
	nd.Assert(err == nil && mt == "application/json", "mime")
	nd.Serve(func(m, u string, p map[string][]string) (int, bool, []byte) {
		return 200, true, []byte(`"` + a + m + `"`)
	})
	for _, f := range []func() (*http.Response, error){func() (*http.Response, error) { return http.DefaultClient.Do(req) }, func() (*http.Response, error) { return http.DefaultClient.Get("https://x/y") }, func() (*http.Response, error) { return http.Get("https://x/y") }} {
		rs, err := f()
		nd.Assert(err == nil && rs.StatusCode == 200, "do")
		var v string
		nd.Assert(json.NewDecoder(io.LimitReader(rs.Body, 1<<20)).Decode(&v) == nil && v == a+"GET", "body")
		rs.Body.Close()
	}
	nd.Assert(http.StatusText(404) == "Not Found", "status")
	nd.Cover("x")
}

func H_P00_arith() {
	x, y := nd.Int("x", -300, 300), nd.Int("y", -300, 300)
	s := nd.Int("s", 0, 70)
	nd.Assert(x<<3 == 8*x && x>>1 == (x-(x&1))/2, "const shifts")
	nd.Assert(int8(x) == int8(x&0xff) && uint8(x) == uint8(x%256+256), "narrow")
	nd.Assert(int64(uint32(x)) == x || x < 0 && int64(uint32(x)) == x+1<<32, "zero extend")
	nd.Assert(int64(int8(x)) == (x+128)&255-128, "sign extend")
	if y != 0 {
		nd.Assert(x%y == 0 || (x%y < 0) == (x < 0), "sign of remainder")
		nd.Assert(int8(x)/int8(1) == int8(x), "int8 div")
	}
	u, v := uint64(x), uint64(y)
	nd.Assert((u < v) == (x < y) || (x < 0) != (y < 0), "unsigned order")
	nd.Assert(u>>63 == 1 && x < 0 || u>>63 == 0 && x >= 0, "logic shift")
	nd.Assert(x>>63 == -1 && x < 0 || x>>63 == 0 && x >= 0, "arith shift")
	if s < 50 {
		nd.Assert((x<<uint(s))>>uint(s) == x, "shift back")
	}
	if s >= 64 {
		nd.Assert(x<<uint(s) == 0 && u>>uint(s) == 0 && (x>>uint(s) == 0 || x < 0 && x>>uint(s) == -1), "wide shift")
	}
	nd.Assert(int32(x)<<uint8(s) == int32(int64(x)<<uint8(s)), "int32 shift")
	nd.Assert(x&^y == x&(^y) && x^y == (x|y)&^(x&y) && -x == ^x+1, "bits")
	nd.Assert(uint8(u)*uint8(v) == uint8(u*v) && int16(x)*int16(y) == int16(x*y), "wrap")
	a := [4]int64{1, 2, 3, 4}
	i := nd.Int("i", 0, 3)
	a[i] = 9
	nd.Assert(a[i] == 9 && a[(i+1)%4] == (i+1)%4+1, "array at symbolic index")
	nd.Cover("x")
}

func H_P00_float() {
	x, y := nd.Int("x", -3, 3), nd.Int("y", -3, 3)
	nd.Assert(int64(float64(x)) == x && float64(x)+float64(y) == float64(x+y), "float")
	nd.Assert((float64(x) < float64(y)) == (x < y), "float order")
	nd.Assert(int64(float64(x)/2) == x/2, "float trunc")
	nd.Cover("x")
}

func H_P00_bytes() {
	a, b := nd.Str("a"), nd.Str("b")
	w := []byte(" " + a + ": " + b + "\n")
	nd.Assert(string(bytes.TrimSpace(w)) == a+": "+b, "trim space")
	t := bytes.TrimRight(w, "\n")
	nd.Assert(len(w) == len(t)+1 && bytes.HasSuffix(t, []byte(b)), "trim right")
	l, r, ok := bytes.Cut(bytes.TrimSpace(w), []byte(": "))
	nd.Assert(ok && string(l) == a && string(r) == b, "cut")
	nd.Assert(len(bytes.Split(w, []byte(":"))) == 2 && bytes.Contains(w, []byte(":")), "split")
	nd.Assert(string(bytes.TrimPrefix(w, []byte(" "))) == a+": "+b+"\n", "prefix")
	nd.Assert(string(bytes.ReplaceAll(l, []byte(":"), nil)) == a, "replace")
	f := bytes.Fields(w)
	nd.Assert(len(f) == 2 && string(f[1]) == b, "fields")

	doc, _ := json.Marshal(map[string]any{"k": []any{a, 1, nil}, "l": map[string]any{b: true}})
	dec := json.NewDecoder(bytes.NewReader(doc))
	var out []string
	for {
		tok, err := dec.Token()
		if err == io.EOF {
			break
		}
		nd.Assert(err == nil, "token")
		switch v := tok.(type) {
		case json.Delim:
			out = append(out, v.String())
		case string:
			out = append(out, v)
		case float64:
			out = append(out, "n")
		case bool:
			out = append(out, "b")
		case nil:
			out = append(out, "null")
		}
	}
	nd.Assert(slices.Equal(out, []string{"{", "k", "[", a, "n", "null", "]", "l", "{", b, "b", "}", "}"}), "tokens")
	dec = json.NewDecoder(strings.NewReader(`[{"a":1},{"a":2}]  `))
	_, err := dec.Token()
	n := 0
	for dec.More() {
		var e struct{ A int }
		nd.Assert(dec.Decode(&e) == nil, "element")
		n += e.A
	}
	_, err2 := dec.Token()
	_, err3 := dec.Token()
	nd.Assert(err == nil && err2 == nil && err3 == io.EOF && n == 3, "stream")
}

type pairOf struct {
	a, b int
	l    []int
}

func bump(p *int) int { *p++; return *p }

func orderRet(x int) (int, int)          { return x, bump(&x) }
func orderExpr(x int) (int, int)         { return x*10 + 1, bump(&x) }
func orderField(p pairOf) (int, int)     { return p.a, bump(&p.a) }
func orderStruct(p pairOf) (pairOf, int) { return p, bump(&p.a) }
func orderAny(x int) (any, int)          { return x, bump(&x) }
func orderAnyStruct(p pairOf) (any, int) { return p, bump(&p.a) }
func orderMap(m map[int]int) (int, int)  { return m[1], setIn(m) }
func orderIndex(l []int) (int, int)      { return l[0], bump(&l[0]) }
func orderBefore(x int) (int, int)       { y := x; return y, bump(&x) }
func orderSlice(l []int) ([]int, int)    { return l[:1], grow(&l) }
func orderBool(x int) (bool, int)        { return x == 1, bump(&x) }
func orderAnd(x int, c bool) (bool, int) { return c && x == 1, bump(&x) }

func grow(l *[]int) int       { *l = append(*l, 7); return len(*l) }
func setIn(m map[int]int) int { m[1] = 9; return 9 }
func two(a, b int) int        { return a*10 + b }

// H_P00_order: variables beside calls are read when the compiler reads them.
func H_P00_order() {
	x := nd.Choice("x", 2)
	show := func(l string, v ...any) { nd.Obs(l, fmt.Sprint(v...)) }
	a, b := orderRet(x)
	show("ret", a, b)
	a, b = orderExpr(x)
	show("expr", a, b)
	a, b = orderField(pairOf{a: x})
	show("field", a, b)
	p, b := orderStruct(pairOf{a: x})
	show("struct", p.a, b)
	c, b := orderAny(x)
	show("any", c, b)
	c, b = orderAnyStruct(pairOf{a: x})
	show("anystruct", c.(pairOf).a, b)
	a, b = orderMap(map[int]int{1: x})
	show("map", a, b)
	a, b = orderIndex([]int{x})
	show("index", a, b)
	a, b = orderBefore(x)
	show("before", a, b)
	l, b := orderSlice([]int{x})
	show("slice", len(l), cap(l), b)
	t, b := orderBool(x)
	show("bool", t, b)
	t, b = orderAnd(x, x == 1)
	show("and", t, b)
	y := x
	show("call", two(y, bump(&y)))
	y = x
	show("addr", bump(&y)+y)
	nd.Cover("order")
}
