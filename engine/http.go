package main

import (
	"go/types"
	"net/url"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Model of outgoing HTTP: every request is handed to the harness' handler.

const restyPath = "github.com/go-resty/resty/v2"

var httpT struct {
	client, request, response *types.Struct
	httpResp, httpReq         *types.Struct
	bodyPtr                   types.Type
	errPtr                    types.Type // *url.Error
	mapSS                     types.Type
}

func structOf(pr *Program, path, name string) *types.Struct {
	pk := pr.pkgs[path]
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	st, _ := o.Type().Underlying().(*types.Struct)
	return st
}

func (pr *Program) initHTTP() {
	httpT.client = structOf(pr, restyPath, "Client")
	httpT.request = structOf(pr, restyPath, "Request")
	httpT.response = structOf(pr, restyPath, "Response")
	httpT.httpResp = structOf(pr, "net/http", "Response")
	httpT.httpReq = structOf(pr, "net/http", "Request")
	httpT.bodyPtr = pr.namedPtr("net/http", "body")
}

func fieldIdx(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic(unsup("no field %s", name))
}

type httpResult struct {
	status int64
	json   bool
	body   Slice
	fail   bool
}

// doHTTP calls the harness handler: func(method, url string, params map[string][]string) (status int, json bool, body []byte).
func (fr *Frame) doHTTP(method string, u Value, params *MapV) httpResult {
	merged := newMap()
	strT := types.Typ[types.String]
	add := func(m *MapV) {
		if m == nil {
			return
		}
		for _, e := range m.ents {
			if e.dead || len(e.v.(Slice)) == 0 {
				continue
			}
			old := fr.mapFind(merged, e.k, strT)
			var vs Slice
			if old != nil {
				vs = old.v.(Slice)
			}
			vs = append(append(Slice{}, vs...), e.v.(Slice)...)
			fr.mapSet(merged, e.k, vs, strT)
		}
	}
	// split a query off the URL
	ps := pieces(u)
	if len(ps) == 0 || ps[0].k != pConst || !(strings.HasPrefix(ps[0].s, "http://") || strings.HasPrefix(ps[0].s, "https://")) {
		if len(ps) > 0 && ps[0].k != pConst && ps[0].k != pAtom {
			panic(unsup("symbolic URL scheme"))
		}
		return httpResult{fail: true}
	}
	base := []Piece{}
	for i, p := range ps {
		if p.k == pConst {
			if j := strings.IndexAny(p.s, "?#"); j >= 0 {
				if p.s[j] == '#' {
					panic(unsup("URL fragment"))
				}
				rest := mkStr(append([]Piece{{k: pConst, s: p.s[j+1:]}}, ps[i+1:]...))
				base = append(base, Piece{k: pConst, s: p.s[:j]})
				add(fr.parseQueryRope(rest))
				goto done
			}
		}
		base = append(base, p)
	}
done:
	add(params)
	if fr.p.serve == nil {
		return httpResult{fail: true}
	}
	fr.p.sched.maybeYield(fr.g)
	r := fr.call(fr.p.serve, []Value{method, mkStr(base), merged}).(Tuple)
	st, ok := r[0].(int64)
	if !ok {
		st = int64(fr.p.concretize(r[0].(*Term)))
	}
	if st == 0 {
		return httpResult{fail: true}
	}
	js := fr.p.decide(r[1])
	b, _ := r[2].(Slice)
	return httpResult{status: st, json: js, body: b}
}

// parseQueryRope splits a query string at its constant separators.
func (fr *Frame) parseQueryRope(v Value) *MapV {
	m := newMap()
	strT := types.Typ[types.String]
	el, _ := flat(v)
	var parts [][]Value
	cur := []Value{}
	for _, e := range el {
		if c, ok := e.(int64); ok && c == '&' {
			parts = append(parts, cur)
			cur = nil
			continue
		}
		cur = append(cur, e)
	}
	parts = append(parts, cur)
	un := func(x []Value) Value {
		var out []Piece
		for _, p := range pieces(unflat(x)) {
			if p.k == pConst {
				s, err := url.QueryUnescape(p.s)
				if err != nil {
					panic(unsup("query escape"))
				}
				p.s = s
			} else if p.k == pHole && p.h.kind == "inj" && p.h.name == "qesc" {
				out = append(out, pieces(p.h.v)...)
				continue
			}
			out = append(out, p)
		}
		return mkStr(out)
	}
	for _, p := range parts {
		if len(p) == 0 {
			continue
		}
		k, val := p, []Value{}
		for i, e := range p {
			if c, ok := e.(int64); ok && c == '=' {
				k, val = p[:i], p[i+1:]
				break
			}
		}
		kk := un(k)
		old := fr.mapFind(m, kk, strT)
		var vs Slice
		if old != nil {
			vs = old.v.(Slice)
		}
		fr.mapSet(m, kk, append(append(Slice{}, vs...), un(val)), strT)
	}
	return m
}

func (fr *Frame) mkHTTPResponse(r httpResult) Value {
	st := httpT.httpResp
	s := make(Struct, st.NumFields())
	for i := range s {
		s[i] = zero(st.Field(i).Type())
	}
	s[fieldIdx(st, "StatusCode")] = r.status
	h := newMap()
	ct := "application/octet-stream"
	if r.json {
		ct = "application/json"
	}
	fr.mapSet(h, "Content-Type", Slice{ct}, types.Typ[types.String])
	s[fieldIdx(st, "Header")] = h
	s[fieldIdx(st, "Body")] = Iface{httpT.bodyPtr, newPtr(&HostObj{"body", &r})}
	return newPtr(s)
}

func (fr *Frame) restyExecute(req Value, method string, u Value) Value {
	rp := fr.deref(req)
	rs := (*rp).(Struct)
	rt := httpT.request
	get := func(n string) Value { return rs[fieldIdx(rt, n)] }
	params := get("QueryParam").(*MapV)
	if method == "POST" {
		if f := get("FormData").(*MapV); f != nil && f.count > 0 {
			params = f
		}
	}
	r := fr.doHTTP(method, u, params)
	if r.fail {
		return Tuple{(*Value)(nil), mkErr(fr, method+": connection failed")}
	}
	st := httpT.response
	s := make(Struct, st.NumFields())
	for i := range s {
		s[i] = zero(st.Field(i).Type())
	}
	s[fieldIdx(st, "Request")] = req
	s[fieldIdx(st, "RawResponse")] = fr.mkHTTPResponse(r)
	body := Slice(append(make([]Value, 0, len(r.body)), r.body...))
	s[fieldIdx(st, "body")] = body
	s[fieldIdx(st, "size")] = int64(0)
	resp := newPtr(s)
	ei := fieldIdx(rt, "Error")
	if r.status == 204 {
		rs[ei] = Iface{}
		return Tuple{resp, Iface{}}
	}
	if r.json {
		if r.status >= 200 && r.status < 300 {
			rs[ei] = Iface{}
			if res := get("Result").(Iface); res.t != nil {
				if err := fr.jsonUnmarshal(body, res); err.t != nil {
					return Tuple{resp, err}
				}
			}
			return Tuple{resp, Iface{}}
		}
		if r.status > 399 {
			if e := rs[ei].(Iface); e.t != nil {
				fr.jsonUnmarshal(body, e)
			}
		}
	}
	return Tuple{resp, Iface{}}
}

func httpIntrinsic(path string, fn *ssa.Function) intrinsic {
	n := fn.Name()
	switch path {
	case "net/url":
		return urlIntrinsic(fn)
	case restyPath:
		recv := fn.Signature.Recv()
		if recv == nil {
			switch n {
			case "New":
				return func(fr *Frame, a []Value) Value {
					s := make(Struct, httpT.client.NumFields())
					for i := range s {
						s[i] = zero(httpT.client.Field(i).Type())
					}
					return newPtr(s)
				}
			case "getPointer":
				return nil
			}
			if strings.HasSuffix(n, "Policy") || strings.HasSuffix(n, "PolicyFunc") {
				return func(fr *Frame, a []Value) Value { return zeroResults(fn) }
			}
			return nil
		}
		pt, ok := recv.Type().(*types.Pointer)
		if !ok {
			return nil
		}
		switch types.Unalias(pt.Elem()).(*types.Named).Obj().Name() {
		case "Client":
			if n == "R" || n == "NewRequest" {
				return nil
			}
			if fn.Signature.Results().Len() == 1 && types.Identical(fn.Signature.Results().At(0).Type(), recv.Type()) {
				return func(fr *Frame, a []Value) Value { return a[0] }
			}
			return nil
		case "Request":
			switch n {
			case "Execute":
				return func(fr *Frame, a []Value) Value { return fr.restyExecute(a[0], str(a[1]), a[2]) }
			case "Get", "Post", "Put", "Head", "Delete", "Patch", "Options":
				return func(fr *Frame, a []Value) Value { return fr.restyExecute(a[0], strings.ToUpper(n), a[1]) }
			case "SetContext":
				return func(fr *Frame, a []Value) Value { return a[0] }
			}
		}
	case "net/http":
		switch fn.String() {
		case "net/http.PostForm":
			return func(fr *Frame, a []Value) Value {
				r := fr.doHTTP("POST", a[0], a[1].(*MapV))
				if r.fail {
					return Tuple{(*Value)(nil), mkErr(fr, "Post: connection failed")}
				}
				return Tuple{fr.mkHTTPResponse(r), Iface{}}
			}
		case "(*net/http.Client).PostForm":
			return func(fr *Frame, a []Value) Value {
				r := fr.doHTTP("POST", a[1], a[2].(*MapV))
				if r.fail {
					return Tuple{(*Value)(nil), mkErr(fr, "Post: connection failed")}
				}
				return Tuple{fr.mkHTTPResponse(r), Iface{}}
			}
		case "(*net/http.Client).Get":
			return func(fr *Frame, a []Value) Value {
				r := fr.doHTTP("GET", a[1], nil)
				if r.fail {
					return Tuple{(*Value)(nil), mkErr(fr, "Get: connection failed")}
				}
				return Tuple{fr.mkHTTPResponse(r), Iface{}}
			}
		case "(*net/http.Client).Do":
			return func(fr *Frame, a []Value) Value {
				req := (*fr.deref(a[1])).(Struct)
				st := httpT.httpReq
				var method Value
				var u Value
				var body Iface
				for i := range st.NumFields() {
					switch st.Field(i).Name() {
					case "Method":
						method = req[i]
					case "URL":
						m := fr.p.w.prog.methodByName(st.Field(i).Type(), "String")
						u = fr.callInfo(fr.p.w.prog.info(m), []Value{req[i]}, nil)
					case "Body":
						body = req[i].(Iface)
					}
				}
				m, ok := method.(string)
				if !ok {
					panic(unsup("symbolic method"))
				}
				if m == "" {
					m = "GET"
				}
				var form *MapV
				if body.t != nil {
					b, err := fr.readAll(body)
					if err.t != nil {
						return Tuple{(*Value)(nil), err}
					}
					form = fr.parseQueryRope(unflat(b))
				}
				r := fr.doHTTP(m, u, form)
				if r.fail {
					return Tuple{(*Value)(nil), mkErr(fr, m+": connection failed")}
				}
				return Tuple{fr.mkHTTPResponse(r), Iface{}}
			}
		case "net/http.Get":
			return func(fr *Frame, a []Value) Value {
				r := fr.doHTTP("GET", a[0], nil)
				if r.fail {
					return Tuple{(*Value)(nil), mkErr(fr, "Get: connection failed")}
				}
				return Tuple{fr.mkHTTPResponse(r), Iface{}}
			}
		}
	case "io":
		if fn.String() == "io.ReadAll" {
			return func(fr *Frame, a []Value) Value {
				if h := hostOf(a[0]); h != nil && h.kind == "body" {
					r := h.data.(*httpResult)
					b := r.body
					cp := *r
					cp.body = Slice{}
					h.data = &cp
					return Tuple{Slice(append([]Value{}, b...)), Iface{}}
				}
				if el, ok := fr.rest(a[0].(Iface)); ok {
					return Tuple{Slice(append([]Value{}, el...)), Iface{}}
				}
				return fallThrough
			}
		}
		if fn.String() == "io.LimitReader" {
			return func(fr *Frame, a []Value) Value {
				if h := hostOf(a[0]); h != nil && h.kind == "body" {
					return a[0]
				}
				return fallThrough
			}
		}
	}
	return nil
}

func init() {
	hostMethods["body"] = map[string]hostFn{
		"Close": func(fr *Frame, a []Value) Value { return Iface{} },
	}
}

// urlIntrinsic applies the escaping functions of net/url to the constant
// pieces of a string. Words and encoded tokens consist of characters no URL
// component escapes (or are escaped and unescaped alike) and pass unchanged.
func urlIntrinsic(fn *ssa.Function) intrinsic {
	if fn.Signature.Recv() != nil {
		return nil
	}
	pass := func(fr *Frame, a []Value, each func(v Value) (Value, bool)) Value {
		for _, p := range pieces(a[0]) {
			if p.k == pByte {
				panic(unsup("URL with symbolic bytes"))
			}
			if p.k != pConst {
				continue
			}
			if i := strings.LastIndexByte(p.s, '%'); i >= 0 && i+2 >= len(p.s) && fn.Name() != "escape" {
				panic(unsup("percent escape next to a symbolic word"))
			}
			r := fr.callInfo(fr.p.w.prog.info(fn), append([]Value{p.s}, a[1:]...), nil)
			if v, stop := each(r); stop {
				return v
			}
		}
		return nil
	}
	concat := func(fr *Frame, a []Value, f func(v Value) (Value, bool)) (Value, bool) {
		out := []Piece{}
		for _, p := range pieces(a[0]) {
			if p.k == pConst {
				one := append([]Value{p.s}, a[1:]...)
				var s Value
				stop := pass(fr, one, func(v Value) (Value, bool) {
					if r, failed := f(v); failed {
						return v, true
					} else {
						s = r
					}
					return nil, false
				})
				if stop != nil {
					return stop, true
				}
				out = append(out, pieces(s)...)
				continue
			}
			if p.k == pByte {
				panic(unsup("URL with symbolic bytes"))
			}
			out = append(out, p)
		}
		return mkStr(out), false
	}
	switch fn.Name() {
	case "stringContainsCTLByte":
		return func(fr *Frame, a []Value) Value {
			if isConc(a[0]) {
				return fallThrough
			}
			if r := pass(fr, a, func(v Value) (Value, bool) { return v, v == Value(true) }); r != nil {
				return r
			}
			return false
		}
	case "validEncoded":
		return func(fr *Frame, a []Value) Value {
			if isConc(a[0]) {
				return fallThrough
			}
			if r := pass(fr, a, func(v Value) (Value, bool) { return v, v == Value(false) }); r != nil {
				return r
			}
			return true
		}
	case "escape":
		return func(fr *Frame, a []Value) Value {
			if isConc(a[0]) {
				return fallThrough
			}
			r, _ := concat(fr, a, func(v Value) (Value, bool) { return v, false })
			return r
		}
	case "unescape":
		return func(fr *Frame, a []Value) Value {
			if isConc(a[0]) {
				return fallThrough
			}
			r, failed := concat(fr, a, func(v Value) (Value, bool) {
				t := v.(Tuple)
				if e := t[1].(Iface); e.t != nil {
					return nil, true
				}
				return t[0], false
			})
			if failed {
				return r
			}
			return Tuple{r, Iface{}}
		}
	}
	return nil
}
