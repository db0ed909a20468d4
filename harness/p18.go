package zzverif

import (
	"encoding/json"
	"reflect"
	"strings"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
)

// docTypes are all document types with extra claims.
var docTypes = []func() any{
	func() any { return &oidfed.EntityStatementPayload{} },
	func() any { return &oidfed.Metadata{} },
	func() any { return &oidfed.OpenIDProviderMetadata{} },
	func() any { return &oidfed.OpenIDRelyingPartyMetadata{} },
	func() any { return &oidfed.OAuthAuthorizationServerMetadata{} },
	func() any { return &oidfed.OAuthClientMetadata{} },
	func() any { return &oidfed.OAuthProtectedResourceMetadata{} },
	func() any { return &oidfed.FederationEntityMetadata{} },
	func() any { return &oidfed.TrustMark{} },
	func() any { return &oidfed.TrustMarkInfo{} },
	func() any { return &oidfed.TrustMarkSpec{} },
	func() any { return &oidfed.DelegationJWT{} },
	func() any { return &oidfed.ResolveResponsePayload{} },
	func() any { return &oidfed.ResolveResponse{} },
	func() any { return &oidfed.CollectedEntity{} },
	func() any { return &oidfed.UIInfo{} },
	func() any { return &oidfed.EntityCollectionResponse{} },
	func() any { return &oidfed.MetadataPolicies{} },
}

// claim is a claim of a document type and the field that holds it.
type claim struct {
	name     string
	required bool
	f        reflect.Value
}

// claims are all registered claims of a document.
func claims(v reflect.Value) (cs []claim) {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		if f.Anonymous {
			cs = append(cs, claims(v.Field(i))...)
			continue
		}
		tag := f.Tag.Get("json")
		if tag == "-" || tag == "" {
			continue
		}
		name, rest, _ := strings.Cut(tag, ",")
		cs = append(cs, claim{name, rest != "omitempty", v.Field(i)})
	}
	return
}

// fill sets v to an arbitrary value that is not empty.
func fill(l string, v reflect.Value) {
	switch x := v.Addr().Interface().(type) {
	case *unixtime.Unixtime:
		x.Time = unix(nd.Int(l, 1, 1<<32))
		return
	case *unixtime.DurationInSeconds:
		x.Duration = unix(nd.Int(l, 1, 1<<31)).Sub(unix(0))
		return
	case *jwks.JWKS:
		*x = nd.KeySet(nd.Int(l, 1, 3))
		return
	case *oidfed.JWSMessages:
		if json.Unmarshal(enc(arr{string(nd.Sign(enc(obj{"sub": nd.Str(l)}), typES, 1))}), x) != nil {
			panic("chain")
		}
		return
	case *oidfed.MetadataPolicy:
		*x = oidfed.MetadataPolicy{"p": {"value": nd.Str(l), "one_of": arr{nd.Str(l + " one of"), "x"}}}
		return
	case *oidfed.Metadata:
		x.OpenIDProvider = &oidfed.OpenIDProviderMetadata{Issuer: nd.Str(l)}
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(nd.Str(l))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64, reflect.Uint64:
		i := nd.Int(l, -(1 << 40), 1<<40)
		nd.Assume(i != 0)
		v.SetInt(i)
	case reflect.Pointer:
		p := reflect.New(v.Type().Elem())
		fill(l, p.Elem())
		v.Set(p)
	case reflect.Slice:
		n := 2
		if !strings.HasPrefix(l, "all") {
			n = 1 + nd.Choice(l+" length", 2)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			fill(l+" element", s.Index(i))
		}
		v.Set(s)
	case reflect.Map:
		m := reflect.MakeMap(v.Type())
		e := reflect.New(v.Type().Elem()).Elem()
		fill(l+" entry", e)
		m.SetMapIndex(reflect.ValueOf("a key"), e)
		v.Set(m)
	case reflect.Struct:
		cs := claims(v)
		if len(cs) == 0 {
			panic("no claims in " + v.Type().String())
		}
		fill(l+" "+cs[0].name, cs[0].f)
	case reflect.Interface:
		v.Set(reflect.ValueOf(nd.Str(l)))
	default:
		panic("fill " + v.Type().String())
	}
}

// sameClaims compares the claims of two values; empty and missing are the same.
func sameClaims(a, b reflect.Value) bool {
	switch x := a.Interface().(type) {
	case unixtime.Unixtime:
		y := b.Interface().(unixtime.Unixtime)
		if x.IsZero() { // not set: written as 0
			return y.IsZero() || y.Unix() == 0
		}
		return !y.IsZero() && x.Equal(y.Time)
	case unixtime.DurationInSeconds:
		return x.Duration == b.Interface().(unixtime.DurationInSeconds).Duration
	case jwks.JWKS:
		y := b.Interface().(jwks.JWKS)
		if x.Set == nil || y.Set == nil {
			return x.Set == nil && y.Set == nil
		}
		for id := int64(1); id <= 3; id++ {
			if nd.HasKeys(x, id) != nd.HasKeys(y, id) {
				return false
			}
		}
		return true
	case oidfed.JWSMessages:
		y := b.Interface().(oidfed.JWSMessages)
		if len(x) != len(y) {
			return false
		}
		for i := range x {
			if string(x[i].RawJWT) != string(y[i].RawJWT) {
				return false
			}
		}
		return true
	}
	switch a.Kind() {
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameClaims(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameClaims(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if x := b.MapIndex(k); !x.IsValid() || !sameClaims(a.MapIndex(k), x) {
				return false
			}
		}
		return true
	case reflect.Struct:
		ok := true
		for i := 0; i < a.NumField(); i++ {
			if a.Type().Field(i).IsExported() {
				ok = nd.And(ok, sameClaims(a.Field(i), b.Field(i)))
			}
		}
		return ok
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return eqJSON(a.Interface(), b.Interface())
	}
	panic("same " + a.Type().String())
}

// extraValue is an arbitrary JSON value.
func extraValue(l string) any {
	switch nd.Choice(l+" shape", 5) {
	case 0:
		return true
	case 1:
		return arr{nd.Str(l), obj{}}
	case 2:
		return obj{"iss": nd.Str(l), "x": arr{}}
	case 3:
		return ""
	}
	return nd.Str(l)
}

// H_P18_roundtrip: documents of every type with an arbitrary claim (and in
// thorough mode two, or all of them) and an arbitrary extra claim.
func H_P18_roundtrip() {
	mk := docTypes[nd.Choice("type", int64(len(docTypes)))]
	doc := mk()
	v := reflect.ValueOf(doc).Elem()
	cs := claims(v)
	set := map[string]bool{}
	n := nd.Bound("claims", 1, 2)
	var chosen claim
	last := -1
	for k := int64(0); k < n; k++ {
		i := nd.Choice("claim", int64(len(cs)+2))
		if i == len(cs) {
			break
		}
		if i > len(cs) { // all of them
			for _, c := range cs {
				set[c.name] = true
				fill("all: value of "+c.name, c.f)
			}
			last, chosen = 0, cs[0]
			break
		}
		if i <= last {
			nd.Stop()
		}
		last = i
		chosen = cs[i]
		set[chosen.name] = true
		fill("value of "+chosen.name, chosen.f)
	}
	ex := v.FieldByName("Extra")
	name, kept := "", true
	switch nd.Choice("extra", 4) {
	case 1:
		name = nd.Str("name")
		for _, c := range cs {
			nd.Assume(name != c.name)
		}
	case 2: // differs from a registered claim in case only
		if last < 0 {
			last = nd.Choice("similar", int64(len(cs)))
		}
		i := last
		name = strings.ToUpper(cs[i].name)
		if nd.Flag("first letter only") {
			name = strings.ToUpper(cs[i].name[:1]) + cs[i].name[1:]
		}
	case 3: // collides with a claim
		if last < 0 {
			nd.Stop()
		}
		name, kept = chosen.name, false
	}
	var value any
	if name != "" {
		if p, ok := doc.(*oidfed.MetadataPolicies); ok {
			p.Extra = map[string]oidfed.MetadataPolicy{name: {"p": {"value": nd.Str("extra")}}}
			value = plainJSON(p.Extra[name])
		} else {
			value = extraValue("extra")
			ex.Set(reflect.ValueOf(map[string]any{name: value}))
		}
	}
	data, err := json.Marshal(doc)
	nd.Assert(err == nil, "documents can be serialized")

	// the serialized document has exactly the claims
	var raw map[string]any
	nd.Assert(json.Unmarshal(data, &raw) == nil, "documents are JSON objects")
	for _, c := range cs {
		if c.required || set[c.name] {
			_, ok := raw[c.name]
			nd.Assert(ok, "claims are serialized")
			delete(raw, c.name)
		}
	}
	if name != "" && kept {
		nd.Assert(eqJSON(raw[name], value), "extra claims are serialized")
		delete(raw, name)
	}
	nd.Assert(len(raw) == 0, "absent claims stay absent")

	back := mk()
	nd.Assert(json.Unmarshal(data, back) == nil, "serialized documents can be parsed")
	w := reflect.ValueOf(back).Elem()
	cw := claims(w)
	for i, c := range cs {
		nd.Assert(sameClaims(c.f, cw[i].f), "registered claims survive unchanged")
	}
	got := w.FieldByName("Extra")
	if name == "" || !kept {
		nd.Cover("no extra claim")
		nd.Assert(got.Len() == 0, "no extra claims appear")
		return
	}
	nd.Cover("extra claim")
	x := got.MapIndex(reflect.ValueOf(name))
	nd.Assert(got.Len() == 1 && x.IsValid() && eqJSON(plainJSON(x.Interface()), value), "extra claims survive unchanged")
}

// H_P18_parsed: a claim and one that differs from it in case, in any order.
func H_P18_parsed() {
	mk := docTypes[nd.Choice("type", int64(len(docTypes)))]
	doc := mk()
	cs := claims(reflect.ValueOf(doc).Elem())
	c := cs[nd.Choice("claim", int64(len(cs)))]
	fill("value", c.f)
	registered := enc(c.f.Interface())
	var other any = obj{"p": obj{"value": "x"}}
	if _, ok := doc.(*oidfed.MetadataPolicies); !ok {
		other = extraValue("other")
	}
	name := strings.ToUpper(c.name)
	a, b := `"`+c.name+`":`+string(registered), `"`+name+`":`+string(enc(other))
	switch nd.Choice("order", 3) {
	case 0:
		a, b = b, a
	case 1:
		a = ""
	}
	text := "{" + a + "," + b + "}"
	if a == "" {
		text = "{" + b + "}"
	}
	back := mk()
	nd.Assert(json.Unmarshal([]byte(text), back) == nil, "the document can be parsed")
	w := reflect.ValueOf(back).Elem()
	want := reflect.ValueOf(mk()).Elem()
	if a != "" {
		want = reflect.ValueOf(doc).Elem()
	}
	wc, cw := claims(want), claims(w)
	for i := range wc {
		nd.Assert(sameClaims(wc[i].f, cw[i].f), "unknown claims do not alter registered ones")
	}
	got := w.FieldByName("Extra")
	x := got.MapIndex(reflect.ValueOf(name))
	nd.Assert(got.Len() == 1 && x.IsValid() && eqJSON(plainJSON(x.Interface()), other), "unknown claims are kept")
}

func plainJSON(v any) (out any) {
	if err := json.Unmarshal(enc(v), &out); err != nil {
		panic(err)
	}
	return
}
