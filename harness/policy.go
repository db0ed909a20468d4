package zzverif

import (
	"encoding/json"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/internal/zzverif/nd"
)

// The oracle of the metadata policy properties: section 6.1 of OpenID
// Federation 1.0 over sets of strings, written without reference to the code.

// pol is a policy entry; operands are nil, string, []string, bool or int.
type pol map[string]any

// pv is a metadata value: string, []string, bool or int, if set.
type pv struct {
	set bool
	v   any
}

func elem(x string, l []string) bool {
	for _, e := range l {
		if e == x {
			return true
		}
	}
	return false
}

func within(a, b []string) bool {
	for _, e := range a {
		if !elem(e, b) {
			return false
		}
	}
	return true
}

func union(a, b []string) []string {
	out := append([]string{}, a...)
	for _, e := range b {
		if !elem(e, out) {
			out = append(out, e)
		}
	}
	return out
}

func meet(a, b []string) []string {
	out := []string{}
	for _, e := range a {
		if elem(e, b) {
			out = append(out, e)
		}
	}
	return out
}

// same compares values as the specification does: lists are sets.
func same(a, b any) bool {
	la, oka := a.([]string)
	lb, okb := b.([]string)
	if oka && okb {
		return within(la, lb) && within(lb, la)
	}
	if oka != okb || (a == nil) != (b == nil) {
		return false
	}
	return a == b
}

func anyOf(x any, l any) bool {
	switch ll := l.(type) {
	case []string:
		s, ok := x.(string)
		return ok && elem(s, ll)
	case []int:
		for _, e := range ll {
			if x == any(e) {
				return true
			}
		}
	case []bool:
		for _, e := range ll {
			if x == any(e) {
				return true
			}
		}
	}
	return false
}

func size(l any) int {
	switch ll := l.(type) {
	case []string:
		return len(ll)
	case []int:
		return len(ll)
	case []bool:
		return len(ll)
	}
	return 0
}

func has1(p pol, k string) bool { _, ok := p[k]; return ok }

func (p pol) essential() bool { b, _ := p["essential"].(bool); return b }

// valid tells whether the operators of an entry may stand together.
func (p pol) valid() bool {
	if has1(p, "one_of") {
		if size(p["one_of"]) == 0 || has1(p, "subset_of") || has1(p, "superset_of") || has1(p, "add") {
			return false
		}
	}
	if v, ok := p["value"]; ok {
		if v == nil {
			if has1(p, "default") || has1(p, "one_of") || p.essential() {
				return false
			}
		} else {
			l, isList := v.([]string)
			if has1(p, "one_of") && !anyOf(v, p["one_of"]) {
				return false
			}
			if isList {
				if a, ok := p["add"].([]string); ok && !within(a, l) {
					return false
				}
				if s, ok := p["subset_of"].([]string); ok && !within(l, s) {
					return false
				}
				if s, ok := p["superset_of"].([]string); ok && !within(s, l) {
					return false
				}
			}
		}
	}
	if s, ok := p["subset_of"].([]string); ok {
		if a, ok := p["add"].([]string); ok && !within(a, s) {
			return false
		}
		if a, ok := p["superset_of"].([]string); ok && !within(a, s) {
			return false
		}
	}
	return true
}

// merge combines the policies of a superior and a subordinate.
func (p pol) merge(q pol) (pol, bool) {
	out := pol{}
	for _, op := range opNames {
		a, oka := p[op]
		b, okb := q[op]
		switch {
		case oka && !okb:
			out[op] = a
		case okb && !oka:
			out[op] = b
		case oka && okb:
			switch op {
			case "value", "default":
				if !same(a, b) {
					return nil, false
				}
				out[op] = a
			case "add", "superset_of":
				out[op] = union(a.([]string), b.([]string))
			case "one_of", "subset_of":
				out[op] = meet(a.([]string), b.([]string))
			case "essential":
				out[op] = a.(bool) || b.(bool)
			}
		}
	}
	return out, out.valid()
}

var opNames = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}

func (x pv) list() []string {
	l, _ := x.v.([]string)
	return l
}

// apply transforms a value; false is a failure.
func (p pol) apply(x pv) (pv, bool) {
	if v, ok := p["value"]; ok {
		x = pv{v != nil, v}
	}
	if a, ok := p["add"].([]string); ok {
		x = pv{true, union(x.list(), a)}
	}
	if d, ok := p["default"]; ok && !x.set {
		x = pv{true, d}
	}
	if o, ok := p["one_of"]; ok {
		if !x.set {
			if p.essential() {
				return x, false
			}
		} else if !anyOf(x.v, o) {
			return x, false
		}
	}
	if s, ok := p["subset_of"].([]string); ok {
		if !x.set {
			if p.essential() {
				return x, false
			}
		} else {
			x.v = meet(x.list(), s)
		}
	}
	if s, ok := p["superset_of"].([]string); ok {
		if !x.set {
			if p.essential() {
				return x, false
			}
		} else if !within(s, x.list()) {
			return x, false
		}
	}
	if p.essential() && !x.set {
		return x, false
	}
	return x, true
}

// entry converts to the library's type with values as decoded from JSON.
func (p pol) entry() oidfed.MetadataPolicyEntry {
	out := oidfed.MetadataPolicyEntry{}
	for k, v := range p {
		out[oidfed.PolicyOperatorName(k)] = generic(v)
	}
	return out
}

func generic(v any) any {
	switch x := v.(type) {
	case []string:
		out := []any{}
		for _, e := range x {
			out = append(out, e)
		}
		return out
	case []int:
		out := []any{}
		for _, e := range x {
			out = append(out, float64(e))
		}
		return out
	case []bool:
		out := []any{}
		for _, e := range x {
			out = append(out, e)
		}
		return out
	case int:
		return float64(x)
	}
	return v
}

// plain converts a decoded JSON value to the oracle's form.
func plain(v any) any {
	switch x := v.(type) {
	case []any:
		out := []string{}
		for _, e := range x {
			s, ok := e.(string)
			if !ok {
				return v
			}
			out = append(out, s)
		}
		return out
	case float64:
		return int(x)
	}
	return v
}

// atoms hands out arbitrary words within a budget.
type atoms struct{ left int64 }

func (a *atoms) str(l string) string {
	if a.left <= 0 {
		nd.Stop()
	}
	a.left--
	return nd.Str(l)
}

func (a *atoms) list(l string, max int64) []string {
	if max > a.left {
		max = a.left
	}
	n := nd.Choice(l+" len", max+1)
	out := []string{}
	for i := 0; i < n; i++ {
		out = append(out, a.str(l))
	}
	return out
}

// entryOf makes an arbitrary entry for a list or string parameter with at most n operators.
func (a *atoms) entryOf(l string, list bool, n, max int64) pol {
	p := pol{}
	ops := opNames
	if list {
		ops = []string{"value", "add", "default", "subset_of", "superset_of", "essential"}
	} else {
		ops = []string{"value", "default", "one_of", "essential"}
	}
	for _, op := range ops {
		if int64(len(p)) >= n {
			break
		}
		if !nd.Flag(l + " " + op) {
			continue
		}
		switch {
		case op == "essential":
			p[op] = nd.Flag(l + " is essential")
		case op == "value" && nd.Flag(l+" null"):
			p[op] = nil
		case list || op == "one_of":
			p[op] = a.list(l+" "+op, max)
		default:
			p[op] = a.str(l + " " + op)
		}
	}
	if v, ok := p["value"]; ok && v == nil && list {
		// beside list operators the meaning of a null value is not specified
		if has1(p, "add") || has1(p, "subset_of") || has1(p, "superset_of") {
			nd.Stop()
		}
	}
	return p
}

// valueOf makes an arbitrary metadata value.
func (a *atoms) valueOf(l string, list bool, max int64) pv {
	if !nd.Flag(l + " set") {
		return pv{}
	}
	if list {
		return pv{true, a.list(l, max)}
	}
	return pv{true, a.str(l)}
}

// param locates a metadata parameter.
type param struct{ et, name string }

func metaOf(q param, x pv) *oidfed.Metadata {
	o := obj{}
	if x.set {
		o[q.name] = x.v
	}
	var m oidfed.Metadata
	if err := json.Unmarshal(enc(obj{q.et: o}), &m); err != nil {
		panic(err)
	}
	return &m
}

func polsOf(q param, p pol) *oidfed.MetadataPolicies {
	var m oidfed.MetadataPolicies
	err := json.Unmarshal(enc(obj{q.et: obj{q.name: map[string]any(p)}}), &m)
	nd.Assert(err == nil, "a policy can be parsed")
	return &m
}

// get reads a parameter of the resolved metadata.
func get(m *oidfed.Metadata, q param) (any, bool) {
	var o map[string]map[string]any
	if err := json.Unmarshal(enc(m), &o); err != nil {
		panic(err)
	}
	v, ok := o[q.et][q.name]
	if v == nil {
		ok = false
	}
	return plain(v), ok
}

// agrees compares a resolved parameter with the oracle's value; an empty list
// of a parameter known to the library is not distinguished from absence.
func agrees(got any, ok bool, want pv) bool {
	if l, isList := want.v.([]string); want.set && isList && len(l) == 0 {
		return !ok || same(got, want.v)
	}
	if ok != want.set {
		return false
	}
	return !ok || same(got, want.v)
}
