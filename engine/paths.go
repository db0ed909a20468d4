package main

import (
	"strings"
)

// path.Join and path.Clean over strings with words: a word has no slash and no
// dot and is not empty, so a component with a word in it stays.

func (fr *Frame) cleanPath(v Value) Value {
	el, _ := flat(v)
	if len(el) == 0 {
		return "."
	}
	for _, e := range el {
		switch e := e.(type) {
		case int64:
		case *Hole:
			if (Piece{k: e.pk(), h: e}).mayContain('/') || (Piece{k: e.pk(), h: e}).mayContain('.') || e.mayBeEmpty() {
				panic(unsup("path with %s", e.kind))
			}
		default:
			panic(unsup("path with symbolic bytes"))
		}
	}
	rooted := el[0] == Value(int64('/'))
	var comps [][]Value
	var cur []Value
	end := func() {
		s := make([]byte, 0, 2)
		for _, e := range cur {
			if c, ok := e.(int64); ok && c == '.' {
				s = append(s, '.')
			} else {
				s = append(s, 'x')
			}
		}
		switch string(s) {
		case "", ".":
		case "..":
			n := len(comps)
			if n > 0 && !(len(comps[n-1]) == 2 && comps[n-1][0] == Value(int64('.')) && comps[n-1][1] == Value(int64('.'))) {
				comps = comps[:n-1]
			} else if !rooted {
				comps = append(comps, cur)
			}
		default:
			comps = append(comps, cur)
		}
		cur = nil
	}
	for _, e := range el {
		if e == Value(int64('/')) {
			end()
			continue
		}
		cur = append(cur, e)
	}
	end()
	var out []Value
	if rooted {
		out = append(out, int64('/'))
	}
	for i, c := range comps {
		if i > 0 {
			out = append(out, int64('/'))
		}
		out = append(out, c...)
	}
	if len(out) == 0 {
		return "."
	}
	return unflat(out)
}

func isText(v Value) bool { _, ok := v.(string); return ok }

func pathInit() {
	reg(func(fr *Frame, a []Value) Value {
		if isText(a[0]) {
			return fallThrough
		}
		return fr.cleanPath(a[0])
	}, "path.Clean")
	reg(func(fr *Frame, a []Value) Value {
		all := true
		var out []Value
		for _, e := range a[0].(Slice) {
			all = all && isText(e)
			el, _ := flat(e)
			if len(el) == 0 {
				continue
			}
			if len(out) > 0 {
				out = append(out, int64('/'))
			}
			out = append(out, el...)
		}
		if all {
			return fallThrough
		}
		return fr.cleanPath(unflat(out))
	}, "path.Join")
}

// rest takes what a reader over memory still has.
func (fr *Frame) rest(r Iface) ([]Value, bool) {
	if r.t == nil {
		return nil, false
	}
	switch n := r.t.String(); n {
	case "io.nopCloser", "io.nopCloserWriterTo":
		in, ok := r.v.(Struct)[0].(Iface)
		if !ok {
			return nil, false
		}
		return fr.rest(in)
	case "*strings.Reader", "*bytes.Reader":
		s := (*fr.deref(r.v)).(Struct)
		if i, ok := s[1].(int64); !ok || i != 0 {
			return nil, false
		}
		el, isS := s[0].(Slice)
		if !isS {
			if t, ok := s[0].(string); ok && !strings.HasPrefix(n, "*bytes") {
				el = bytesOf(t)
			} else {
				el, _ = flat(s[0])
			}
		}
		if !hasHole(el) {
			return nil, false
		}
		if isS {
			s[0] = Slice(nil)
		} else {
			s[0] = ""
		}
		return el, true
	case "*bytes.Buffer":
		s := (*fr.deref(r.v)).(Struct)
		if i, ok := s[1].(int64); !ok || i != 0 {
			return nil, false
		}
		el, _ := s[0].(Slice)
		if !hasHole(el) {
			return nil, false
		}
		s[0] = Slice(nil)
		return el, true
	}
	return nil, false
}

func bytesOf(s string) []Value {
	out := make([]Value, len(s))
	for i := range len(s) {
		out[i] = int64(s[i])
	}
	return out
}
