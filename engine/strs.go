package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Positions inside strings with words: a position behind a word is a sum of
// lengths. Code may compute positions (len, Index) and slice at them again.

// holeLen is the length of a word or of other content of unknown length.
func (fr *Frame) holeLen(h *Hole) *Term {
	b := fr.p.bank
	if h.mayBeEmpty() {
		panic(unsup("length of %s", h.kind))
	}
	var t *Term
	if h.kind == "atom" {
		t = b.Var(64, "len:"+strconv.Itoa(int(h.v.(*Term).id)))
	} else {
		t = b.Var(64, fmt.Sprintf("lenh:%p", h))
	}
	if _, ok := fr.p.bounds[t]; !ok {
		fr.p.bounds[t] = [2]int64{1, 1 << 20}
		if _, ok := fr.p.model[t.name]; !ok {
			fr.p.model[t.name] = 1
		}
		fr.p.addPC(b.Bin(OSLe, b.BV(64, 1), t))
		fr.p.addPC(b.Bin(OSLe, t, b.BV(64, 1<<20)))
		fr.p.note("length of symbolic word left unconstrained")
	}
	return t
}

// posVal is the position behind el.
func (fr *Frame) posVal(el []Value) Value {
	b := fr.p.bank
	n := int64(0)
	var acc *Term
	for _, e := range el {
		h, ok := e.(*Hole)
		if !ok {
			n++
			continue
		}
		t := fr.holeLen(h)
		if acc == nil {
			acc = t
		} else {
			acc = b.Bin(OAdd, acc, t)
		}
	}
	if acc == nil {
		return n
	}
	return b.Bin(OAdd, acc, b.BV(64, uint64(n)))
}

// posOf finds the element in front of which the position v is. in: v is inside
// the element before instead.
func (fr *Frame) posOf(el []Value, v Value) (int, bool) {
	if i, ok := v.(int64); ok {
		if i < 0 {
			return -1, true
		}
		for k := 0; ; k++ {
			if int64(k) == i {
				return k, true
			}
			if k >= len(el) {
				return k + 1, true
			}
			if _, h := el[k].(*Hole); h {
				return 0, false
			}
		}
	}
	b := fr.p.bank
	t := b.intTerm(v, 64)
	for k := 0; k <= len(el); k++ {
		if at, _, _, c, ok := fr.p.linear(t, b.intTerm(fr.posVal(el[:k]), 64)); ok && len(at) == 0 && c == 0 {
			return k, true
		}
	}
	return 0, false
}

// trim removes characters of cut at the ends.
func (fr *Frame) trim(v Value, cut string, left, right bool) Value {
	el := fixedEl(v)
	in := func(e Value) bool {
		if h, ok := e.(*Hole); ok {
			for i := range len(cut) {
				if (Piece{k: h.pk(), h: h}).mayContain(cut[i]) || h.mayBeEmpty() {
					panic(unsup("trim of symbolic word"))
				}
			}
			return false
		}
		var any Value = false
		for i := range len(cut) {
			any = or(fr.p.bank, any, beq(fr, e, int64(cut[i])))
		}
		return fr.p.decide(any)
	}
	for left && len(el) > 0 && in(el[0]) {
		el = el[1:]
	}
	for right && len(el) > 0 && in(el[len(el)-1]) {
		el = el[:len(el)-1]
	}
	return unflat(el)
}

// splitN is strings.SplitN for n > 0 or n < 0.
func (fr *Frame) splitN(s, sep Value, n int) []Value {
	el, sp := fixedEl(s), fixedEl(sep)
	if len(sp) == 0 {
		panic(unsup("split of symbolic word into characters"))
	}
	var out []Value
	for n < 0 || len(out) < n-1 {
		i := fr.find(el, sp)
		if i < 0 {
			break
		}
		out = append(out, unflat(el[:i]))
		el = el[i+len(sp):]
	}
	return append(out, unflat(el))
}

// errTree calls f for an error and everything it wraps until f says stop.
func (fr *Frame) errTree(x Iface, depth int, f func(Iface) bool) bool {
	if x.t == nil || depth > 20 {
		return false
	}
	if f(x) {
		return true
	}
	m := fr.p.w.prog.methodByName(x.t, "Unwrap")
	if m == nil || m.Signature.Params().Len() != 0 || m.Signature.Results().Len() != 1 {
		return false
	}
	switch n := fr.callInfo(fr.p.w.prog.info(m), []Value{x.v}, nil).(type) {
	case Iface:
		return fr.errTree(n, depth+1, f)
	case Slice:
		for _, e := range n {
			if i, ok := e.(Iface); ok && fr.errTree(i, depth+1, f) {
				return true
			}
		}
	}
	return false
}

func init() {
	sym := func(f func(fr *Frame, a []Value) Value) intrinsic {
		return func(fr *Frame, a []Value) Value {
			if isConc(a...) {
				return fallThrough
			}
			return f(fr, a)
		}
	}
	reg(sym(func(fr *Frame, a []Value) Value {
		el, pre := fixedEl(a[0]), fixedEl(a[1])
		if fr.p.decide(fr.hasPrefix(el, pre)) {
			return Tuple{unflat(el[len(pre):]), true}
		}
		return Tuple{a[0], false}
	}), "strings.CutPrefix", "internal/stringslite.CutPrefix")
	reg(sym(func(fr *Frame, a []Value) Value {
		el, suf := fixedEl(a[0]), fixedEl(a[1])
		if fr.p.decide(fr.hasSuffix(el, suf)) {
			return Tuple{unflat(el[:len(el)-len(suf)]), true}
		}
		return Tuple{a[0], false}
	}), "strings.CutSuffix", "internal/stringslite.CutSuffix")
	// bytes: like strings, where there are words
	for _, n := range []string{
		"TrimSpace", "Trim", "TrimLeft", "TrimRight", "TrimPrefix", "TrimSuffix", "HasPrefix", "HasSuffix", "Contains",
		"ContainsAny", "ContainsRune", "Index", "IndexRune", "LastIndex", "LastIndexByte", "Count", "Split", "SplitN",
		"Fields", "Replace", "ReplaceAll", "Cut", "CutPrefix", "CutSuffix", "EqualFold", "ToLower", "ToUpper",
	} {
		asBytes := func(v Value) Value { return v }
		asBytes = func(v Value) Value {
			switch x := v.(type) {
			case string, *SStr:
				el, _ := flat(x)
				return Slice(append([]Value{}, el...))
			case Slice:
				for i, e := range x {
					x[i] = asBytes(e)
				}
			case Tuple:
				for i, e := range x {
					x[i] = asBytes(e)
				}
			}
			return v
		}
		reg(func(fr *Frame, a []Value) Value {
			words := false
			c := make([]Value, len(a))
			for i, v := range a {
				c[i] = v
				if s, ok := v.(Slice); ok {
					words = words || hasHole(s)
					c[i] = unflat(s)
				}
			}
			f := intrinsics["strings."+n]
			if !words || f == nil {
				return fallThrough
			}
			in, _ := a[0].(Slice)
			r := f(fr, c)
			if r == Value(fallThrough) {
				return r
			}
			// results share the memory of the argument
			part := func(v Value) Value {
				out := asBytes(v).(Slice)
				switch n {
				case "TrimRight", "TrimSuffix", "CutSuffix":
					return in[:len(out)]
				case "TrimLeft", "TrimPrefix", "CutPrefix":
					return in[len(in)-len(out):]
				}
				return out
			}
			switch x := r.(type) {
			case string, *SStr:
				return part(x)
			case Tuple:
				if len(x) == 2 {
					return Tuple{part(x[0]), x[1]}
				}
			}
			return asBytes(r)
		}, "bytes."+n)
	}
	reg(sym(func(fr *Frame, a []Value) Value { return fr.trim(a[0], str(a[1]), true, true) }), "strings.Trim")
	reg(sym(func(fr *Frame, a []Value) Value { return fr.trim(a[0], str(a[1]), true, false) }), "strings.TrimLeft")
	reg(sym(func(fr *Frame, a []Value) Value { return fr.trim(a[0], str(a[1]), false, true) }), "strings.TrimRight")
	reg(sym(func(fr *Frame, a []Value) Value {
		n := fr.intArg(a[2])
		if n == 0 {
			return Slice(nil)
		}
		return Slice(fr.splitN(a[0], a[1], int(n)))
	}), "strings.SplitN")
	reg(sym(func(fr *Frame, a []Value) Value {
		return int64(len(fr.splitN(a[0], a[1], -1)) - 1)
	}), "strings.Count")
	replace := func(fr *Frame, s, old, new Value, n int) Value {
		if n == 0 {
			return s
		}
		if n > 0 {
			n++
		}
		var r Value = ""
		for i, x := range fr.splitN(s, old, n) {
			if i > 0 {
				r = concat(r, new)
			}
			r = concat(r, x)
		}
		return r
	}
	reg(sym(func(fr *Frame, a []Value) Value { return replace(fr, a[0], a[1], a[2], -1) }), "strings.ReplaceAll")
	reg(sym(func(fr *Frame, a []Value) Value {
		return replace(fr, a[0], a[1], a[2], int(fr.intArg(a[3])))
	}), "strings.Replace")
	reg(sym(func(fr *Frame, a []Value) Value {
		el, sep := rev(fixedEl(a[0])), rev(fixedEl(a[1]))
		i := fr.find(el, sep)
		if i < 0 {
			return int64(-1)
		}
		return fr.posVal(rev(el)[:len(el)-i-len(sep)])
	}), "strings.LastIndex")
	contains := func(fr *Frame, s Value, set string) bool {
		for i := range len(set) {
			if set[i] >= 0x80 {
				panic(unsup("search for wide characters"))
			}
			if fr.find(fixedEl(s), []Value{int64(set[i])}) >= 0 {
				return true
			}
		}
		return false
	}
	reg(sym(func(fr *Frame, a []Value) Value { return contains(fr, a[0], str(a[1])) }), "strings.ContainsAny")
	reg(sym(func(fr *Frame, a []Value) Value {
		return contains(fr, a[0], string(rune(fr.intArg(a[1]))))
	}), "strings.ContainsRune")
	// errors
	reg(func(fr *Frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		et := types.Universe.Lookup("error").Type()
		return fr.errTree(x, 0, func(e Iface) bool {
			if types.Comparable(e.t) && fr.p.decide(fr.eq(et, e, y)) {
				return true
			}
			m := fr.p.w.prog.methodByName(e.t, "Is")
			if m == nil || m.Signature.Params().Len() != 1 || m.Signature.Results().Len() != 1 {
				return false
			}
			return fr.p.decide(fr.callInfo(fr.p.w.prog.info(m), []Value{e.v, y}, nil))
		})
	}, "errors.Is")
	reg(func(fr *Frame, a []Value) Value {
		x, tg := a[0].(Iface), a[1].(Iface)
		if tg.t == nil {
			fr.rtPanic("errors: target cannot be nil")
		}
		pt, ok := tg.t.Underlying().(*types.Pointer)
		dst, isP := tg.v.(*Value)
		if !ok || !isP || dst == nil {
			fr.rtPanic("errors: target must be a non-nil pointer")
		}
		t := canon(pt.Elem())
		it, isI := t.Underlying().(*types.Interface)
		return fr.errTree(x, 0, func(e Iface) bool {
			if isI && fr.p.w.prog.implements(e.t, it) {
				*fr.deref(dst) = e
				return true
			}
			if !isI && e.t == t {
				*fr.deref(dst) = cp(e.v)
				return true
			}
			m := fr.p.w.prog.methodByName(e.t, "As")
			if m == nil || m.Signature.Params().Len() != 1 || m.Signature.Results().Len() != 1 {
				return false
			}
			return fr.p.decide(fr.callInfo(fr.p.w.prog.info(m), []Value{e.v, tg}, nil))
		})
	}, "errors.As")
	reg(func(fr *Frame, a []Value) Value {
		var r Value = ""
		for i, e := range (*fr.deref(a[0])).(Struct)[0].(Slice) {
			if i > 0 {
				r = concat(r, "\n")
			}
			r = concat(r, fr.fmtVal(e, 'v'))
		}
		return r
	}, "(*errors.joinError).Error")
	reg(func(fr *Frame, a []Value) Value {
		if a[0].(Iface).t == nil || a[1].(Iface).t == nil {
			fr.goPanic("nil parent or key")
		}
		return Iface{t: fr.p.w.prog.namedPtr("context", "valueCtx"), v: newPtr(Struct{a[0], a[1], a[2]})}
	}, "context.WithValue")
	// bytes.Buffer: elements may be words, whose length is no number
	reg(func(fr *Frame, a []Value) Value {
		s := (*fr.deref(a[0])).(Struct)
		var el []Value
		n := Value(int64(0))
		if d, ok := a[1].(Slice); ok {
			el, n = d, int64(len(d))
		} else {
			el, _ = flat(a[1])
			n = fr.posVal(el)
		}
		sl, _ := s[0].(Slice)
		s[0], s[2] = fr.appendVals(sl, el), int64(0)
		return Tuple{n, Iface{}}
	}, "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString")
	// fmt
	reg(func(fr *Frame, a []Value) Value {
		msg := fr.sprintf(a[0], a[1].(Slice))
		var wrapped Slice
		if f, ok := a[0].(string); ok {
			n := 0
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				for i++; i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0; i++ {
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if f[i] == 'w' && n < len(a[1].(Slice)) {
					if e, ok := a[1].(Slice)[n].(Iface); ok && e.t != nil && fr.p.w.prog.implements(e.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						wrapped = append(wrapped, e)
					}
				}
				n++
			}
		}
		pr := fr.p.w.prog
		switch len(wrapped) {
		case 0:
			return Iface{t: errStringType, v: newPtr(Struct{msg})}
		case 1:
			return Iface{t: pr.namedPtr("fmt", "wrapError"), v: newPtr(Struct{msg, wrapped[0]})}
		}
		return Iface{t: pr.namedPtr("fmt", "wrapErrors"), v: newPtr(Struct{msg, wrapped})}
	}, "fmt.Errorf")
	write := func(fr *Frame, w Value, s Value) Value {
		i := w.(Iface)
		if i.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		m := fr.p.w.prog.methodByName(i.t, "Write")
		if m == nil || strings.HasPrefix(i.t.String(), "*os.") {
			return Tuple{int64(0), Iface{}}
		}
		el, _ := flat(s)
		return fr.callInfo(fr.p.w.prog.info(m), []Value{i.v, Slice(el)}, nil)
	}
	reg(func(fr *Frame, a []Value) Value { return write(fr, a[0], fr.sprintf(a[1], a[2].(Slice))) }, "fmt.Fprintf")
	reg(func(fr *Frame, a []Value) Value { return write(fr, a[0], fr.sprint(a[1].(Slice), false)) }, "fmt.Fprint")
	reg(func(fr *Frame, a []Value) Value { return write(fr, a[0], fr.sprint(a[1].(Slice), true)) }, "fmt.Fprintln")
}

// edge is the first or last character of a word: some character of its alphabet.
func (fr *Frame) edge(h *Hole, which string) Value {
	b := fr.p.bank
	if h.kind != "atom" {
		panic(unsup("%s character of %s", which, h.kind))
	}
	t := b.Var(8, which+":"+strconv.Itoa(int(h.v.(*Term).id)))
	if _, ok := fr.p.bounds[t]; ok {
		return t
	}
	fr.p.bounds[t] = [2]int64{'-', 'z'}
	if _, ok := fr.p.model[t.name]; !ok {
		fr.p.model[t.name] = 'z'
	}
	in := func(lo, hi byte) *Term {
		return b.And(b.Bin(OULe, b.BV(8, uint64(lo)), t), b.Bin(OULe, t, b.BV(8, uint64(hi))))
	}
	fr.p.addPC(b.Or(b.Or(in('a', 'z'), in('A', 'Z')), b.Or(in('0', '9'), b.Or(b.Eq(t, b.BV(8, '-')), b.Eq(t, b.BV(8, '_'))))))
	fr.p.note("characters of symbolic word left unconstrained")
	return t
}

// jsonDec is the state of a json.Decoder.
type jsonDec struct {
	r       Iface
	num     bool
	strict  bool
	data    []Value
	i       int
	started bool
	open    []byte // enclosing arrays and objects
	checked bool
}

type jsonEnc struct{ w Value }

// readAll reads an io.Reader to its end.
func (fr *Frame) readAll(r Iface) ([]Value, Iface) {
	pk := fr.p.w.prog.pkgs["io"]
	t := fr.callInfo(fr.p.w.prog.info(pk.Func("ReadAll")), []Value{r}, nil).(Tuple)
	s, _ := t[0].(Slice)
	return s, t[1].(Iface)
}

func jsonStreamInit() {
	obj := func(fr *Frame, name string, st any) Value {
		pt := fr.p.w.prog.namedPtr("encoding/json", name)
		ptr := newPtr(zero(pt.Underlying().(*types.Pointer).Elem()))
		fr.p.side[ptr] = st
		return ptr
	}
	dec := func(fr *Frame, v Value) *jsonDec {
		d, ok := fr.p.side[fr.deref(v)].(*jsonDec)
		if !ok {
			panic(unsup("json.Decoder without reader"))
		}
		return d
	}
	fill := func(fr *Frame, d *jsonDec) Iface {
		if !d.started {
			var err Iface
			if d.data, err = fr.readAll(d.r); err.t != nil {
				return err
			}
			d.started = true
		}
		return Iface{}
	}
	skipWS := func(fr *Frame, d *jsonDec) int {
		ps := &jparser{fr, d.data, d.i}
		ps.ws()
		if c := ps.peek(); len(d.open) > 0 && (c == ',' || c == ':') {
			ps.i++
			ps.ws()
		}
		d.i = ps.i
		return ps.peek()
	}
	parseFrom := func(fr *Frame, d *jsonDec) (n *jnode, i int) {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(jsyntax); !is {
					panic(r)
				}
				n = nil
			}
		}()
		ps := &jparser{fr, d.data, d.i}
		n = ps.value(0)
		return n, ps.i
	}
	reg(func(fr *Frame, a []Value) Value { return obj(fr, "Decoder", &jsonDec{r: a[0].(Iface)}) }, "encoding/json.NewDecoder")
	reg(func(fr *Frame, a []Value) Value { dec(fr, a[0]).num = true; return nil }, "(*encoding/json.Decoder).UseNumber")
	reg(func(fr *Frame, a []Value) Value { dec(fr, a[0]).strict = true; return nil }, "(*encoding/json.Decoder).DisallowUnknownFields")
	reg(func(fr *Frame, a []Value) Value {
		d := dec(fr, a[0])
		if e := fill(fr, d); e.t != nil {
			return false
		}
		c := skipWS(fr, d)
		return c != -1 && c != ']' && c != '}'
	}, "(*encoding/json.Decoder).More")
	reg(func(fr *Frame, a []Value) (res Value) {
		d := dec(fr, a[0])
		if e := fill(fr, d); e.t != nil {
			return e
		}
		if skipWS(fr, d) == -1 {
			return fr.globalIface("io", "EOF")
		}
		n, i := parseFrom(fr, d)
		if n == nil {
			return mkErr(fr, "invalid character in JSON input")
		}
		doc := Slice(append([]Value{}, d.data[d.i:i]...))
		d.i = i
		return fr.jsonUnmarshalOpt(doc, a[1].(Iface), d.num, d.strict)
	}, "(*encoding/json.Decoder).Decode")
	reg(func(fr *Frame, a []Value) (res Value) {
		d := dec(fr, a[0])
		if e := fill(fr, d); e.t != nil {
			return Tuple{Iface{}, e}
		}
		c := skipWS(fr, d)
		if c == -1 && len(d.open) == 0 {
			return Tuple{Iface{}, fr.globalIface("io", "EOF")}
		}
		if !d.checked {
			// only documents that are fine as a whole
			if n, _ := parseFrom(fr, d); n == nil {
				panic(unsup("json.Decoder.Token of invalid JSON"))
			}
			d.checked = true
		}
		delim := func() Value {
			d.i++
			t := canon(fr.p.w.prog.namedPtr("encoding/json", "Delim").Underlying().(*types.Pointer).Elem())
			return Tuple{Iface{t, int64(c)}, Iface{}}
		}
		switch c {
		case '[', '{':
			d.open = append(d.open, byte(c))
			return delim()
		case ']', '}':
			d.open = d.open[:len(d.open)-1]
			d.checked = len(d.open) > 0
			return delim()
		}
		n, i := parseFrom(fr, d)
		if n == nil {
			panic(unsup("json.Decoder.Token"))
		}
		d.i = i
		d.checked = len(d.open) > 0
		jd := &jdec{fr: fr, num: d.num}
		return Tuple{jd.toAny(n), Iface{}}
	}, "(*encoding/json.Decoder).Token")
	for _, n := range []string{"Buffered", "InputOffset"} {
		reg(func(fr *Frame, a []Value) Value { panic(unsup("json.Decoder.%s", n)) }, "(*encoding/json.Decoder)."+n)
	}
	reg(func(fr *Frame, a []Value) Value { return obj(fr, "Encoder", &jsonEnc{a[0]}) }, "encoding/json.NewEncoder")
	reg(func(fr *Frame, a []Value) Value { return nil }, "(*encoding/json.Encoder).SetEscapeHTML", "(*encoding/json.Encoder).SetIndent")
	reg(func(fr *Frame, a []Value) Value {
		e, ok := fr.p.side[fr.deref(a[0])].(*jsonEnc)
		if !ok {
			panic(unsup("json.Encoder without writer"))
		}
		b, err := fr.jsonMarshal(a[1].(Iface))
		if err.t != nil {
			return err
		}
		w := e.w.(Iface)
		m := fr.p.w.prog.methodByName(w.t, "Write")
		return fr.callInfo(fr.p.w.prog.info(m), []Value{w.v, Slice(append(append([]Value{}, b...), int64('\n')))}, nil).(Tuple)[1]
	}, "(*encoding/json.Encoder).Encode")
}

func (fr *Frame) globalIface(pkg, name string) Value {
	g, ok := fr.p.w.prog.pkgs[pkg].Members[name].(*ssa.Global)
	if !ok {
		panic(unsup("no %s.%s", pkg, name))
	}
	return *fr.p.w.global(fr, g)
}

// wordText is the constant a word is equal to on this path. A word that is
// none of the constants it was compared with sorts by its code.
func (fr *Frame) wordText(h *Hole) (string, bool) {
	if h.kind != "atom" {
		panic(unsup("ordering of %s", h.kind))
	}
	t := h.v.(*Term)
	p, b := fr.p, fr.p.bank
	if t.isC() {
		return atomText(t.c), t.c >= atomBase
	}
	for _, c := range p.consts[t] {
		if p.decide(boolVal(b.Eq(t, b.BV(32, atomConst(c))))) {
			return c, true
		}
	}
	p.note("words sort among each other in any order, but at a fixed place relative to constants")
	p.assume(boolVal(b.Bin(OULt, t, b.BV(32, atomBase))))
	return "", false
}

// wordCmp compares strings with words.
func (fr *Frame) wordCmp(x, y []Value) int {
	p, b := fr.p, fr.p.bank
	expand := func(el []Value) []Value {
		if len(el) > 0 {
			if h, ok := el[0].(*Hole); ok {
				if s, ok := fr.wordText(h); ok {
					c, _ := flat(s)
					return append(append([]Value{}, c...), el[1:]...)
				}
			}
		}
		return el
	}
	for {
		if len(x) == 0 || len(y) == 0 {
			return min(len(x), 1) - min(len(y), 1)
		}
		hx, o1 := x[0].(*Hole)
		hy, o2 := y[0].(*Hole)
		if o1 && o2 && hx.same(hy) {
			x, y = x[1:], y[1:]
			continue
		}
		x, y = expand(x), expand(y)
		hx, o1 = x[0].(*Hole)
		hy, o2 = y[0].(*Hole)
		switch {
		case o1 && o2:
			tx, ty := hx.v.(*Term), hy.v.(*Term)
			if !p.decide(boolVal(b.Eq(tx, ty))) {
				if p.decide(boolVal(b.Bin(OULt, tx, ty))) {
					return -1
				}
				return 1
			}
		case o1 || o2:
			sign, o := 1, y[0]
			if o2 {
				sign, o = -1, x[0]
			}
			// words start with a z
			if p.decide(beq(fr, o, int64('z'))) {
				panic(unsup("ordering of a word and a constant with the same start"))
			}
			if p.decide(boolVal(b.Bin(OULt, b.intTerm(o, 8), b.BV(8, 'z')))) {
				return sign
			}
			return -sign
		default:
			if !p.decide(beq(fr, x[0], y[0])) {
				if p.decide(boolVal(b.Bin(OULt, b.intTerm(x[0], 8), b.intTerm(y[0], 8)))) {
					return -1
				}
				return 1
			}
		}
		x, y = x[1:], y[1:]
	}
}
