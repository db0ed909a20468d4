package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Model of encoding/json over byte ropes. The reflective encoder/decoder is
// replaced; custom MarshalJSON/UnmarshalJSON methods are executed for real.

type jfield struct {
	name      string
	path      []int
	typ       types.Type
	omitEmpty bool
	omitZero  bool
	quoted    bool
	tagged    bool
}

var jfieldCache sync.Map

func jsonFields(t types.Type) []jfield {
	if v, ok := jfieldCache.Load(t); ok {
		return v.([]jfield)
	}
	type q struct {
		t    types.Type
		path []int
	}
	cur := []q{{t, nil}}
	seen := map[types.Type]bool{}
	byName := map[string][]jfield{}
	var order []string
	for len(cur) > 0 {
		var next []q
		cnt := map[types.Type]bool{}
		for _, c := range cur {
			ct := canon(c.t)
			if seen[ct] || cnt[ct] {
				continue
			}
			cnt[ct] = true
			st := c.t.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				ft := f.Type()
				if f.Embedded() {
					et := ft
					if p, ok := et.Underlying().(*types.Pointer); ok {
						et = p.Elem()
					}
					if _, ok := et.Underlying().(*types.Struct); !ok && !f.Exported() {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				tag := structTagGet(st.Tag(i), "json")
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				path := append(append([]int{}, c.path...), i)
				et := ft
				if p, ok := types.Unalias(et).(*types.Pointer); ok {
					et = p.Elem()
				}
				_, isStruct := et.Underlying().(*types.Struct)
				if name != "" || !f.Embedded() || !isStruct {
					tagged := name != ""
					if name == "" {
						name = f.Name()
					}
					if len(byName[name]) == 0 {
						order = append(order, name)
					}
					fd := jfield{name: name, path: path, typ: ft, tagged: tagged}
					for _, o := range strings.Split(opts, ",") {
						switch o {
						case "omitempty":
							fd.omitEmpty = true
						case "omitzero":
							fd.omitZero = true
						case "string":
							fd.quoted = true
						}
					}
					byName[name] = append(byName[name], fd)
					continue
				}
				next = append(next, q{et, path})
			}
		}
		for k := range cnt {
			seen[k] = true
		}
		cur = next
	}
	var out []jfield
	for _, n := range order {
		fs := byName[n]
		best := fs[0]
		ok := true
		for _, f := range fs[1:] {
			if len(f.path) < len(best.path) {
				best = f
			}
		}
		var same []jfield
		for _, f := range fs {
			if len(f.path) == len(best.path) {
				same = append(same, f)
			}
		}
		if len(same) > 1 {
			n := 0
			for _, f := range same {
				if f.tagged {
					best = f
					n++
				}
			}
			ok = n == 1
		}
		if ok {
			out = append(out, best)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].path, out[j].path
		for k := range a {
			if k >= len(b) {
				return false
			}
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	jfieldCache.Store(t, out)
	return out
}

type jsonErr struct{ err Iface }

func (fr *Frame) jfail(f string, a ...any) { panic(jsonErr{mkErr(fr, fmt.Sprintf(f, a...))}) }

// ---- encoding ----

var jsonMarshaler, jsonUnmarshaler, textMarshaler, textUnmarshaler *types.Interface

func (fr *Frame) jsonMarshal(i Iface) (out Slice, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				out, err = nil, e.err
				return
			}
			panic(r)
		}
	}()
	var v Value
	if i.t == nil {
		v = "null"
	} else {
		v = fr.jenc(i.t, i.v, nil, 0)
	}
	el, _ := flat(v)
	return Slice(append(make([]Value, 0, len(el)), el...)), Iface{}
}

func (fr *Frame) jstring(v Value) Value {
	var r Value = "\""
	for _, pc := range pieces(v) {
		switch pc.k {
		case pConst:
			b, _ := json.Marshal(pc.s)
			r = concat(r, string(b[1:len(b)-1]))
		case pByte:
			b := fr.p.bank
			safe := b.And(b.Bin(OULe, b.BV(8, 0x20), pc.t), b.Bin(OULt, pc.t, b.BV(8, 0x7f)))
			for _, c := range "\"\\<>&" {
				safe = b.And(safe, b.Not(b.Eq(pc.t, b.BV(8, uint64(c)))))
			}
			if !fr.p.decide(boolVal(safe)) {
				fr.p.skip("JSON escape of symbolic byte")
			}
			r = concat(r, mkStr([]Piece{pc}))
		default:
			if pc.k == pHole && pc.h.kind == "inj" && pc.h.name == "hash" {
				panic(unsup("raw hash bytes in JSON"))
			}
			r = concat(r, mkStr([]Piece{pc}))
		}
	}
	return concat(r, "\"")
}

// skip abandons the path: outside the stated bounds.
func (p *Path) skip(what string) {
	p.note("outside bounds: " + what)
	panic(pathEnd{"assume"})
}

// callMarshaler runs MarshalJSON on v (of type t).
func (fr *Frame) callMarshaler(t types.Type, v Value) Value {
	var ret Value
	if hf := hostMethod(Iface{t, v}, "MarshalJSON"); hf != nil {
		ret = hf(fr, []Value{v})
	} else {
		f := fr.p.w.prog.methodByName(t, "MarshalJSON")
		ret = fr.callInfo(fr.p.w.prog.info(f), []Value{v}, nil)
	}
	res := ret.(Tuple)
	if e := res[1].(Iface); e.t != nil {
		panic(jsonErr{Iface{t: errStringType, v: newPtr(Struct{concat("json: error calling MarshalJSON for type "+typeString(t)+": ", fr.errText(e))})}})
	}
	b := res[0].(Slice)
	if _, ok := fr.jparse(b); !ok {
		fr.jfail("json: error calling MarshalJSON for type %s: invalid JSON", typeString(t))
	}
	return unflat(b)
}

func (fr *Frame) errText(e Iface) Value {
	f := fr.p.w.prog.methodByName(e.t, "Error")
	if f == nil {
		return "error"
	}
	return fr.callInfo(fr.p.w.prog.info(f), []Value{e.v}, nil)
}

func (fr *Frame) jenc(t types.Type, v Value, addr *Value, depth int) Value {
	if depth > 40 {
		panic(unsup("json depth"))
	}
	t = canon(t)
	k := tkOf(t).k
	if k != kIface {
		if k == kPtr {
			if p, ok := v.(*Value); ok && p == nil {
				return "null"
			}
		}
		if implements(t, jsonMarshaler) {
			return fr.callMarshaler(t, v)
		}
		if k != kPtr && addr != nil {
			if pt := canon(types.NewPointer(t)); implements(pt, jsonMarshaler) {
				return fr.callMarshaler(pt, addr)
			}
		}
		if implements(t, textMarshaler) {
			var ret Value
			if hf := hostMethod(Iface{t, v}, "MarshalText"); hf != nil {
				ret = hf(fr, []Value{v})
			} else {
				ret = fr.callInfo(fr.p.w.prog.info(fr.p.w.prog.methodByName(t, "MarshalText")), []Value{v}, nil)
			}
			tu := ret.(Tuple)
			if e := tu[1].(Iface); e.t != nil {
				panic(jsonErr{e})
			}
			return fr.jstring(unflat(tu[0].(Slice)))
		}
	}
	switch k {
	case kBool:
		if fr.p.decide(v) {
			return "true"
		}
		return "false"
	case kInt:
		switch x := v.(type) {
		case int64:
			if tkOf(t).signed {
				return strconv.FormatInt(x, 10)
			}
			return strconv.FormatUint(uint64(x), 10)
		case *Term:
			if x.w < 64 {
				if tkOf(t).signed {
					x = fr.p.bank.SExt(x, 64)
				} else {
					x = fr.p.bank.ZExt(x, 64)
				}
			}
			return mkStr([]Piece{{k: pHole, h: &Hole{kind: "jnum", v: x}}})
		}
	case kFloat:
		switch x := v.(type) {
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				fr.jfail("json: unsupported value")
			}
			return string(b)
		case *Term:
			b := fr.p.bank
			if b.exactInt(x) == nil {
				fin := b.And(b.FBin(OFLe, x, b.FP(math.MaxFloat64)), b.FBin(OFLe, b.FP(-math.MaxFloat64), x))
				if !fr.p.decide(boolVal(fin)) {
					fr.jfail("json: unsupported value")
				}
			}
			return mkStr([]Piece{{k: pHole, h: &Hole{kind: "jnum", v: x}}})
		}
	case kString:
		return fr.jstring(v)
	case kPtr:
		p, ok := v.(*Value)
		if !ok {
			panic(unsup("json of %T", v))
		}
		return fr.jenc(t.Underlying().(*types.Pointer).Elem(), *p, p, depth+1)
	case kIface:
		i := v.(Iface)
		if i.t == nil {
			return "null"
		}
		return fr.jenc(i.t, i.v, nil, depth+1)
	case kSlice:
		s := v.(Slice)
		if s == nil {
			return "null"
		}
		et := t.Underlying().(*types.Slice).Elem()
		if tkOf(et).k == kInt && tkOf(et).w == 8 {
			if isConc(s) && !hasHole(s) {
				return "\"" + base64.StdEncoding.EncodeToString([]byte(str(unflat(s)))) + "\""
			}
			return concat(concat("\"", mkStr([]Piece{{k: pHole, h: &Hole{kind: "inj", name: "b64", v: unflat(s)}}})), "\"")
		}
		var r Value = "["
		for i := range s {
			if i > 0 {
				r = concat(r, ",")
			}
			r = concat(r, fr.jenc(et, s[i], &s[i], depth+1))
		}
		return concat(r, "]")
	case kArray:
		s := v.(Array)
		et := t.Underlying().(*types.Array).Elem()
		var r Value = "["
		for i := range s {
			if i > 0 {
				r = concat(r, ",")
			}
			r = concat(r, fr.jenc(et, s[i], nil, depth+1))
		}
		return concat(r, "]")
	case kMap:
		m := v.(*MapV)
		if m == nil {
			return "null"
		}
		mt := t.Underlying().(*types.Map)
		if ks := keySetText(m); ks != nil {
			return ks
		}
		type kv struct {
			k Value
			v Value
		}
		var es []kv
		allc := true
		for _, e := range m.ents {
			if e.dead {
				continue
			}
			kk := e.k
			switch tkOf(mt.Key()).k {
			case kString:
			case kInt:
				kk = fr.jenc(mt.Key(), e.k, nil, 0)
			default:
				fr.jfail("json: unsupported type: %s", typeString(t))
			}
			if _, ok := kk.(string); !ok {
				allc = false
			}
			es = append(es, kv{kk, e.v})
		}
		if allc {
			sort.SliceStable(es, func(i, j int) bool { return es[i].k.(string) < es[j].k.(string) })
		}
		var r Value = "{"
		for i, e := range es {
			if i > 0 {
				r = concat(r, ",")
			}
			r = concat(concat(r, fr.jstring(e.k)), ":")
			r = concat(r, fr.jenc(mt.Elem(), e.v, nil, depth+1))
		}
		return concat(r, "}")
	case kStruct:
		var r Value = "{"
		first := true
	fields:
		for _, f := range jsonFields(t) {
			cur, ct := v, t
			var ca *Value = addr
			for _, i := range f.path {
				if p, ok := cur.(*Value); ok {
					if p == nil {
						continue fields
					}
					ct = ct.Underlying().(*types.Pointer).Elem()
					ca = p
					cur = *p
				}
				s := cur.(Struct)
				ct = ct.Underlying().(*types.Struct).Field(i).Type()
				cur = s[i]
				if ca != nil {
					ca = &s[i]
				}
			}
			if f.omitEmpty && fr.p.decide(fr.jempty(ct, cur)) {
				continue
			}
			if f.omitZero {
				if fr.p.decide(fr.isZeroVal(ct, cur)) {
					continue
				}
			}
			if !first {
				r = concat(r, ",")
			}
			first = false
			r = concat(r, fr.jstring(f.name))
			r = concat(r, ":")
			ev := fr.jenc(ct, cur, ca, depth+1)
			if f.quoted {
				panic(unsup("json string option"))
			}
			r = concat(r, ev)
		}
		return concat(r, "}")
	}
	fr.jfail("json: unsupported type: %s", typeString(t))
	return nil
}

func (fr *Frame) jempty(t types.Type, v Value) Value {
	switch x := v.(type) {
	case Slice:
		return len(x) == 0
	case *MapV:
		return x == nil || x.count == 0
	case Array:
		return len(x) == 0
	case Iface:
		return x.t == nil
	case *Value:
		return x == nil
	case Struct:
		return false
	case string, *SStr:
		return fr.strEq(x, "")
	}
	return fr.eq(t, v, zero(t))
}

// ---- parsing ----

type jnode struct {
	k    byte // 'n' null, 'b' bool, '0' num, 's' string, '[', '{', 'J' jwks object
	b    bool
	num  Value // string literal or *Term
	s    Value
	arr  []*jnode
	keys []Value
	raw  []Value
	h    *Hole
}

type jparser struct {
	fr *Frame
	el []Value
	i  int
}
type jsyntax struct{}

func (fr *Frame) jparse(el []Value) (n *jnode, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(jsyntax); is {
				n, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	ps := &jparser{fr, el, 0}
	n = ps.value(0)
	ps.ws()
	if ps.i != len(ps.el) {
		return nil, false
	}
	return n, true
}

func (p *jparser) peek() int {
	if p.i >= len(p.el) {
		return -1
	}
	if c, ok := p.el[p.i].(int64); ok {
		return int(c)
	}
	return -2
}
func (p *jparser) ws() {
	for {
		c := p.peek()
		if c == ' ' || c == '\n' || c == '\t' || c == '\r' {
			p.i++
			continue
		}
		return
	}
}
func (p *jparser) bad() { panic(jsyntax{}) }
func (p *jparser) lit(s string) {
	for i := 0; i < len(s); i++ {
		if p.peek() != int(s[i]) {
			p.bad()
		}
		p.i++
	}
}

func (p *jparser) value(depth int) *jnode {
	if depth > 200 {
		panic(unsup("json depth"))
	}
	p.ws()
	st := p.i
	n := p.value1(depth)
	n.raw = p.el[st:p.i:p.i]
	return n
}
func (p *jparser) value1(depth int) *jnode {
	c := p.peek()
	switch {
	case c == -2:
		switch x := p.el[p.i].(type) {
		case *Hole:
			switch x.kind {
			case "jnum":
				p.i++
				return &jnode{k: '0', num: x.v}
			case "jwks":
				p.i++
				return &jnode{k: 'J', h: x}
			case "jwkj":
				p.i++
				return &jnode{k: 'K', h: x}
			case "jwt", "msgpack":
				p.bad()
			case "atom":
				// a bare word is never JSON except for literals and numbers; assume neither
				p.bad()
			}
			panic(unsup("json: hole %s", x.kind))
		case *Term:
			panic(unsup("json: symbolic byte"))
		}
		p.bad()
	case c == '{':
		p.i++
		n := &jnode{k: '{'}
		p.ws()
		if p.peek() == '}' {
			p.i++
			return n
		}
		for {
			p.ws()
			if p.peek() != '"' {
				p.bad()
			}
			n.keys = append(n.keys, p.str())
			p.ws()
			p.lit(":")
			n.arr = append(n.arr, p.value(depth+1))
			p.ws()
			if p.peek() == ',' {
				p.i++
				continue
			}
			p.lit("}")
			return n
		}
	case c == '[':
		p.i++
		n := &jnode{k: '['}
		p.ws()
		if p.peek() == ']' {
			p.i++
			return n
		}
		for {
			n.arr = append(n.arr, p.value(depth+1))
			p.ws()
			if p.peek() == ',' {
				p.i++
				continue
			}
			p.lit("]")
			return n
		}
	case c == '"':
		return &jnode{k: 's', s: p.str()}
	case c == 't':
		p.lit("true")
		return &jnode{k: 'b', b: true}
	case c == 'f':
		p.lit("false")
		return &jnode{k: 'b'}
	case c == 'n':
		p.lit("null")
		return &jnode{k: 'n'}
	case c == '-' || c >= '0' && c <= '9':
		var sb []byte
		for {
			c := p.peek()
			if c == '-' || c == '+' || c == '.' || c == 'e' || c == 'E' || c >= '0' && c <= '9' {
				sb = append(sb, byte(c))
				p.i++
				continue
			}
			break
		}
		if p.peek() == -2 {
			panic(unsup("json: number followed by symbol"))
		}
		if !json.Valid(sb) {
			p.bad()
		}
		return &jnode{k: '0', num: string(sb)}
	}
	p.bad()
	return nil
}

func (p *jparser) str() Value {
	p.i++
	var r Value = ""
	var buf []byte
	esc := false
	fl := func() {
		if len(buf) > 0 {
			s := string(buf)
			if esc {
				var o string
				if json.Unmarshal([]byte("\""+s+"\""), &o) != nil {
					p.bad()
				}
				s = o
			}
			r = concat(r, s)
			buf, esc = nil, false
		}
	}
	for {
		if p.i >= len(p.el) {
			p.bad()
		}
		switch x := p.el[p.i].(type) {
		case int64:
			p.i++
			if x == '"' {
				fl()
				return r
			}
			if x < 0x20 {
				p.bad()
			}
			buf = append(buf, byte(x))
			if x >= 0x80 {
				esc = true
			}
			if x == '\\' {
				esc = true
				c := p.peek()
				if c < 0 {
					p.bad()
				}
				buf = append(buf, byte(c))
				p.i++
			}
		case *Term:
			fl()
			p.i++
			b := p.fr.p.bank
			safe := b.And(b.Bin(OULe, b.BV(8, 0x20), x), b.Bin(OULt, x, b.BV(8, 0x7f)))
			safe = b.And(safe, b.And(b.Not(b.Eq(x, b.BV(8, '"'))), b.Not(b.Eq(x, b.BV(8, '\\')))))
			if !p.fr.p.decide(boolVal(safe)) {
				p.fr.p.skip("special symbolic byte in JSON string")
			}
			r = concat(r, mkStr([]Piece{{k: pByte, t: x}}))
		case *Hole:
			fl()
			p.i++
			switch x.kind {
			case "atom":
				r = concat(r, mkStr([]Piece{{k: pAtom, t: x.v.(*Term)}}))
			case "jwks", "jwkj", "msgpack":
				p.bad()
			default:
				r = concat(r, mkStr([]Piece{{k: pHole, h: x}}))
			}
		default:
			panic(unsup("json string element %T", x))
		}
	}
}

// ---- decoding ----

type jdec struct {
	fr     *Frame
	saved  Iface
	num    bool // json.Number instead of float64
	strict bool // no unknown fields
}

func (d *jdec) save(f string, a ...any) {
	if d.saved.t == nil {
		d.saved = mkErr(d.fr, fmt.Sprintf(f, a...))
	}
}

// jsonUnmarshal: target is an any holding a pointer.
func (fr *Frame) jsonUnmarshal(data Slice, target Iface) Iface {
	return fr.jsonUnmarshalOpt(data, target, false, false)
}

func (fr *Frame) jsonUnmarshalOpt(data Slice, target Iface, num, strict bool) (err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				err = e.err
				return
			}
			panic(r)
		}
	}()
	n, ok := fr.jparse(data)
	if !ok {
		return mkErr(fr, "invalid character in JSON input")
	}
	if target.t == nil || tkOf(target.t).k != kPtr {
		return mkErr(fr, "json: Unmarshal(non-pointer)")
	}
	pv, ok := target.v.(*Value)
	if !ok || pv == nil {
		return mkErr(fr, "json: Unmarshal(nil)")
	}
	d := &jdec{fr: fr, num: num, strict: strict}
	// the top-level pointer itself may implement Unmarshaler
	if implements(target.t, jsonUnmarshaler) {
		d.callUnm(target.t, pv, n)
		return d.saved
	}
	d.decode(n, target.t.Underlying().(*types.Pointer).Elem(), pv, 0)
	return d.saved
}

func (d *jdec) callUnm(pt types.Type, p Value, n *jnode) {
	fr := d.fr
	raw := Slice(append([]Value{}, n.raw...))
	var r Value
	if hf := hostMethod(Iface{pt, p}, "UnmarshalJSON"); hf != nil {
		r = hf(fr, []Value{p, raw})
	} else {
		r = fr.callInfo(fr.p.w.prog.info(fr.p.w.prog.methodByName(pt, "UnmarshalJSON")), []Value{p, raw}, nil)
	}
	if e := r.(Iface); e.t != nil {
		panic(jsonErr{e})
	}
}

func (d *jdec) decode(n *jnode, t types.Type, p *Value, depth int) {
	fr := d.fr
	if depth > 60 {
		panic(unsup("json depth"))
	}
	t = canon(t)
	k := tkOf(t).k
	// indirect
	if k != kIface {
		pt := canon(types.NewPointer(t))
		isNamedOrPtr := true
		if isNamedOrPtr && k != kPtr && implements(pt, jsonUnmarshaler) {
			d.callUnm(pt, p, n)
			return
		}
		if k != kPtr && n.k == 's' && implements(pt, textUnmarshaler) {
			var r Value
			el, _ := flat(n.s)
			if hf := hostMethod(Iface{pt, p}, "UnmarshalText"); hf != nil {
				r = hf(fr, []Value{p, Slice(el)})
			} else {
				r = fr.callInfo(fr.p.w.prog.info(fr.p.w.prog.methodByName(pt, "UnmarshalText")), []Value{p, Slice(el)}, nil)
			}
			if e := r.(Iface); e.t != nil {
				panic(jsonErr{e})
			}
			return
		}
	}
	if k == kPtr {
		if n.k == 'n' {
			*p = (*Value)(nil)
			return
		}
		et := t.Underlying().(*types.Pointer).Elem()
		q, ok := (*p).(*Value)
		if !ok {
			panic(unsup("json into %T", *p))
		}
		if q == nil {
			q = newPtr(zero(et))
			*p = q
		}
		if implements(t, jsonUnmarshaler) {
			d.callUnm(t, q, n)
			return
		}
		d.decode(n, et, q, depth+1)
		return
	}
	if k == kIface && n.k != 'n' {
		if i := (*p).(Iface); i.t != nil && tkOf(i.t).k == kPtr {
			if q, ok := i.v.(*Value); ok && q != nil {
				if hostOf(i) != nil {
					panic(unsup("json into host object"))
				}
				d.decode(n, i.t, newPtr(q), depth+1)
				return
			}
		}
	}
	what := ""
	switch n.k {
	case 'n':
		switch k {
		case kIface:
			*p = Iface{}
		case kMap:
			*p = (*MapV)(nil)
		case kSlice:
			*p = Slice(nil)
		}
		return
	case 'b':
		switch k {
		case kBool:
			*p = n.b
			return
		case kIface:
			if d.anyOK(t) {
				*p = Iface{canon(types.Typ[types.Bool]), n.b}
				return
			}
		}
		what = "bool"
	case 's':
		switch k {
		case kString:
			*p = n.s
			return
		case kSlice:
			et := t.Underlying().(*types.Slice).Elem()
			if tkOf(et).k == kInt && tkOf(et).w == 8 {
				if s, ok := n.s.(string); ok {
					b, err := base64.StdEncoding.DecodeString(s)
					if err != nil {
						d.save("illegal base64 data")
						return
					}
					el, _ := flat(string(b))
					*p = Slice(el)
					return
				}
				ps := pieces(n.s)
				if len(ps) == 1 && ps[0].k == pHole && ps[0].h.kind == "inj" && ps[0].h.name == "b64" {
					el, _ := flat(ps[0].h.v)
					*p = Slice(el)
					return
				}
				panic(unsup("base64 of symbolic string"))
			}
		case kIface:
			if d.anyOK(t) {
				*p = Iface{canon(types.Typ[types.String]), n.s}
				return
			}
		}
		what = "string"
	case '0':
		switch k {
		case kInt:
			d.num2int(n, t, p)
			return
		case kFloat:
			if f, ok := d.num2float(n); ok {
				*p = f
			}
			return
		case kIface:
			if d.anyOK(t) {
				if v := d.toAny(n).(Iface); v.t != nil {
					*p = v
				}
				return
			}
		case kString:
			if strings.HasSuffix(t.String(), "encoding/json.Number") {
				if s, ok := n.num.(string); ok {
					*p = s
					return
				}
				*p = mkStr([]Piece{{k: pHole, h: &Hole{kind: "jnum", v: n.num}}})
				return
			}
		}
		what = "number"
	case '[':
		switch k {
		case kSlice:
			et := t.Underlying().(*types.Slice).Elem()
			old, _ := (*p).(Slice)
			s := make(Slice, len(n.arr))
			for i := range s {
				if i < len(old) {
					s[i] = old[i]
				} else {
					s[i] = zero(et)
				}
			}
			for i, c := range n.arr {
				d.decode(c, et, &s[i], depth+1)
			}
			*p = s
			return
		case kArray:
			et := t.Underlying().(*types.Array).Elem()
			a := (*p).(Array)
			for i := range a {
				if i < len(n.arr) {
					d.decode(n.arr[i], et, &a[i], depth+1)
				} else {
					store(&a[i], zero(et))
				}
			}
			return
		case kIface:
			if d.anyOK(t) {
				*p = d.toAny(n)
				return
			}
		}
		what = "array"
	case 'J', 'K':
		if k == kIface && d.anyOK(t) {
			*p = d.toAny(n)
			return
		}
		panic(unsup("modelled key set decoded into %s", t))
	case '{':
		switch k {
		case kMap:
			mt := t.Underlying().(*types.Map)
			m, _ := (*p).(*MapV)
			if tkOf(mt.Key()).k != kString && tkOf(mt.Key()).k != kInt {
				break
			}
			if m == nil {
				m = newMap()
				*p = m
			}
			for i, c := range n.arr {
				q := newPtr(zero(mt.Elem()))
				d.decode(c, mt.Elem(), q, depth+1)
				key := n.keys[i]
				if tkOf(mt.Key()).k == kInt {
					x, err := strconv.ParseInt(str(key), 10, 64)
					if err != nil {
						d.save("json: cannot unmarshal key")
						continue
					}
					key = x
				}
				fr.mapSet(m, key, *q, mt.Key())
			}
			return
		case kStruct:
			d.object(n, t, p, depth)
			return
		case kIface:
			if d.anyOK(t) {
				*p = d.toAny(n)
				return
			}
		}
		what = "object"
	}
	d.save("json: cannot unmarshal %s into Go value of type %s", what, typeString(t))
}

func (d *jdec) anyOK(t types.Type) bool {
	return t.Underlying().(*types.Interface).NumMethods() == 0
}

var mapAnyT, sliceAnyT types.Type

func (d *jdec) toAny(n *jnode) Value {
	switch n.k {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{canon(types.Typ[types.Bool]), n.b}
	case 's':
		return Iface{canon(types.Typ[types.String]), n.s}
	case '0':
		if d.num {
			nt := canon(d.fr.p.w.prog.namedPtr("encoding/json", "Number").Underlying().(*types.Pointer).Elem())
			if s, ok := n.num.(string); ok {
				return Iface{nt, s}
			}
			return Iface{nt, mkStr([]Piece{{k: pHole, h: &Hole{kind: "jnum", v: n.num}}})}
		}
		f, ok := d.num2float(n)
		if !ok {
			return Iface{}
		}
		return Iface{canon(types.Typ[types.Float64]), f}
	case '[':
		s := make(Slice, len(n.arr))
		for i, c := range n.arr {
			s[i] = d.toAny(c)
		}
		return Iface{sliceAnyT, s}
	case '{':
		m := newMap()
		for i, c := range n.arr {
			d.fr.mapSet(m, n.keys[i], d.toAny(c), types.Typ[types.String])
		}
		return Iface{mapAnyT, m}
	case 'J', 'K':
		// opaque: keys are kept as a raw hole under a reserved key
		m := newMap()
		d.fr.mapSet(m, "keys", Iface{canon(types.Typ[types.String]), mkStr([]Piece{{k: pHole, h: n.h}})}, types.Typ[types.String])
		return Iface{mapAnyT, m}
	}
	panic(unsup("json any"))
}

// keySetText is the text of a key set that went through toAny.
func keySetText(m *MapV) Value {
	if m == nil || m.count != 1 {
		return nil
	}
	for _, e := range m.ents {
		if i, ok := e.v.(Iface); ok && !e.dead && i.t != nil {
			switch i.v.(type) {
			case *SStr:
				if ps := pieces(i.v); len(ps) == 1 && ps[0].k == pHole && (ps[0].h.kind == "jwks" || ps[0].h.kind == "jwkj") {
					return i.v
				}
			}
		}
	}
	return nil
}

func (d *jdec) num2float(n *jnode) (Value, bool) {
	b := d.fr.p.bank
	switch x := n.num.(type) {
	case string:
		f, err := strconv.ParseFloat(x, 64)
		if err != nil {
			d.save("json: cannot unmarshal number %s into Go value of type float64", x)
			return nil, false
		}
		return f, true
	case *Term:
		if x.w == wFP {
			return fpVal(x), true
		}
		lo, hi, k := d.fr.p.rng(x)
		return fpVal(b.I2F(x, k && lo > -(1<<53) && hi < 1<<53)), true
	}
	panic(unsup("number %T", n.num))
}

func (d *jdec) num2int(n *jnode, t types.Type, p *Value) {
	k := tkOf(t)
	b := d.fr.p.bank
	switch x := n.num.(type) {
	case string:
		if k.signed {
			v, err := strconv.ParseInt(x, 10, int(k.w))
			if err != nil {
				d.save("json: cannot unmarshal number %s into Go value of type %s", x, typeString(t))
				return
			}
			*p = v
			return
		}
		v, err := strconv.ParseUint(x, 10, int(k.w))
		if err != nil {
			d.save("json: cannot unmarshal number %s into Go value of type %s", x, typeString(t))
			return
		}
		*p = int64(v)
	case *Term:
		if x.w == wFP {
			i := b.exactInt(x)
			if i == nil {
				// integer-valued doubles below 1e21 print without exponent
				tr := b.FTrunc(x)
				in := b.And(b.FBin(OFEq, x, tr), b.And(b.FBin(OFLt, x, b.FP(9.2e18)), b.FBin(OFLt, b.FP(-9.2e18), x)))
				if !d.fr.p.decide(boolVal(in)) {
					d.save("json: cannot unmarshal number into Go value of type %s", typeString(t))
					return
				}
				i = b.F2I(x)
			}
			x = i
		}
		if k.w < 64 || !k.signed {
			lo, hi := int64(0), int64(mask(k.w))
			if k.signed {
				lo, hi = -(int64(1) << (k.w - 1)), int64(1)<<(k.w-1)-1
			}
			if k.w == 64 {
				hi = math.MaxInt64
			}
			in := b.And(b.Bin(OSLe, b.BV(64, uint64(lo)), x), b.Bin(OSLe, x, b.BV(64, uint64(hi))))
			if !d.fr.p.decide(boolVal(in)) {
				d.save("json: cannot unmarshal number into Go value of type %s", typeString(t))
				return
			}
			if k.w < 64 {
				x = b.Extract(x, k.w-1, 0)
			}
		}
		*p = intVal(x, k)
	}
}

func (d *jdec) object(n *jnode, t types.Type, p *Value, depth int) {
	fr := d.fr
	fs := jsonFields(t)
	for i, c := range n.arr {
		var f *jfield
		switch key := n.keys[i].(type) {
		case string:
			for j := range fs {
				if fs[j].name == key {
					f = &fs[j]
				}
			}
			if f == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, key) {
						f = &fs[j]
						break
					}
				}
			}
		default:
			b := fr.p.bank
			var anyv Value = false
			var eqs []Value
			for j := range fs {
				e := fr.strEq(key, fs[j].name)
				eqs = append(eqs, e)
				anyv = or(b, anyv, e)
			}
			if fr.p.decide(anyv) {
				for j := range fs {
					if fr.p.decide(eqs[j]) {
						f = &fs[j]
						break
					}
				}
			}
		}
		if f == nil {
			if d.strict {
				d.save("json: unknown field")
			}
			continue
		}
		cur, ct := p, t
		for _, ix := range f.path {
			if q, ok := (*cur).(*Value); ok {
				ct = ct.Underlying().(*types.Pointer).Elem()
				if q == nil {
					q = newPtr(zero(ct))
					*cur = q
				}
				cur = q
			}
			s, ok := (*cur).(Struct)
			if !ok {
				panic(unsup("json struct %T", *cur))
			}
			ct = ct.Underlying().(*types.Struct).Field(ix).Type()
			cur = &s[ix]
		}
		d.decode(c, ct, cur, depth+1)
	}
}

func init() {
	reg(func(fr *Frame, a []Value) Value {
		b, e := fr.jsonMarshal(a[0].(Iface))
		return Tuple{b, e}
	}, "encoding/json.Marshal")
	reg(func(fr *Frame, a []Value) Value {
		b, e := fr.jsonMarshal(a[0].(Iface))
		return Tuple{b, e}
	}, "encoding/json.MarshalIndent")
	reg(func(fr *Frame, a []Value) Value { return fr.jsonUnmarshal(a[0].(Slice), a[1].(Iface)) }, "encoding/json.Unmarshal")
	reg(func(fr *Frame, a []Value) Value { _, ok := fr.jparse(a[0].(Slice)); return ok }, "encoding/json.Valid")
}
