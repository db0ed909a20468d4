package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"
)

// Model of vmihailenco/msgpack: documents are kept as trees behind an opaque
// hole. Custom Marshal/Unmarshal methods run for real.

type mpDoc struct {
	kind string // nil bool int uint float str bin arr map time
	v    Value
	w    int // integer encoding: Go kind width, 0 = compact
	ks   []*mpDoc
	arr  []*mpDoc
}

var mpMarshaler, mpUnmarshaler, mpCustomEnc, mpCustomDec, binMarshaler, binUnmarshaler *types.Interface

type mpErr struct{ err Iface }

type mpField struct {
	name string
	path []int
	typ  types.Type
	omit bool
}

var mpFieldCache sync.Map

func mpFields(t types.Type) []mpField {
	t = canon(t)
	if v, ok := mpFieldCache.Load(t); ok {
		return v.([]mpField)
	}
	st := t.Underlying().(*types.Struct)
	var out []mpField
	has := map[string]bool{}
	var inl []mpField
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		tag := structTagGet(st.Tag(i), "msgpack")
		name, opts, _ := strings.Cut(tag, ",")
		if name == "-" || f.Name() == "_msgpack" {
			continue
		}
		if !f.Exported() && !f.Embedded() {
			continue
		}
		ft := f.Type()
		et := ft
		if p, ok := et.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		}
		_, isS := et.Underlying().(*types.Struct)
		custom := hasMsgpackCodec(ft)
		if f.Embedded() && isS && !custom && !strings.Contains(opts, "noinline") {
			for _, g := range mpFields(et) {
				inl = append(inl, mpField{g.name, append([]int{i}, g.path...), g.typ, g.omit})
			}
			continue
		}
		if !f.Exported() {
			continue
		}
		if name == "" {
			name = f.Name()
		}
		has[name] = true
		out = append(out, mpField{name, []int{i}, ft, strings.Contains(opts, "omitempty")})
	}
	for _, g := range inl {
		if !has[g.name] {
			out = append(out, g)
		}
	}
	mpFieldCache.Store(t, out)
	return out
}

func hasMsgpackCodec(t types.Type) bool {
	pt := t
	if _, ok := t.Underlying().(*types.Pointer); !ok {
		pt = types.NewPointer(t)
	}
	for _, i := range []*types.Interface{mpMarshaler, mpUnmarshaler, mpCustomEnc, mpCustomDec, binMarshaler, binUnmarshaler} {
		if i != nil && implements(pt, i) {
			return true
		}
	}
	return false
}

func (fr *Frame) mpFail(f string, a ...any) { panic(mpErr{mkErr(fr, fmt.Sprintf(f, a...))}) }

func (fr *Frame) callM(t types.Type, v Value, name string, args ...Value) Value {
	if hf := hostMethod(Iface{t, v}, name); hf != nil {
		return hf(fr, append([]Value{v}, args...))
	}
	return fr.callInfo(fr.p.w.prog.info(fr.p.w.prog.methodByName(t, name)), append([]Value{v}, args...), nil)
}

func (fr *Frame) mpEncode(t types.Type, v Value, addr *Value, depth int) *mpDoc {
	if depth > 40 {
		panic(unsup("msgpack depth"))
	}
	t = canon(t)
	k := tkOf(t).k
	if k == kIface {
		i := v.(Iface)
		if i.t == nil {
			return &mpDoc{kind: "nil"}
		}
		return fr.mpEncode(i.t, i.v, nil, depth+1)
	}
	mar := func(t types.Type, v Value) *mpDoc {
		r := fr.callM(t, v, "MarshalMsgpack").(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(mpErr{e})
		}
		return fr.mpOf(r[0].(Slice))
	}
	isNilP := func() bool {
		if k != kPtr && k != kMap && k != kSlice {
			return false
		}
		switch x := v.(type) {
		case *Value:
			return x == nil
		case *MapV:
			return x == nil
		case Slice:
			return x == nil
		}
		return false
	}
	if implements(t, mpCustomEnc) {
		panic(unsup("msgpack CustomEncoder %s", t))
	}
	if implements(t, mpMarshaler) {
		if isNilP() && k == kPtr {
			return &mpDoc{kind: "nil"}
		}
		return mar(t, v)
	}
	bm := func(t types.Type, v Value) *mpDoc {
		r := fr.callM(t, v, "MarshalBinary").(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(mpErr{e})
		}
		return &mpDoc{kind: "bin", v: r[0].(Slice)}
	}
	if isTimeTime(t) {
		s, n := fr.timeParts(v)
		return &mpDoc{kind: "time", v: Tuple{s, n}}
	}
	if implements(t, binMarshaler) {
		if isNilP() && k == kPtr {
			return &mpDoc{kind: "nil"}
		}
		return bm(t, v)
	}
	if k != kPtr {
		pt := canon(types.NewPointer(t))
		if implements(pt, mpMarshaler) {
			if addr == nil {
				fr.mpFail("msgpack: Encode(non-addressable %s)", typeString(t))
			}
			return mar(pt, addr)
		}
		if implements(pt, binMarshaler) && addr != nil {
			return bm(pt, addr)
		}
	}
	switch k {
	case kBool:
		return &mpDoc{kind: "bool", v: v}
	case kInt:
		w := int(tkOf(t).w)
		if b, ok := t.Underlying().(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint) {
			w = 0
		}
		if tkOf(t).signed {
			return &mpDoc{kind: "int", v: v, w: w}
		}
		return &mpDoc{kind: "uint", v: v, w: w}
	case kFloat:
		return &mpDoc{kind: "float", v: v, w: int(tkOf(t).w)}
	case kString:
		return &mpDoc{kind: "str", v: v}
	case kPtr:
		p, ok := v.(*Value)
		if !ok {
			panic(unsup("msgpack of %T", v))
		}
		if p == nil {
			return &mpDoc{kind: "nil"}
		}
		return fr.mpEncode(t.Underlying().(*types.Pointer).Elem(), *p, p, depth+1)
	case kSlice:
		s := v.(Slice)
		if s == nil {
			return &mpDoc{kind: "nil"}
		}
		et := t.Underlying().(*types.Slice).Elem()
		if tkOf(et).k == kInt && tkOf(et).w == 8 && !tkOf(et).signed {
			return &mpDoc{kind: "bin", v: append(Slice{}, s...)}
		}
		d := &mpDoc{kind: "arr"}
		for i := range s {
			d.arr = append(d.arr, fr.mpEncode(et, s[i], &s[i], depth+1))
		}
		return d
	case kArray:
		s := v.(Array)
		et := t.Underlying().(*types.Array).Elem()
		if tkOf(et).k == kInt && tkOf(et).w == 8 && !tkOf(et).signed {
			return &mpDoc{kind: "bin", v: append(Slice{}, s...)}
		}
		d := &mpDoc{kind: "arr"}
		for i := range s {
			d.arr = append(d.arr, fr.mpEncode(et, s[i], nil, depth+1))
		}
		return d
	case kMap:
		m := v.(*MapV)
		if m == nil {
			return &mpDoc{kind: "nil"}
		}
		mt := t.Underlying().(*types.Map)
		d := &mpDoc{kind: "map"}
		for _, e := range fr.rangeEnts(m) {
			d.ks = append(d.ks, fr.mpEncode(mt.Key(), e.k, nil, depth+1))
			d.arr = append(d.arr, fr.mpEncode(mt.Elem(), e.v, nil, depth+1))
		}
		return d
	case kStruct:
		d := &mpDoc{kind: "map"}
	fields:
		for _, f := range mpFields(t) {
			cur, ct, ca := v, t, addr
			for _, i := range f.path {
				if p, ok := cur.(*Value); ok {
					if p == nil {
						continue fields
					}
					ct = ct.Underlying().(*types.Pointer).Elem()
					ca, cur = p, *p
				}
				s := cur.(Struct)
				ct = ct.Underlying().(*types.Struct).Field(i).Type()
				cur = s[i]
				if ca != nil {
					ca = &s[i]
				}
			}
			if f.omit && fr.p.decide(fr.jempty(ct, cur)) {
				continue
			}
			d.ks = append(d.ks, &mpDoc{kind: "str", v: f.name})
			d.arr = append(d.arr, fr.mpEncode(ct, cur, ca, depth+1))
		}
		return d
	}
	fr.mpFail("msgpack: Encode(unsupported %s)", typeString(t))
	return nil
}

func (fr *Frame) mpOf(b Slice) *mpDoc {
	if len(b) == 1 {
		if h, ok := b[0].(*Hole); ok && h.kind == "msgpack" {
			return h.doc.(*mpDoc)
		}
	}
	return nil
}

func (fr *Frame) mpMarshal(i Iface) (out Slice, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(mpErr); ok {
				out, err = nil, e.err
				return
			}
			panic(r)
		}
	}()
	d := fr.mpEncode(emptyIface, i, nil, 0)
	return Slice{&Hole{kind: "msgpack", doc: d}}, Iface{}
}

func (fr *Frame) mpUnmarshal(b Slice, target Iface) (err Iface) {
	d := fr.mpOf(b)
	if d == nil {
		if len(b) == 0 {
			return mkErr(fr, "EOF")
		}
		return mkErr(fr, "msgpack: invalid input")
	}
	if target.t == nil {
		return mkErr(fr, "msgpack: Decode(nil)")
	}
	if tkOf(target.t).k != kPtr {
		return mkErr(fr, "msgpack: Decode(non-pointer)")
	}
	p := target.v.(*Value)
	if p == nil {
		return mkErr(fr, "msgpack: Decode(non-settable)")
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(mpErr); ok {
				err = e.err
				return
			}
			panic(r)
		}
	}()
	fr.mpDecode(d, target.t.Underlying().(*types.Pointer).Elem(), p, 0)
	return Iface{}
}

func (fr *Frame) mpAny(d *mpDoc) Value {
	b := func(k types.BasicKind, v Value) Value { return Iface{canon(types.Typ[k]), v} }
	switch d.kind {
	case "nil":
		return Iface{}
	case "bool":
		return b(types.Bool, d.v)
	case "float":
		if d.w == 32 {
			return b(types.Float32, d.v)
		}
		return b(types.Float64, d.v)
	case "str":
		return b(types.String, d.v)
	case "bin":
		return Iface{canon(types.NewSlice(types.Typ[types.Uint8])), append(Slice{}, d.v.(Slice)...)}
	case "int", "uint":
		x, ok := d.v.(int64)
		if d.w == 0 && ok {
			switch {
			case x >= 0 && x <= 127:
				return b(types.Int8, x)
			case x >= 0 && x <= 255:
				return b(types.Uint8, x)
			case x >= 0 && x <= 65535:
				return b(types.Uint16, x)
			case x >= 0 && x <= math.MaxUint32:
				return b(types.Uint32, x)
			case x >= 0:
				return b(types.Uint64, x)
			case x >= -128:
				return b(types.Int8, x)
			case x >= -32768:
				return b(types.Int16, x)
			case x >= math.MinInt32:
				return b(types.Int32, x)
			}
			return b(types.Int64, x)
		}
		if d.kind == "uint" {
			switch d.w {
			case 8:
				return b(types.Uint8, d.v)
			case 16:
				return b(types.Uint16, d.v)
			case 32:
				return b(types.Uint32, d.v)
			}
			return b(types.Uint64, d.v)
		}
		switch d.w {
		case 8:
			return b(types.Int8, d.v)
		case 16:
			return b(types.Int16, d.v)
		case 32:
			return b(types.Int32, d.v)
		}
		return b(types.Int64, d.v)
	case "arr":
		s := Slice{}
		for _, e := range d.arr {
			s = append(s, fr.mpAny(e))
		}
		return Iface{sliceAnyT, s}
	case "map":
		m := newMap()
		for i, k := range d.ks {
			if k.kind != "str" {
				fr.mpFail("msgpack: invalid code decoding map key")
			}
			fr.mapSet(m, k.v, fr.mpAny(d.arr[i]), types.Typ[types.String])
		}
		return Iface{mapAnyT, m}
	}
	panic(unsup("msgpack any %s", d.kind))
}

func (fr *Frame) mpDecode(d *mpDoc, t types.Type, p *Value, depth int) {
	if depth > 40 {
		panic(unsup("msgpack depth"))
	}
	t = canon(t)
	k := tkOf(t).k
	bad := func() { fr.mpFail("msgpack: invalid code=%s decoding %s", d.kind, typeString(t)) }
	if k == kIface {
		*p = fr.mpAny(d)
		return
	}
	if k == kPtr && !implements(t, mpUnmarshaler) {
		if d.kind == "nil" {
			*p = (*Value)(nil)
			return
		}
		et := t.Underlying().(*types.Pointer).Elem()
		q := (*p).(*Value)
		if q == nil {
			q = newPtr(zero(et))
			*p = q
		}
		fr.mpDecode(d, et, q, depth+1)
		return
	}
	var ut types.Type
	var recv Value
	if k == kPtr {
		ut = t
		if d.kind == "nil" {
			*p = (*Value)(nil)
			return
		}
		q := (*p).(*Value)
		if q == nil {
			q = newPtr(zero(t.Underlying().(*types.Pointer).Elem()))
			*p = q
		}
		recv = q
	} else {
		ut = canon(types.NewPointer(t))
		recv = p
	}
	if implements(ut, mpCustomDec) {
		panic(unsup("msgpack CustomDecoder %s", t))
	}
	if implements(ut, mpUnmarshaler) {
		r := fr.callM(ut, recv, "UnmarshalMsgpack", Slice{&Hole{kind: "msgpack", doc: d}})
		if e := r.(Iface); e.t != nil {
			panic(mpErr{e})
		}
		return
	}
	if isTimeTime(t) {
		if d.kind == "nil" {
			return
		}
		if d.kind != "time" {
			bad()
		}
		x := d.v.(Tuple)
		store(p, Struct{x[1], x[0], fr.localLoc()})
		return
	}
	if implements(ut, binUnmarshaler) {
		if d.kind == "nil" {
			return
		}
		if d.kind != "bin" && d.kind != "str" {
			bad()
		}
		r := fr.callM(ut, recv, "UnmarshalBinary", d.v)
		if e := r.(Iface); e.t != nil {
			panic(mpErr{e})
		}
		return
	}
	switch k {
	case kBool:
		if d.kind == "nil" {
			*p = false
			return
		}
		if d.kind != "bool" {
			bad()
		}
		*p = d.v
	case kInt:
		switch d.kind {
		case "nil":
			*p = int64(0)
		case "int", "uint":
			v := d.v
			tw := tkOf(t)
			if x, ok := v.(int64); ok {
				*p = tw.norm(x)
			} else {
				x := v.(*Term)
				if x.w < tw.w {
					if d.kind == "int" {
						x = fr.p.bank.SExt(x, tw.w)
					} else {
						x = fr.p.bank.ZExt(x, tw.w)
					}
				} else if x.w > tw.w {
					x = fr.p.bank.Extract(x, tw.w-1, 0)
				}
				*p = intVal(x, tw)
			}
		case "float":
			*p = fr.convert(d.v, tk{k: kFloat, w: 64}, tkOf(t), types.Typ[types.Float64], t)
		default:
			bad()
		}
	case kFloat:
		switch d.kind {
		case "nil":
			*p = float64(0)
		case "float":
			*p = d.v
		case "int", "uint":
			*p = fr.convert(d.v, tk{kInt, 64, true}, tkOf(t), types.Typ[types.Int64], t)
		default:
			bad()
		}
	case kString:
		switch d.kind {
		case "nil":
			*p = ""
		case "str":
			*p = d.v
		case "bin":
			*p = unflat(d.v.(Slice))
		default:
			bad()
		}
	case kSlice:
		et := t.Underlying().(*types.Slice).Elem()
		if d.kind == "nil" {
			*p = Slice(nil)
			return
		}
		if tkOf(et).k == kInt && tkOf(et).w == 8 && !tkOf(et).signed {
			switch d.kind {
			case "bin":
				*p = append(Slice{}, d.v.(Slice)...)
			case "str":
				el, _ := flat(d.v)
				*p = Slice(append([]Value{}, el...))
			default:
				bad()
			}
			return
		}
		if d.kind != "arr" {
			bad()
		}
		s := make(Slice, len(d.arr))
		for i := range s {
			s[i] = zero(et)
		}
		for i := range s {
			fr.mpDecode(d.arr[i], et, &s[i], depth+1)
		}
		*p = s
	case kArray:
		a := (*p).(Array)
		switch d.kind {
		case "nil":
		case "bin":
			for i, e := range d.v.(Slice) {
				if i < len(a) {
					a[i] = e
				}
			}
		case "arr":
			et := t.Underlying().(*types.Array).Elem()
			for i := range d.arr {
				if i < len(a) {
					fr.mpDecode(d.arr[i], et, &a[i], depth+1)
				}
			}
		default:
			bad()
		}
	case kMap:
		if d.kind == "nil" {
			*p = (*MapV)(nil)
			return
		}
		if d.kind != "map" {
			bad()
		}
		mt := t.Underlying().(*types.Map)
		m, _ := (*p).(*MapV)
		if m == nil {
			m = newMap()
			*p = m
		}
		for i := range d.ks {
			kp := newPtr(zero(mt.Key()))
			fr.mpDecode(d.ks[i], mt.Key(), kp, depth+1)
			vp := newPtr(zero(mt.Elem()))
			fr.mpDecode(d.arr[i], mt.Elem(), vp, depth+1)
			fr.mapSet(m, *kp, *vp, mt.Key())
		}
	case kStruct:
		if d.kind == "nil" {
			store(p, zero(t))
			return
		}
		if d.kind == "arr" {
			panic(unsup("msgpack array into struct"))
		}
		if d.kind != "map" {
			bad()
		}
		fs := mpFields(t)
		for i, kd := range d.ks {
			if kd.kind != "str" {
				bad()
			}
			for _, f := range fs {
				if !fr.p.decide(fr.strEq(kd.v, f.name)) {
					continue
				}
				cur, ct := p, t
				for _, ix := range f.path {
					if q, ok := (*cur).(*Value); ok {
						ct = ct.Underlying().(*types.Pointer).Elem()
						if q == nil {
							q = newPtr(zero(ct))
							*cur = q
						}
						cur = q
					}
					s := (*cur).(Struct)
					ct = ct.Underlying().(*types.Struct).Field(ix).Type()
					cur = &s[ix]
				}
				fr.mpDecode(d.arr[i], ct, cur, depth+1)
				break
			}
		}
	default:
		fr.mpFail("msgpack: Decode(unsupported %s)", typeString(t))
	}
}

func (fr *Frame) mpDocEq(a, c *mpDoc) Value {
	b := fr.p.bank
	if a == c {
		return true
	}
	if a.kind != c.kind || len(a.arr) != len(c.arr) {
		return false
	}
	switch a.kind {
	case "nil":
		return true
	case "bool":
		return fr.eq(types.Typ[types.Bool], a.v, c.v)
	case "int", "uint":
		if a.w != c.w {
			return false
		}
		return fr.eq(types.Typ[types.Int64], a.v, c.v)
	case "float":
		return fr.eq(types.Typ[types.Float64], a.v, c.v)
	case "str":
		return fr.strEq(a.v, c.v)
	case "bin":
		return fr.strEq(unflat(a.v.(Slice)), unflat(c.v.(Slice)))
	case "time":
		x, y := a.v.(Tuple), c.v.(Tuple)
		return and(b, fr.eqI(x[0], y[0]), fr.eqI(x[1], y[1]))
	}
	var r Value = true
	for i := range a.arr {
		if i < len(a.ks) {
			r = and(b, r, fr.mpDocEq(a.ks[i], c.ks[i]))
		}
		r = and(b, r, fr.mpDocEq(a.arr[i], c.arr[i]))
		if r == false {
			return false
		}
	}
	return r
}

func (fr *Frame) mpEq(a, c *Hole) Value { return fr.mpDocEq(a.doc.(*mpDoc), c.doc.(*mpDoc)) }

func init() {
	reg(func(fr *Frame, a []Value) Value {
		b, e := fr.mpMarshal(a[0].(Iface))
		return Tuple{b, e}
	}, "github.com/vmihailenco/msgpack/v5.Marshal")
	reg(func(fr *Frame, a []Value) Value { return fr.mpUnmarshal(a[0].(Slice), a[1].(Iface)) }, "github.com/vmihailenco/msgpack/v5.Unmarshal")
}
