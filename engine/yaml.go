package main

import (
	"go/types"
	"math"
	"strconv"
	"strings"
	"sync"
)

// Model of gopkg.in/yaml.v3: documents are kept in the JSON subset of YAML and
// a node holds the text of its value. The reflective encoder and decoder are
// replaced; custom MarshalYAML and UnmarshalYAML methods are executed for real.

const yamlPkg = "gopkg.in/yaml.v3"

var yamlMarshaler, yamlUnmarshaler *types.Interface

type yfield struct {
	name      string
	ix        int
	omitEmpty bool
}

var yfieldCache sync.Map

func yamlFields(t types.Type) []yfield {
	if v, ok := yfieldCache.Load(t); ok {
		return v.([]yfield)
	}
	st := t.Underlying().(*types.Struct)
	var out []yfield
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() && !f.Embedded() {
			continue
		}
		tag := structTagGet(st.Tag(i), "yaml")
		if tag == "" && !strings.Contains(st.Tag(i), ":") {
			tag = st.Tag(i)
		}
		if tag == "-" {
			continue
		}
		name, opts, _ := strings.Cut(tag, ",")
		y := yfield{name: name, ix: i}
		for _, o := range strings.Split(opts, ",") {
			switch o {
			case "", "flow":
			case "omitempty":
				y.omitEmpty = true
			default:
				panic(unsup("yaml option %s", o))
			}
		}
		if y.name == "" {
			y.name = strings.ToLower(f.Name())
		}
		out = append(out, y)
	}
	yfieldCache.Store(t, out)
	return out
}

func isYamlNode(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Node" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == yamlPkg
}

// nodeText is the text of a node.
func (fr *Frame) nodeText(n Value) Value {
	s := n.(Struct)
	if k, ok := s[0].(int64); ok && k == 0 {
		return "null"
	}
	return s[3]
}

// setNode makes a node of a text.
func setNode(p *Value, text Value) {
	s := (*p).(Struct)
	s[0], s[3] = int64(8), text
}

func (fr *Frame) yenc(t types.Type, v Value, depth int) Value {
	if depth > 40 {
		panic(unsup("yaml depth"))
	}
	t = canon(t)
	k := tkOf(t).k
	if k == kPtr {
		if p, ok := v.(*Value); ok && p == nil {
			return "null"
		}
	}
	if isYamlNode(t) {
		return fr.nodeText(v)
	}
	if strings.HasSuffix(t.String(), "time.Time") || strings.HasSuffix(t.String(), "time.Duration") {
		panic(unsup("yaml of %s", t))
	}
	if k != kIface && implements(t, yamlMarshaler) && !(k == kPtr && isYamlNode(canon(t.Underlying().(*types.Pointer).Elem()))) {
		if hostMethod(Iface{t, v}, "MarshalYAML") != nil {
			panic(unsup("yaml of host object"))
		}
		r := fr.callInfo(fr.p.w.prog.info(fr.p.w.prog.methodByName(t, "MarshalYAML")), []Value{v}, nil).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(jsonErr{e})
		}
		return fr.yenc(canon(types.NewInterfaceType(nil, nil)), r[0], depth+1)
	}
	if k != kIface && implements(t, textMarshaler) {
		panic(unsup("yaml of text marshaler %s", t))
	}
	switch k {
	case kBool, kInt, kFloat, kString:
		if f, ok := v.(float64); ok {
			if math.IsNaN(f) || math.IsInf(f, 0) {
				panic(unsup("yaml of %v", f))
			}
		}
		return fr.jenc(canon(t.Underlying()), v, nil, 0)
	case kPtr:
		p, ok := v.(*Value)
		if !ok {
			panic(unsup("yaml of %T", v))
		}
		return fr.yenc(t.Underlying().(*types.Pointer).Elem(), *p, depth+1)
	case kIface:
		i := v.(Iface)
		if i.t == nil {
			return "null"
		}
		return fr.yenc(i.t, i.v, depth+1)
	case kSlice, kArray:
		var s []Value
		var et types.Type
		if a, ok := v.(Array); ok {
			s, et = a, t.Underlying().(*types.Array).Elem()
		} else {
			s, et = v.(Slice), t.Underlying().(*types.Slice).Elem()
		}
		var r Value = "["
		for i := range s {
			if i > 0 {
				r = concat(r, ",")
			}
			r = concat(r, fr.yenc(et, s[i], depth+1))
		}
		return concat(r, "]")
	case kMap:
		m := v.(*MapV)
		mt := t.Underlying().(*types.Map)
		if tkOf(mt.Key()).k != kString {
			panic(unsup("yaml of %s", t))
		}
		if ks := keySetText(m); ks != nil {
			return ks
		}
		var r Value = "{"
		first := true
		if m != nil {
			for _, e := range m.ents {
				if e.dead {
					continue
				}
				if !first {
					r = concat(r, ",")
				}
				first = false
				r = concat(concat(r, fr.jstring(e.k)), ":")
				r = concat(r, fr.yenc(mt.Elem(), e.v, depth+1))
			}
		}
		return concat(r, "}")
	case kStruct:
		var r Value = "{"
		first := true
		for _, f := range yamlFields(t) {
			ft, fv := t.Underlying().(*types.Struct).Field(f.ix).Type(), v.(Struct)[f.ix]
			if f.omitEmpty {
				if tkOf(ft).k == kStruct {
					panic(unsup("yaml omitempty of a struct"))
				}
				if fr.p.decide(fr.jempty(ft, fv)) {
					continue
				}
			}
			if !first {
				r = concat(r, ",")
			}
			first = false
			r = concat(concat(r, fr.jstring(f.name)), ":")
			r = concat(r, fr.yenc(ft, fv, depth+1))
		}
		return concat(r, "}")
	}
	panic(unsup("yaml of %s", t))
}

// yamlDo runs f and gives the error it ends with.
func yamlDo(f func() Iface) (err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				err = e.err
				return
			}
			panic(r)
		}
	}()
	return f()
}

func (fr *Frame) yamlDecode(text []Value, target Iface) Iface {
	return yamlDo(func() Iface {
		n, ok := fr.jparse(text)
		if !ok {
			// any other text is a plain scalar or no YAML at all
			if s, is := unflat(text).(string); is && plainYAML(s) {
				n, ok = &jnode{k: 's', s: s, raw: text}, true
			}
		}
		if !ok {
			panic(unsup("yaml beyond its json subset"))
		}
		p, is := target.v.(*Value)
		if target.t == nil || tkOf(target.t).k != kPtr || !is || p == nil {
			panic(unsup("yaml into %v", target.t))
		}
		d := &jdec{fr: fr}
		d.ydecode(n, target.t.Underlying().(*types.Pointer).Elem(), p, 0)
		return d.saved
	})
}

// plainYAML: words that are plain strings in YAML
func plainYAML(s string) bool {
	if s == "" || len(s) > 40 {
		return false
	}
	for i, c := range s {
		if !(c >= 'g' && c <= 'z' || i > 0 && c == ' ') {
			return false
		}
	}
	return s != "null" && s != "true" && s != "no" && s != "on" && s != "y" && s != "n" && s[len(s)-1] != ' '
}

// ydecode tells whether something was stored.
func (d *jdec) ydecode(n *jnode, t types.Type, p *Value, depth int) bool {
	fr := d.fr
	if depth > 60 {
		panic(unsup("yaml depth"))
	}
	t = canon(t)
	if isYamlNode(t) {
		z := zero(t)
		*p = z
		setNode(p, unflat(n.raw))
		return true
	}
	if n.k == 'n' {
		switch tkOf(t).k {
		case kIface, kPtr, kMap, kSlice:
			*p = zero(t)
			return true
		}
		return false
	}
	for tkOf(t).k == kPtr {
		et := canon(t.Underlying().(*types.Pointer).Elem())
		q, ok := (*p).(*Value)
		if !ok {
			panic(unsup("yaml into %T", *p))
		}
		if q == nil {
			q = newPtr(zero(et))
			*p = q
		}
		p, t = q, et
		// a node behind a pointer is treated as any struct
	}
	k := tkOf(t).k
	if k != kIface {
		pt := canon(types.NewPointer(t))
		if implements(pt, yamlUnmarshaler) {
			if hostMethod(Iface{pt, p}, "UnmarshalYAML") != nil {
				panic(unsup("yaml into host object"))
			}
			f := fr.p.w.prog.methodByName(pt, "UnmarshalYAML")
			nt := f.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
			q := newPtr(zero(nt))
			setNode(q, unflat(n.raw))
			if e := fr.callInfo(fr.p.w.prog.info(f), []Value{p, q}, nil).(Iface); e.t != nil {
				panic(jsonErr{e})
			}
			return true
		}
		if implements(pt, textUnmarshaler) {
			panic(unsup("yaml into text unmarshaler"))
		}
	}
	if k == kIface {
		*p = d.yany(n)
		return true
	}
	switch n.k {
	case 'b':
		if k == kBool {
			*p = n.b
			return true
		}
		if k == kString {
			*p = strconv.FormatBool(n.b)
			return true
		}
	case 's':
		if k == kString {
			*p = n.s
			return true
		}
		if k == kBool {
			s, ok := n.s.(string)
			if !ok {
				panic(unsup("yaml bool of a symbolic string"))
			}
			switch s {
			case "y", "Y", "yes", "Yes", "YES", "on", "On", "ON":
				*p = true
				return true
			case "n", "N", "no", "No", "NO", "off", "Off", "OFF":
				*p = false
				return true
			}
		}
	case '0':
		switch k {
		case kString:
			if s, ok := n.num.(string); ok {
				*p = s
				return true
			}
			panic(unsup("yaml string of a symbolic number"))
		case kInt:
			if strings.HasSuffix(t.String(), "time.Duration") {
				break
			}
			if s, ok := n.num.(string); ok && strings.ContainsAny(s, ".eE") {
				panic(unsup("yaml integer of a float"))
			}
			sv := d.saved
			d.saved = Iface{}
			d.num2int(n, t, p)
			ok := d.saved.t == nil
			if sv.t != nil {
				d.saved = sv
			}
			return ok
		case kFloat:
			if f, ok := d.num2float(n); ok {
				*p = f
				return true
			}
			return false
		}
	case '[':
		if k == kSlice {
			et := t.Underlying().(*types.Slice).Elem()
			s := make(Slice, 0, len(n.arr))
			for _, c := range n.arr {
				q := newPtr(zero(et))
				if d.ydecode(c, et, q, depth+1) {
					s = append(s, *q)
				}
			}
			*p = s
			return true
		}
		if k == kArray {
			panic(unsup("yaml into array"))
		}
	case '{', 'J', 'K':
		if n.k != '{' {
			if mt, ok := t.Underlying().(*types.Map); ok && tkOf(mt.Key()).k == kString && tkOf(mt.Elem()).k == kIface {
				*p = d.toAny(n).(Iface).v
				return true
			}
			panic(unsup("yaml key set into %s", t))
		}
		switch k {
		case kMap:
			mt := t.Underlying().(*types.Map)
			if tkOf(mt.Key()).k != kString {
				panic(unsup("yaml into %s", t))
			}
			m, _ := (*p).(*MapV)
			isNew := m == nil
			if isNew {
				m = newMap()
				*p = m
			}
			for i, c := range n.arr {
				q := newPtr(zero(mt.Elem()))
				if d.ydecode(c, mt.Elem(), q, depth+1) {
					fr.mapSet(m, n.keys[i], *q, mt.Key())
				} else if c.k == 'n' {
					if !isNew {
						panic(unsup("yaml null into a map"))
					}
					fr.mapSet(m, n.keys[i], *q, mt.Key())
				}
			}
			return true
		case kStruct:
			fs := yamlFields(t)
			s, ok := (*p).(Struct)
			if !ok {
				panic(unsup("yaml into %T", *p))
			}
			for i, c := range n.arr {
				f := -1
				if key, ok := n.keys[i].(string); ok {
					for j := range fs {
						if fs[j].name == key {
							f = j
						}
					}
				} else {
					for j := range fs {
						if fr.p.decide(fr.strEq(n.keys[i], fs[j].name)) {
							f = j
							break
						}
					}
				}
				if f >= 0 {
					ix := fs[f].ix
					d.ydecode(c, t.Underlying().(*types.Struct).Field(ix).Type(), &s[ix], depth+1)
				}
			}
			return true
		}
	}
	d.save("yaml: unmarshal errors: cannot unmarshal into %s", typeString(t))
	return false
}

// yany: like toAny, but whole numbers are integers
func (d *jdec) yany(n *jnode) Value {
	switch n.k {
	case '0':
		switch x := n.num.(type) {
		case string:
			if i, err := strconv.ParseInt(x, 10, 64); err == nil {
				return Iface{canon(types.Typ[types.Int]), i}
			}
			if !strings.ContainsAny(x, ".eE") {
				panic(unsup("yaml number %s", x))
			}
		case *Term:
			if x.w != wFP {
				return Iface{canon(types.Typ[types.Int]), intVal(x, tkOf(types.Typ[types.Int]))}
			}
			// whole floats of unknown value stay floats; only used where the value is dropped or compared as a number
		}
		return d.toAny(n)
	case '[':
		s := make(Slice, len(n.arr))
		for i, c := range n.arr {
			s[i] = d.yany(c)
		}
		return Iface{sliceAnyT, s}
	case '{':
		m := newMap()
		for i, c := range n.arr {
			d.fr.mapSet(m, n.keys[i], d.yany(c), types.Typ[types.String])
		}
		return Iface{mapAnyT, m}
	}
	return d.toAny(n)
}

func init() {
	marshal := func(fr *Frame, i Iface) (out Value, err Iface) {
		err = yamlDo(func() Iface {
			out = fr.yenc(canon(types.NewInterfaceType(nil, nil)), i, 0)
			return Iface{}
		})
		return
	}
	reg(func(fr *Frame, a []Value) Value {
		v, e := marshal(fr, a[0].(Iface))
		if e.t != nil {
			return Tuple{Slice(nil), e}
		}
		el, _ := flat(v)
		return Tuple{Slice(append(make([]Value, 0, len(el)), el...)), Iface{}}
	}, yamlPkg+".Marshal")
	reg(func(fr *Frame, a []Value) Value { return fr.yamlDecode(a[0].(Slice), a[1].(Iface)) }, yamlPkg+".Unmarshal")
	reg(func(fr *Frame, a []Value) Value {
		el, _ := flat(fr.nodeText(*a[0].(*Value)))
		return fr.yamlDecode(el, a[1].(Iface))
	}, "(*"+yamlPkg+".Node).Decode")
	reg(func(fr *Frame, a []Value) Value {
		v, e := marshal(fr, a[1].(Iface))
		if e.t == nil {
			setNode(a[0].(*Value), v)
		}
		return e
	}, "(*"+yamlPkg+".Node).Encode")
}
