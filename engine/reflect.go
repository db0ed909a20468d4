package main

import (
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// RVal models reflect.Value; the invalid Value is (*RVal)(nil).
type RVal struct {
	t    types.Type // canonical
	v    Value
	addr *Value // set when addressable
	ro   bool
}

// HostObj is a library object modelled in the engine, held behind a *Value.
type HostObj struct {
	kind string
	data any
}

func hostOf(v Value) *HostObj {
	if i, ok := v.(Iface); ok {
		v = i.v
	}
	if h, ok := v.(*HostObj); ok {
		return h
	}
	p, ok := v.(*Value)
	if !ok || p == nil {
		return nil
	}
	h, _ := (*p).(*HostObj)
	return h
}

type hostFn func(fr *Frame, a []Value) Value

var hostMethods = map[string]map[string]hostFn{}

// hostMethod finds the model of a method on a host object.
func hostMethod(recv Iface, name string) hostFn {
	h := hostOf(recv)
	if h == nil {
		return nil
	}
	if m := hostMethods[h.kind]; m != nil {
		if f := m[name]; f != nil {
			return f
		}
	}
	return func(fr *Frame, a []Value) Value { panic(unsup("method %s of modelled %s", name, h.kind)) }
}

var rtypeT types.Type // *reflect.rtype
var reflectPkg *types.Package
var rtypeObjs sync.Map

func rtypeIface(t types.Type) Iface {
	if t == nil {
		return Iface{}
	}
	t = canon(t)
	p, ok := rtypeObjs.Load(t)
	if !ok {
		p, _ = rtypeObjs.LoadOrStore(t, newPtr(&HostObj{"rtype", t}))
	}
	return Iface{t: rtypeT, v: p.(*Value)}
}
func typeOfArg(v Value) types.Type {
	h := hostOf(v)
	if h == nil || h.kind != "rtype" {
		panic(unsup("reflect.Type %T", v))
	}
	return h.data.(types.Type)
}

func (r *RVal) get() Value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func mkRVal(t types.Type, v Value) *RVal { return &RVal{t: canon(t), v: v} }

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Ptr
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (fr *Frame) goPanic(msg string) {
	panic(targetPanic{v: Iface{t: rtErr, v: msg}, tr: fr.trace()})
}

// valueOf: reflect.ValueOf(any).
func valueOf(i Iface) *RVal {
	if i.t == nil {
		return nil
	}
	return &RVal{t: i.t, v: i.v}
}

func (fr *Frame) rInterface(r *RVal) Iface {
	if r == nil {
		fr.goPanic("reflect: call of reflect.Value.Interface on zero Value")
	}
	if r.ro {
		fr.goPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
	}
	v := cp(r.get())
	if tkOf(r.t).k == kIface {
		return v.(Iface)
	}
	return Iface{r.t, v}
}

func assignable(from, to types.Type) bool {
	return canon(from) == canon(to) || types.AssignableTo(from, to)
}

// asType converts a value of type from for storage in a location of type to.
func asType(v Value, from, to types.Type) Value {
	if tkOf(to).k == kIface && tkOf(from).k != kIface {
		return Iface{canon(from), v}
	}
	return v
}

func (fr *Frame) rField(r *RVal, i int) *RVal {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		fr.goPanic("reflect: call of reflect.Value.Field on " + rkind(r.t).String() + " Value")
	}
	f := st.Field(i)
	ro := r.ro || !f.Exported()
	if ro && f.Embedded() && !f.Exported() {
		ro = true
	}
	s := r.get().(Struct)
	if r.addr != nil {
		return &RVal{t: canon(f.Type()), addr: &s[i], ro: ro}
	}
	return &RVal{t: canon(f.Type()), v: s[i], ro: ro}
}

func structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pp := ""
	if !f.Exported() && f.Pkg() != nil {
		pp = f.Pkg().Path()
	}
	return Struct{f.Name(), pp, rtypeIface(f.Type()), st.Tag(i), int64(0), Slice{int64(i)}, f.Embedded()}
}

func (fr *Frame) rElem(r *RVal) *RVal {
	if r == nil {
		fr.goPanic("reflect: call of reflect.Value.Elem on zero Value")
	}
	switch u := r.t.Underlying().(type) {
	case *types.Interface:
		return valueOf(r.get().(Iface))
	case *types.Pointer:
		p := r.get()
		if pv, ok := p.(*Value); ok {
			if pv == nil {
				return nil
			}
			return &RVal{t: canon(u.Elem()), addr: pv, ro: r.ro}
		}
		panic(unsup("reflect Elem of %T", p))
	}
	fr.goPanic("reflect: call of reflect.Value.Elem on " + rkind(r.t).String() + " Value")
	return nil
}

func (fr *Frame) rLen(r *RVal) int64 {
	switch x := r.get().(type) {
	case Slice:
		return int64(len(x))
	case Array:
		return int64(len(x))
	case *MapV:
		if x == nil {
			return 0
		}
		return int64(x.count)
	case string:
		return int64(len(x))
	case *SStr:
		el, fixed := flat(x)
		if fixed {
			return int64(len(el))
		}
		panic(unsup("reflect Len of symbolic word"))
	}
	fr.goPanic("reflect: call of reflect.Value.Len on " + rkind(r.t).String() + " Value")
	return 0
}

func (fr *Frame) rSet(r *RVal, x *RVal) {
	if r == nil || x == nil {
		fr.goPanic("reflect: call of reflect.Value.Set on zero Value")
	}
	if r.addr == nil || r.ro {
		fr.goPanic("reflect: reflect.Value.Set using unaddressable value")
	}
	if x.ro {
		fr.goPanic("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	if !assignable(x.t, r.t) {
		fr.goPanic("reflect.Set: value of type " + typeString(x.t) + " is not assignable to type " + typeString(r.t))
	}
	if fr.p.race != nil {
		fr.p.race.write(fr, r.addr)
	}
	store(r.addr, asType(cp(x.get()), x.t, r.t))
}

func typeString(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (fr *Frame) isZeroVal(t types.Type, v Value) Value {
	b := fr.p.bank
	switch tkOf(t).k {
	case kStruct:
		if isReflectValue(t) {
			return v.(*RVal) == nil
		}
		st := t.Underlying().(*types.Struct)
		var r Value = true
		for i, f := range v.(Struct) {
			r = and(b, r, fr.isZeroVal(st.Field(i).Type(), f))
			if r == false {
				return false
			}
		}
		return r
	case kArray:
		at := t.Underlying().(*types.Array)
		var r Value = true
		for _, f := range v.(Array) {
			r = and(b, r, fr.isZeroVal(at.Elem(), f))
		}
		return r
	case kSlice:
		return v.(Slice) == nil
	case kFunc:
		return v.(*Closure) == nil
	case kIface:
		return v.(Iface).t == nil
	}
	return fr.eq(t, v, zero(t))
}

func (fr *Frame) isNil(r *RVal) bool {
	switch x := r.get().(type) {
	case *Value:
		return x == nil
	case *MapV:
		return x == nil
	case Slice:
		return x == nil
	case Iface:
		return x.t == nil
	case *Closure:
		return x == nil
	case *Chan:
		return x == nil
	case UPtr:
		return x.p == nil
	}
	fr.goPanic("reflect: call of reflect.Value.IsNil on " + rkind(r.t).String() + " Value")
	return false
}

// deepEq is reflect.DeepEqual.
func (fr *Frame) deepEq(t types.Type, x, y Value, depth int) Value {
	b := fr.p.bank
	if depth > 60 {
		panic(unsup("DeepEqual depth"))
	}
	all := func(n int, f func(i int) Value) Value {
		var r Value = true
		for i := 0; i < n; i++ {
			r = and(b, r, f(i))
			if r == false {
				return false
			}
		}
		return r
	}
	switch tkOf(t).k {
	case kIface:
		a, c := x.(Iface), y.(Iface)
		if a.t == nil || c.t == nil {
			return a.t == nil && c.t == nil
		}
		if a.t != c.t {
			return false
		}
		return fr.deepEq(a.t, a.v, c.v, depth+1)
	case kSlice:
		a, c := x.(Slice), y.(Slice)
		if (a == nil) != (c == nil) {
			return false
		}
		et := t.Underlying().(*types.Slice).Elem()
		if tkOf(et).w == 8 && tkOf(et).k == kInt {
			return fr.strEq(unflat(a), unflat(c))
		}
		if len(a) != len(c) {
			return false
		}
		return all(len(a), func(i int) Value { return fr.deepEq(et, a[i], c[i], depth+1) })
	case kArray:
		a, c := x.(Array), y.(Array)
		et := t.Underlying().(*types.Array).Elem()
		return all(len(a), func(i int) Value { return fr.deepEq(et, a[i], c[i], depth+1) })
	case kStruct:
		a, c := x.(Struct), y.(Struct)
		st := t.Underlying().(*types.Struct)
		return all(len(a), func(i int) Value { return fr.deepEq(st.Field(i).Type(), a[i], c[i], depth+1) })
	case kMap:
		a, c := x.(*MapV), y.(*MapV)
		if (a == nil) != (c == nil) {
			return false
		}
		if a == nil || a == c {
			return true
		}
		if a.count != c.count {
			return false
		}
		mt := t.Underlying().(*types.Map)
		var r Value = true
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			o := fr.mapFind(c, e.k, mt.Key())
			if o == nil {
				return false
			}
			r = and(b, r, fr.deepEq(mt.Elem(), e.v, o.v, depth+1))
			if r == false {
				return false
			}
		}
		return r
	case kPtr:
		if ptrEq(x, y) {
			return true
		}
		a, o1 := x.(*Value)
		c, o2 := y.(*Value)
		if !o1 || !o2 {
			panic(unsup("DeepEqual of %T", x))
		}
		if a == nil || c == nil {
			return false
		}
		ha, ok1 := (*a).(*HostObj)
		hc, ok2 := (*c).(*HostObj)
		if ok1 || ok2 {
			if ok1 && ok2 {
				return fr.hostEq(ha, hc)
			}
			return false
		}
		return fr.deepEq(t.Underlying().(*types.Pointer).Elem(), *a, *c, depth+1)
	case kFunc:
		return x.(*Closure) == nil && y.(*Closure) == nil
	}
	return fr.eq(t, x, y)
}

func reflectIntrinsic(fn *ssa.Function) intrinsic {
	n := fn.Name()
	if recv := fn.Signature.Recv(); recv != nil {
		rt := recv.Type()
		if p, ok := rt.(*types.Pointer); ok {
			rt = p.Elem()
		}
		nm, ok := types.Unalias(rt).(*types.Named)
		if !ok {
			return nil
		}
		switch nm.Obj().Name() {
		case "Value":
			if f := rvalMethods[n]; f != nil {
				return intrinsic(f)
			}
			return func(fr *Frame, a []Value) Value { panic(unsup("reflect.Value.%s", n)) }
		case "StructTag":
			return func(fr *Frame, a []Value) Value {
				if n == "Get" {
					return reflect.StructTag(str(a[0])).Get(str(a[1]))
				}
				v, ok := reflect.StructTag(str(a[0])).Lookup(str(a[1]))
				return Tuple{v, ok}
			}
		case "Kind":
			return func(fr *Frame, a []Value) Value { return reflect.Kind(a[0].(int64)).String() }
		case "MapIter":
			return func(fr *Frame, a []Value) Value {
				it := (*a[0].(*Value)).(*HostObj).data.(*rIter)
				switch n {
				case "Next":
					it.i++
					return it.i < len(it.k)
				case "Key":
					return it.k[it.i]
				case "Value":
					return it.v[it.i]
				}
				panic(unsup("MapIter.%s", n))
			}
		}
		return nil
	}
	if f := reflectFuncs[n]; f != nil {
		return intrinsic(f)
	}
	if n == "init" {
		return nil
	}
	if strings.HasPrefix(n, "TypeFor") && len(fn.TypeArgs()) == 1 {
		return func(fr *Frame, a []Value) Value { return rtypeIface(fn.TypeArgs()[0]) }
	}
	return func(fr *Frame, a []Value) Value { panic(unsup("reflect.%s", n)) }
}

type rIter struct {
	k, v []Value
	i    int
}

var reflectFuncs map[string]hostFn
var rvalMethods map[string]hostFn

func rv(v Value) *RVal {
	r, ok := v.(*RVal)
	if !ok {
		panic(unsup("reflect.Value %T", v))
	}
	return r
}

func (fr *Frame) rFieldByName(r *RVal, name string) *RVal {
	st, ok := r.t.Underlying().(*types.Struct)
	if !ok {
		fr.goPanic("reflect: call of reflect.Value.FieldByName on " + rkind(r.t).String() + " Value")
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return fr.rField(r, i)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			f := fr.rField(r, i)
			if rkind(f.t) == reflect.Ptr {
				f = fr.rElem(f)
			}
			if f != nil {
				if _, ok := f.t.Underlying().(*types.Struct); ok {
					if g := fr.rFieldByName(f, name); g != nil {
						return g
					}
				}
			}
		}
	}
	return nil
}

func init() {
	reflectFuncs = map[string]hostFn{
		"ValueOf": func(fr *Frame, a []Value) Value { return valueOf(a[0].(Iface)) },
		"TypeOf":  func(fr *Frame, a []Value) Value { return rtypeIface(a[0].(Iface).t) },
		"DeepEqual": func(fr *Frame, a []Value) Value {
			x, y := a[0].(Iface), a[1].(Iface)
			if x.t == nil || y.t == nil {
				return x.t == y.t
			}
			if x.t != y.t {
				return false
			}
			return fr.deepEq(x.t, x.v, y.v, 0)
		},
		"Zero": func(fr *Frame, a []Value) Value { t := typeOfArg(a[0]); return mkRVal(t, zero(t)) },
		"New": func(fr *Frame, a []Value) Value {
			t := typeOfArg(a[0])
			return mkRVal(types.NewPointer(t), newPtr(zero(t)))
		},
		"MakeSlice": func(fr *Frame, a []Value) Value {
			t := typeOfArg(a[0])
			st, ok := t.Underlying().(*types.Slice)
			if !ok {
				fr.goPanic("reflect.MakeSlice of non-slice type")
			}
			s := make(Slice, fr.intArg(a[1]), fr.intArg(a[2]))
			f := s[:cap(s)]
			for i := range f {
				f[i] = zero(st.Elem())
			}
			return mkRVal(t, s)
		},
		"MakeMap": func(fr *Frame, a []Value) Value { return mkRVal(typeOfArg(a[0]), newMap()) },
		"MakeMapWithSize": func(fr *Frame, a []Value) Value {
			return mkRVal(typeOfArg(a[0]), newMap())
		},
		"Append": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			st, ok := r.t.Underlying().(*types.Slice)
			if !ok {
				fr.goPanic("reflect.Append of non-slice")
			}
			var add []Value
			for _, x := range a[1].(Slice) {
				xr := rv(x)
				if !assignable(xr.t, st.Elem()) {
					fr.goPanic("reflect.Set: value of type " + typeString(xr.t) + " is not assignable to type " + typeString(st.Elem()))
				}
				add = append(add, asType(xr.get(), xr.t, st.Elem()))
			}
			return &RVal{t: r.t, v: fr.appendVals(r.get().(Slice), add)}
		},
		"AppendSlice": func(fr *Frame, a []Value) Value {
			r, x := rv(a[0]), rv(a[1])
			if r == nil || x == nil || rkind(r.t) != reflect.Slice || !types.Identical(r.t, x.t) {
				fr.goPanic("reflect.AppendSlice: slices of different types")
			}
			return &RVal{t: r.t, v: fr.appendVals(r.get().(Slice), append([]Value{}, x.get().(Slice)...))}
		},
		"Copy": func(fr *Frame, a []Value) Value {
			d, x := rv(a[0]).get().(Slice), rv(a[1]).get().(Slice)
			n := min(len(d), len(x))
			t := append([]Value{}, x[:n]...)
			for i := range t {
				d[i] = cp(t[i])
			}
			return int64(n)
		},
		"Indirect": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			if r == nil || rkind(r.t) != reflect.Ptr {
				return r
			}
			return fr.rElem(r)
		},
		"SliceOf":   func(fr *Frame, a []Value) Value { return rtypeIface(types.NewSlice(typeOfArg(a[0]))) },
		"PointerTo": func(fr *Frame, a []Value) Value { return rtypeIface(types.NewPointer(typeOfArg(a[0]))) },
		"PtrTo":     func(fr *Frame, a []Value) Value { return rtypeIface(types.NewPointer(typeOfArg(a[0]))) },
		"MapOf":     func(fr *Frame, a []Value) Value { return rtypeIface(types.NewMap(typeOfArg(a[0]), typeOfArg(a[1]))) },
		"Swapper":   func(fr *Frame, a []Value) Value { panic(unsup("reflect.Swapper")) },
	}
	kindChk := func(fr *Frame, r *RVal, m string) {
		if r == nil {
			fr.goPanic("reflect: call of reflect.Value." + m + " on zero Value")
		}
	}
	rvalMethods = map[string]hostFn{
		"Kind": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			if r == nil {
				return int64(0)
			}
			return int64(rkind(r.t))
		},
		"IsValid": func(fr *Frame, a []Value) Value { return rv(a[0]) != nil },
		"Type": func(fr *Frame, a []Value) Value {
			kindChk(fr, rv(a[0]), "Type")
			return rtypeIface(rv(a[0]).t)
		},
		"Elem":         func(fr *Frame, a []Value) Value { return fr.rElem(rv(a[0])) },
		"Interface":    func(fr *Frame, a []Value) Value { return fr.rInterface(rv(a[0])) },
		"CanInterface": func(fr *Frame, a []Value) Value { kindChk(fr, rv(a[0]), "CanInterface"); return !rv(a[0]).ro },
		"CanSet":       func(fr *Frame, a []Value) Value { r := rv(a[0]); return r != nil && r.addr != nil && !r.ro },
		"CanAddr":      func(fr *Frame, a []Value) Value { r := rv(a[0]); return r != nil && r.addr != nil },
		"Addr": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			if r.addr == nil {
				fr.goPanic("reflect.Value.Addr of unaddressable value")
			}
			return &RVal{t: canon(types.NewPointer(r.t)), v: r.addr, ro: r.ro}
		},
		"UnsafeAddr":    func(fr *Frame, a []Value) Value { return UPtr{rv(a[0]).addr} },
		"Pointer":       func(fr *Frame, a []Value) Value { return UPtr{rv(a[0]).get()} },
		"UnsafePointer": func(fr *Frame, a []Value) Value { return UPtr{rv(a[0]).get()} },
		"NumField": func(fr *Frame, a []Value) Value {
			kindChk(fr, rv(a[0]), "NumField")
			st, ok := rv(a[0]).t.Underlying().(*types.Struct)
			if !ok {
				fr.goPanic("reflect: call of reflect.Value.NumField on " + rkind(rv(a[0]).t).String() + " Value")
			}
			return int64(st.NumFields())
		},
		"NumMethod": func(fr *Frame, a []Value) Value { return int64(1) },
		"Field": func(fr *Frame, a []Value) Value {
			kindChk(fr, rv(a[0]), "Field")
			return fr.rField(rv(a[0]), int(a[1].(int64)))
		},
		"FieldByName": func(fr *Frame, a []Value) Value {
			kindChk(fr, rv(a[0]), "FieldByName")
			return fr.rFieldByName(rv(a[0]), str(a[1]))
		},
		"Len": func(fr *Frame, a []Value) Value {
			kindChk(fr, rv(a[0]), "Len")
			if x, ok := rv(a[0]).get().(*SStr); ok {
				if _, fixed := flat(x); !fixed {
					return fr.symLen(x)
				}
			}
			return fr.rLen(rv(a[0]))
		},
		"Cap": func(fr *Frame, a []Value) Value { return int64(cap(rv(a[0]).get().(Slice))) },
		"Index": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			kindChk(fr, r, "Index")
			i := int(fr.intArg(a[1]))
			switch x := r.get().(type) {
			case Slice:
				if i < 0 || i >= len(x) {
					fr.goPanic("reflect: slice index out of range")
				}
				return &RVal{t: canon(r.t.Underlying().(*types.Slice).Elem()), addr: &x[i], ro: r.ro}
			case Array:
				if i < 0 || i >= len(x) {
					fr.goPanic("reflect: array index out of range")
				}
				o := &RVal{t: canon(r.t.Underlying().(*types.Array).Elem()), ro: r.ro}
				if r.addr != nil {
					o.addr = &x[i]
				} else {
					o.v = x[i]
				}
				return o
			case string:
				return &RVal{t: canon(types.Typ[types.Uint8]), v: int64(x[i])}
			}
			fr.goPanic("reflect: call of reflect.Value.Index on " + rkind(r.t).String() + " Value")
			return nil
		},
		"IsNil": func(fr *Frame, a []Value) Value { kindChk(fr, rv(a[0]), "IsNil"); return fr.isNil(rv(a[0])) },
		"IsZero": func(fr *Frame, a []Value) Value {
			kindChk(fr, rv(a[0]), "IsZero")
			return fr.isZeroVal(rv(a[0]).t, rv(a[0]).get())
		},
		"Set":        func(fr *Frame, a []Value) Value { fr.rSet(rv(a[0]), rv(a[1])); return nil },
		"SetZero":    func(fr *Frame, a []Value) Value { r := rv(a[0]); fr.rSet(r, mkRVal(r.t, zero(r.t))); return nil },
		"CanConvert": func(fr *Frame, a []Value) Value { r := rv(a[0]); return types.ConvertibleTo(r.t, typeOfArg(a[1])) },
		"Comparable": func(fr *Frame, a []Value) Value { r := rv(a[0]); return r == nil || types.Comparable(r.t) },
		"CanInt": func(fr *Frame, a []Value) Value {
			k := rkind(rv(a[0]).t)
			return k >= reflect.Int && k <= reflect.Int64
		},
		"CanUint": func(fr *Frame, a []Value) Value {
			k := rkind(rv(a[0]).t)
			return k >= reflect.Uint && k <= reflect.Uintptr
		},
		"CanFloat": func(fr *Frame, a []Value) Value {
			k := rkind(rv(a[0]).t)
			return k == reflect.Float32 || k == reflect.Float64
		},
		"SetLen": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			*r.addr = (*r.addr).(Slice)[:fr.intArg(a[1])]
			return nil
		},
		"String": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			if r == nil {
				return "<invalid Value>"
			}
			if tkOf(r.t).k == kString {
				return r.get()
			}
			return "<" + typeString(r.t) + " Value>"
		},
		"Bytes": func(fr *Frame, a []Value) Value { return rv(a[0]).get() },
		"MapKeys": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			m := r.get().(*MapV)
			out := Slice{}
			kt := r.t.Underlying().(*types.Map).Key()
			for _, e := range fr.rangeEnts(m) {
				out = append(out, mkRVal(kt, e.k))
			}
			return out
		},
		"MapIndex": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			mt := r.t.Underlying().(*types.Map)
			e := fr.mapFind(r.get().(*MapV), rv(a[1]).get(), mt.Key())
			if e == nil {
				return (*RVal)(nil)
			}
			return mkRVal(mt.Elem(), e.v)
		},
		"SetMapIndex": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			mt := r.t.Underlying().(*types.Map)
			x := rv(a[2])
			if x == nil {
				fr.mapDelete(r.get().(*MapV), rv(a[1]).get(), mt.Key())
				return nil
			}
			fr.mapSet(r.get().(*MapV), rv(a[1]).get(), asType(x.get(), x.t, mt.Elem()), mt.Key())
			return nil
		},
		"MapRange": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			mt := r.t.Underlying().(*types.Map)
			it := &rIter{i: -1}
			for _, e := range fr.rangeEnts(r.get().(*MapV)) {
				it.k = append(it.k, mkRVal(mt.Key(), e.k))
				it.v = append(it.v, mkRVal(mt.Elem(), e.v))
			}
			return newPtr(&HostObj{"mapiter", it})
		},
		"Convert": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			t := typeOfArg(a[1])
			if !types.ConvertibleTo(r.t, t) {
				fr.goPanic("reflect.Value.Convert: value of type " + typeString(r.t) + " cannot be converted to type " + typeString(t))
			}
			if tkOf(t).k == kIface {
				return mkRVal(t, asType(r.get(), r.t, t))
			}
			if types.Identical(r.t.Underlying(), t.Underlying()) {
				return &RVal{t: canon(t), v: r.get(), ro: r.ro}
			}
			return &RVal{t: canon(t), v: fr.convert(r.get(), tkOf(r.t), tkOf(t), r.t, t), ro: r.ro}
		},
		"Slice": func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			return &RVal{t: r.t, v: r.get().(Slice)[a[1].(int64):a[2].(int64)]}
		},
		"Method": func(fr *Frame, a []Value) Value { panic(unsup("reflect Method")) },
	}
	scalar := func(k ...kind) hostFn {
		return func(fr *Frame, a []Value) Value {
			r := rv(a[0])
			if r == nil {
				fr.goPanic("reflect: accessor on zero Value")
			}
			for _, x := range k {
				if tkOf(r.t).k == x {
					return r.get()
				}
			}
			fr.goPanic("reflect: accessor on " + rkind(r.t).String() + " Value")
			return nil
		}
	}
	rvalMethods["Bool"] = scalar(kBool)
	rvalMethods["Float"] = scalar(kFloat)
	widen := func(fr *Frame, a []Value) Value {
		v := scalar(kInt)(fr, a)
		if t, ok := v.(*Term); ok && t.w < 64 {
			if tkOf(rv(a[0]).t).signed {
				return fr.p.bank.SExt(t, 64)
			}
			return fr.p.bank.ZExt(t, 64)
		}
		return v
	}
	rvalMethods["Int"] = widen
	rvalMethods["Uint"] = widen
	setS := func(fr *Frame, a []Value) Value {
		r := rv(a[0])
		if r == nil || r.addr == nil || r.ro {
			fr.goPanic("reflect: set using unaddressable value")
		}
		v := a[1]
		if i, ok := v.(int64); ok {
			v = tkOf(r.t).norm(i)
		}
		*r.addr = v
		return nil
	}
	for _, n := range []string{"SetInt", "SetUint", "SetString", "SetBool", "SetFloat", "SetBytes"} {
		rvalMethods[n] = setS
	}
	rt := func(a []Value) types.Type { return typeOfArg(a[0]) }
	hostMethods["rtype"] = map[string]hostFn{
		"Kind":   func(fr *Frame, a []Value) Value { return int64(rkind(rt(a))) },
		"String": func(fr *Frame, a []Value) Value { return typeString(rt(a)) },
		"Name": func(fr *Frame, a []Value) Value {
			switch t := rt(a).(type) {
			case *types.Named:
				return t.Obj().Name()
			case *types.Basic:
				return t.Name()
			}
			return ""
		},
		"PkgPath": func(fr *Frame, a []Value) Value {
			if n, ok := rt(a).(*types.Named); ok && n.Obj().Pkg() != nil {
				return n.Obj().Pkg().Path()
			}
			return ""
		},
		"Elem": func(fr *Frame, a []Value) Value {
			switch u := rt(a).Underlying().(type) {
			case *types.Pointer:
				return rtypeIface(u.Elem())
			case *types.Slice:
				return rtypeIface(u.Elem())
			case *types.Array:
				return rtypeIface(u.Elem())
			case *types.Map:
				return rtypeIface(u.Elem())
			case *types.Chan:
				return rtypeIface(u.Elem())
			}
			fr.goPanic("reflect: Elem of invalid type " + typeString(rt(a)))
			return nil
		},
		"Key": func(fr *Frame, a []Value) Value { return rtypeIface(rt(a).Underlying().(*types.Map).Key()) },
		"Len": func(fr *Frame, a []Value) Value { return rt(a).Underlying().(*types.Array).Len() },
		"NumField": func(fr *Frame, a []Value) Value {
			st, ok := rt(a).Underlying().(*types.Struct)
			if !ok {
				fr.goPanic("reflect: NumField of non-struct type " + typeString(rt(a)))
			}
			return int64(st.NumFields())
		},
		"Field": func(fr *Frame, a []Value) Value {
			st, ok := rt(a).Underlying().(*types.Struct)
			if !ok {
				fr.goPanic("reflect: Field of non-struct type " + typeString(rt(a)))
			}
			return structField(st, int(a[1].(int64)))
		},
		"FieldByName": func(fr *Frame, a []Value) Value {
			st := rt(a).Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == str(a[1]) {
					return Tuple{structField(st, i), true}
				}
			}
			return Tuple{Struct{"", "", Iface{}, "", int64(0), Slice(nil), false}, false}
		},
		"NumMethod": func(fr *Frame, a []Value) Value {
			if i, ok := rt(a).Underlying().(*types.Interface); ok {
				return int64(i.NumMethods())
			}
			return int64(types.NewMethodSet(rt(a)).Len())
		},
		"Implements": func(fr *Frame, a []Value) Value {
			return types.Implements(rt(a), typeOfArg(a[1]).Underlying().(*types.Interface))
		},
		"AssignableTo":  func(fr *Frame, a []Value) Value { return assignable(rt(a), typeOfArg(a[1])) },
		"ConvertibleTo": func(fr *Frame, a []Value) Value { return types.ConvertibleTo(rt(a), typeOfArg(a[1])) },
		"Comparable":    func(fr *Frame, a []Value) Value { return types.Comparable(rt(a)) },
		"Size":          func(fr *Frame, a []Value) Value { return int64(8) },
	}
}

// rangeEnts lists live entries, rotated when map order is explored.
func (fr *Frame) rangeEnts(m *MapV) []*MapEnt {
	return fr.mkRange(m).(*iter).ents
}
