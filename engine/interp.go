package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Program struct {
	ssa       *ssa.Program
	pkgs      map[string]*ssa.Package
	modPath   string
	infos     sync.Map // *ssa.Function -> *fnInfo
	methods   sync.Map // methKey -> *ssa.Function
	msMu      sync.Mutex
	modInit   []*ssa.Package // module packages in init order
	harnessP  *ssa.Package
	timeLocal *ssa.Global
}

type opk uint8

const (
	oSlot opk = iota
	oConst
	oGlobal
	oZero // zero of aggregate type
	oNone
)

type opnd struct {
	k    opk
	slot int
	c    Value
	g    *ssa.Global
	t    types.Type
}

type instr struct {
	in   ssa.Instruction
	dst  int
	args []opnd
	t    types.Type // auxiliary canonical type
	k    tk
	k2   tk
	st   *callSite
}

type callSite struct {
	static *fnInfo
	bi     *ssa.Builtin
	method *types.Func
	nargs  int
	cache  sync.Map // types.Type -> *fnInfo
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	nslots   int
	blocks   [][]instr
	params   []int
	free     []int
	intr     intrinsic
	once     sync.Once
	recover  int
	isInit   bool
	mod      bool
	hasDefer bool
}

type intrinsic func(fr *Frame, args []Value) Value

type deferred struct {
	f    Value
	info *fnInfo
	bi   *instr
	args []Value
}

type targetPanic struct {
	v  Value // Iface
	tr string
}

type Frame struct {
	p         *Path
	g         *Gor
	info      *fnInfo
	caller    *Frame
	slots     []Value
	blk       int
	prev      int
	defers    []deferred
	result    Value
	panicking bool
	pv        targetPanic
	recovered bool
	curPos    token.Pos
}

func (pr *Program) info(fn *ssa.Function) *fnInfo {
	if v, ok := pr.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	if fn.Origin() != nil {
		fi.intr = intrinsics[fn.Origin().String()]
	}
	if fi.intr == nil {
		fi.intr = intrinsics[fi.name]
	}
	if fi.intr == nil {
		fi.intr = genericIntrinsic(fn)
	}
	if fn.Pkg != nil {
		fi.mod = pr.isMod(fn.Pkg.Pkg.Path())
		fi.isInit = fn.Name() == "init" && fn.Signature.Recv() == nil
	}
	v, _ := pr.infos.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func (pr *Program) isMod(path string) bool {
	return path == pr.modPath || strings.HasPrefix(path, pr.modPath+"/")
}

func (fi *fnInfo) compile(pr *Program) {
	fi.once.Do(func() { fi.compile1(pr) })
}

func (fi *fnInfo) compile1(pr *Program) {
	fn := fi.fn
	slots := map[ssa.Value]int{}
	n := 0
	alloc := func(v ssa.Value) int {
		if i, ok := slots[v]; ok {
			return i
		}
		slots[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range fn.FreeVars {
		fi.free = append(fi.free, alloc(p))
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
		}
	}
	fi.nslots = n
	mk := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: oNone}
		case *ssa.Const:
			return constOpnd(x)
		case *ssa.Global:
			return opnd{k: oGlobal, g: x}
		case *ssa.Function:
			return opnd{k: oConst, c: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{k: oConst, c: &Closure{bi: x}}
		}
		return opnd{k: oSlot, slot: slots[v]}
	}
	for _, b := range fn.Blocks {
		var is []instr
		for _, in := range reorder(b) {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			it := instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				it.dst = slots[v]
			}
			switch x := in.(type) {
			case *ssa.Call:
				it.args, it.st = pr.compileCall(&x.Call, mk)
			case *ssa.Defer:
				fi.hasDefer = true
				it.args, it.st = pr.compileCall(&x.Call, mk)
			case *ssa.Go:
				it.args, it.st = pr.compileCall(&x.Call, mk)
			case *ssa.Select:
				for _, s := range x.States {
					it.args = append(it.args, mk(s.Chan), mk(s.Send))
				}
			default:
				var rands [8]*ssa.Value
				for _, r := range in.Operands(rands[:0]) {
					it.args = append(it.args, mk(*r))
				}
			}
			switch x := in.(type) {
			case *ssa.BinOp:
				it.k = tkOf(x.X.Type())
				it.t = canon(x.X.Type())
				it.k2 = tkOf(x.Y.Type())
			case *ssa.UnOp:
				it.k = tkOf(x.Type())
				it.t = canon(x.Type())
			case *ssa.Convert:
				it.k = tkOf(x.X.Type())
				it.k2 = tkOf(x.Type())
				it.t = x.Type()
			case *ssa.MultiConvert:
				it.k = tkOf(x.X.Type())
				it.k2 = tkOf(x.Type())
				it.t = x.Type()
			case *ssa.MakeInterface:
				it.t = canon(x.X.Type())
			case *ssa.TypeAssert:
				it.t = canon(x.AssertedType)
			case *ssa.Alloc:
				it.t = x.Type().Underlying().(*types.Pointer).Elem()
			case *ssa.MakeSlice:
				it.t = x.Type().Underlying().(*types.Slice).Elem()
			case *ssa.Lookup:
				it.t = x.X.Type()
				it.k = tkOf(x.X.Type())
			case *ssa.Slice:
				it.t = x.X.Type()
				it.k = tkOf(x.X.Type())
			case *ssa.IndexAddr:
				it.k = tkOf(x.X.Type())
				it.k2 = tkOf(x.Index.Type())
			case *ssa.Index:
				it.k = tkOf(x.X.Type())
				it.k2 = tkOf(x.Index.Type())
			}
			is = append(is, it)
		}
		fi.blocks = append(fi.blocks, is)
	}
	fi.recover = -1
	if fn.Recover != nil {
		fi.recover = fn.Recover.Index
	}
}

func (pr *Program) compileCall(c *ssa.CallCommon, mk func(ssa.Value) opnd) ([]opnd, *callSite) {
	st := &callSite{nargs: len(c.Args)}
	var args []opnd
	if c.IsInvoke() {
		st.method = c.Method
		args = append(args, mk(c.Value))
	} else {
		switch f := c.Value.(type) {
		case *ssa.Function:
			st.static = pr.info(f)
			args = append(args, opnd{k: oNone})
		case *ssa.Builtin:
			st.bi = f
			args = append(args, opnd{k: oNone})
		default:
			args = append(args, mk(c.Value))
		}
	}
	for _, a := range c.Args {
		args = append(args, mk(a))
	}
	return args, st
}

func constOpnd(c *ssa.Const) opnd {
	if c.Value == nil {
		switch tkOf(c.Type()).k {
		case kStruct, kArray, kTuple, kOther:
			return opnd{k: oZero, t: c.Type()}
		}
		return opnd{k: oConst, c: zero(c.Type())}
	}
	return opnd{k: oConst, c: constValue(c.Value, c.Type())}
}

func constValue(cv constant.Value, t types.Type) Value {
	k := tkOf(t)
	switch k.k {
	case kBool:
		return constant.BoolVal(cv)
	case kInt, kUnsafe:
		i := constant.ToInt(cv)
		if v, ok := constant.Int64Val(i); ok {
			return k.norm(v)
		}
		u, _ := constant.Uint64Val(i)
		return int64(u)
	case kFloat:
		f, _ := constant.Float64Val(cv)
		if k.w == 32 {
			f = float64(float32(f))
		}
		return f
	case kString:
		if cv.Kind() == constant.String {
			return constant.StringVal(cv)
		}
		i, _ := constant.Int64Val(cv)
		return string(rune(i))
	case kComplex:
		return complex(0, 0)
	case kIface:
		return Iface{}
	}
	panic(unsup("const %v of %s", cv, t))
}

func (fr *Frame) get(o *opnd) Value {
	switch o.k {
	case oSlot:
		return fr.slots[o.slot]
	case oConst:
		return o.c
	case oGlobal:
		return fr.p.w.global(fr, o.g)
	case oZero:
		return zero(o.t)
	}
	return nil
}

// ---- globals ----

type globKey = *ssa.Global
type globalTab struct {
	mod map[globKey]*Value // per path
	ext map[any]*Value     // per worker
}

func (w *Worker) global(fr *Frame, g *ssa.Global) *Value {
	path := ""
	if g.Pkg != nil {
		path = g.Pkg.Pkg.Path()
	}
	if w.prog.isMod(path) {
		if v, ok := w.globals.mod[g]; ok {
			return v
		}
		v := new(Value)
		*v = zero(g.Type().Underlying().(*types.Pointer).Elem())
		w.globals.mod[g] = v
		return v
	}
	if v, ok := w.globals.ext[g]; ok {
		return v
	}
	v := new(Value)
	*v = zero(g.Type().Underlying().(*types.Pointer).Elem())
	w.globals.ext[g] = v
	if w.xinit == nil {
		w.xinit = map[string]bool{}
	}
	if !w.xinit[path] {
		w.xinit[path] = true
		if !noInit[path] {
			if f := g.Pkg.Func("init"); f != nil {
				w.runInit(fr, f, path)
			}
		}
	}
	return v
}

func (w *Worker) runInit(fr *Frame, f *ssa.Function, path string) {
	p := fr.p
	ob := p.budget
	p.budget = p.steps + 50_000_000
	defer func() {
		p.budget = ob + (p.steps - ob)
		if p.budget < ob {
			p.budget = ob
		}
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				if debugOn {
					fmt.Fprintln(os.Stderr, "init of", path, "stopped:", u.msg)
				}
				return
			}
			if t, ok := r.(targetPanic); ok {
				if debugOn {
					fmt.Fprintln(os.Stderr, "init of", path, "panicked:", t.tr)
				}
				return
			}
			panic(r)
		}
	}()
	fi := w.prog.info(f)
	fi.compile(w.prog)
	nf := &Frame{p: p, g: fr.g, info: fi, caller: fr, slots: make([]Value, fi.nslots)}
	or := p.race
	p.race = nil
	defer func() { p.race = or }()
	nf.run()
}

var noInit = map[string]bool{"runtime": true, "reflect": true, "sync": true, "os": true, "net": true, "syscall": true, "internal/cpu": true, "internal/godebug": true, "unicode": false, "time": false}

// ---- calls ----

func (fr *Frame) callInfo(fi *fnInfo, args []Value, env []Value) Value {
	p := fr.p
	p.lastFr, p.lastFn = fr, fi
	if fi.intr != nil {
		if r := fi.intr(fr, args); r != Value(fallThrough) {
			return r
		}
	}
	if fi.isInit && p.w.prog.skipInit(fi) {
		return nil
	}
	if len(fi.fn.Blocks) == 0 {
		panic(unsup("external function %s", fi.name))
	}
	fi.compile(p.w.prog)
	if fi.mod {
		p.w.fcount[fi] = true
	}
	nf := &Frame{p: p, g: fr.g, info: fi, caller: fr, slots: make([]Value, fi.nslots)}
	d := 0
	if fr.g != nil {
		fr.g.depth++
		d = fr.g.depth
		defer func() { fr.g.depth-- }()
	}
	if d > 2500 {
		panic(unsup("call depth in %s", fi.name))
	}
	for i, s := range fi.params {
		nf.slots[s] = args[i]
	}
	for i, s := range fi.free {
		nf.slots[s] = env[i]
	}
	return nf.run()
}

// skipInit: only module packages' own init runs eagerly; dependencies run lazily.
func (pr *Program) skipInit(fi *fnInfo) bool { return !fi.mod }

func (fr *Frame) call(f Value, args []Value) Value {
	c, ok := f.(*Closure)
	if !ok {
		panic(unsup("call of %T", f))
	}
	if c == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.host != nil {
		return c.host(fr, args)
	}
	if c.bi != nil {
		return fr.builtin(c.bi, args, nil)
	}
	return fr.callInfo(fr.p.w.prog.info(c.fn), args, c.env)
}

// method lookup on a dynamic type.
func (pr *Program) findMethod(t types.Type, m *types.Func) *ssa.Function {
	pr.msMu.Lock()
	defer pr.msMu.Unlock()
	sel := pr.ssa.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return pr.ssa.MethodValue(sel)
}

func (pr *Program) methodByName(t types.Type, name string) *ssa.Function {
	pr.msMu.Lock()
	defer pr.msMu.Unlock()
	ms := pr.ssa.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Name() == name {
			return pr.ssa.MethodValue(s)
		}
	}
	return nil
}

func (fr *Frame) invoke(recv Iface, m *types.Func, st *callSite, args []Value) Value {
	if recv.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	var fi *fnInfo
	if st != nil {
		if v, ok := st.cache.Load(recv.t); ok {
			fi = v.(*fnInfo)
		}
	}
	if fi == nil {
		if h := hostMethod(recv, m.Name()); h != nil {
			return h(fr, append([]Value{recv.v}, args...))
		}
		f := fr.p.w.prog.findMethod(recv.t, m)
		if f == nil {
			panic(unsup("no method %s on %s", m.Name(), recv.t))
		}
		fi = fr.p.w.prog.info(f)
		if st != nil {
			st.cache.Store(recv.t, fi)
		}
	}
	return fr.callInfo(fi, append([]Value{recv.v}, args...), nil)
}

func (fr *Frame) doCall(it *instr) Value {
	st := it.st
	args := make([]Value, st.nargs)
	for i := range args {
		args[i] = cp(fr.get(&it.args[i+1]))
	}
	switch {
	case st.bi != nil:
		return fr.builtin(st.bi, args, it)
	case st.static != nil:
		return fr.callInfo(st.static, args, nil)
	case st.method != nil:
		return fr.invoke(fr.get(&it.args[0]).(Iface), st.method, st, args)
	default:
		return fr.call(fr.get(&it.args[0]), args)
	}
}

// ---- panics ----

func (fr *Frame) rtPanic(msg string) {
	panic(targetPanic{v: Iface{t: rtErrType(fr.p.w.prog), v: "runtime error: " + msg}, tr: fr.trace()})
}

func (fr *Frame) trace() string {
	var sb strings.Builder
	for f, n := fr, 0; f != nil && n < 12; f, n = f.caller, n+1 {
		if f.info != nil {
			pos := ""
			if f.curPos.IsValid() {
				ps := fr.p.w.prog.ssa.Fset.Position(f.curPos)
				pos = fmt.Sprintf(" %s:%d", ps.Filename[strings.LastIndex(ps.Filename, "/")+1:], ps.Line)
			}
			sb.WriteString(f.info.name + pos + " < ")
		}
	}
	return sb.String()
}

func (fr *Frame) run() (ret Value) {
	if !fr.info.hasDefer {
		fr.exec()
		return fr.result
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			tp, ok := r.(targetPanic)
			if !ok {
				if len(fr.defers) == 0 {
					panic(r)
				}
				panic(r)
			}
			fr.panicking = true
			fr.pv = tp
			fr.runDefers()
		}()
		fr.exec()
	}()
	if fr.panicking && !fr.recovered {
		panic(fr.pv)
	}
	if fr.recovered && fr.info.recover >= 0 {
		fr.panicking = false
		fr.blk = fr.info.recover
		fr.exec()
	} else if fr.recovered {
		sig := fr.info.fn.Signature.Results()
		switch sig.Len() {
		case 0:
		case 1:
			fr.result = zero(sig.At(0).Type())
		default:
			fr.result = zero(sig)
		}
	}
	return fr.result
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(targetPanic)
					if !ok {
						panic(r)
					}
					fr.panicking = true
					fr.recovered = false
					fr.pv = tp
				}
			}()
			if d.bi != nil {
				fr.builtin(d.bi.st.bi, d.args, d.bi)
			} else if d.info != nil {
				fr.callInfo(d.info, d.args, nil)
			} else {
				fr.call(d.f, d.args)
			}
		}()
	}
}

func (fr *Frame) exec() {
	p := fr.p
	for {
		is := fr.info.blocks[fr.blk]
		p.steps += int64(len(is))
		if p.steps > p.budget {
			panic(unsup("step budget"))
		}
		// phis first, in parallel
		i := 0
		if len(is) > 0 {
			if _, ok := is[0].in.(*ssa.Phi); ok {
				preds := fr.info.fn.Blocks[fr.blk].Preds
				pi := 0
				for j, pb := range preds {
					if pb.Index == fr.prev {
						pi = j
						break
					}
				}
				var tmp [16]Value
				vals := tmp[:0]
				n := 0
				for ; n < len(is); n++ {
					if _, ok := is[n].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.get(&is[n].args[pi]))
				}
				for j := 0; j < n; j++ {
					fr.slots[is[j].dst] = vals[j]
				}
				i = n
			}
		}
		next := -1
		for ; i < len(is); i++ {
			it := &is[i]
			switch in := it.in.(type) {
			case *ssa.Jump:
				next = fr.info.fn.Blocks[fr.blk].Succs[0].Index
			case *ssa.If:
				c := fr.get(&it.args[0])
				b, ok := c.(bool)
				if !ok {
					fr.curPos = in.Cond.Pos()
					b = p.decide(c)
				}
				s := fr.info.fn.Blocks[fr.blk].Succs
				if b {
					next = s[0].Index
				} else {
					next = s[1].Index
				}
			case *ssa.Return:
				switch len(it.args) {
				case 0:
				case 1:
					fr.result = cp(fr.get(&it.args[0]))
				default:
					t := make(Tuple, len(it.args))
					for j := range t {
						t[j] = cp(fr.get(&it.args[j]))
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				fr.runDefers()
				if fr.panicking && !fr.recovered {
					panic(fr.pv)
				}
			case *ssa.Panic:
				fr.curPos = in.Pos()
				v := fr.get(&it.args[0]).(Iface)
				panic(targetPanic{v: v, tr: fr.trace()})
			default:
				fr.step(it)
			}
		}
		if next < 0 {
			panic(unsup("fell off block in %s", fr.info.name))
		}
		fr.prev = fr.blk
		fr.blk = next
	}
}

func (fr *Frame) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(unsup("deref of %T", v))
	}
	if p == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (fr *Frame) load(v Value) Value {
	switch x := v.(type) {
	case *Value:
		if x == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		if fr.p.race != nil {
			fr.p.race.read(fr, x)
		}
		return cp(*x)
	case *SymPtr:
		return fr.symLoad(x)
	case UPtr:
		return fr.load(x.p)
	}
	panic(unsup("load through %T", v))
}

func (fr *Frame) symLoad(x *SymPtr) Value {
	b := fr.p.bank
	var acc Value
	var w uint8
	for _, e := range x.elems {
		if t, ok := e.(*Term); ok {
			w = t.w
		}
	}
	for i := len(x.elems) - 1; i >= 0; i-- {
		e := x.elems[i]
		var t *Term
		switch y := e.(type) {
		case *Term:
			t = y
		case int64:
			if w == 0 {
				w = 64 // width unknown: use 64, narrowed by the caller
			}
			t = b.BV(w, uint64(y))
		case bool:
			t = b.Bool(y)
		default:
			// fork over the index
			lo := fr.p.concretizeIdx(x.idx, len(x.elems))
			return cp(x.elems[lo])
		}
		if acc == nil {
			acc = t
		} else {
			acc = b.Ite(b.Eq(x.idx, b.BV(x.idx.w, uint64(i))), t, acc.(*Term))
		}
	}
	return acc
}

func (p *Path) concretizeIdx(t *Term, n int) int {
	lo, hi := 0, n-1
	for lo < hi {
		mid := (lo + hi) / 2
		if p.decide(p.bank.Bin(OULe, t, p.bank.BV(t.w, uint64(mid)))) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

func (fr *Frame) step(it *instr) {
	p := fr.p
	switch in := it.in.(type) {
	case *ssa.UnOp:
		x := fr.get(&it.args[0])
		switch in.Op {
		case token.MUL:
			fr.curPos = in.Pos()
			v := fr.load(x)
			if t, ok := v.(*Term); ok && it.k.k == kInt && t.w != it.k.w {
				v = p.bank.Extract(t, it.k.w-1, 0)
			}
			fr.slots[it.dst] = v
		case token.ARROW:
			fr.curPos = in.Pos()
			v, ok := fr.recv(x.(*Chan), in.X.Type())
			if in.CommaOk {
				fr.slots[it.dst] = Tuple{v, ok}
			} else {
				fr.slots[it.dst] = v
			}
		default:
			fr.slots[it.dst] = fr.unop(in.Op, x, it.k)
		}
	case *ssa.BinOp:
		fr.curPos = in.Pos()
		fr.slots[it.dst] = fr.binop(in.Op, fr.get(&it.args[0]), fr.get(&it.args[1]), it)
	case *ssa.Call:
		fr.curPos = in.Pos()
		fr.slots[it.dst] = fr.doCall(it)
	case *ssa.ChangeInterface:
		fr.slots[it.dst] = fr.get(&it.args[0])
	case *ssa.ChangeType:
		fr.slots[it.dst] = fr.get(&it.args[0])
	case *ssa.Convert:
		fr.slots[it.dst] = fr.convert(fr.get(&it.args[0]), it.k, it.k2, in.X.Type(), it.t)
	case *ssa.MultiConvert:
		fr.slots[it.dst] = fr.convert(fr.get(&it.args[0]), it.k, it.k2, in.X.Type(), it.t)
	case *ssa.MakeInterface:
		fr.slots[it.dst] = Iface{it.t, cp(fr.get(&it.args[0]))}
	case *ssa.Extract:
		fr.slots[it.dst] = fr.get(&it.args[0]).(Tuple)[in.Index]
	case *ssa.Store:
		fr.curPos = in.Pos()
		a := fr.get(&it.args[0])
		v := fr.get(&it.args[1])
		switch x := a.(type) {
		case *Value:
			if x == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			if p.race != nil {
				p.race.write(fr, x)
			}
			store(x, cp(v))
		case *SymPtr:
			i := p.concretizeIdx(x.idx, len(x.elems))
			store(&x.elems[i], cp(v))
		default:
			panic(unsup("store through %T", a))
		}
	case *ssa.Alloc:
		v := new(Value)
		*v = zero(it.t)
		fr.slots[it.dst] = v
	case *ssa.FieldAddr:
		fr.curPos = in.Pos()
		x := fr.get(&it.args[0])
		if u, ok := x.(UPtr); ok {
			x = u.p
		}
		pv := fr.deref(x)
		s, ok := (*pv).(Struct)
		if !ok {
			panic(unsup("field of %T in %s", *pv, fr.info.name))
		}
		fr.slots[it.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := fr.get(&it.args[0]).(Struct)
		if !ok {
			panic(unsup("field of %T", fr.get(&it.args[0])))
		}
		fr.slots[it.dst] = cp(s[in.Field])
	case *ssa.IndexAddr:
		fr.curPos = in.Pos()
		x := fr.get(&it.args[0])
		var el []Value
		switch y := x.(type) {
		case Slice:
			el = y
		case *Value:
			a := fr.deref(y)
			if h, ok := (*a).(Array); ok {
				el = h
			} else {
				panic(unsup("indexaddr of %T", *a))
			}
		default:
			panic(unsup("indexaddr of %T", x))
		}
		fr.slots[it.dst] = fr.index(el, fr.get(&it.args[1]), it.k2)
	case *ssa.Index:
		fr.curPos = in.Pos()
		x := fr.get(&it.args[0])
		switch y := x.(type) {
		case Array:
			switch q := fr.index(y, fr.get(&it.args[1]), it.k2).(type) {
			case *Value:
				fr.slots[it.dst] = cp(*q)
			case *SymPtr:
				fr.slots[it.dst] = fr.symLoad(q)
			}
		default:
			fr.slots[it.dst] = fr.strIndex(x, fr.get(&it.args[1]), it.k2)
		}
	case *ssa.Lookup:
		fr.curPos = in.Pos()
		x := fr.get(&it.args[0])
		k := fr.get(&it.args[1])
		if m, ok := x.(*MapV); ok {
			e := fr.mapFind(m, k, it.t.Underlying().(*types.Map).Key())
			var v Value
			if p.race != nil && m != nil {
				p.race.readObj(fr, m)
			}
			if e != nil {
				v = cp(e.v)
			} else {
				v = zero(it.t.Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.slots[it.dst] = Tuple{v, e != nil}
			} else {
				fr.slots[it.dst] = v
			}
			return
		}
		fr.slots[it.dst] = fr.strIndex(x, k, tkOf(in.Index.Type()))
	case *ssa.MapUpdate:
		fr.curPos = in.Pos()
		m := fr.get(&it.args[0]).(*MapV)
		if m == nil {
			panic(targetPanic{v: Iface{t: rtErrType(p.w.prog), v: "assignment to entry in nil map"}, tr: fr.trace()})
		}
		if p.race != nil {
			p.race.writeObj(fr, m)
		}
		fr.mapSet(m, cp(fr.get(&it.args[1])), cp(fr.get(&it.args[2])), in.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeMap:
		fr.slots[it.dst] = newMap()
	case *ssa.MakeChan:
		n := fr.intArg(fr.get(&it.args[0]))
		fr.slots[it.dst] = &Chan{cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.MakeSlice:
		fr.curPos = in.Pos()
		n := fr.intArg(fr.get(&it.args[0]))
		c := fr.intArg(fr.get(&it.args[1]))
		if n < 0 || c < n {
			fr.rtPanic("makeslice: len out of range")
		}
		if c > 1<<22 {
			panic(unsup("makeslice %d", c))
		}
		s := make(Slice, n, c)
		full := s[:c]
		for i := range full {
			full[i] = zero(it.t)
		}
		fr.slots[it.dst] = s
	case *ssa.MakeClosure:
		c := &Closure{fn: in.Fn.(*ssa.Function)}
		for i := range in.Bindings {
			c.env = append(c.env, fr.get(&it.args[i+1]))
		}
		fr.slots[it.dst] = c
	case *ssa.Slice:
		fr.curPos = in.Pos()
		fr.slots[it.dst] = fr.slice(it, in)
	case *ssa.SliceToArrayPointer:
		s := fr.get(&it.args[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			fr.rtPanic("cannot convert slice to array pointer")
		}
		v := new(Value)
		*v = Array(s[:n:n])
		fr.slots[it.dst] = v
	case *ssa.TypeAssert:
		fr.curPos = in.Pos()
		x := fr.get(&it.args[0]).(Iface)
		fr.slots[it.dst] = fr.typeAssert(x, it.t, in.CommaOk)
	case *ssa.Range:
		x := fr.get(&it.args[0])
		fr.slots[it.dst] = fr.mkRange(x)
	case *ssa.Next:
		fr.slots[it.dst] = fr.next(fr.get(&it.args[0]), in)
	case *ssa.Defer:
		st := it.st
		args := make([]Value, st.nargs)
		for i := range args {
			args[i] = cp(fr.get(&it.args[i+1]))
		}
		d := deferred{args: args}
		switch {
		case st.bi != nil:
			d.bi = it
		case st.static != nil:
			d.info = st.static
		case st.method != nil:
			r := fr.get(&it.args[0]).(Iface)
			m := st.method
			if r.t == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			d.f = &Closure{host: func(f2 *Frame, a []Value) Value { return f2.invoke(r, m, nil, a) }}
		default:
			d.f = fr.get(&it.args[0])
		}
		fr.defers = append(fr.defers, d)
	case *ssa.Go:
		fr.curPos = in.Pos()
		st := it.st
		args := make([]Value, st.nargs)
		for i := range args {
			args[i] = cp(fr.get(&it.args[i+1]))
		}
		var body func(f2 *Frame)
		switch {
		case st.bi != nil:
			panic(unsup("go builtin"))
		case st.static != nil:
			body = func(f2 *Frame) { f2.callInfo(st.static, args, nil) }
		case st.method != nil:
			r := fr.get(&it.args[0]).(Iface)
			body = func(f2 *Frame) { f2.invoke(r, st.method, nil, args) }
		default:
			f := fr.get(&it.args[0])
			body = func(f2 *Frame) { f2.call(f, args) }
		}
		p.sched.spawn(fr, body)
	case *ssa.Send:
		fr.curPos = in.Pos()
		fr.send(fr.get(&it.args[0]).(*Chan), cp(fr.get(&it.args[1])))
	case *ssa.Select:
		fr.curPos = in.Pos()
		fr.slots[it.dst] = fr.selectStmt(it, in)
	default:
		panic(unsup("instruction %T", in))
	}
}

func (fr *Frame) intArg(v Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case *Term:
		return int64(fr.p.concretize(x))
	case nil:
		return 0
	}
	panic(unsup("int arg %T", v))
}

func (fr *Frame) index(el []Value, iv Value, k tk) Value {
	switch i := iv.(type) {
	case int64:
		if i < 0 || i >= int64(len(el)) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(el)))
		}
		return &el[i]
	case *Term:
		b := fr.p.bank
		t := i
		if t.w < 64 {
			if k.signed {
				t = b.SExt(t, 64)
			} else {
				t = b.ZExt(t, 64)
			}
		}
		if !fr.p.decide(b.Bin(OULt, t, b.BV(64, uint64(len(el))))) {
			fr.rtPanic("index out of range (symbolic)")
		}
		return &SymPtr{el, t}
	}
	panic(unsup("index %T", iv))
}

func (fr *Frame) strIndex(s, iv Value, k tk) Value {
	el, fixed := flat(s)
	if !fixed {
		i, ok := fr.posOf(el, iv)
		if ok && (i < 0 || i >= len(el)) {
			fr.rtPanic("index out of range")
		}
		if ok {
			if h, isH := el[i].(*Hole); isH {
				return fr.edge(h, "first")
			}
			return el[i]
		}
		// the last character of a word
		if t, isT := iv.(*Term); isT {
			if i, ok := fr.posOf(el, fr.p.bank.Bin(OAdd, t, fr.p.bank.BV(64, 1))); ok && i > 0 && i <= len(el) {
				if h, isH := el[i-1].(*Hole); isH {
					return fr.edge(h, "last")
				}
				return el[i-1]
			}
		}
		panic(unsup("index into symbolic string"))
	}
	if i, ok := iv.(int64); ok {
		if i < 0 || i >= int64(len(el)) {
			fr.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(el)))
		}
		return el[i]
	}
	q := fr.index(el, iv, k).(*SymPtr)
	t := fr.symLoad(q).(*Term)
	if t.w != 8 {
		return fr.p.bank.Extract(t, 7, 0)
	}
	return t
}

func (fr *Frame) slice(it *instr, in *ssa.Slice) Value {
	x := fr.get(&it.args[0])
	idx := func(i int, def int64) int64 {
		if it.args[i].k == oNone {
			return def
		}
		return fr.intArg(fr.get(&it.args[i]))
	}
	// operand order: X, Low, High, Max (nil operands are kept as oNone)
	switch y := x.(type) {
	case string:
		lo, hi := idx(1, 0), idx(2, int64(len(y)))
		if lo < 0 || hi < lo || hi > int64(len(y)) {
			fr.rtPanic("slice bounds out of range")
		}
		return y[lo:hi]
	case *SStr:
		var lo, hi Value
		if it.args[1].k != oNone {
			lo = fr.get(&it.args[1])
		}
		if it.args[2].k != oNone {
			hi = fr.get(&it.args[2])
		}
		return fr.sliceSym(y, lo, hi, it.args[2].k != oNone)
	case Slice:
		lo, hi, mx := idx(1, 0), idx(2, int64(len(y))), idx(3, int64(cap(y)))
		if lo < 0 || hi < lo || mx < hi || mx > int64(cap(y)) {
			fr.rtPanic("slice bounds out of range")
		}
		if y == nil {
			return Slice(nil)
		}
		return y[lo:hi:mx]
	case *Value:
		a, ok := (*fr.deref(y)).(Array)
		if !ok {
			panic(unsup("slice of pointer to %T", *y))
		}
		lo, hi, mx := idx(1, 0), idx(2, int64(len(a))), idx(3, int64(len(a)))
		if lo < 0 || hi < lo || mx < hi || mx > int64(len(a)) {
			fr.rtPanic("slice bounds out of range")
		}
		return Slice(a[lo:hi:mx])
	}
	panic(unsup("slice of %T", x))
}

func (fr *Frame) sliceSym(y *SStr, lo, hi Value, hasHi bool) Value {
	el, fixed := flat(y)
	at := func(v Value) int {
		if v == nil {
			return 0
		}
		if fixed {
			v = fr.intArg(v)
		}
		i, ok := fr.posOf(el, v)
		if !ok {
			panic(unsup("slice inside symbolic word"))
		}
		if i < 0 || i > len(el) {
			fr.rtPanic("slice bounds out of range")
		}
		return i
	}
	l, h := at(lo), len(el)
	if hasHi {
		h = at(hi)
	}
	if h < l {
		fr.rtPanic("slice bounds out of range")
	}
	return unflat(el[l:h])
}

func (fr *Frame) typeAssert(x Iface, t types.Type, commaOk bool) Value {
	ok := false
	var v Value
	if tkOf(t).k == kIface {
		ok = x.t != nil && fr.p.w.prog.implements(x.t, t.Underlying().(*types.Interface))
		v = x
		if !ok {
			v = Iface{}
		}
	} else {
		ok = x.t == t
		if ok {
			v = cp(x.v)
		} else {
			v = zero(t)
		}
	}
	if commaOk {
		return Tuple{v, ok}
	}
	if !ok {
		d := "nil"
		if x.t != nil {
			d = x.t.String()
		}
		panic(targetPanic{v: Iface{t: rtErrType(fr.p.w.prog), v: fmt.Sprintf("interface conversion: interface is %s, not %s", d, t)}, tr: fr.trace()})
	}
	return v
}

var implCache sync.Map

type implKey struct{ a, b types.Type }

func (pr *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i)
	implCache.Store(k, r)
	return r
}

// ---- operators ----

func (b *Bank) intTerm(v Value, w uint8) *Term {
	switch x := v.(type) {
	case int64:
		return b.BV(w, uint64(x))
	case *Term:
		if x.w != w {
			panic(unsup("width mismatch %d %d", x.w, w))
		}
		return x
	}
	panic(unsup("int term of %T", v))
}
func (b *Bank) boolTerm(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return b.Bool(x)
	case *Term:
		return x
	}
	panic(unsup("bool term of %T", v))
}
func (b *Bank) fpTerm(v Value) *Term {
	switch x := v.(type) {
	case float64:
		return b.FP(x)
	case *Term:
		return x
	}
	panic(unsup("fp term of %T", v))
}

func boolVal(t *Term) Value {
	if t.isC() {
		return t.c == 1
	}
	return t
}
func intVal(t *Term, k tk) Value {
	if t.isC() {
		if k.signed {
			return sext(t.c, k.w)
		}
		return int64(t.c)
	}
	return t
}
func fpVal(t *Term) Value {
	if t.isC() {
		return math.Float64frombits(t.c)
	}
	return t
}

func (fr *Frame) unop(op token.Token, x Value, k tk) Value {
	b := fr.p.bank
	switch op {
	case token.NOT:
		if v, ok := x.(bool); ok {
			return !v
		}
		return boolVal(b.Not(x.(*Term)))
	case token.SUB:
		switch v := x.(type) {
		case int64:
			return k.norm(-v)
		case float64:
			return -v
		case *Term:
			if k.k == kFloat {
				return fpVal(b.FBin(OFMul, v, b.FP(-1)))
			}
			return intVal(b.Bin(OSub, b.BV(v.w, 0), v), k)
		}
	case token.XOR:
		switch v := x.(type) {
		case int64:
			return k.norm(^v)
		case *Term:
			return intVal(b.Bin(OBXor, v, b.BV(v.w, mask(v.w))), k)
		}
	}
	panic(unsup("unop %s %T", op, x))
}

func (fr *Frame) binop(op token.Token, x, y Value, it *instr) Value {
	switch op {
	case token.EQL:
		return fr.eq(it.t, x, y)
	case token.NEQ:
		return not(fr.p.bank, fr.eq(it.t, x, y))
	}
	return fr.arith(op, x, y, it.k, it.k2)
}

func not(b *Bank, v Value) Value {
	if x, ok := v.(bool); ok {
		return !x
	}
	return boolVal(b.Not(v.(*Term)))
}
func and(b *Bank, x, y Value) Value {
	return boolVal(b.And(b.boolTerm(x), b.boolTerm(y)))
}
func or(b *Bank, x, y Value) Value {
	return boolVal(b.Or(b.boolTerm(x), b.boolTerm(y)))
}

func (fr *Frame) arith(op token.Token, x, y Value, k, ky tk) Value {
	b := fr.p.bank
	switch k.k {
	case kInt:
		if op == token.SHL || op == token.SHR {
			return fr.shift(op, x, y, k, ky)
		}
		xi, ok1 := x.(int64)
		yi, ok2 := y.(int64)
		if ok1 && ok2 {
			return fr.intConc(op, xi, yi, k)
		}
		tx, ty := b.intTerm(x, k.w), b.intTerm(y, k.w)
		return fr.intSym(op, tx, ty, k)
	case kFloat:
		xf, ok1 := x.(float64)
		yf, ok2 := y.(float64)
		if ok1 && ok2 {
			var r float64
			switch op {
			case token.ADD:
				r = xf + yf
			case token.SUB:
				r = xf - yf
			case token.MUL:
				r = xf * yf
			case token.QUO:
				r = xf / yf
			case token.LSS:
				return xf < yf
			case token.LEQ:
				return xf <= yf
			case token.GTR:
				return xf > yf
			case token.GEQ:
				return xf >= yf
			}
			if k.w == 32 {
				r = float64(float32(r))
			}
			return r
		}
		if k.w == 32 {
			panic(unsup("symbolic float32"))
		}
		tx, ty := b.fpTerm(x), b.fpTerm(y)
		switch op {
		case token.ADD:
			return fpVal(b.FBin(OFAdd, tx, ty))
		case token.SUB:
			return fpVal(b.FBin(OFSub, tx, ty))
		case token.MUL:
			return fpVal(fr.p.fmul(tx, ty))
		case token.QUO:
			return fpVal(fr.p.fdiv(tx, ty))
		case token.LSS:
			return boolVal(fr.p.fcmp(OFLt, tx, ty))
		case token.LEQ:
			return boolVal(fr.p.fcmp(OFLe, tx, ty))
		case token.GTR:
			return boolVal(fr.p.fcmp(OFLt, ty, tx))
		case token.GEQ:
			return boolVal(fr.p.fcmp(OFLe, ty, tx))
		}
	case kString:
		switch op {
		case token.ADD:
			return concat(x, y)
		}
		xs, ok1 := x.(string)
		ys, ok2 := y.(string)
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return xs < ys
			case token.LEQ:
				return xs <= ys
			case token.GTR:
				return xs > ys
			case token.GEQ:
				return xs >= ys
			}
		}
		return fr.strCmp(op, x, y)
	case kBool:
		switch op {
		case token.AND, token.LAND:
			return and(b, x, y)
		case token.OR, token.LOR:
			return or(b, x, y)
		}
	}
	panic(unsup("binop %s %T %T", op, x, y))
}

// strCmp orders fixed-length symbolic byte strings lexicographically.
func (fr *Frame) strCmp(op token.Token, x, y Value) Value {
	b := fr.p.bank
	ex, f1 := flat(x)
	ey, f2 := flat(y)
	if !f1 || !f2 {
		c := fr.wordCmp(ex, ey)
		switch op {
		case token.LSS:
			return c < 0
		case token.GTR:
			return c > 0
		case token.LEQ:
			return c <= 0
		case token.GEQ:
			return c >= 0
		}
	}
	less := func(a, c []Value) *Term { // a < c
		r := b.Bool(len(a) < len(c))
		n := min(len(a), len(c))
		for i := n - 1; i >= 0; i-- {
			ta, tc := b.intTerm(a[i], 8), b.intTerm(c[i], 8)
			r = b.Or(b.Bin(OULt, ta, tc), b.And(b.Eq(ta, tc), r))
		}
		return r
	}
	switch op {
	case token.LSS:
		return boolVal(less(ex, ey))
	case token.GTR:
		return boolVal(less(ey, ex))
	case token.LEQ:
		return boolVal(b.Not(less(ey, ex)))
	case token.GEQ:
		return boolVal(b.Not(less(ex, ey)))
	}
	panic(unsup("string op %s", op))
}

func (fr *Frame) intConc(op token.Token, x, y int64, k tk) Value {
	u := !k.signed
	switch op {
	case token.ADD:
		return k.norm(x + y)
	case token.SUB:
		return k.norm(x - y)
	case token.MUL:
		return k.norm(x * y)
	case token.QUO:
		if y == 0 {
			fr.rtPanic("integer divide by zero")
		}
		if u {
			return k.norm(int64(uint64(x) / uint64(y)))
		}
		if y == -1 {
			return k.norm(-x)
		}
		return k.norm(x / y)
	case token.REM:
		if y == 0 {
			fr.rtPanic("integer divide by zero")
		}
		if u {
			return k.norm(int64(uint64(x) % uint64(y)))
		}
		if y == -1 {
			return int64(0)
		}
		return k.norm(x % y)
	case token.AND:
		return x & y
	case token.OR:
		return x | y
	case token.XOR:
		return k.norm(x ^ y)
	case token.AND_NOT:
		return x &^ y
	case token.LSS:
		if u {
			return uint64(x) < uint64(y)
		}
		return x < y
	case token.LEQ:
		if u {
			return uint64(x) <= uint64(y)
		}
		return x <= y
	case token.GTR:
		if u {
			return uint64(x) > uint64(y)
		}
		return x > y
	case token.GEQ:
		if u {
			return uint64(x) >= uint64(y)
		}
		return x >= y
	}
	panic(unsup("int op %s", op))
}

func (fr *Frame) intSym(op token.Token, x, y *Term, k tk) Value {
	b := fr.p.bank
	lt, le := OULt, OULe
	if k.signed {
		lt, le = OSLt, OSLe
	}
	switch op {
	case token.ADD:
		return intVal(b.Bin(OAdd, x, y), k)
	case token.SUB:
		return intVal(b.Bin(OSub, x, y), k)
	case token.MUL:
		return intVal(b.Bin(OMul, x, y), k)
	case token.QUO, token.REM:
		if !y.isC() {
			if fr.p.decide(boolVal(b.Eq(y, b.BV(y.w, 0)))) {
				fr.rtPanic("integer divide by zero")
			}
		} else if y.c == 0 {
			fr.rtPanic("integer divide by zero")
		}
		return intVal(fr.p.divrem(op == token.QUO, x, y, k.signed), k)
	case token.AND:
		return intVal(b.Bin(OBAnd, x, y), k)
	case token.OR:
		return intVal(b.Bin(OBOr, x, y), k)
	case token.XOR:
		return intVal(b.Bin(OBXor, x, y), k)
	case token.AND_NOT:
		return intVal(b.Bin(OBAnd, x, b.Bin(OBXor, y, b.BV(y.w, mask(y.w)))), k)
	case token.LSS:
		return fr.p.cmp(lt, x, y)
	case token.LEQ:
		return fr.p.cmp(le, x, y)
	case token.GTR:
		return fr.p.cmp(lt, y, x)
	case token.GEQ:
		return fr.p.cmp(le, y, x)
	}
	panic(unsup("int op %s", op))
}

// cmp folds comparisons by interval reasoning before building a term.
func (p *Path) cmp(op Op, x, y *Term) Value {
	if x.w == 64 {
		a, b, k1 := p.rng(x)
		c, d, k2 := p.rng(y)
		if k1 && k2 && (op == OSLt || op == OSLe || (a >= 0 && c >= 0)) {
			strict := op == OSLt || op == OULt
			if b < c || (!strict && b <= c) {
				return true
			}
			if a > d || (strict && a >= d) {
				return false
			}
		}
		// k*x < c  ->  x < ceil(c/k) when no overflow
		if op == OSLt || op == OSLe {
			if r := p.linCmp2(op, x, y); r != nil {
				return boolVal(r)
			}
			if r := p.linCmp(op, x, y); r != nil {
				return boolVal(r)
			}
		}
	}
	return boolVal(p.bank.Bin(op, x, y))
}

// lin decomposes t = m*x + c without overflow (m > 0 constant).
func (p *Path) lin(t *Term) (x *Term, m, c int64, ok bool) {
	if t.w != 64 {
		return nil, 0, 0, false
	}
	if t.isC() {
		return nil, 0, int64(t.c), true
	}
	if _, _, k := p.rng(t); !k {
		return nil, 0, 0, false
	}
	switch t.op {
	case OAdd:
		if t.a[1].isC() {
			x, m, c, ok = p.lin(t.a[0])
			if !ok {
				return
			}
			n := c + int64(t.a[1].c)
			if (c < 0) == (int64(t.a[1].c) < 0) && (n < 0) != (c < 0) {
				return nil, 0, 0, false
			}
			return x, m, n, true
		}
	case OMul:
		if t.a[1].isC() && int64(t.a[1].c) > 0 {
			return t.a[0], int64(t.a[1].c), 0, true
		}
	}
	return t, 1, 0, true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

func (p *Path) linCmp(op Op, x, y *Term) *Term {
	lx, mx, cx, k1 := p.lin(x)
	ly, my, cy, k2 := p.lin(y)
	if !k1 || !k2 || (mx <= 1 && my <= 1) {
		return nil
	}
	b := p.bank
	con := func(v int64) *Term { return b.BV(64, uint64(v)) }
	small := func(v int64) bool { return v > -rngMax && v < rngMax }
	if !small(cx) || !small(cy) {
		return nil
	}
	switch {
	case ly == nil:
		// mx*lx + cx < cy  <=>  lx < ceil((cy-cx)/mx) ; <= : lx <= floor((cy-cx)/mx)
		d := cy - cx
		if op == OSLt {
			return b.Bin(OSLt, lx, con(-floorDiv(-d, mx)))
		}
		return b.Bin(OSLe, lx, con(floorDiv(d, mx)))
	case lx == nil:
		// cx < my*ly + cy <=> ly > floor((cx-cy)/my) ; <= : ly >= ceil
		d := cx - cy
		if op == OSLt {
			return b.Bin(OSLt, con(floorDiv(d, my)), ly)
		}
		return b.Bin(OSLe, con(-floorDiv(-d, my)), ly)
	case mx == my:
		// m*(lx-ly) < d ; needs lx-ly not to overflow
		d := cy - cx
		df := b.Bin(OSub, lx, ly)
		if _, _, k := p.rng(df); !k && !df.isC() {
			return nil
		}
		if op == OSLt {
			return b.Bin(OSLt, df, con(-floorDiv(-d, mx)))
		}
		return b.Bin(OSLe, df, con(floorDiv(d, mx)))
	}
	return nil
}

// divrem folds (m*x+c)/d when d divides m.
func (p *Path) divrem(quo bool, x, y *Term, signed bool) *Term {
	b := p.bank
	if y.isC() && x.w == 64 && signed && int64(y.c) > 0 {
		d := int64(y.c)
		if at, co, g, c, ok := p.linear(x, b.BV(64, 0)); ok && len(at) > 0 && g%d == 0 {
			// x = d*(g/d*sum) + c
			lo, hi, k := p.rng(x)
			q, r := floorDiv(c, d), c-floorDiv(c, d)*d
			if k {
				if r != 0 && (hi <= 0 || lo < 0 && p.decide(p.cmp(OSLt, x, b.BV(64, 0)))) {
					// negative: truncation rounds up
					q, r = q+1, r-d
				}
				if !quo {
					return b.BV(64, uint64(r))
				}
				var s *Term
				for i, t := range at {
					if n := co[i] * (g / d); n != 1 {
						t = b.Bin(OMul, t, b.BV(64, uint64(n)))
					}
					if s == nil {
						s = t
					} else {
						s = b.Bin(OAdd, s, t)
					}
				}
				return b.Bin(OAdd, s, b.BV(64, uint64(q)))
			}
		}
		if _, _, k := p.rng(x); k && x.op == OMul && x.a[1].isC() && int64(x.a[1].c)%d == 0 {
			// the product does not overflow
			if !quo {
				return b.BV(64, 0)
			}
			if n := int64(x.a[1].c) / d; n != 1 {
				return b.Bin(OMul, x.a[0], b.BV(64, uint64(n)))
			}
			return x.a[0]
		}
		if lo, hi, k := p.rng(x); k && (lo >= 0 || signed && lo > -d) && hi < d {
			if quo {
				return b.BV(64, 0)
			}
			return x
		}
	}
	if signed {
		if quo {
			return b.Bin(OSDiv, x, y)
		}
		return b.Bin(OSRem, x, y)
	}
	if quo {
		return b.Bin(OUDiv, x, y)
	}
	return b.Bin(OURem, x, y)
}

// fdiv: float64(x*1e9)/1e9 == float64(x) exactly for |x| <= 2^32
// (x*5^9 < 2^53, so the product is exact).
func (p *Path) fdiv(x, y *Term) *Term {
	b := p.bank
	if y.isC() && math.Float64frombits(y.c) == 1e9 {
		if x.op == OI2F {
			if lx, m, c, ok := p.lin(x.a[0]); ok && lx != nil && m%1000000000 == 0 && c%1000000000 == 0 {
				t := b.Bin(OAdd, b.Bin(OMul, lx, b.BV(64, uint64(m/1000000000))), b.BV(64, uint64(c/1000000000)))
				lo, hi, k := p.rng(t)
				if k && lo >= -(1<<32) && hi <= 1<<32 {
					return b.I2F(t, true)
				}
			}
		}
	}
	return b.FBin(OFDiv, x, y)
}

// dyadic returns n and k with f == n/2^k.
func dyadic(t *Term) (n int64, k uint, ok bool) {
	if !t.isC() {
		return
	}
	f := math.Float64frombits(t.c)
	for k = 0; k <= 20; k++ {
		if f == math.Trunc(f) && math.Abs(f) < 1<<32 {
			return int64(f), k, true
		}
		f *= 2
	}
	return
}

// frac returns an integer term and k such that the float is exactly t/2^k.
func (p *Path) frac(x *Term) (t *Term, k uint, ok bool) {
	b := p.bank
	if n, k, ok := dyadic(x); ok {
		return b.BV(64, uint64(n)), k, true
	}
	if x.op == OI2F && x.c == 1 {
		return x.a[0], 0, true
	}
	if x.op == OFMul {
		c, v := x.a[0], x.a[1]
		if v.isC() {
			c, v = v, c
		}
		if n, k, ok := dyadic(c); ok && v.op == OI2F && v.c == 1 {
			if t, ok := p.scale(v.a[0], n, 53); ok {
				return t, k, true
			}
		}
	}
	return nil, 0, false
}

// scale is x*n when that certainly stays below 2^bits.
func (p *Path) scale(x *Term, n int64, bits uint) (*Term, bool) {
	lo, hi, ok := p.rng(x)
	m := max(n, -n)
	if lim := int64(1) << bits; !ok || m > 0 && (lo < -(lim-1)/m || hi > (lim-1)/m) {
		return nil, false
	}
	return p.bank.Bin(OMul, x, p.bank.BV(64, uint64(n))), true
}

// fcmp compares floats, as integers where that is exact: quotients of
// integers with a constant n/2^k are not changed by rounding when the
// divisor is below 2^(51-k), as they differ from it by at least 2^-51 or not
// at all.
func (p *Path) fcmp(op Op, x, y *Term) *Term {
	b := p.bank
	lt := func(s, t *Term) *Term {
		if op == OFLt {
			return b.boolTerm(p.cmp(OSLt, s, t))
		}
		return b.boolTerm(p.cmp(OSLe, s, t))
	}
	if x.isC() && y.isC() {
		return b.FBin(op, x, y)
	}
	if s, k, ok := p.frac(x); ok {
		if t, l, ok := p.frac(y); ok {
			m := max(k, l)
			s, ok1 := p.scale(s, 1<<(m-k), 62)
			t, ok2 := p.scale(t, 1<<(m-l), 62)
			if ok1 && ok2 {
				return lt(s, t)
			}
		}
	}
	for i, q := range []*Term{x, y} {
		if q.op != OFDiv || q.a[0].op != OI2F || q.a[0].c != 1 || q.a[1].op != OI2F || q.a[1].c != 1 {
			continue
		}
		n, k, ok := dyadic([]*Term{y, x}[i])
		if !ok || max(n, -n) > 1<<k {
			continue
		}
		d := q.a[1].a[0]
		lo, hi, ok := p.rng(d)
		if !ok || lo <= -(1<<(51-k)) || hi >= 1<<(51-k) {
			continue
		}
		s, ok1 := p.scale(q.a[0].a[0], 1<<k, 62) // numerator
		t, ok2 := p.scale(d, n, 62)
		if !ok1 || !ok2 {
			continue
		}
		zero := b.BV(64, 0)
		// rather decide on the sign than have a case distinction in the formula
		switch {
		case p.decide(p.cmp(OSLt, zero, d)):
		case p.decide(p.cmp(OSLt, d, zero)):
			s, t = t, s
		default: // 0 or infinite or not a number
			s, t, op = q.a[0].a[0], zero, OFLt
		}
		if i == 1 {
			s, t = t, s
		}
		return lt(s, t)
	}
	return b.FBin(op, x, y)
}

func (p *Path) fmul(x, y *Term) *Term {
	b := p.bank
	if x.isC() {
		x, y = y, x
	}
	if y.isC() {
		f := math.Float64frombits(y.c)
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 && x.op == OI2F && x.c == 1 {
			t := b.Bin(OMul, x.a[0], b.BV(64, uint64(int64(f))))
			lo, hi, k := p.rng(t)
			if k && lo > -(1<<53) && hi < 1<<53 {
				return b.I2F(t, true)
			}
			// product of an integer below 2^32 with 1e9 is exact
			if k && f == 1e9 {
				lo, hi, _ = p.rng(x.a[0])
				if lo >= -(1<<32) && hi <= 1<<32 {
					return b.mk(OI2F, wFP, 1, t, nil, nil, "")
				}
			}
		}
	}
	return b.FBin(OFMul, x, y)
}

func (fr *Frame) shift(op token.Token, x, y Value, k, ky tk) Value {
	b := fr.p.bank
	yi, ok := y.(int64)
	if ok && ky.signed && yi < 0 {
		fr.rtPanic("negative shift amount")
	}
	if xi, ok1 := x.(int64); ok && ok1 {
		sh := uint64(yi)
		if op == token.SHL {
			if sh >= 64 {
				return int64(0)
			}
			return k.norm(xi << sh)
		}
		if k.signed {
			if sh >= 64 {
				sh = 63
			}
			return k.norm(xi >> sh)
		}
		if sh >= 64 {
			return int64(0)
		}
		return k.norm(int64(uint64(xi) >> sh))
	}
	tx := b.intTerm(x, k.w)
	var ty *Term
	if ok {
		ty = b.BV(k.w, min(uint64(yi), uint64(k.w)))
	} else {
		t := y.(*Term)
		if ky.signed && fr.p.decide(boolVal(b.Bin(OSLt, t, b.BV(t.w, 0)))) {
			fr.rtPanic("negative shift amount")
		}
		if t.w < k.w {
			ty = b.ZExt(t, k.w)
		} else if t.w > k.w {
			big := b.Bin(OULt, b.BV(t.w, uint64(k.w)), t)
			ty = b.Ite(big, b.BV(k.w, uint64(k.w)), b.Extract(t, k.w-1, 0))
		} else {
			ty = t
		}
	}
	switch {
	case op == token.SHL:
		return intVal(b.Bin(OShl, tx, ty), k)
	case k.signed:
		return intVal(b.Bin(OAShr, tx, ty), k)
	default:
		return intVal(b.Bin(OLShr, tx, ty), k)
	}
}

func (fr *Frame) convert(x Value, from, to tk, ft, tt types.Type) Value {
	b := fr.p.bank
	switch {
	case from.k == kInt && to.k == kInt:
		switch v := x.(type) {
		case int64:
			return to.norm(v)
		case *Term:
			return intVal(fr.intResize(v, from, to), to)
		case UPtr:
			return v
		}
	case from.k == kInt && to.k == kFloat:
		switch v := x.(type) {
		case int64:
			var f float64
			if from.signed {
				f = float64(v)
			} else {
				f = float64(uint64(v))
			}
			if to.w == 32 {
				f = float64(float32(f))
			}
			return f
		case *Term:
			t := v
			if v.w < 64 {
				if from.signed {
					t = b.SExt(v, 64)
				} else {
					t = b.ZExt(v, 64)
				}
			} else if !from.signed {
				lo, _, k := fr.p.rng(v)
				if !k || lo < 0 {
					return fpVal(b.U2F(v))
				}
			}
			lo, hi, k := fr.p.rng(t)
			ex := k && lo > -(1<<53) && hi < 1<<53
			return fpVal(b.I2F(t, ex))
		}
	case from.k == kFloat && to.k == kInt:
		switch v := x.(type) {
		case float64:
			return to.norm(f2iW(v, to))
		case *Term:
			t := b.F2I(v)
			if to.w < 64 {
				t = b.Extract(t, to.w-1, 0)
			} else if !to.signed {
				panic(unsup("symbolic float to uint64"))
			}
			return intVal(t, to)
		}
	case from.k == kFloat && to.k == kFloat:
		if v, ok := x.(float64); ok {
			if to.w == 32 {
				return float64(float32(v))
			}
			return v
		}
		if to.w == 64 {
			return x
		}
	case from.k == kString && to.k == kString:
		return x
	case from.k == kString && to.k == kSlice:
		et := tkOf(tt.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			el, _ := flat(x)
			s := make(Slice, len(el))
			copy(s, el)
			return s
		}
		if s, ok := x.(string); ok {
			var out Slice
			out = Slice{}
			for _, r := range s {
				out = append(out, int64(r))
			}
			return out
		}
	case from.k == kSlice && to.k == kString:
		et := tkOf(ft.Underlying().(*types.Slice).Elem())
		s := x.(Slice)
		if et.w == 8 {
			return unflat(s)
		}
		var sb strings.Builder
		for _, e := range s {
			sb.WriteRune(rune(e.(int64)))
		}
		return sb.String()
	case from.k == kInt && to.k == kString:
		if v, ok := x.(int64); ok {
			return string(rune(v))
		}
	case to.k == kUnsafe:
		if u, ok := x.(UPtr); ok {
			return u
		}
		return UPtr{x}
	case from.k == kUnsafe && to.k == kPtr:
		u := x.(UPtr)
		if u.p == nil {
			return (*Value)(nil)
		}
		return u.p
	case from.k == kUnsafe && to.k == kInt:
		return x
	case from.k == to.k:
		return x
	}
	panic(unsup("convert %s -> %s (%T)", ft, tt, x))
}

func f2iW(f float64, to tk) int64 {
	if to.signed || to.w < 64 {
		return f2i(f)
	}
	if f >= 0 && f < 18446744073709551616.0 {
		return int64(uint64(f))
	}
	return math.MinInt64
}

func (fr *Frame) intResize(v *Term, from, to tk) *Term {
	b := fr.p.bank
	if to.w == v.w {
		return v
	}
	if to.w < v.w {
		return b.Extract(v, to.w-1, 0)
	}
	if from.signed {
		return b.SExt(v, to.w)
	}
	return b.ZExt(v, to.w)
}
