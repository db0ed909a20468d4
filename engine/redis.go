package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Model of go-redis: commands are built by the library itself; instead of
// being sent they are handed to the harness' server.

const redisPath = "github.com/redis/go-redis/v9"

func redisIntrinsic(path string, fn *ssa.Function) intrinsic {
	switch path {
	case redisPath + "/internal":
		if fn.Name() == "init" {
			return nil
		}
		if recv := fn.Signature.Recv(); recv != nil && fn.Name() == "Printf" {
			return func(fr *Frame, a []Value) Value { return zeroResults(fn) }
		}
	case redisPath:
		switch fn.String() {
		case "(*" + redisPath + ".Options).init", "(*" + redisPath + ".hooksMixin).initHooks":
			return func(fr *Frame, a []Value) Value { return zeroResults(fn) }
		case redisPath + ".formatMs":
			return func(fr *Frame, a []Value) Value {
				d := a[1]
				if fr.p.decide(fr.ltI(int64(0), d)) && fr.p.decide(fr.ltI(d, int64(1000000))) {
					return int64(1)
				}
				return fr.arith(token.QUO, d, int64(1000000), tk{kInt, 64, true}, tk{kInt, 64, true})
			}
		case redisPath + ".newConnPool":
			return func(fr *Frame, a []Value) Value { return zeroResults(fn) }
		case "(*" + redisPath + ".Client).Process", "(*" + redisPath + ".baseClient).process":
			return func(fr *Frame, a []Value) Value { return fr.redisProcess(a[2]) }
		}
	}
	return nil
}

// redisProcess hands a command to the handler:
// func(op, key string, value []byte, unit string, n int64) (reply []byte, found bool, err string).
func (fr *Frame) redisProcess(cmd Value) Value {
	c := cmd.(Iface)
	st := c.t.(*types.Pointer).Elem().Underlying().(*types.Struct)
	s := (*fr.deref(c.v)).(Struct)
	bt := st.Field(0).Type().Underlying().(*types.Struct)
	b := s[0].(Struct)
	args := b[fieldIdx(bt, "args")].(Slice)
	arg := func(i int) Value {
		if i < len(args) {
			return args[i].(Iface).v
		}
		return nil
	}
	fail := func(msg Value) Value {
		e := Iface{t: errStringType, v: newPtr(Struct{msg})}
		b[fieldIdx(bt, "err")] = e
		return e
	}
	if fr.p.redis == nil {
		return fail("connection refused")
	}
	fr.p.sched.maybeYield(fr.g)
	op := str(arg(0))
	var key, unit Value = "", ""
	var val Value = Slice(nil)
	var n Value = int64(0)
	switch op {
	case "ping":
	case "get", "del", "unlink":
		if len(args) > 2 {
			panic(unsup("redis %s of several keys", op))
		}
		key = arg(1)
	case "set":
		key = arg(1)
		switch v := arg(2).(type) {
		case Slice:
			val = append(Slice{}, v...)
		default:
			el, _ := flat(v)
			val = Slice(el)
		}
		switch {
		case len(args) == 5:
			unit, n = arg(3), arg(4)
		case len(args) == 4:
			unit = arg(3)
		case len(args) > 5:
			panic(unsup("redis set options"))
		}
	default:
		panic(unsup("redis command %s", op))
	}
	r := fr.call(fr.p.redis, []Value{op, key, val, unit, n}).(Tuple)
	if msg := str(r[2]); msg != "" {
		return fail(msg)
	}
	vi := fieldIdx(st, "val")
	switch op {
	case "get":
		if !fr.p.decide(r[1]) {
			e := fr.redisNil()
			b[fieldIdx(bt, "err")] = e
			return e
		}
		s[vi] = unflat(r[0].(Slice))
	case "del", "unlink":
		s[vi] = int64(1)
	case "ping":
		s[vi] = "PONG"
	default:
		s[vi] = "OK"
	}
	return Iface{}
}

func (fr *Frame) redisNil() Value {
	t := fr.p.w.prog.pkgs[redisPath+"/internal/proto"].Pkg.Scope().Lookup("RedisError").Type()
	return Iface{t: canon(t), v: "redis: nil"}
}

func (fr *Frame) redisOptions() Value {
	t := fr.p.w.prog.pkgs[redisPath].Pkg.Scope().Lookup("Options").Type()
	return newPtr(zero(t))
}
