package main

import (
	"math/rand"
	"testing"
)

// TestLinear compares canonical linear conditions with the plain ones.
func TestLinear(t *testing.T) {
	r := rand.New(rand.NewSource(1))
	for n := 0; n < 200000; n++ {
		b := NewBank()
		p := &Path{bank: b, bounds: map[*Term][2]int64{}}
		var vs []*Term
		m := Model{}
		for i := 0; i < 3; i++ {
			v := b.Var(64, string(rune('a'+i)))
			lo := r.Int63n(1<<uint(2+r.Intn(40))) - 1<<20
			hi := lo + r.Int63n(1<<uint(1+r.Intn(20)))
			p.bounds[v] = [2]int64{lo, hi}
			m[v.name] = uint64(lo + r.Int63n(hi-lo+1))
			vs = append(vs, v)
		}
		var gen func(d int) *Term
		gen = func(d int) *Term {
			switch k := r.Intn(6); {
			case d == 0 || k == 0:
				if r.Intn(3) == 0 {
					return b.BV(64, uint64(r.Int63n(1000)-500))
				}
				return vs[r.Intn(3)]
			case k < 3:
				return b.Bin(OAdd, gen(d-1), gen(d-1))
			case k < 5:
				return b.Bin(OSub, gen(d-1), gen(d-1))
			default:
				return b.Bin(OMul, gen(d-1), b.BV(64, uint64([]int64{-1, 2, 3, 1000000000}[r.Intn(4)])))
			}
		}
		x, y := gen(3), gen(3)
		for _, op := range []Op{OSLt, OSLe, OEq} {
			var c, want *Term
			if op == OEq {
				c, want = p.linEq2(x, y), b.Eq(x, y)
			} else {
				c, want = p.linCmp2(op, x, y), b.Bin(op, x, y)
			}
			if c == nil {
				continue
			}
			if m.Eval(c) != m.Eval(want) {
				t.Fatal(op, x, y, c, m)
			}
		}
	}
}
