package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// reorder gives the instructions of a block in the order of the Go compiler.
// The language does not say whether `return x, f(&x)` or `g(x, f(&x))` reads x
// before or after the call; go/ssa reads it before, the compiler after.
func reorder(b *ssa.BasicBlock) []ssa.Instruction {
	is := b.Instrs
	for s := 0; s < len(is); s++ {
		switch x := is[s].(type) {
		case *ssa.Return:
			if len(x.Results) < 2 {
				continue
			}
		case *ssa.Call:
			if _, builtin := x.Call.Value.(*ssa.Builtin); builtin || len(x.Call.Args) < 2 {
				continue
			}
		default:
			continue
		}
		if is[s].Pos() == token.NoPos {
			continue
		}
		last := -1 // last call among the operands
		for i := s - 1; i >= 0 && last < 0; i-- {
			if isCall(is[i]) && is[i].Pos() > is[s].Pos() {
				last = i
			}
		}
		if last < 0 {
			continue
		}
		late := map[ssa.Instruction]bool{is[s]: true}
		n := 0
		for i := s - 1; i >= 0; i-- {
			if v, ok := is[i].(ssa.Value); ok && movable(is[i]) && (is[i].Pos() > is[s].Pos() || is[i].Pos() == token.NoPos) && onlyFor(v, late) {
				late[is[i]] = true
				if i < last {
					n++
				}
			}
		}
		if n == 0 {
			continue
		}
		var out, moved []ssa.Instruction
		for i := 0; i < s; i++ {
			if late[is[i]] {
				moved = append(moved, is[i])
			} else {
				out = append(out, is[i])
			}
		}
		out = append(out, moved...)
		is = append(out, is[s:]...)
	}
	return is
}

func isCall(in ssa.Instruction) bool {
	c, ok := in.(*ssa.Call)
	if !ok {
		return false
	}
	_, builtin := c.Call.Value.(*ssa.Builtin)
	return !builtin
}

func onlyFor(v ssa.Value, late map[ssa.Instruction]bool) bool {
	rs := v.Referrers()
	if rs == nil || len(*rs) == 0 {
		return false
	}
	for _, r := range *rs {
		if _, debug := r.(*ssa.DebugRef); !debug && !late[r] {
			return false
		}
	}
	return true
}

// movable tells whether the compiler leaves the instruction where its value is needed.
func movable(in ssa.Instruction) bool {
	switch x := in.(type) {
	case *ssa.UnOp:
		return x.Op != token.ARROW && !x.CommaOk
	case *ssa.Lookup:
		return !x.CommaOk
	case *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.BinOp, *ssa.ChangeType, *ssa.MakeInterface:
		return true
	}
	return false
}
