package main

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Conditional logging: "if cond { warnf(...) }" has no effect that the program can observe, so the branch
// need not be explored twice.  A block qualifies if it only builds arguments in fresh memory and calls
// functions that do nothing but log, then goes on where the untaken branch goes.

var logSkips sync.Map // *ssa.BasicBlock (of the If) -> *ssa.BasicBlock (where both sides meet), or nil

func isLogger(fn *ssa.Function, depth int) bool {
	if fn == nil || depth > 3 {
		return false
	}
	switch fn.String() {
	case repoMod + "/log.Debugf", repoMod + "/log.Infof", repoMod + "/log.Warnf", repoMod + "/log.Errorf", "log.Printf", "log.Println", "log.Print":
		return true
	}
	if len(fn.Blocks) != 1 || fn.Signature.Results().Len() > 0 {
		return false
	}
	return harmless(fn.Blocks[0].Instrs, depth)
}

func localAddr(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(x.X)
	case *ssa.IndexAddr:
		_, c := x.Index.(*ssa.Const)
		return c && localAddr(x.X)
	}
	return false
}

func harmless(ins []ssa.Instruction, depth int) bool {
	fresh := map[ssa.Value]bool{}
	for _, in := range ins {
		switch x := in.(type) {
		case *ssa.Alloc:
			fresh[x] = true
		case *ssa.FieldAddr:
			if !localAddr(x) {
				return false
			}
			fresh[x] = fresh[x.X]
		case *ssa.IndexAddr:
			if !localAddr(x) {
				return false
			}
			fresh[x] = fresh[x.X]
		case *ssa.Slice:
			if !localAddr(x.X) || x.Low != nil || x.High != nil {
				return false
			}
		case *ssa.Store:
			if !fresh[x.Addr] {
				return false
			}
		case *ssa.UnOp:
			if x.CommaOk || (x.Op.String() == "*" && !localAddr(x.X)) || x.Op.String() == "<-" {
				return false
			}
		case *ssa.MakeInterface, *ssa.Convert, *ssa.ChangeType, *ssa.Field, *ssa.Extract, *ssa.DebugRef, *ssa.Jump, *ssa.Return:
		case *ssa.Call:
			if x.Call.IsInvoke() || !isLogger(x.Call.StaticCallee(), depth+1) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// logSkip gives the block where the two sides of a conditional log statement meet.
func logSkip(b *ssa.BasicBlock) *ssa.BasicBlock {
	if x, ok := logSkips.Load(b); ok {
		return x.(*ssa.BasicBlock)
	}
	var r *ssa.BasicBlock
	for i := 0; i < 2; i++ {
		s, o := b.Succs[i], b.Succs[1-i]
		if s == o || len(s.Preds) != 1 || len(s.Succs) != 1 || s.Succs[0] != o || !harmless(s.Instrs, 0) {
			continue
		}
		same := true
		pb, ps := -1, -1
		for k, p := range o.Preds {
			if p == b {
				pb = k
			}
			if p == s {
				ps = k
			}
		}
		for _, in := range o.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			if ph.Edges[pb] != ph.Edges[ps] {
				same = false
			}
		}
		if same {
			r = o
		}
	}
	logSkips.Store(b, r)
	return r
}
