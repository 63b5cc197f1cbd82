package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// acquiredBy: for each block of a function that only runs after a successful
// atomic test-and-set, the struct (SSA value) whose gate field was acquired.
func gateBlocks(fn *ssa.Function) map[*ssa.BasicBlock]ssa.Value {
	gateMu.Lock()
	defer gateMu.Unlock()
	if m, ok := gateCache[fn]; ok {
		return m
	}
	m := map[*ssa.BasicBlock]ssa.Value{}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		succ := 0
		cond := iff.Cond
		for {
			if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
				cond, succ = u.X, 1-succ
				continue
			}
			break
		}
		call, ok := cond.(*ssa.Call)
		if !ok {
			continue
		}
		name := extName(&call.Call)
		args := call.Call.Args
		good := false
		switch {
		case strings.HasPrefix(name, "sync/atomic.CompareAndSwap") && len(args) == 3:
			good = distinctConsts(args[1], args[2])
		case strings.HasPrefix(name, "(*sync/atomic.") && strings.HasSuffix(name, ").CompareAndSwap") && len(args) == 3:
			good = distinctConsts(args[1], args[2])
		case name == "(*sync.Mutex).TryLock":
			good = true
		}
		if !good {
			continue
		}
		fa, ok := args[0].(*ssa.FieldAddr)
		if !ok {
			continue
		}
		t := b.Succs[succ]
		if len(t.Preds) != 1 {
			continue
		}
		for _, q := range fn.Blocks {
			if t.Dominates(q) {
				m[q] = fa.X
			}
		}
	}
	gateCache[fn] = m
	return m
}

var gateMu sync.Mutex
var gateCache = map[*ssa.Function]map[*ssa.BasicBlock]ssa.Value{}

func distinctConsts(a, b ssa.Value) bool {
	x, ok1 := a.(*ssa.Const)
	y, ok2 := b.(*ssa.Const)
	return ok1 && ok2 && x.Value != nil && y.Value != nil && !constant.Compare(x.Value, token.EQL, y.Value)
}

// exclusive turns pointers into the gated structure into pointers to an exclusively owned object.
func (a *pta) exclusive(c *pctx, blk *ssa.BasicBlock, dst pnode, t ptgt) ptgt {
	base, ok := gateBlocks(c.fn)[blk]
	if !ok {
		return t
	}
	for _, bt := range a.targets(c, base) {
		if bt.o == t.o && strings.HasPrefix(t.path, bt.path+".") {
			o := a.obj("exclusive "+t.o.name+t.path, "extern", nil)
			var ty types.Type
			o.typ = ty
			return ptgt{o, ""}
		}
	}
	return t
}
