package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// P09: the arithmetic that produces the addresses of the font data doesn't wrap around. The accessors are
// analysed as for P05; every operation whose mathematical result is not proven to fit its type and that
// flows into an index or slice bound is a violation.

func init() {
	checks["P09"] = checkP09
}

// addressFlow tells which values of the module flow into the index or the bounds of an indexing operation.
type addressFlow struct {
	p    *Prog
	rel  map[ssa.Value]bool
	flds map[*types.Var]bool
}

func fieldVar(x *ssa.FieldAddr) *types.Var {
	return x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field)
}

func newAddressFlow(p *Prog) *addressFlow {
	a := &addressFlow{p: p, rel: map[ssa.Value]bool{}, flds: map[*types.Var]bool{}}
	callers := map[*ssa.Function][]*ssa.CallCommon{}
	var fns []*ssa.Function
	for _, fn := range p.Funcs {
		fns = append(fns, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil {
						callers[f] = append(callers[f], c.Common())
					}
				}
			}
		}
	}
	var work []ssa.Value
	mark := func(v ssa.Value) {
		if v == nil || a.rel[v] {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		a.rel[v] = true
		work = append(work, v)
	}
	stores := map[*types.Var][]ssa.Value{}
	rets := map[*ssa.Function][]*ssa.Return{}
	calls := map[ssa.Value]*ssa.Function{}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					mark(x.Index)
				case *ssa.Index:
					mark(x.Index)
				case *ssa.Slice:
					mark(x.Low)
					mark(x.High)
					mark(x.Max)
				case *ssa.Store:
					if f, ok := x.Addr.(*ssa.FieldAddr); ok {
						stores[fieldVar(f)] = append(stores[fieldVar(f)], x.Val)
					}
				case *ssa.Return:
					rets[fn] = append(rets[fn], x)
				case *ssa.Call:
					if f := x.Call.StaticCallee(); f != nil {
						calls[x] = f
					}
				}
			}
		}
	}
	field := func(f *types.Var) {
		if a.flds[f] {
			return
		}
		a.flds[f] = true
		for _, v := range stores[f] {
			mark(v)
		}
	}
	for len(work) > 0 {
		v := work[len(work)-1]
		work = work[:len(work)-1]
		switch x := v.(type) {
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			default:
				mark(x.X)
				mark(x.Y)
			}
		case *ssa.Convert:
			mark(x.X)
		case *ssa.ChangeType:
			mark(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				mark(e)
			}
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if f, ok := x.X.(*ssa.FieldAddr); ok {
					field(fieldVar(f))
				}
				if al, ok := x.X.(*ssa.Alloc); ok {
					for _, ref := range *al.Referrers() {
						if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
							mark(s.Val)
						}
					}
				}
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					mark(fv)
				}
			} else {
				mark(x.X)
			}
		case *ssa.FreeVar:
			fn := x.Parent()
			for i, f := range fn.FreeVars {
				if f != x || fn.Parent() == nil {
					continue
				}
				for _, b := range fn.Parent().Blocks {
					for _, in := range b.Instrs {
						mc, ok := in.(*ssa.MakeClosure)
						if !ok || mc.Fn != fn || i >= len(mc.Bindings) {
							continue
						}
						if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
							for _, ref := range *al.Referrers() {
								if s, ok := ref.(*ssa.Store); ok && s.Addr == al {
									mark(s.Val)
								}
							}
						}
					}
				}
			}
		case *ssa.Field:
			if st, ok := x.X.Type().Underlying().(*types.Struct); ok {
				field(st.Field(x.Field))
			}
		case *ssa.Parameter:
			fn := x.Parent()
			for i, pr := range fn.Params {
				if pr == x {
					for _, c := range callers[fn] {
						if i < len(c.Args) {
							mark(c.Args[i])
						}
					}
				}
			}
		case *ssa.Extract:
			if f := calls[x.Tuple]; f != nil {
				for _, r := range rets[f] {
					if x.Index < len(r.Results) {
						mark(r.Results[x.Index])
					}
				}
			}
		case *ssa.Call:
			if f := calls[x]; f != nil {
				for _, r := range rets[f] {
					if len(r.Results) == 1 {
						mark(r.Results[0])
					}
				}
			}
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "min" || b.Name() == "max") {
				for _, v := range x.Call.Args {
					mark(v)
				}
			}
		}
	}
	return a
}

func checkP09(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of each accessor (integer ranges and linear relations) plus a backward slice of the index and slice bounds"
	flow := newAddressFlow(p)
	seen := map[*ssa.BinOp]string{}
	done := map[ssa.Instruction]bool{}
	bad := map[ssa.Instruction]string{}
	curKey := ""
	_ = curKey
	onAcc = func(c *acc) {
		c.e.OnWrap = func(e *Engine, st *State, in ssa.Instruction, l *Lin, t types.Type, what string) {
			v, ok := in.(ssa.Value)
			if !ok || !flow.rel[v] {
				return
			}
			if e.impossible(st) {
				return
			}
			s := st
			if c.refine != nil {
				if s = c.refine(st); s == nil || e.impossible(s) {
					return
				}
				lo, hi, _ := intRange(t)
				if e.inRange(s, l, lo, hi) {
					return
				}
			}
			bad[in] = fmt.Sprintf("%s: the value %s may not fit %s and is used to address data", what, l, t)
		}
		c.e.OnInstr = func(in ssa.Instruction) {
			if v, ok := in.(ssa.Value); ok && flow.rel[v] {
				switch x := in.(type) {
				case *ssa.BinOp:
					seen[x] = ""
					done[in] = true
				case *ssa.Convert:
					done[in] = true
				}
			}
		}
	}
	defer func() { onAcc = nil }()
	scratch := newReport("P09")
	runAccessors(p, scratch, nil)
	for _, o := range scratch.obls {
		if !o.OK && (o.Rule == "undecided" || o.Rule == "analysis") {
			r.fail("undecided", o.Key, o.Pos, o.Detail)
		}
	}
	byFn := map[string][]ssa.Instruction{}
	for in := range done {
		byFn[p.fname(in.Parent())] = append(byFn[p.fname(in.Parent())], in)
	}
	var names []string
	for n := range byFn {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		ok := true
		for _, in := range byFn[n] {
			if d, isBad := bad[in]; isBad {
				ok = false
				r.fail("offset-arithmetic", n, p.instrPos(in), d)
			}
		}
		if ok {
			r.ok("offset-arithmetic", n, p.pos(byFn[n][0].Parent().Pos()), fmt.Sprintf("%d operations computing addresses can't wrap", len(byFn[n])))
		}
	}
	r.atLeast("offset-arithmetic", 20)
}
