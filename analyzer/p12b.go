package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The searches of the rewrite testers: transitions of a state (disjoint sorted ranges) and trees (sorted conditions).

// selIndex returns the index m of an atom that reads a field of the element m of the slice s
func selIndex(e *Engine, a *Atom, s SliceV) (*Lin, bool) {
	if a.op != "sel" || a.reg == nil || a.reg.o != s.o || len(a.args) != 1 {
		return nil, false
	}
	return e.A.sub(a.args[0], s.off), true
}

// atIndex calls split for every index of the slice s that a condition looks at, n its length
func (c *acc) atIndex(s SliceV, split func(st *State, m *Lin) []*State) {
	e := c.e
	e.OnCond = func(e *Engine, st *State, f *Form) []*State {
		var ms []*Lin
		seen := map[string]bool{}
		for _, l := range formLins(f, nil) {
			for _, t := range l.t {
				m, ok := selIndex(e, t.a, s)
				if !ok || seen[m.key] || !st.f.proveGE(e.A, m) || !st.f.proveGE(e.A, e.A.addc(e.A.sub(s.len, m), -1)) {
					continue
				}
				seen[m.key] = true
				ms = append(ms, m)
			}
		}
		sts := []*State{st}
		for _, m := range ms {
			var ns []*State
			for _, s := range sts {
				ns = append(ns, split(s, m)...)
			}
			sts = ns
		}
		return sts
	}
}

// structSlice finds the only slice of structs among the fields of a struct that has the wanted shape
func structSlice(t types.Type, want func(types.Type) bool) (field string, elem types.Type) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return "", nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if sl, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
			if _, ok := sl.Elem().Underlying().(*types.Struct); ok && want(sl.Elem()) {
				if field != "" {
					return "", nil
				}
				field, elem = st.Field(i).Name(), sl.Elem()
			}
		}
	}
	return field, elem
}

func fieldWhere(t types.Type, want func(v *types.Var) bool) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < st.NumFields(); i++ {
		if want(st.Field(i)) {
			return st.Field(i).Name()
		}
	}
	return ""
}

func hasFields(t types.Type, names ...string) bool {
	for _, n := range names {
		if fieldWhere(t, func(v *types.Var) bool { return v.Name() == n }) == "" {
			return false
		}
	}
	return true
}

func checkTrigger(p *Prog, r *Report, pkg string, present bool) {
	key := pkg + ".State.Trigger"
	if present {
		key += " (present)"
	} else {
		key += " (absent)"
	}
	fn := p.method("internal/rerules/"+pkg, "State", "Trigger")
	if fn == nil {
		r.fail("lookup", key, "-", "the lookup does not exist")
		return
	}
	c := newAcc(p)
	e := c.e
	c.guardRun(r, "lookup", key, func(fail func(rule, pos, d string)) {
		stT := fn.Params[0].Type().(*types.Pointer).Elem()
		var rngF string
		field, elem := structSlice(stT, func(t types.Type) bool {
			rngF = fieldWhere(t, func(v *types.Var) bool { return hasFields(v.Type(), "First", "Last") })
			return rngF != ""
		})
		if field == "" {
			fail("undecided", p.pos(fn.Pos()), "the transitions of the state were not recognised")
			return
		}
		o := e.symObj("state", stT)
		tab := e.readCell(c.st, o, "."+field, nil, types.NewSlice(elem)).(SliceV)
		g := e.symVal(fn.Params[1].Type(), "arg:target", nil, nil).(*Lin)
		c.le(tab.len, c.k(255))
		pos := e.A.of(e.A.fresh("p", 0, 255))
		if present {
			c.lt(pos, tab.len)
		} else {
			c.le(pos, tab.len)
		}
		rngT := fieldType(elem, rngF)
		readF := func(st *State, m *Lin, f string) *Lin {
			return e.readCell(st, tab.o, tab.skel+"[]."+rngF+"."+f, append(append([]*Lin{}, tab.idx...), e.A.add(tab.off, m)), fieldType(rngT, f)).(*Lin)
		}
		fact := func(s *State, m *Lin, sign int) {
			first, last := readF(s, m, "First"), readF(s, m, "Last")
			s.f.addGE(e.A, e.A.sub(last, first))
			switch {
			case sign < 0:
				s.f.addGE(e.A, e.A.addc(e.A.sub(g, last), -1))
			case sign == 0 && present:
				s.f.addGE(e.A, e.A.sub(g, first))
				s.f.addGE(e.A, e.A.sub(last, g))
			default:
				s.f.addGE(e.A, e.A.addc(e.A.sub(first, g), -1))
			}
		}
		if present {
			fact(c.st, pos, 0)
		}
		for i := 0; i < elem.Underlying().(*types.Struct).NumFields(); i++ {
			f := elem.Underlying().(*types.Struct).Field(i)
			if _, ok := f.Type().Underlying().(*types.Basic); ok {
				rg := e.regionOf(c.st, tab.o, tab.skel+"[]."+f.Name(), f.Type())
				e.hints[rg.base] = append(e.hints[rg.base], e.A.add(tab.off, pos))
			}
		}
		e.Outer = append(e.Outer, pos, c.add(pos, c.k(1)), c.add(pos, c.k(-1)))
		c.loopsEnd(fail)
		c.atIndex(tab, func(st *State, m *Lin) []*State {
			return c.order3(e, st, m, pos, func(s *State, sign int) { fact(s, m, sign) })
		})
		e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
			if !e.impossible(st) {
				fail("panics", p.instrPos(in), kind+" "+detail+" can happen with sorted transitions")
			}
		}
		outs := c.outs(fn, []Val{PtrV{o: o}, g}, c.st.clone())
		if len(outs) == 0 {
			fail("value", p.pos(fn.Pos()), "no outcome")
		}
		sig := fn.Signature.Results()
		for _, out := range outs {
			if e.impossible(out.st) {
				continue
			}
			t, ok := out.val.(TupleV)
			if !ok || len(t) != 2 {
				fail("undecided", p.instrPos(out.in), "unexpected result "+valKey(out.val))
				continue
			}
			for i := range t {
				got, _ := t[i].(*Lin)
				rt := sig.At(i).Type()
				want := c.k(255)
				if present {
					f := fieldWhere(elem, func(v *types.Var) bool { return types.Identical(v.Type(), rt) })
					if f == "" {
						fail("undecided", p.pos(fn.Pos()), "no field of the transition has the type of the result")
						continue
					}
					want, _ = e.readCell(out.st, tab.o, tab.skel+"[]."+f, append(append([]*Lin{}, tab.idx...), e.A.add(tab.off, pos)), rt).(*Lin)
				}
				if got == nil || want == nil {
					fail("undecided", p.instrPos(out.in), "unexpected result "+valKey(t[i]))
					continue
				}
				if !out.st.f.proveEQ(e.A, e.A.sub(e.normLin(out.st, got), e.normLin(out.st, want))) {
					what := "that no transition contains"
					if present {
						what = "of the transition p"
					}
					fail("missed", p.instrPos(out.in), fmt.Sprintf("result %d for an element %s is %s instead of %s", i, what, got, want))
				}
			}
		}
	})
}

func fieldType(t types.Type, name string) types.Type {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return st.Field(i).Type()
		}
	}
	return nil
}

// treesOf finds the sorted trees of a tester: a slice of structs with a Condition
func (c *acc) treesOf(o *Obj, t types.Type) (tab SliceV, elem types.Type, field string) {
	field, elem = structSlice(t, func(t types.Type) bool { return hasFields(t, "Condition", "NeedsResync") })
	if field == "" {
		return
	}
	tab, _ = c.e.readCell(c.st, o, "."+field, nil, types.NewSlice(elem)).(SliceV)
	return
}

func checkAddRule(p *Prog, r *Report, pkg string, ntrees int64) {
	key := pkg + ".Tester.AddRule"
	present := ntrees < 0
	if present {
		key += " (existing condition)"
	} else {
		key += fmt.Sprintf(" (new condition, %d others)", ntrees)
	}
	fn := p.method("internal/rerules/"+pkg, "Tester", "AddRule")
	if fn == nil {
		r.fail("lookup", key, "-", "the operation does not exist")
		return
	}
	c := newAcc(p)
	e := c.e
	c.guardRun(r, "lookup", key, func(fail func(rule, pos, d string)) {
		tT := fn.Params[0].Type().(*types.Pointer).Elem()
		o := e.symObj("tester", tT)
		tab, elem, field := c.treesOf(o, tT)
		if field == "" {
			fail("undecided", p.pos(fn.Pos()), "the trees of the tester were not recognised")
			return
		}
		cond := func(st *State, s SliceV, m *Lin) *Lin {
			l, _ := e.readCell(st, s.o, s.skel+"[].Condition", append(append([]*Lin{}, s.idx...), e.A.add(s.off, m)), types.Typ[types.Uint8]).(*Lin)
			return l
		}
		rule := e.symVal(fn.Params[1].Type(), "arg:rule", nil, nil)
		var data SliceV
		for _, f := range rule.(StructV).fields {
			if s, ok := f.(SliceV); ok {
				data = s
			}
		}
		c.le(c.k(11), data.len)
		target := c.uIn(data, c.k(0), 1)
		c.le(tab.len, c.k(255))
		fact := func(s *State, m *Lin, sign int) {
			d := e.A.sub(cond(s, tab, m), target)
			switch {
			case sign < 0:
				s.f.addGE(e.A, e.A.addc(e.A.neg(d), -1))
			case sign == 0 && present:
				s.f.addEQ(e.A, d)
			default:
				s.f.addGE(e.A, e.A.addc(d, -1))
			}
		}
		pos := e.A.of(e.A.fresh("p", 0, 255))
		if present {
			c.lt(pos, tab.len)
			fact(c.st, pos, 0)
		} else {
			c.le(pos, tab.len)
		}
		e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {}
		split := func(st *State, m *Lin) []*State {
			return c.order3(e, st, m, pos, func(s *State, sign int) { fact(s, m, sign) })
		}
		if present {
			rg := e.regionOf(c.st, tab.o, tab.skel+"[].NeedsResync", types.Typ[types.Bool])
			e.hints[rg.base] = append(e.hints[rg.base], e.A.add(tab.off, pos))
			e.Outer = append(e.Outer, pos, c.add(pos, c.k(1)), c.add(pos, c.k(-1)))
			c.loopsEnd(fail)
			c.atIndex(tab, split)
		} else {
			c.st.f.addEQ(e.A, c.add(tab.len, c.k(-ntrees)))
			for i := int64(0); i+1 < ntrees; i++ {
				c.lt(cond(c.st, tab, c.k(i)), cond(c.st, tab, c.k(i+1)))
			}
			for i := int64(0); i < ntrees; i++ {
				c.st.f.addNE(e.A, c.sub(cond(c.st, tab, c.k(i)), target))
			}
			e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int { return int(ntrees) + 2 }
		}
		ok := 0
		for _, out := range c.outs(fn, []Val{PtrV{o: o}, rule}, c.st.clone()) {
			if e.impossible(out.st) {
				continue
			}
			if v, known := e.decide(out.st, e.isNilForm(out.val)); !known || !v {
				continue // refused
			}
			now, _ := e.readCell(out.st, o, "."+field, nil, types.NewSlice(elem)).(SliceV)
			ok++
			if present {
				nr, _ := e.readCell(out.st, now.o, now.skel+"[].NeedsResync", append(append([]*Lin{}, now.idx...), e.A.add(now.off, pos)), types.Typ[types.Bool]).(*Form)
				if nr == nil {
					fail("undecided", p.instrPos(out.in), "the mark of the tree was not recognised")
				} else if v, known := e.decide(out.st, nr); !known || !v {
					fail("missed", p.instrPos(out.in), "the tree of the condition is not marked for recompilation")
				}
				if !out.st.f.proveEQ(e.A, e.A.sub(now.len, tab.len)) {
					fail("duplicate", p.instrPos(out.in), "a second tree is added for a condition that already has one: length "+now.len.String())
				}
				continue
			}
			if !out.st.f.proveEQ(e.A, e.A.addc(now.len, -ntrees-1)) {
				fail("value", p.instrPos(out.in), "the number of trees becomes "+now.len.String())
				continue
			}
			for i := int64(0); i < ntrees; i++ {
				a, b := cond(out.st, now, c.k(i)), cond(out.st, now, c.k(i+1))
				if a == nil || b == nil || !out.st.f.proveGE(e.A, e.A.addc(e.A.sub(b, a), -1)) {
					fail("order", p.instrPos(out.in), fmt.Sprintf("the conditions of the trees %d (%s) and %d (%s) are not in the order that the search assumes", i, a, i+1, b))
				}
			}
		}
		if ok == 0 {
			fail("value", p.pos(fn.Pos()), "no successful outcome")
		}
	})
}
