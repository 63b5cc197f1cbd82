package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- equality of byte sequences ----

type byteSeq struct {
	v  Val
	sl SliceV
}

// seqView is the byte view of a []byte or string value.
func seqView(v Val) (SliceV, bool) {
	switch x := v.(type) {
	case SliceV:
		return x, true
	case StrV:
		if x.sl != nil {
			return *x.sl, true
		}
	}
	return SliceV{}, false
}

// equalsSpec decides whether a function returns true exactly for equal byte sequences. mk makes the arguments
// for two sequences.
func equalsSpec(p *Prog, fn *ssa.Function, mk func(e *Engine, st *State, a, b SliceV) []Val, fail func(d, pos string)) bool {
	okAll := true
	bad := func(pos, d string) {
		okAll = false
		fail(d, pos)
	}
	for mode := 0; mode < 4; mode++ {
		func() {
			e := newEngine(p)
			e.MergeLimit = 64
			e.limit = 400000
			st := e.newState()
			bt := types.NewSlice(types.Typ[types.Uint8])
			a := e.symVal(bt, "arg:a", nil, nil).(SliceV)
			b := a
			if mode > 0 {
				b = e.symVal(bt, "arg:b", nil, nil).(SliceV)
			}
			d := e.A.sub(a.len, b.len)
			reads := func(st *State, i *Lin) (*Lin, *Lin) {
				return e.readCell(st, a.o, a.skel+"[]", append(append([]*Lin{}, a.idx...), e.A.add(a.off, i)), types.Typ[types.Uint8]).(*Lin),
					e.readCell(st, b.o, b.skel+"[]", append(append([]*Lin{}, b.idx...), e.A.add(b.off, i)), types.Typ[types.Uint8]).(*Lin)
			}
			starts := []*State{st}
			switch mode {
			case 1: // shorter
				st.f.addGE(e.A, e.A.addc(d, -1))
			case 2:
				st.f.addGE(e.A, e.A.addc(e.A.neg(d), -1))
			case 3: // same length, different at w
				st.f.addEQ(e.A, d)
				w := e.A.of(e.A.fresh("w", 0, infNum))
				st.f.addGE(e.A, e.A.addc(e.A.sub(a.len, w), -1))
				x, y := reads(st, w)
				st2 := st.clone()
				st.f.addGE(e.A, e.A.addc(e.A.sub(x, y), -1))
				st2.f.addGE(e.A, e.A.addc(e.A.sub(y, x), -1))
				starts = append(starts, st2)
				e.Outer = []*Lin{w, e.A.addc(w, 1)}
				c := &acc{e: e, p: p}
				e.OnCond = func(e *Engine, st *State, f *Form) []*State {
					sts := []*State{st}
					seen := map[string]bool{}
					for _, l := range formLins(f, nil) {
						for _, t := range l.t {
							at := t.a
							if at.op != "sel" || len(at.args) != 1 || at.reg == nil || (at.reg.o != a.o && at.reg.o != b.o) {
								continue
							}
							off := a.off
							if at.reg.o == b.o {
								off = b.off
							}
							m := e.A.sub(at.args[0], off)
							if seen[m.key] {
								continue
							}
							seen[m.key] = true
							var ns []*State
							for _, s := range sts {
								ns = append(ns, c.order3(e, s, m, w, func(s *State, sign int) {
									if sign == 0 {
										// reads at m are reads at w
										for i, q := range []SliceV{a, b} {
											ix := e.A.mk("sel", e.regionOf(s, q.o, q.skel+"[]", types.Typ[types.Uint8]).base.name, 0, 255, e.A.add(q.off, m))
											ix.reg = e.regionOf(s, q.o, q.skel+"[]", types.Typ[types.Uint8]).base
											s.f.addEQ(e.A, e.A.sub(e.A.of(ix), []*Lin{x, y}[i]))
										}
									}
								})...)
							}
							sts = ns
						}
					}
					return sts
				}
			}
			full := func(v Val, q SliceV) bool {
				s, ok := seqView(v)
				return ok && s.o == q.o && st.f.proveEQ(e.A, e.A.sub(s.off, q.off)) && st.f.proveEQ(e.A, e.A.sub(s.len, q.len))
			}
			e.StrCmp = func(e *Engine, st *State, x, y StrV) *Lin {
				if (full(x, a) && full(y, b)) || (full(x, b) && full(y, a)) {
					if mode == 0 {
						return e.c(0)
					}
					return e.c(1)
				}
				return nil
			}
			e.OnLoop = func(f *ssa.Function, head *ssa.BasicBlock, ok bool) {
				if !ok {
					bad(p.instrPos(firstPos(head)), "no measure proves that the loop ends")
				}
			}
			e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
				if !e.impossible(st) {
					bad(p.instrPos(in), kind+" "+detail+" can happen while comparing")
				}
			}
			defer func() {
				if x := recover(); x != nil {
					if u, ok := x.(undecided); ok {
						bad("-", "undecided: "+string(u))
						return
					}
					panic(x)
				}
			}()
			n := 0
			for _, s := range starts {
				for _, o := range e.callFn(fn, mk(e, s, a, b), nil, s) {
					if e.impossible(o.st) {
						continue
					}
					n++
					f, ok := o.val.(*Form)
					v, k := false, false
					if ok {
						v, k = e.decide(o.st, f)
					}
					if !k {
						bad(p.instrPos(o.in), fmt.Sprintf("cannot decide the comparison: %s", valKey(o.val)))
					} else if v != (mode == 0) {
						bad(p.instrPos(o.in), fmt.Sprintf("returns %v for %s", v, []string{"equal contents", "a longer first sequence", "a longer second sequence", "contents of equal length that differ at one position"}[mode]))
					}
				}
			}
			if n == 0 {
				bad("-", "never returns")
			}
		}()
	}
	return okAll
}

// byteEqHelper: does the function compare two byte sequences for equality? (memoised)
func byteEqHelper(p *Prog, memo map[*ssa.Function]bool, fn *ssa.Function) bool {
	if v, ok := memo[fn]; ok {
		return v
	}
	memo[fn] = false
	sig := fn.Signature
	if fn.Blocks == nil || !p.inModule(fn) || len(fn.Params) != 2 || sig.Results().Len() != 1 || !types.Identical(sig.Results().At(0).Type(), types.Typ[types.Bool]) {
		return false
	}
	kind := func(t types.Type) int {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
			return 1
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return 2
			}
		}
		return 0
	}
	k1, k2 := kind(fn.Params[0].Type()), kind(fn.Params[1].Type())
	if k1 == 0 || k2 == 0 {
		return false
	}
	memo[fn] = equalsSpec(p, fn, func(e *Engine, st *State, a, b SliceV) []Val {
		arg := func(k int, s SliceV) Val {
			if k == 1 {
				return e.bytesToStr(st, s)
			}
			return s
		}
		return []Val{arg(k1, a), arg(k2, b)}
	}, func(d, pos string) {})
	return memo[fn]
}

// ruleEquals checks the Equals methods of the rewrite rules: equality of the rule data.
func ruleEquals(p *Prog, r *Report, typ string) {
	key := typ + ".Equals"
	fn := p.method("", typ, "Equals")
	if fn == nil {
		r.fail("accessor", key, "-", "the accessor does not exist")
		return
	}
	ok := equalsSpec(p, fn, func(e *Engine, st *State, a, b SliceV) []Val {
		mk := func(t types.Type, s SliceV, nm string) Val {
			pt, isPtr := t.Underlying().(*types.Pointer)
			if isPtr {
				t = pt.Elem()
			}
			stt := t.Underlying().(*types.Struct)
			if isPtr {
				o := e.symObj(nm, t)
				for i := 0; i < stt.NumFields(); i++ {
					if _, ok := stt.Field(i).Type().Underlying().(*types.Slice); ok {
						e.writeCell(st, o, "."+stt.Field(i).Name(), nil, stt.Field(i).Type(), s)
					}
				}
				return PtrV{o: o}
			}
			v := StructV{typ: t}
			for i := 0; i < stt.NumFields(); i++ {
				v.fields = append(v.fields, s)
			}
			return v
		}
		return []Val{mk(fn.Params[0].Type(), a, "rule"), mk(fn.Params[1].Type(), b, "other")}
	}, func(d, pos string) { r.fail("value", key, pos, d) })
	if ok {
		r.ok("accessor", key, p.pos(fn.Pos()), "true exactly for equal rule data")
	}
}

// ---- glyph names ----

func (c *acc) nameTbl() (ids, n *Lin, t tbl) {
	b := c.off("OffsetToGlyphNames")
	n = c.u16(b)
	ids = c.add(b, c.k(2))
	ends := c.add(ids, c.mul(n, 2))
	return ids, n, tbl{n: n, ends: ends, w: 3, data: c.add(ends, c.mul(n, 3))}
}

func checkFindName(p *Prog, r *Report, present bool) {
	key := "FontGlyphs.FindIndexByName"
	rule := "accessor"
	if present {
		rule = "lookup"
	}
	fn := p.method("", "FontGlyphs", "FindIndexByName")
	if fn == nil {
		r.fail(rule, key, "-", "the accessor does not exist")
		return
	}
	missing, _ := p.pkg("").Pkg.Scope().Lookup("GlyphMissing").(*types.Const)
	if missing == nil {
		r.fail(rule, key, "-", "GlyphMissing does not exist")
		return
	}
	memo := map[*ssa.Function]bool{}
	// searched position 0 or a later one
	for part := 0; part < 2; part++ {
		if !present && part > 0 {
			break
		}
		c := newAcc(p)
		e := c.e
		c.guardRun(r, rule, fmt.Sprintf("%s%s", key, []string{"", "/later"}[part]), func(fail func(rule, pos, d string)) {
			ids, n, t := c.nameTbl()
			c.fits(t.data)
			var pos *Lin
			var name StrV
			if present {
				pos = c.k(0)
				if part == 1 {
					pos = e.A.of(e.A.fresh("p", 1, 65535))
				}
				c.lt(pos, n)
				c.wf(t, pos, 1)
				off, l := c.elem(t, pos)
				name = e.bytesToStr(c.st, c.view(off, l))
				for j := int64(0); j < 2; j++ {
					c.hint(c.data, c.add(ids, c.mul(pos, 2), c.k(j)))
				}
				for j := int64(0); j < 3; j++ {
					c.hint(c.data, c.add(t.ends, c.mul(pos, 3), c.k(j)))
					if part == 1 {
						c.hint(c.data, c.add(t.ends, c.mul(pos, 3), c.k(j-3)))
					}
				}
				e.Outer = append(e.Outer, pos, c.add(pos, c.k(1)), c.add(pos, c.k(-1)))
				c.loopsEnd(fail)
			} else {
				name = e.symVal(types.Typ[types.String], "arg:name", nil, nil).(StrV)
			}
			nameKey := valKey(name)
			// index of the name that a view shows
			which := func(st *State, v StrV) *Lin {
				if v.sl == nil || v.sl.o != c.data.o {
					return nil
				}
				old := c.st
				defer func() { c.st = old }()
				c.st = st
				for _, i := range c.positions(t.ends, 3) {
					if !st.f.proveGE(e.A, i) || !st.f.proveGE(e.A, e.A.addc(c.sub(n, i), -1)) {
						continue
					}
					raw := func(i *Lin) *Lin { return c.rawU(c.add(t.ends, c.mul(i, 3)), 3) }
					last := c.sub(c.add(v.sl.off, v.sl.len), t.data)
					if !st.f.proveEQ(e.A, c.sub(last, c.end(t, i))) && !st.f.proveEQ(e.A, c.sub(last, raw(i))) {
						continue
					}
					first := c.sub(v.sl.off, t.data)
					if st.f.proveEQ(e.A, c.sub(first, c.start(t, i))) || st.f.proveEQ(e.A, c.sub(first, raw(e.A.addc(i, -1)))) {
						return i
					}
				}
				return nil
			}
			cmpAtom := func(i *Lin) *Lin { return e.fn("namecmp", -1, 1, i) }
			e.StrCmp = func(e *Engine, st *State, a, b StrV) *Lin {
				if valKey(b) == nameKey {
					if i := which(st, a); i != nil {
						return cmpAtom(i)
					}
				}
				if valKey(a) == nameKey {
					if i := which(st, b); i != nil {
						return e.A.neg(cmpAtom(i))
					}
				}
				return nil
			}
			e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
				if ci.fn == nil || len(ci.args) != 2 || !byteEqHelper(p, memo, ci.fn) {
					return nil, false
				}
				str := func(v Val) (StrV, bool) {
					if s, ok := v.(SliceV); ok {
						return e.bytesToStr(st, s), true
					}
					s, ok := v.(StrV)
					return s, ok
				}
				a, ok1 := str(ci.args[0])
				b, ok2 := str(ci.args[1])
				if !ok1 || !ok2 {
					return nil, false
				}
				return []callOut{{st: st, val: e.eqForm(st, a, b)}}, true
			}
			if present {
				e.OnCond = func(e *Engine, st *State, f *Form) []*State {
					sts := []*State{st}
					seen := map[string]bool{}
					for _, l := range formLins(f, nil) {
						for _, tm := range l.t {
							if !isNameCmp(e, tm.a) || seen[tm.a.args[0].key] {
								continue
							}
							m := tm.a.args[0]
							seen[m.key] = true
							var ns []*State
							for _, s := range sts {
								ns = append(ns, c.order3(e, s, m, pos, func(s *State, sign int) {
									s.f.addEQ(e.A, e.A.addc(e.A.of(tm.a), int64(-sign)))
								})...)
							}
							sts = ns
						}
					}
					return sts
				}
			} else {
				e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
					old := c.st
					defer func() { c.st = old }()
					c.st = st.clone()
					sts := []*State{c.st}
					for _, i := range c.positions(t.ends, 3) {
						if !st.f.proveGE(e.A, i) || !st.f.proveGE(e.A, e.A.addc(c.sub(n, i), -1)) {
							continue
						}
						var ns []*State
						for _, s := range sts {
							ns = append(ns, c.fork(s, c.eqF(i, c.k(0)))...)
						}
						sts = ns
						for _, s := range sts {
							c.st = s
							c.wf(t, i, 1)
						}
					}
					for _, s := range sts {
						if !e.impossible(s) {
							fail("panics", p.instrPos(in), kind+" "+detail+" can happen with a well formed font")
							return
						}
					}
				}
			}
			miss := constLin(e, missing)
			nf, nn := 0, 0
			for _, o := range c.outs(fn, []Val{c.font, name}, c.st.clone()) {
				got, _ := o.val.(*Lin)
				if got == nil {
					fail("value", p.instrPos(o.in), "unexpected result")
					continue
				}
				c.st = o.st
				if present {
					nf++
					if want := c.u16(c.add(ids, c.mul(pos, 2))); !o.st.f.proveEQ(e.A, c.sub(got, want)) {
						fail("missed", p.instrPos(o.in), fmt.Sprintf("returns %s for the name at position %s", got, pos))
					}
					continue
				}
				if o.st.f.proveEQ(e.A, c.sub(got, miss)) {
					nn++
					continue
				}
				ok := false
				for _, a := range e.A.list {
					if !isNameCmp(e, a) || !o.st.f.proveEQ(e.A, e.A.of(a)) {
						continue
					}
					i := a.args[0]
					if o.st.f.proveEQ(e.A, c.sub(got, c.rawU(c.add(ids, c.mul(i, 2)), 2))) || o.st.f.proveEQ(e.A, c.sub(got, c.u16(c.add(ids, c.mul(i, 2))))) {
						ok = true
					}
				}
				nf++
				if !ok {
					fail("value", p.instrPos(o.in), fmt.Sprintf("returns %s without having found the name at that position", got))
				}
			}
			if nf == 0 || nn == 0 && !present {
				fail("value", p.pos(fn.Pos()), "expected both found and missing outcomes")
			}
		})
	}
}

func constLin(e *Engine, k *types.Const) *Lin {
	v, _ := constant.Int64Val(constant.ToInt(k.Val()))
	return e.c(v)
}

func isNameCmp(e *Engine, a *Atom) bool {
	return a.op == "fn" && len(a.args) == 1 && strings.Contains(e.A.of(a).String(), "namecmp")
}
