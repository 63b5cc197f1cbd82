package main

// P05, second part: code point mapping, mapping groups, kerning and names, whose accessors
// search a table. The found position is whatever the accessor settled on: it must hold the
// requested key, and the result must be the data that the specification assigns to it.

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// custom runs a hand written analysis with the usual error handling.
func (c *acc) guardRun(r *Report, rule, key string, f func(fail func(rule, pos, d string))) {
	failed := false
	fail := func(rl, pos, d string) {
		failed = true
		r.fail(rl, key, pos, d)
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(undecided); ok {
					fail("undecided", "-", string(u))
					return
				}
				panic(x)
			}
		}()
		f(fail)
	}()
	if !failed {
		r.ok(rule, key, "-", "agrees with the specification")
	}
}

// hint makes reads at provably equal positions of a slice yield the same value.
func (c *acc) hint(s SliceV, at *Lin) {
	r := c.e.regionOf(c.st, s.o, s.skel+"[]", types.Typ[types.Uint8])
	c.e.hints[r.base] = append(c.e.hints[r.base], c.e.normLin(c.st, c.add(s.off, at)))
}

// outs runs a function and returns the feasible outcomes.
func (c *acc) outs(fn *ssa.Function, args []Val, st *State) []outcome {
	var res []outcome
	for _, o := range c.e.callFn(fn, args, nil, st) {
		if !c.e.impossible(o.st) {
			res = append(res, o)
		}
	}
	return res
}

// fork partitions a state by formulas.
func (c *acc) fork(st *State, fs ...*Form) []*State {
	sts := []*State{st}
	for _, f := range fs {
		var ns []*State
		for _, s := range sts {
			s2 := s.clone()
			ns = append(ns, c.e.assume(s, f, true)...)
			ns = append(ns, c.e.assume(s2, f, false)...)
		}
		sts = ns
	}
	var live []*State
	for _, s := range sts {
		if !c.e.impossible(s) {
			live = append(live, s)
		}
	}
	return live
}

var dbgFlag = os.Getenv("DBG")

func (c *acc) is(f *Form) bool { v, k := c.e.decide(c.st, f); return k && v }

// positions lists the table indices i such that the analysis knows of a read at base+w*i.
func (c *acc) positions(base *Lin, w int64) []*Lin {
	var out []*Lin
	seen := map[string]bool{}
	b := c.e.normLin(c.st, base)
	for _, a := range c.e.A.list {
		if a.op != "sel" || len(a.args) != 1 || a.reg == nil || a.reg.o != c.data.o {
			continue
		}
		d := c.e.A.sub(a.args[0], b)
		ok := d.k%w == 0
		for _, t := range d.t {
			ok = ok && t.c%w == 0
		}
		if !ok {
			continue
		}
		i := c.e.A.canon(d.k/w, nil)
		for _, t := range d.t {
			i = c.e.A.add(i, c.e.A.scale(c.e.A.of(t.a), t.c/w))
		}
		if !seen[i.key] {
			seen[i.key] = true
			out = append(out, i)
		}
	}
	return out
}

// rawU is a number read at an index expression taken literally, whatever the state knows of it.
func (c *acc) rawU(at *Lin, n int) *Lin {
	reg := c.e.regionOf(c.st, c.data.o, c.data.skel+"[]", types.Typ[types.Uint8]).base
	r := c.k(0)
	for i := 0; i < n; i++ {
		a := c.e.A.mk("sel", reg.name, 0, 255, c.add(c.data.off, at, c.k(int64(i))))
		a.reg = reg
		r = c.add(r, c.mul(c.e.A.of(a), 1<<(8*i)))
	}
	return r
}

// found is the position at which the state knows that the key of the table equals the target.
func (c *acc) found(keys func(i *Lin) *Lin, base *Lin, w int64, n, target *Lin) *Lin {
	for _, i := range c.positions(base, w) {
		f := c.st.f
		if f.proveGE(c.e.A, i) && f.proveGE(c.e.A, c.e.A.addc(c.sub(n, i), -1)) {
			if f.proveEQ(c.e.A, c.sub(keys(i), target)) || f.proveEQ(c.e.A, c.sub(c.rawU(c.add(base, c.mul(i, w)), int(w)), target)) {
				return i
			}
		}
	}
	return nil
}

// ---- polynomials modulo 2^bits, to compare products independently of their evaluation order ----

func (c *acc) poly(l *Lin, m int64) map[string]int64 {
	out := map[string]int64{}
	add := func(k string, v int64) {
		v = ((v+out[k])%m + m) % m
		if v == 0 {
			delete(out, k)
		} else {
			out[k] = v
		}
	}
	add("", l.k)
	for _, t := range l.t {
		co := (t.c%m + m) % m
		if co == 0 {
			continue
		}
		for k, v := range c.polyAtom(t.a, m) {
			add(k, v*co)
		}
	}
	return out
}

func (c *acc) polyAtom(a *Atom, m int64) map[string]int64 {
	if a.op == "mul" && len(a.args) == 2 {
		x, y := c.poly(a.args[0], m), c.poly(a.args[1], m)
		out := map[string]int64{}
		for k1, v1 := range x {
			for k2, v2 := range y {
				var p []string
				if k1 != "" {
					p = append(p, strings.Split(k1, "*")...)
				}
				if k2 != "" {
					p = append(p, strings.Split(k2, "*")...)
				}
				sort.Strings(p)
				k := strings.Join(p, "*")
				v := (out[k] + v1*v2) % m
				if v == 0 {
					delete(out, k)
				} else {
					out[k] = v
				}
			}
		}
		return out
	}
	return map[string]int64{fmt.Sprintf("a%d", a.id): 1}
}

func polyEq(a, b map[string]int64) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func (c *acc) switches() tbl {
	b := c.off("OffsetToMappingSwitches")
	n := c.u8(b)
	return tbl{n: n, ends: c.add(b, c.k(1)), w: 2, data: c.add(b, c.k(1), c.mul(n, 2))}
}

func (c *acc) settingDefs() tbl {
	b := c.off("OffsetToSettingDefinitions")
	n := c.u8(c.off("OffsetToSettingNames"))
	return tbl{n: n, ends: b, w: 2, data: c.add(b, c.mul(n, 2))}
}

// the switch evaluation, for switches of one to three settings
func checkSwitchEval(p *Prog, r *Report) {
	key := "FontMapping.EvaluateSwitch"
	fn := p.method("", "FontMapping", "EvaluateSwitch")
	if fn == nil {
		r.fail("accessor", key, "-", "the accessor does not exist")
		return
	}
	for L := int64(0); L <= 3; L++ {
		c := newAcc(p)
		e := c.e
		c.guardRun(r, "accessor", fmt.Sprintf("%s/%d", key, L), func(fail func(rule, pos, d string)) {
			sk := e.symVal(fn.Params[1].Type(), "arg:switch", nil, nil).(*Lin)
			set := e.symVal(fn.Params[2].Type(), "arg:settings", nil, nil).(SliceV)
			c.le(c.k(256), set.len)
			t := c.switches()
			defs := c.settingDefs()
			c.fits(t.data)
			c.fits(t.ends)
			c.fits(defs.data)
			c.fits(c.add(c.off("OffsetToSettingNames"), c.k(1)))
			setting := func(j int64) *Lin { return c.u8(c.add(t.data, c.start(t, sk), c.k(j))) }
			e.Unroll = func(*ssa.Function, *ssa.BasicBlock) int { return 8 }
			st0 := c.st
			var starts []*State
			for _, s := range c.fork(c.st, c.eqF(sk, c.k(0)), c.ltF(sk, t.n)) {
				c.st = s
				if L == 0 { // undefined switches
					if !c.is(c.ltF(sk, t.n)) {
						starts = append(starts, s)
					}
					continue
				}
				if !c.is(c.ltF(sk, t.n)) {
					continue
				}
				c.wf(t, sk, 1)
				s.f.addEQ(e.A, c.sub(c.size(t, sk), c.k(L)))
				var zs []*Form
				for j := int64(0); j < L; j++ {
					c.hint(c.data, c.add(t.data, c.start(t, sk), c.k(j)))
					c.lt(setting(j), defs.n)
					zs = append(zs, c.eqF(setting(j), c.k(0)))
				}
				for _, s := range c.fork(s, zs...) {
					c.st = s
					for j := int64(0); j < L; j++ {
						c.wf(defs, setting(j), 1)
						c.le(c.size(defs, setting(j)), c.k(255))
					}
					starts = append(starts, s)
				}
			}
			c.st = st0
			e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
				if L > 0 && !e.impossible(st) {
					fail("panics", p.instrPos(in), kind+" "+detail+" can happen with a well formed font")
				}
			}
			n := 0
			for _, s := range starts {
				for _, o := range c.outs(fn, []Val{c.font, sk, set}, s) {
					c.st = o.st
					if L == 0 {
						fail("outside", p.instrPos(o.in), "evaluates an undefined switch")
						continue
					}
					got, _ := o.val.(*Lin)
					want := c.k(0)
					comb := c.k(1)
					for j := L - 1; j >= 0; j-- {
						v, _ := e.readCell(c.st, set.o, "[]", []*Lin{setting(j)}, types.Typ[types.Uint8]).(*Lin)
						want = c.add(want, e.mul(c.st, v, comb))
						comb = e.mul(c.st, comb, c.size(defs, setting(j)))
					}
					n++
					if got == nil || !polyEq(c.poly(e.normLinTop(c.st, got), 256), c.poly(e.normLinTop(c.st, want), 256)) {
						fail("value", p.instrPos(o.in), fmt.Sprintf("a switch of %d settings evaluates to %s, expected %s", L, valKey(o.val), want))
					}
				}
			}
			if n == 0 && L > 0 {
				fail("returns", p.pos(fn.Pos()), "never returns for a valid switch")
			}
		})
	}
}

// mapping entries
func (c *acc) mapKeys() (base, n *Lin) {
	b := c.off("OffsetToMapping")
	return c.add(b, c.k(2)), c.u16(b)
}

func (c *acc) mapTbl() tbl {
	b, n := c.mapKeys()
	ends := c.add(b, c.mul(n, 4))
	return tbl{n: n, ends: ends, w: 3, data: c.add(ends, c.mul(n, 3))}
}

type mapGroup struct {
	pos    *Lin
	direct bool
}

// groupSize at a position (needs the state to be partitioned enough)
func (c *acc) groupInfo(pos *Lin) (size *Lin, single, multi, rng, list bool) {
	info := c.u8(pos)
	low := c.e.andMask(c.st, info, 127)
	single = c.is(c.e.eq(low))
	multi = c.is(fNot(c.e.eq(low)))
	hi := c.e.div(c.st, info, 128)
	rng = c.is(c.e.eq(c.e.A.addc(hi, -1)))
	list = c.is(c.e.eq(hi))
	return c.e.A.addc(low, 1), single, multi, rng, list
}

func (c *acc) groupLen(pos *Lin) *Lin {
	size, single, multi, rng, list := c.groupInfo(pos)
	switch {
	case single:
		return c.k(3)
	case multi && rng:
		return c.k(4)
	case multi && list:
		return c.e.A.addc(c.mul(size, 2), 2)
	}
	return nil
}

func (c *acc) groupForms(pos *Lin) []*Form {
	info := c.u8(pos)
	return []*Form{c.e.eq(c.e.andMask(c.st, info, 127)), c.e.eq(c.e.div(c.st, info, 128))}
}

// checkGroup compares what the methods of a returned group report with the data at a position.
func (c *acc) checkGroup(p *Prog, fail func(rule, pos, d string), st *State, group Val, g mapGroup, where string) {
	e := c.e
	gt := p.pkg("").Type("GlyphMappingGroup").Type()
	o := e.newObj("group", "alloc", gt)
	at := p.instrPos
	_ = at
	forks := []*State{st}
	c.st = st
	if !g.direct {
		forks = c.fork(st.clone(), c.groupForms(g.pos)...)
	}
	for _, s := range forks {
		c.st = s
		e.writeCell(s, o, "", nil, gt, group)
		size, single, _, rng, _ := c.k(1), true, false, false, false
		if !g.direct {
			size, single, _, rng, _ = c.groupInfo(g.pos)
			c.fits(c.add(g.pos, c.groupLen(g.pos)))
		} else {
			c.fits(c.add(g.pos, c.k(2)))
		}
		call := func(name string, extra ...Val) (*State, Val, bool) {
			m := p.method("", "GlyphMappingGroup", name)
			if m == nil {
				fail("accessor", "-", "no method "+name)
				return nil, nil, false
			}
			os := c.outs(m, append([]Val{PtrV{o: o}}, extra...), c.st.clone())
			if len(os) != 1 {
				fail("group", p.pos(m.Pos()), fmt.Sprintf("%s has %d outcomes for %s", name, len(os), where))
				return nil, nil, false
			}
			return os[0].st, os[0].val, true
		}
		cmp := func(name string, want *Lin, extra ...Val) {
			s2, v, ok := call(name, extra...)
			if !ok {
				return
			}
			l, isL := v.(*Lin)
			if !isL || !s2.f.proveEQ(e.A, c.sub(l, want)) {
				fail("group", p.pos(p.method("", "GlyphMappingGroup", name).Pos()), fmt.Sprintf("%s of a group (%s) is %s, the specification stores %s", name, where, valKey(v), want))
			}
		}
		cmp("Size", size)
		if single {
			cmp("AnimationFlags", c.k(0))
		} else {
			cmp("AnimationFlags", c.u8(c.add(g.pos, c.k(1))))
		}
		choice := e.symVal(types.Typ[types.Uint8], "choice", nil, nil).(*Lin)
		// outside
		m := p.method("", "GlyphMappingGroup", "Select")
		s0 := s
		s2 := s.clone()
		s2.f.addGE(e.A, c.sub(choice, size))
		hook := e.OnPanic
		e.OnPanic = nil
		os := c.outs(m, []Val{PtrV{o: o}, choice}, s2)
		e.OnPanic = hook
		for range os {
			fail("outside", p.pos(m.Pos()), "Select returns a glyph for a choice outside of the group ("+where+")")
			break
		}
		c.st = s0.clone()
		c.lt(choice, size)
		c.le(c.k(0), choice)
		if !c.st.f.infeasible(e.A) {
			for _, s := range c.fork(c.st, c.eqF(choice, c.k(0))) {
				c.st = s
				var want *Lin
				switch {
				case g.direct:
					want = c.u16(g.pos)
				case single:
					want = c.u16(c.add(g.pos, c.k(1)))
				case rng:
					want = e.wrap(s, c.add(c.u16(c.add(g.pos, c.k(2))), choice), 16, false)
				default:
					want = c.u16(c.add(g.pos, c.k(2), c.mul(choice, 2)))
				}
				cmp("Select", want, choice)
			}
		}
		c.st = s0
	}
}

// Utf8 and Utf8WithCache
func checkUtf8(p *Prog, r *Report, cached, present bool) {
	rule := "accessor"
	maxCase := int64(2)
	if present {
		rule, maxCase = "lookup", 0
	}
	name := "Utf8"
	if cached {
		name = "Utf8WithCache"
	}
	key := "FontMapping." + name
	fn := p.method("", "FontMapping", name)
	ev := p.method("", "FontMapping", "EvaluateSwitch")
	if fn == nil || ev == nil {
		r.fail("accessor", key, "-", "the accessor does not exist")
		return
	}
	c := newAcc(p)
	e := c.e
	c.guardRun(r, rule, key, func(fail func(rule, pos, d string)) {
		cp := e.symVal(fn.Params[1].Type(), "arg:codePoint", nil, nil).(*Lin)
		set := e.symVal(fn.Params[2].Type(), "arg:settings", nil, nil)
		base, n := c.mapKeys()
		t := c.mapTbl()
		c.fits(t.data)
		target := e.wrap(c.st, cp, 32, false)
		keyAt := func(i *Lin) *Lin { return c.uN(c.add(base, c.mul(i, 4)), 4) }
		caseOf := func(sw *Lin) *Lin { return e.fn("case", 0, 255, sw) }
		split := func(st *State, v *Lin) []*State {
			var out []*State
			for k := int64(0); k <= maxCase; k++ {
				s := st.clone()
				s.f.addEQ(e.A, e.A.addc(v, -k))
				if !s.f.dead {
					out = append(out, s)
				}
			}
			return out
		}
		same := func(st *State, a, b Val) bool { return c.same(st, a, b) }
		usesSettings := func(st *State, v Val) bool {
			if cached {
				s, ok := v.(SliceV)
				return ok && strings.Contains(s.o.name, "arg:settings")
			}
			return same(st, v, set)
		}
		e.Unroll = func(f *ssa.Function, h *ssa.BasicBlock) int { return 0 }
		sawCache := map[string]bool{}
		e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
			if ci.fn == nil {
				return nil, false
			}
			switch ci.fn {
			case ev:
				sw, _ := ci.args[1].(*Lin)
				if sw == nil {
					return nil, false
				}
				if e.quiet == 0 && !usesSettings(st, ci.args[2]) {
					fail("settings", p.instrPos(ci.in), "the switch is evaluated with other settings")
				}
				var outs []callOut
				for _, s := range split(st, caseOf(sw)) {
					outs = append(outs, callOut{st: s, val: caseOf(sw)})
				}
				return outs, true
			case p.method("", "SettingsCache", "UnsafeSlice"):
				return []callOut{{st: st, val: e.symVal(types.NewSlice(types.Typ[types.Uint8]), "arg:settings.values", nil, nil)}}, true
			case p.method("", "SettingsCache", "GetMappingCase"):
				sw, _ := ci.args[1].(*Lin)
				if sw == nil {
					return nil, false
				}
				sawCache["get"] = true
				s2 := st.clone()
				outs := []callOut{{st: s2, val: TupleV{c.k(0), formF}}}
				for _, s := range split(st, caseOf(sw)) {
					outs = append(outs, callOut{st: s, val: TupleV{caseOf(sw), formT}})
				}
				return outs, true
			case p.method("", "SettingsCache", "CacheMappingCase"):
				sw, _ := ci.args[1].(*Lin)
				v, _ := ci.args[2].(*Lin)
				if e.quiet == 0 && (sw == nil || v == nil || !same(st, v, caseOf(sw))) {
					fail("cache", p.instrPos(ci.in), "the value stored in the cache is not the case of the same switch: "+valsKey(ci.args[1:]))
				}
				return []callOut{{st: st, val: TupleV{}}}, true
			}
			return nil, false
		}
		// positions of the groups up to the selected case, as far as the state determines them
		stair := func(i *Lin) (ps []*Lin, direct bool, known bool) {
			at, _ := c.elem(t, i)
			sw := c.u8(at)
			pos := c.e.A.addc(at, 1)
			if c.is(c.eqF(sw, c.k(255))) {
				return []*Lin{pos}, true, true
			}
			if !c.is(fNot(c.eqF(sw, c.k(255)))) {
				return nil, false, false
			}
			max := int64(-1)
			if c.is(c.eqF(sw, c.k(254))) {
				max = 0
			} else {
				for k := int64(0); k <= maxCase; k++ {
					if c.is(c.eqF(caseOf(sw), c.k(k))) {
						max = k
					}
				}
			}
			ps = []*Lin{pos}
			for k := int64(0); k < max; k++ {
				n := c.groupLen(pos)
				if n == nil {
					return ps, false, false
				}
				pos = c.add(pos, n)
				ps = append(ps, pos)
			}
			return ps, false, max >= 0
		}
		e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
			s2 := st.clone()
			old := c.st
			defer func() { c.st = old }()
			c.st = s2
			for _, f := range []*Form{} {
				_ = f
			}
			i := c.found(keyAt, base, 4, n, target)
			states := []*State{s2}
			if i != nil {
				states = c.fork(s2, c.eqF(i, c.k(0)))
			}
			for _, s := range states {
				c.st = s
				if i != nil {
					c.wf(t, i, 1)
					ps, direct, _ := stair(i)
					last := c.add(t.data, c.end(t, i))
					for _, ps := range ps {
						if direct {
							c.le(c.add(ps, c.k(2)), last)
						} else {
							c.le(c.add(ps, c.k(3)), last)
						}
						if l := c.groupLen(ps); l != nil {
							c.le(c.add(ps, l), last)
						}
					}
				}
				if os := c.st.f; !e.impossible(c.st) {
					if os2 := os; len(dbgFlag) > 0 {
						fmt.Println("i=", i)
						if i != nil {
							ps, d, k := stair(i)
							fmt.Println(ps, d, k, c.end(t, i), c.start(t, i))
						}
						for _, g := range os2.ge[17:] {
							fmt.Println("   ", g, ">=0")
						}
					}
					fail("panics", p.instrPos(in), kind+" "+detail+" can happen with a well formed font")
					return
				}
			}
		}
		// only the staircase is unrolled: the search runs to a fixpoint
		loopsDone := map[*ssa.BasicBlock]bool{}
		_ = loopsDone
		e.Unroll = func(f *ssa.Function, h *ssa.BasicBlock) int {
			if c.inStair(e, h) {
				return int(maxCase) + 2
			}
			return 0
		}
		recv := c.font
		if present {
			c.present(base, 4, n, target, fail)
			e.OnPanic = nil
		}
		nf, nn := 0, 0
		for _, o := range c.outs(fn, []Val{recv, cp, set}, c.st.clone()) {
			tv, ok := o.val.(TupleV)
			if !ok || len(tv) != 2 {
				fail("value", p.instrPos(o.in), "unexpected results")
				continue
			}
			fnd, _ := tv[1].(*Form)
			if fnd == nil {
				fail("value", p.instrPos(o.in), "unexpected results")
				continue
			}
			v, k := e.decide(o.st, fnd)
			if !k {
				fail("value", p.instrPos(o.in), "cannot tell whether the code point was found")
				continue
			}
			if !v {
				nn++
				if present {
					fail("missed", p.instrPos(o.in), "reports as absent a code point that is in the table")
				}
				continue
			}
			nf++
			if present {
				continue
			}
			c.st = o.st
			i := c.found(keyAt, base, 4, n, target)
			if i == nil {
				fail("value", p.instrPos(o.in), "reports a mapping without having found the code point in the table")
				continue
			}
			for _, s := range c.fork(o.st, c.eqF(i, c.k(0))) {
				c.st = s
				c.wf(t, i, 1)
				ps, direct, known := stair(i)
				if !known {
					fail("value", p.instrPos(o.in), "returns a group without determining its case")
					continue
				}
				c.checkGroup(p, fail, s, tv[0], mapGroup{ps[len(ps)-1], direct}, fmt.Sprintf("%s, case %d, direct=%v", name, len(ps)-1, direct))
			}
		}
		if !present && (nf < 4 || nn == 0) || nf == 0 {
			fail("value", p.pos(fn.Pos()), fmt.Sprintf("expected found and missing outcomes, got %d and %d", nf, nn))
		}
		if cached && !sawCache["get"] {
			r.Notes = append(r.Notes, "Utf8WithCache does not consult the settings cache")
		}
	})
}

// inStair: a loop that does not read the search keys... decided by the engine state: the loop
// is entered once the case of the switch is known.
func (c *acc) inStair(e *Engine, h *ssa.BasicBlock) bool {
	for _, a := range e.A.list {
		if a.op == "fn" && strings.HasPrefix(a.key, "fn:case") {
			return true
		}
	}
	return false
}

// kerning lookups
func checkKernGet(p *Prog, r *Report, name, off string, present bool) {
	rule := "accessor"
	if present {
		rule = "lookup"
	}
	key := "FontKerning." + name
	fn := p.method("", "FontKerning", name)
	if fn == nil {
		r.fail("accessor", key, "-", "the accessor does not exist")
		return
	}
	c := newAcc(p)
	e := c.e
	c.guardRun(r, rule, key, func(fail func(rule, pos, d string)) {
		a := e.symVal(fn.Params[1].Type(), "arg:prev", nil, nil).(*Lin)
		b := e.symVal(fn.Params[2].Type(), "arg:curr", nil, nil).(*Lin)
		n := c.uN(c.off(off), 3)
		base := c.add(c.off(off), c.k(3))
		vals := c.add(base, c.mul(n, 4))
		c.fits(base)
		c.fits(c.add(vals, n))
		target := c.add(c.mul(a, 65536), b)
		keyAt := func(i *Lin) *Lin { return c.uN(c.add(base, c.mul(i, 4)), 4) }
		e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
			if !e.impossible(st) {
				fail("panics", p.instrPos(in), kind+" "+detail+" can happen with a well formed font")
			}
		}
		var pos *Lin
		if present {
			pos = c.present(base, 4, n, target, fail)
			c.hint(c.data, c.add(vals, pos))
		}
		nf, nn := 0, 0
		for _, o := range c.outs(fn, []Val{c.font, a, b}, c.st.clone()) {
			c.st = o.st
			got, _ := o.val.(*Lin)
			if got == nil {
				fail("value", p.instrPos(o.in), "unexpected result "+valKey(o.val))
				continue
			}
			if present {
				nf++
				want := e.wrap(o.st, c.u8(c.add(vals, pos)), 8, true)
				if !o.st.f.proveEQ(e.A, c.sub(got, want)) {
					fail("missed", p.instrPos(o.in), fmt.Sprintf("returns %s for a pair that is in the table with value %s", got, want))
				}
				continue
			}
			i := c.found(keyAt, base, 4, n, target)
			if i == nil {
				nn++
				if !o.st.f.proveEQ(e.A, got) {
					fail("value", p.instrPos(o.in), "returns a kerning for a pair that it has not found: "+got.String())
				}
				continue
			}
			nf++
			want := e.wrap(o.st, c.u8(c.add(vals, i)), 8, true)
			if !o.st.f.proveEQ(e.A, c.sub(got, want)) {
				fail("value", p.instrPos(o.in), fmt.Sprintf("returns %s for the pair found at i=%s, the specification stores %s", got, i, want))
			}
		}
		if nf == 0 || nn == 0 && !present {
			fail("value", p.pos(fn.Pos()), "expected both found and missing outcomes")
		}
	})
}
