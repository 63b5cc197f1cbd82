package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// P15: lookups through the caches.
//
// Three parts. The settings cache is analysed with symbolic values over every shape of
// histories that cache, change settings and read back; the bit list behind it with symbolic
// contents. The two lookups of a code point are compared path against path on a symbolic font.
// The mapping cache is analysed over histories of lookups, drops and resets, where what the
// font yields is symbolic and may change with each drop.

func init() {
	checks["P15"] = checkP15
}

type cworld struct {
	p    *Prog
	e    *Engine
	st   *State
	fail func(rule, pos, d string)
}

func newCworld(p *Prog, fail func(rule, pos, d string)) *cworld {
	w := &cworld{p: p, e: newEngine(p), fail: fail}
	w.e.MergeLimit = 1 << 20
	w.e.Unroll = func(*ssa.Function, *ssa.BasicBlock) int { return 24 }
	w.st = w.e.newState()
	return w
}

func (w *cworld) outs(st *State, fn *ssa.Function, args ...Val) []outcome {
	if fn == nil {
		panic(undecided("a function of the caches wasn't found"))
	}
	if len(args) != len(fn.Params) {
		panic(undecided("unexpected parameters of " + fn.Name()))
	}
	var out []outcome
	for _, o := range w.e.callFn(fn, args, nil, st.clone()) {
		if !w.e.impossible(o.st) {
			out = append(out, o)
		}
	}
	if len(out) == 0 {
		w.fail("outcome", w.p.pos(fn.Pos()), fn.Name()+" doesn't return")
	}
	return out
}

// boolIs: a boolean is provably the given one
func (w *cworld) boolIs(st *State, v Val, want *Form) bool {
	f, ok := v.(*Form)
	if !ok {
		return false
	}
	for _, b := range []bool{true, false} {
		for _, s := range w.e.assume(st.clone(), want, b) {
			if w.e.impossible(s) {
				continue
			}
			if x, known := w.e.decide(s, f); !known || x != b {
				return false
			}
		}
	}
	return true
}

func (w *cworld) same(st *State, t types.Type, a, b Val) bool {
	switch x := a.(type) {
	case *Form:
		return w.boolIs(st, b, x)
	case StructV:
		y, ok := b.(StructV)
		su, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 || len(x.fields) != len(y.fields) {
			return false
		}
		for i := range x.fields {
			if !w.same(st, su.Field(i).Type(), x.fields[i], y.fields[i]) {
				return false
			}
		}
		return true
	}
	return sameVal(w.e, st, t, a, b)
}

// ---- the list of bits ----

func (p *Prog) boolList(name string) *ssa.Function { return p.method("internal", "BoolList", name) }

type bitWorld struct {
	*cworld
	o *Obj
	t types.Type
	n int
}

func (w *bitWorld) get(st *State, name string, i int) (Val, *State) {
	fn := w.p.boolList(name)
	outs := w.outs(st, fn, PtrV{o: w.o}, w.e.c(int64(i)))
	if len(outs) != 1 {
		panic(undecided("reading a bit has several outcomes"))
	}
	return outs[0].val, outs[0].st
}

// bits is the contents as seen through Get
func (w *bitWorld) bits(st *State, n int) []*Form {
	var out []*Form
	for i := 0; i < n; i++ {
		v, _ := w.get(st, "Get", i)
		f, ok := v.(*Form)
		if !ok {
			panic(undecided("unknown bit"))
		}
		out = append(out, f)
	}
	return out
}

func checkBits(p *Prog, n int, fail func(rule, pos, d string)) {
	w := &bitWorld{cworld: newCworld(p, fail), n: n}
	pk := p.pkg("internal")
	if pk == nil || pk.Type("BoolList") == nil {
		panic(undecided("no type BoolList"))
	}
	w.t = pk.Type("BoolList").Type()
	w.o = w.e.newObj("bools", "alloc", w.t)
	outs := w.outs(w.st, p.fn("internal", "NewBoolList"), w.e.c(int64(n)))
	if len(outs) != 1 {
		panic(undecided("NewBoolList has several outcomes"))
	}
	st := outs[0].st
	w.e.writeCell(st, w.o, "", nil, w.t, outs[0].val)
	expect := func(st *State, what string, fn *ssa.Function, n int, want func(i int) *Form) {
		for i, f := range w.bits(st, n) {
			if !w.boolIs(st, f, want(i)) {
				fail("bits", p.pos(fn.Pos()), fmt.Sprintf("%s: bit %d of %d isn't the expected one", what, i, n))
			}
		}
	}
	expect(st, "NewBoolList", p.fn("internal", "NewBoolList"), n, func(int) *Form { return formF })
	// any contents
	var elem types.Type
	field := fieldWhere(w.t, func(v *types.Var) bool {
		sl, ok := v.Type().Underlying().(*types.Slice)
		if ok {
			elem = sl.Elem()
		}
		return ok
	})
	sv, ok := w.e.readCell(st, w.o, "."+field, nil, types.NewSlice(types.Typ[types.Uint8])).(SliceV)
	if n > 0 {
		if b, isB := elem.(*types.Basic); !ok || field == "" || !isB || b.Kind() != types.Uint8 {
			panic(undecided("the contents of the bit list were not recognised"))
		}
		c, ok := sv.len.isConst()
		if !ok {
			panic(undecided("a bit list of unknown size"))
		}
		for k := int64(0); k < c; k++ {
			x := w.e.c(0)
			for b := 0; b < 8; b++ {
				x = w.e.A.add(x, w.e.A.scale(w.e.A.of(w.e.A.mk("var", fmt.Sprintf("bit%d", 8*k+int64(b)), 0, 1)), 1<<b))
			}
			w.e.writeCell(st, sv.o, sv.skel+"[]", append(append([]*Lin{}, sv.idx...), w.e.A.addc(sv.off, k)), elem, x)
		}
	}
	old := w.bits(st, n)
	for _, all := range []bool{true, false} {
		name := map[bool]string{true: "SetAllTrue", false: "SetAllFalse"}[all]
		fn := p.boolList(name)
		for _, o := range w.outs(st, fn, PtrV{o: w.o}) {
			expect(o.st, name, fn, n, func(int) *Form {
				if all {
					return formT
				}
				return formF
			})
		}
	}
	// the readers agree
	for i := 0; i < n; i++ {
		for name, neg := range map[string]bool{"IsSet": false, "IsUnset": true, "GetU8": false, "IsSetU8": false, "IsUnsetU8": true} {
			if p.boolList(name) == nil {
				continue
			}
			v, _ := w.get(st, name, i)
			want := old[i]
			for _, b := range []bool{true, false} {
				for _, s := range w.e.assume(st.clone(), want, b) {
					if w.e.impossible(s) {
						continue
					}
					f, ok := v.(*Form)
					if !ok {
						panic(undecided("unknown bit"))
					}
					if x, known := w.e.decide(s, f); !known || x != (b != neg) {
						fail("bits", p.pos(p.boolList(name).Pos()), fmt.Sprintf("%s disagrees with Get at %d", name, i))
					}
				}
			}
		}
		if split, raw := p.boolList("GetWordAndBitMaskU8"), p.boolList("RawGetU8"); split != nil && raw != nil {
			for _, o := range w.outs(st, split, PtrV{o: w.o}, w.e.c(int64(i))) {
				t, ok := o.val.(TupleV)
				if !ok || len(t) != 2 {
					panic(undecided("unknown bit mask"))
				}
				for _, o2 := range w.outs(o.st, raw, PtrV{o: w.o}, t[0], t[1]) {
					if !w.boolIs(o2.st, o2.val, old[i]) {
						fail("bits", p.pos(raw.Pos()), fmt.Sprintf("RawGetU8 disagrees with Get at %d", i))
					}
				}
			}
		}
	}
	val := w.e.symVal(types.Typ[types.Bool], "value", nil, nil).(*Form)
	for i := 0; i < n; i++ {
		for _, name := range []string{"Set", "SetU8"} {
			fn := p.boolList(name)
			if fn == nil {
				continue
			}
			for _, o := range w.outs(st, fn, PtrV{o: w.o}, w.e.c(int64(i)), val) {
				expect(o.st, fmt.Sprintf("%s(%d)", name, i), fn, n, func(j int) *Form {
					if j == i {
						return val
					}
					return old[j]
				})
			}
		}
	}
	if fn := p.boolList("Push"); fn != nil {
		for _, o := range w.outs(st, fn, PtrV{o: w.o}, val) {
			expect(o.st, "Push", fn, n+1, func(j int) *Form {
				if j == n {
					return val
				}
				return old[j]
			})
		}
	}
}

// ---- the settings cache ----

type scworld struct {
	*cworld
	c       Val // *SettingsCache
	s, m, k int
}

func newSettingsWorld(p *Prog, s, m, k int, fail func(rule, pos, d string)) *scworld {
	w := &scworld{cworld: newCworld(p, fail), s: s, m: m, k: k}
	fn := p.fn("", "NewSettingsCache")
	if fn == nil {
		panic(undecided("no function NewSettingsCache"))
	}
	counts := map[string]int{"FontSettings.Count": s, "FontMapping.NumSwitchTypes": m, "FontRewrites.NumConditions": k}
	w.e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.fn == nil || ci.fn.Signature.Recv() == nil {
			return nil, false
		}
		if n, ok := counts[namedRecv(ci.fn)+"."+ci.fn.Name()]; ok {
			return []callOut{{st: st, val: e.c(int64(n))}}, true
		}
		return nil, false
	}
	outs := w.outs(w.st, fn, w.e.symVal(fn.Params[0].Type(), "font", nil, nil))
	if len(outs) != 1 {
		panic(undecided("NewSettingsCache has several outcomes"))
	}
	w.st, w.c = outs[0].st, outs[0].val
	return w
}

func (w *scworld) fn(name string) *ssa.Function {
	f := w.p.method("", "SettingsCache", name)
	if f == nil {
		panic(undecided("no method " + name))
	}
	return f
}

// the model: what has been cached
type scModel struct {
	cases    map[int]*Lin
	conds    map[int]*Form
	settings map[int]*Lin
}

func (m scModel) clone() scModel {
	c := scModel{map[int]*Lin{}, map[int]*Form{}, map[int]*Lin{}}
	for k, v := range m.cases {
		c.cases[k] = v
	}
	for k, v := range m.conds {
		c.conds[k] = v
	}
	for k, v := range m.settings {
		c.settings[k] = v
	}
	return c
}

func (w *scworld) pair(o outcome) (Val, Val) {
	t, ok := o.val.(TupleV)
	if !ok || len(t) != 2 {
		panic(undecided("unexpected results"))
	}
	return t[0], t[1]
}

func (w *scworld) observe(st *State, m scModel, what string) {
	e := w.e
	bad := func(fn *ssa.Function, d string) { w.fail("cache", w.p.pos(fn.Pos()), what+": "+d) }
	fn := w.fn("GetMappingCase")
	for _, i := range append(seq(w.m), 254, 255) {
		for _, o := range w.outs(st, fn, w.c, e.c(int64(i))) {
			v, hit := w.pair(o)
			want := formF
			if m.cases[i] != nil || i >= 254 {
				want = formT
			}
			if !w.boolIs(o.st, hit, want) {
				bad(fn, fmt.Sprintf("a switch case is cached or not against the history (switch %d)", i))
				continue
			}
			if want == formT {
				c := m.cases[i]
				if c == nil {
					c = e.c(0)
				}
				if l, ok := v.(*Lin); !ok || !o.st.f.proveEQ(e.A, e.A.sub(l, c)) {
					bad(fn, fmt.Sprintf("a switch case isn't the one cached (switch %d)", i))
				}
			}
		}
	}
	fn = w.fn("GetRewriteCondition")
	for _, i := range append(seq(w.k), 255) {
		for _, o := range w.outs(st, fn, w.c, e.c(int64(i))) {
			v, hit := w.pair(o)
			want := formF
			if m.conds[i] != nil || i == 255 {
				want = formT
			}
			if !w.boolIs(o.st, hit, want) {
				bad(fn, fmt.Sprintf("a condition is cached or not against the history (condition %d)", i))
				continue
			}
			if want == formT {
				c := m.conds[i]
				if c == nil {
					c = formT
				}
				if !w.boolIs(o.st, v, c) {
					bad(fn, fmt.Sprintf("a condition isn't the one cached (condition %d)", i))
				}
			}
		}
	}
	fn = w.fn("Get")
	for i := 0; i < w.s; i++ {
		for _, o := range w.outs(st, fn, w.c, e.c(int64(i))) {
			if l, ok := o.val.(*Lin); !ok || !o.st.f.proveEQ(e.A, e.A.sub(l, m.settings[i])) {
				bad(fn, fmt.Sprintf("a setting isn't the one set (setting %d)", i))
			}
		}
	}
	fn = w.fn("UnsafeSlice")
	for _, o := range w.outs(st, fn, w.c) {
		el := regElems(e, o.st, o.val, types.Typ[types.Uint8])
		if len(el) != w.s {
			bad(fn, "the settings aren't as many as those of the font")
			continue
		}
		for i, v := range el {
			if l, ok := v.(*Lin); !ok || !o.st.f.proveEQ(e.A, e.A.sub(l, m.settings[i])) {
				bad(fn, fmt.Sprintf("a setting isn't the one set (setting %d)", i))
			}
		}
	}
}

func seq(n int) []int {
	var out []int
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

func (w *scworld) single(st *State, name string, args ...Val) outcome {
	outs := w.outs(st, w.fn(name), append([]Val{w.c}, args...)...)
	if len(outs) != 1 {
		panic(undecided(name + " has several outcomes"))
	}
	return outs[0]
}

func checkSettingsCache(p *Prog, s, m, k int, fail func(rule, pos, d string)) {
	w := newSettingsWorld(p, s, m, k, fail)
	e := w.e
	u8 := types.Typ[types.Uint8]
	model := scModel{map[int]*Lin{}, map[int]*Form{}, map[int]*Lin{}}
	for i := 0; i < s; i++ {
		model.settings[i] = e.c(0)
	}
	w.observe(w.st, model, "new cache")
	cacheCase := func(st *State, m scModel, i int, tag string) []outcome {
		v := e.symVal(u8, fmt.Sprintf("case%d%s", i, tag), nil, nil).(*Lin)
		m.cases[i] = v
		return w.outs(st, w.fn("CacheMappingCase"), w.c, e.c(int64(i)), v)
	}
	cacheCond := func(st *State, m scModel, i int, tag string) []outcome {
		v := e.symVal(types.Typ[types.Bool], fmt.Sprintf("cond%d%s", i, tag), nil, nil).(*Form)
		m.conds[i] = v
		return w.outs(st, w.fn("CacheRewriteCondition"), w.c, e.c(int64(i)), v)
	}
	// settings with any values, nothing cached
	st := w.st
	for i := 0; i < s; i++ {
		v := e.symVal(u8, fmt.Sprintf("setting%d", i), nil, nil).(*Lin)
		model.settings[i] = v
		outs := w.outs(st, w.fn("Set"), w.c, e.c(int64(i)), v)
		if len(outs) == 0 {
			return
		}
		st = outs[0].st
		for _, o := range outs[1:] {
			_ = o
			// a setting that keeps its value may be treated apart
			for _, s := range e.assume(o.st, e.eq(v), false) {
				if !e.impossible(s) {
					st = s
				}
			}
		}
	}
	w.observe(st, model, "settings set")
	// one value cached alone
	for i := 0; i < m; i++ {
		mm := model.clone()
		for _, o := range cacheCase(st, mm, i, "a") {
			w.observe(o.st, mm, fmt.Sprintf("CacheMappingCase(%d)", i))
		}
	}
	for i := 0; i < k; i++ {
		mm := model.clone()
		for _, o := range cacheCond(st, mm, i, "a") {
			w.observe(o.st, mm, fmt.Sprintf("CacheRewriteCondition(%d)", i))
		}
	}
	// all cached
	full := []*State{st}
	fm := model.clone()
	step := func(f func(st *State) []outcome) {
		var next []*State
		for _, st := range full {
			for _, o := range f(st) {
				next = append(next, o.st)
			}
		}
		full = next
		if len(full) > 64 {
			full = full[:64]
			panic(undecided("too many outcomes of caching"))
		}
	}
	for i := 0; i < m; i++ {
		step(func(st *State) []outcome { return cacheCase(st, fm, i, "b") })
	}
	// the conditions fork on their value: two of them suffice for the others' bits
	for i := 0; i < k; i++ {
		v := formT
		if i == 0 || i == k-1 {
			v = e.symVal(types.Typ[types.Bool], fmt.Sprintf("cond%db", i), nil, nil).(*Form)
		} else if i%2 == 0 {
			v = formF
		}
		fm.conds[i] = v
		step(func(st *State) []outcome { return w.outs(st, w.fn("CacheRewriteCondition"), w.c, e.c(int64(i)), v) })
	}
	for _, st := range full {
		w.observe(st, fm, "everything cached")
		for i := 0; i < m; i++ {
			mm := fm.clone()
			for _, o := range cacheCase(st, mm, i, "c") {
				w.observe(o.st, mm, fmt.Sprintf("CacheMappingCase(%d) again", i))
			}
		}
		for i := 0; i < k; i++ {
			mm := fm.clone()
			for _, o := range cacheCond(st, mm, i, "c") {
				w.observe(o.st, mm, fmt.Sprintf("CacheRewriteCondition(%d) again", i))
			}
		}
		for key := 0; key < s; key++ {
			opt := e.symVal(u8, "option", nil, nil).(*Lin)
			for _, pre := range e.assume(st.clone(), e.eq(e.A.sub(opt, fm.settings[key])), false) {
				if e.impossible(pre) {
					continue
				}
				fn := w.fn("Set")
				for _, o := range w.outs(pre, fn, w.c, e.c(int64(key)), opt) {
					a, b := w.pair(o)
					if !w.boolIs(o.st, a, formT) {
						fail("affected", p.pos(fn.Pos()), fmt.Sprintf("Set doesn't report that mappings may be affected (setting %d)", key))
					}
					if !w.boolIs(o.st, b, formT) {
						fail("affected", p.pos(fn.Pos()), fmt.Sprintf("Set doesn't report that conditions may be affected (setting %d)", key))
					}
					mm := model.clone()
					mm.settings[key] = opt
					w.observe(o.st, mm, fmt.Sprintf("Set(%d)", key))
					for _, i := range []int{0, m - 1} {
						if i < 0 {
							continue
						}
						m2 := mm.clone()
						for _, o2 := range cacheCase(o.st, m2, i, "d") {
							w.observe(o2.st, m2, fmt.Sprintf("CacheMappingCase(%d) after Set(%d)", i, key))
						}
					}
					for _, i := range []int{0, k - 1} {
						if i < 0 {
							continue
						}
						m2 := mm.clone()
						for _, o2 := range cacheCond(o.st, m2, i, "d") {
							w.observe(o2.st, m2, fmt.Sprintf("CacheRewriteCondition(%d) after Set(%d)", i, key))
						}
					}
				}
			}
		}
	}
}

// ---- the two lookups ----

func checkLookups(p *Prog, n int, cachedFirst bool, fail func(rule, pos, d string)) {
	c := newAcc(p)
	e := c.e
	e.MergeLimit = 1 << 20
	direct, cached := p.method("", "FontMapping", "Utf8"), p.method("", "FontMapping", "Utf8WithCache")
	count := p.method("", "FontMapping", "NumEntries")
	if direct == nil || cached == nil || count == nil {
		panic(undecided("the lookups were not found"))
	}
	settings := e.symVal(types.NewSlice(types.Typ[types.Uint8]), "settings", nil, nil)
	cache := e.symVal(cached.Params[2].Type(), "cache", nil, nil)
	rune_ := e.symVal(direct.Params[1].Type(), "code", nil, nil)
	wrong := func(ci *callInfo, d string) { fail("lookup", p.instrPos(ci.in), d) }
	value := func(sw *Lin) *Lin { return e.fn("case", 0, 2, sw) }
	e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.fn == nil || ci.fn.Signature.Recv() == nil {
			return nil, false
		}
		switch namedRecv(ci.fn) + "." + ci.fn.Name() {
		case "FontMapping.EvaluateSwitch":
			if valKey(ci.args[2]) != valKey(settings) {
				wrong(ci, "a switch is evaluated with other settings")
			}
			sw, ok := ci.args[1].(*Lin)
			if !ok {
				panic(undecided("unknown switch"))
			}
			if st.f.proveGE(e.A, e.A.addc(sw, -254)) {
				wrong(ci, "a default switch is evaluated")
			}
			return []callOut{{st: st, val: value(sw)}}, true
		case "SettingsCache.UnsafeSlice":
			return []callOut{{st: st, val: settings}}, true
		case "SettingsCache.GetMappingCase":
			sw, ok := ci.args[1].(*Lin)
			if !ok || valKey(ci.args[0]) != valKey(cache) {
				panic(undecided("unknown switch"))
			}
			var out []callOut
			for _, s := range e.assume(st.clone(), e.ge(e.A.addc(sw, -254)), true) {
				out = append(out, callOut{st: s, val: TupleV{e.c(0), formT}})
			}
			for _, s := range e.assume(st.clone(), e.ge(e.A.addc(sw, -254)), false) {
				out = append(out, callOut{st: s.clone(), val: TupleV{value(sw), formT}}, callOut{st: s, val: TupleV{e.c(0), formF}})
			}
			return out, true
		case "SettingsCache.CacheMappingCase":
			sw, ok := ci.args[1].(*Lin)
			v, ok2 := ci.args[2].(*Lin)
			if !ok || !ok2 || !st.f.proveEQ(e.A, e.A.sub(v, value(sw))) {
				wrong(ci, "the value cached for a switch isn't its case")
			}
			return []callOut{{st: st, val: TupleV{}}}, true
		}
		return nil, false
	}
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int { return 6 }
	panics := 0
	second := false
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if e.impossible(st) {
			return
		}
		panics++
		if second {
			fail("lookup", p.instrPos(in), "one lookup panics where the other returns")
		}
	}
	for _, o := range e.callFn(count, []Val{c.font}, nil, c.st.clone()) {
		l, ok := o.val.(*Lin)
		if !ok {
			panic(undecided("unknown number of entries"))
		}
		c.st.f.addEQ(e.A, e.A.addc(l, int64(-n)))
	}
	panics = 0
	type call struct {
		fn   *ssa.Function
		args []Val
	}
	a, b := call{direct, []Val{c.font, rune_, settings}}, call{cached, []Val{c.font, rune_, cache}}
	if cachedFirst {
		a, b = b, a
	}
	results := a.fn.Signature.Results()
	pairs, hits := 0, 0
	for _, o := range e.callFn(a.fn, a.args, nil, c.st.clone()) {
		if e.impossible(o.st) {
			continue
		}
		ta, ok := o.val.(TupleV)
		if !ok || len(ta) != 2 {
			panic(undecided("unexpected results"))
		}
		second = true
		for _, o2 := range e.callFn(b.fn, b.args, nil, o.st.clone()) {
			if e.impossible(o2.st) {
				continue
			}
			tb, ok := o2.val.(TupleV)
			if !ok || len(tb) != 2 {
				panic(undecided("unexpected results"))
			}
			pairs++
			found, known := e.decide(o2.st, ta[1].(*Form))
			found2, known2 := e.decide(o2.st, tb[1].(*Form))
			if !known || !known2 || found != found2 {
				fail("lookup", p.instrPos(o2.in), "one lookup finds the code point and the other doesn't")
				continue
			}
			if !found {
				continue
			}
			hits++
			w := &cworld{p: p, e: e, fail: fail}
			ga, gb := ta[0], tb[0]
			if !w.same(o2.st, results.At(0).Type(), ga, gb) {
				fail("lookup", p.instrPos(o2.in), "the lookups return different groups")
			}
		}
		second = false
	}
	if pairs == 0 || n > 0 && hits == 0 {
		fail("undecided", p.pos(direct.Pos()), "no lookup was recognised")
	}
}

// ---- the mapping cache ----

// mcworld follows a mapping cache over a history. Each code point has a version of its group
// per epoch; an epoch ends with a drop. Within an epoch the version is decided when the font is
// consulted, or when the case of its switch is read and is still that of the stored group.
type mcworld struct {
	*cworld
	c       Val // *MappingCache
	groupT  types.Type
	cacheV  Val // *SettingsCache
	codes   []*Lin
	font    Val
	ghost   *Obj
	epoch   int
	query   int
	looking bool
	groups  map[string]Val
	hits    int
	fSwitch int // fields of the groups
	fCase   int
}

const mcMissing = 5 // code point that isn't in the font

func fieldLike(t types.Type, what string, kind types.BasicKind) int {
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < su.NumFields(); i++ {
		b, ok := su.Field(i).Type().Underlying().(*types.Basic)
		if ok && b.Kind() == kind && strings.Contains(strings.ToLower(su.Field(i).Name()), what) {
			return i
		}
	}
	return -1
}

func newMappingWorld(p *Prog, size int, fail func(rule, pos, d string)) *mcworld {
	w := &mcworld{cworld: newCworld(p, fail), groups: map[string]Val{}}
	e := w.e
	get := w.fn("Get")
	look := p.method("", "FontMapping", "Utf8WithCache")
	mk := p.fn("", "NewMappingCache")
	if look == nil || mk == nil {
		panic(undecided("the mapping cache was not found"))
	}
	w.groupT = look.Signature.Results().At(0).Type()
	w.fSwitch, w.fCase = fieldLike(w.groupT, "switch", types.Uint8), fieldLike(w.groupT, "case", types.Uint8)
	if w.fSwitch < 0 || w.fCase < 0 {
		panic(undecided("the mapping groups were not recognised"))
	}
	w.cacheV = e.symVal(get.Params[2].Type(), "settings", nil, nil)
	w.ghost = e.symObj("ghost", w.groupT)
	lo, hi, _ := intRange(get.Params[1].Type())
	for i := 0; i <= mcMissing; i++ {
		if i == 0 {
			w.codes = append(w.codes, e.c(0)) // what unused entries hold
			continue
		}
		c := e.A.of(e.A.mk("var", fmt.Sprintf("code%d", i), lo, hi))
		for _, d := range w.codes {
			w.st.f.addNE(e.A, e.A.sub(c, d))
		}
		w.codes = append(w.codes, c)
	}
	for i := range w.codes {
		w.set(w.st, fmt.Sprintf("now%d", i), -1)
		w.set(w.st, fmt.Sprintf("prev%d", i), -1)
	}
	e.Override = w.override
	w.font = e.symVal(mk.Params[0].Type(), "font0", nil, nil)
	outs := w.outs(w.st, mk, w.font, e.c(int64(size)))
	if len(outs) != 1 {
		panic(undecided("NewMappingCache has several outcomes"))
	}
	w.st, w.c = outs[0].st, outs[0].val
	return w
}

func (w *mcworld) fn(name string) *ssa.Function {
	f := w.p.method("", "MappingCache", name)
	if f == nil {
		panic(undecided("no method " + name))
	}
	return f
}

func (w *mcworld) set(st *State, name string, v int) {
	w.e.writeCell(st, w.ghost, ".~"+name, nil, types.Typ[types.Int], w.e.c(int64(v)))
}

func (w *mcworld) get(st *State, name string) int {
	l, ok := w.e.readCell(st, w.ghost, ".~"+name, nil, types.Typ[types.Int]).(*Lin)
	if !ok {
		panic(undecided("lost history"))
	}
	v, known := w.e.normLinTop(st, l).isConst()
	if !known {
		panic(undecided("lost history"))
	}
	return int(v)
}

// group is what the font yields for a code point in a version
func (w *mcworld) group(st *State, code, version int) Val {
	e := w.e
	direct := code%2 == 1
	key := fmt.Sprintf("group%d", code)
	if !direct {
		key += fmt.Sprintf(".%d", version)
	}
	key += "@" + valKey(w.font)
	if g := w.groups[key]; g != nil {
		return g
	}
	sv, ok := e.symVal(w.groupT, key, nil, nil).(StructV)
	if !ok {
		panic(undecided("the mapping groups were not recognised"))
	}
	fields := append([]Val{}, sv.fields...)
	su := w.groupT.Underlying().(*types.Struct)
	for i := range fields {
		switch t := su.Field(i).Type().Underlying().(type) {
		case *types.Pointer:
			fields[i] = w.font
		case *types.Basic:
			if t.Kind() == types.Bool {
				fields[i] = formF
				if direct {
					fields[i] = formT
				}
			}
		}
	}
	fields[w.fSwitch] = e.A.of(e.A.mk("var", fmt.Sprintf("switch%d@%s", code, valKey(w.font)), 0, 253))
	if direct {
		fields[w.fSwitch], fields[w.fCase] = e.c(255), e.c(0)
	} else if code == 2 {
		fields[w.fSwitch], fields[w.fCase] = e.c(254), e.c(0)
	}
	g := StructV{typ: sv.typ, fields: fields}
	w.groups[key] = g
	return g
}

func (w *mcworld) version(code int) int {
	if code == 2 {
		return 0 // doesn't depend on settings
	}
	return w.epoch
}

func (w *mcworld) override(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	if ci.fn == nil || ci.fn.Signature.Recv() == nil || !w.looking {
		return nil, false
	}
	q := w.query
	now, prev := fmt.Sprintf("now%d", q), fmt.Sprintf("prev%d", q)
	switch namedRecv(ci.fn) + "." + ci.fn.Name() {
	case "FontMapping.Utf8WithCache":
		c, ok := ci.args[1].(*Lin)
		if !ok || !st.f.proveEQ(e.A, e.A.sub(c, w.codes[q])) || valKey(ci.args[0]) != valKey(w.font) || valKey(ci.args[2]) != valKey(w.cacheV) {
			w.fail("lookup", w.p.instrPos(ci.in), "another code point, font or settings are looked up")
			return []callOut{{st: st, val: e.freshVal(ci.fn.Signature.Results(), "lookup")}}, true
		}
		if q == mcMissing {
			return []callOut{{st: st, val: TupleV{e.zeroVal(w.groupT), formF}}}, true
		}
		if w.get(st, now) < 0 {
			w.set(st, now, w.version(q))
			w.set(st, prev, w.version(q))
		}
		return []callOut{{st: st, val: TupleV{w.group(st, q, w.get(st, now)), formT}}}, true
	case "SettingsCache.GetMappingCase":
		sw, ok := ci.args[1].(*Lin)
		res := ci.fn.Signature.Results()
		pv := w.get(st, prev)
		if !ok || pv < 0 || valKey(ci.args[0]) != valKey(w.cacheV) {
			return []callOut{{st: st, val: e.freshVal(res, "case")}}, true
		}
		g := w.group(st, q, pv).(StructV)
		if !st.f.proveEQ(e.A, e.A.sub(sw, g.fields[w.fSwitch].(*Lin))) {
			return []callOut{{st: st, val: e.freshVal(res, "case")}}, true
		}
		if k, isC := sw.isConst(); isC && k >= 254 {
			w.set(st, now, pv)
			return []callOut{{st: st, val: TupleV{e.c(0), formT}}}, true
		}
		if nv := w.get(st, now); nv >= 0 {
			v := w.group(st, q, nv).(StructV).fields[w.fCase]
			return []callOut{{st: st.clone(), val: TupleV{v, formT}}, {st: st, val: TupleV{e.c(0), formF}}}, true
		}
		// the same case as before, another one, or none cached
		same, other := st.clone(), st.clone()
		w.set(same, now, pv)
		w.set(other, now, w.version(q))
		w.set(other, prev, w.version(q))
		g2 := w.group(other, q, w.version(q)).(StructV)
		other.f.addNE(e.A, e.A.sub(g2.fields[w.fCase].(*Lin), g.fields[w.fCase].(*Lin)))
		return []callOut{
			{st: same, val: TupleV{g.fields[w.fCase], formT}},
			{st: other, val: TupleV{g2.fields[w.fCase], formT}},
			{st: st, val: TupleV{e.c(0), formF}},
		}, true
	}
	return nil, false
}

func (w *mcworld) lookup(st *State, code int, what string) []*State {
	e := w.e
	fn := w.fn("Get")
	w.query, w.looking = code, true
	defer func() { w.looking = false }()
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			w.fail("lookup", w.p.instrPos(in), "a lookup panics: "+kind+" ("+what+")")
		}
	}
	var out []*State
	for _, o := range w.outs(st, fn, w.c, w.codes[code], w.cacheV) {
		t, ok := o.val.(TupleV)
		if !ok || len(t) != 2 {
			panic(undecided("unexpected results"))
		}
		if code == mcMissing {
			if !w.boolIs(o.st, t[1], formF) {
				w.fail("lookup", w.p.instrPos(o.in), "a code point that the font lacks is found ("+what+")")
			}
			out = append(out, o.st)
			continue
		}
		v := w.get(o.st, fmt.Sprintf("now%d", code))
		if !w.boolIs(o.st, t[1], formT) {
			w.fail("lookup", w.p.instrPos(o.in), "a code point of the font isn't found ("+what+")")
			continue
		}
		if v < 0 {
			if code%2 == 1 && w.get(o.st, fmt.Sprintf("prev%d", code)) >= 0 {
				v = w.epoch // doesn't depend on settings
			} else {
				w.fail("lookup", w.p.instrPos(o.in), "a group is returned without checking that it's current ("+what+")")
				continue
			}
		}
		if !w.same(o.st, w.groupT, w.group(o.st, code, v), t[0]) {
			w.fail("lookup", w.p.instrPos(o.in), "the group isn't the one that the font yields ("+what+")")
			continue
		}
		w.hits++
		out = append(out, o.st)
	}
	return out
}

// history runs every continuation of a history
func (w *mcworld) history(sts []*State, ops []int, alphabet []int, depth int, what string) {
	apply := func(sts []*State, op int, what string) []*State {
		var next []*State
		for _, st := range sts {
			switch {
			case op <= mcMissing:
				next = append(next, w.lookup(st, op, what)...)
			default:
				name := "Drop"
				args := []Val{w.c}
				if op == mcReset {
					name = "Reset"
					args = append(args, w.font)
				}
				for _, o := range w.outs(st, w.fn(name), args...) {
					for i := range w.codes {
						w.set(o.st, fmt.Sprintf("now%d", i), -1)
						if op == mcReset {
							w.set(o.st, fmt.Sprintf("prev%d", i), -1)
						}
					}
					next = append(next, o.st)
				}
			}
		}
		return next
	}
	font, epoch := w.font, w.epoch
	defer func() { w.font, w.epoch = font, epoch }()
	name := func(op int) string {
		switch op {
		case mcDrop:
			return "drop"
		case mcReset:
			return "reset"
		}
		return string(rune('a' + op))
	}
	enter := func(op int) {
		if op == mcDrop || op == mcReset {
			w.epoch++
		}
		if op == mcReset {
			w.font = w.e.symVal(w.p.fn("", "NewMappingCache").Params[0].Type(), fmt.Sprintf("font%d", w.epoch), nil, nil)
		}
	}
	for _, op := range ops {
		enter(op)
		what += " " + name(op)
		sts = apply(sts, op, what)
	}
	if depth == 0 {
		return
	}
	for _, op := range alphabet {
		f, ep := w.font, w.epoch
		enter(op)
		w.history(apply(sts, op, what+" "+name(op)), nil, alphabet, depth-1, what+" "+name(op))
		w.font, w.epoch = f, ep
	}
}

const (
	mcDrop  = 10
	mcReset = 11
)

func checkMappingCache(p *Prog, size int, ops, alphabet []int, depth int, fail func(rule, pos, d string)) {
	w := newMappingWorld(p, size, fail)
	w.history([]*State{w.st}, ops, alphabet, depth, "history:")
	if os.Getenv("DBG") != "" {
		fmt.Fprintln(os.Stderr, w.hits, "lookups")
	}
	if w.hits < 20 {
		fail("undecided", p.pos(w.fn("Get").Pos()), "the lookups were not recognised")
	}
}

func checkP15(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the caches and of the lookups, compared with each other and with a model of the history"
	run := func(key string, f func(fail func(rule, pos, d string))) {
		if f := os.Getenv("P15"); f != "" && !strings.Contains(key, f) {
			return
		}
		if os.Getenv("DBG") != "" {
			fmt.Fprintln(os.Stderr, time.Now().Format("15:04:05"), key)
		}
		seen := map[string]bool{}
		(*acc)(nil).guardRun(r, "caches", key, func(fail func(rule, pos, d string)) {
			f(func(rule, pos, d string) {
				if k := rule + pos + d; !seen[k] {
					seen[k] = true
					fail(rule, pos, d)
				}
			})
		})
	}
	for _, n := range []int{0, 1, 2, 7, 8, 9, 16, 17} {
		run(fmt.Sprintf("bit list of %d", n), func(fail func(rule, pos, d string)) { checkBits(p, n, fail) })
	}
	for _, x := range [][3]int{{1, 1, 1}, {2, 1, 2}, {3, 2, 2}, {2, 3, 9}, {9, 9, 3}} {
		run(fmt.Sprintf("settings cache with %d settings, %d switches and %d conditions", x[0], x[1], x[2]),
			func(fail func(rule, pos, d string)) { checkSettingsCache(p, x[0], x[1], x[2], fail) })
	}
	for n := 0; n <= 4; n++ {
		for _, first := range []bool{false, true} {
			run(fmt.Sprintf("lookups in %d entries (cached first: %v)", n, first),
				func(fail func(rule, pos, d string)) { checkLookups(p, n, first, fail) })
		}
	}
	for _, h := range []struct {
		size     int
		ops, alf []int
		depth    int
	}{
		{1, nil, []int{0, 1, mcMissing, mcDrop}, 5},
		{1, []int{0}, []int{0, 3, mcDrop, mcReset}, 3},
		{2, nil, []int{0, 1, 4, mcDrop}, 6},
		{2, []int{0, 2}, []int{0, 1, 2, mcDrop, mcReset}, 4},
		{3, []int{0, 1, 2}, []int{0, 1, 2, 4, mcDrop}, 5},
		{3, []int{0, 1, 2}, []int{0, 2, 4, mcDrop, mcReset}, 4},
		{4, []int{0, 1, 2, 3}, []int{0, 1, 2, 3, 4}, 5},
	} {
		run(fmt.Sprintf("mapping cache of %d entries after %d operations with %d operations", h.size, len(h.ops), len(h.alf)),
			func(fail func(rule, pos, d string)) { checkMappingCache(p, h.size, h.ops, h.alf, h.depth, fail) })
	}
	r.atLeast("caches", 20)
}
