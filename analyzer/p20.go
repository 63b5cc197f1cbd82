package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P20: the registries of the builder (a map and the list with the encoding order of its keys) stay consistent,
// and removals remove exactly the requested element.

func init() {
	checks["P20"] = checkP20
}

const regMax = 3 // entries that exist before the operation

type registry struct {
	name     string
	mapField string
	order    string
	create   string
	remove   string
	each     [2]string // ranges, list
	add, rm  [2]string // ranges, list
}

var registries = []registry{
	{"glyphs", "glyphData", "glyphOrder", "AddGlyph", "", [2]string{}, [2]string{}, [2]string{}},
	{"glyph sets", "rewriteGlyphSets", "glyphSetsOrder", "CreateGlyphSet", "RemoveGlyphSet",
		[2]string{"EachGlyphSetRange", "EachGlyphSetListGlyph"},
		[2]string{"AddGlyphSetRange", "AddGlyphSetListGlyph"}, [2]string{"RemoveGlyphSetRange", "RemoveGlyphSetListGlyph"}},
	{"rune sets", "rewriteRuneSets", "runeSetsOrder", "CreateRuneSet", "RemoveRuneSet",
		[2]string{"EachRuneSetRange", "EachRuneSetListRune"},
		[2]string{"AddRuneSetRange", "AddRuneSetListRune"}, [2]string{"RemoveRuneSetRange", "RemoveRuneSetListRune"}},
}

type regWorld struct {
	p     *Prog
	e     *Engine
	st    *State
	reg   registry
	o     *Obj
	fontT types.Type
	mapT  *types.Map
	ordT  *types.Slice
	m     Val
	uids  []*Lin
	vals  []Val
	rand  []*Lin // identifiers given out by the random source
	fail  func(rule, pos, d string)
	// of the sets
	fields [2]int // positions of the ranges and of the list
	ndist  int
	size   int // members of the first set
}

func (w *regWorld) mkSlice(t types.Type, vals []Val) SliceV {
	e := w.e
	o := e.newObj("arr", "alloc", t)
	for i, v := range vals {
		e.writeCell(w.st, o, "[]", []*Lin{e.c(int64(i))}, t, v)
	}
	n := e.c(int64(len(vals)))
	return SliceV{o: o, off: e.c(0), len: n, cap: n}
}

// elems reads the elements of a slice of known length
func regElems(e *Engine, st *State, v Val, t types.Type) []Val {
	s, ok := v.(SliceV)
	if !ok {
		if _, isNil := v.(NilV); isNil {
			return nil
		}
		panic(undecided("unknown slice"))
	}
	if s.isNil {
		return nil
	}
	n, ok := e.normLinTop(st, s.len).isConst()
	if !ok {
		panic(undecided("slice of unknown length " + s.len.String()))
	}
	var out []Val
	for i := int64(0); i < n; i++ {
		out = append(out, e.readCell(st, s.o, s.skel+"[]", append(append([]*Lin{}, s.idx...), e.A.addc(s.off, i)), t))
	}
	return out
}

// sameVal: provably equal
func sameVal(e *Engine, st *State, t types.Type, a, b Val) bool {
	switch x := a.(type) {
	case *Lin:
		y, ok := b.(*Lin)
		return ok && st.f.proveEQ(e.A, e.A.sub(x, y))
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return false
		}
		su, ok := t.Underlying().(*types.Struct)
		if !ok {
			return valKey(a) == valKey(b)
		}
		for i := range x.fields {
			if !sameVal(e, st, su.Field(i).Type(), x.fields[i], y.fields[i]) {
				return false
			}
		}
		return true
	case SliceV, NilV:
		sl, ok := t.Underlying().(*types.Slice)
		if !ok {
			break
		}
		return sameElems(e, st, sl.Elem(), regElems(e, st, a, sl.Elem()), regElems(e, st, b, sl.Elem()))
	}
	return valKey(a) == valKey(b)
}

// sameElems: provably the same elements, in any order
func sameElems(e *Engine, st *State, t types.Type, a, b []Val) bool {
	if len(a) != len(b) {
		return false
	}
	used := make([]bool, len(b))
next:
	for _, x := range a {
		for j, y := range b {
			if !used[j] && sameVal(e, st, t, x, y) {
				used[j] = true
				continue next
			}
		}
		return false
	}
	return true
}

func (w *regWorld) fresh(name string, t types.Type) *Lin {
	l, ok := w.e.freshVal(t, name).(*Lin)
	if !ok {
		panic(undecided("unexpected type of " + name))
	}
	return l
}

// newRegWorld prepares a builder whose registry holds n entries; isNil leaves the map and the list nil
func newRegWorld(p *Prog, reg registry, n, size int, isNil bool, fail func(rule, pos, d string)) *regWorld {
	pk := p.pkg("builder")
	if pk == nil || pk.Type("Font") == nil {
		panic(undecided("no type builder.Font"))
	}
	w := &regWorld{p: p, reg: reg, size: size, fail: fail, fontT: pk.Type("Font").Type()}
	e := newEngine(p)
	w.e = e
	e.MergeLimit = 1 << 20
	e.Unroll = func(*ssa.Function, *ssa.BasicBlock) int { return 12 }
	mt, _ := fieldType(w.fontT, reg.mapField).(*types.Map)
	ot, _ := fieldType(w.fontT, reg.order).(*types.Slice)
	if mt == nil || ot == nil {
		panic(undecided("the registry " + reg.mapField + "/" + reg.order + " does not exist"))
	}
	w.mapT, w.ordT = mt, ot
	w.st = e.newState()
	w.o = e.symObj("builder", w.fontT)
	e.Override = w.override
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			fail("panic", p.instrPos(in), kind+" "+detail)
		}
	}
	for i := 0; i < n; i++ {
		u := w.fresh(fmt.Sprintf("uid%d", i), mt.Key())
		for _, v := range w.uids {
			w.st.f.addNE(e.A, e.A.sub(u, v))
		}
		w.uids = append(w.uids, u)
	}
	if isNil {
		w.m = MapV{isNil: true}
		e.writeCell(w.st, w.o, "."+reg.mapField, nil, mt, w.m)
		e.writeCell(w.st, w.o, "."+reg.order, nil, ot, e.zeroVal(ot))
		return w
	}
	m := MapV{o: e.newObj("registry", "alloc", mt)}
	w.m = m
	var order []Val
	for i, u := range w.uids {
		order = append(order, u)
		v := w.value(i)
		w.vals = append(w.vals, v)
		e.mapUpdate(w.st, m, u, v, false, mt.Elem())
	}
	e.writeCell(w.st, w.o, "."+reg.mapField, nil, mt, m)
	e.writeCell(w.st, w.o, "."+reg.order, nil, ot, w.mkSlice(ot.Elem(), order))
	return w
}

// value is the contents of entry i: a set with two ranges and two listed elements, or a glyph
func (w *regWorld) value(i int) Val {
	su, ok := w.mapT.Elem().Underlying().(*types.Struct)
	if !ok {
		return w.e.symVal(w.mapT.Elem(), fmt.Sprintf("entry%d", i), nil, nil)
	}
	v := w.e.zeroVal(w.mapT.Elem()).(StructV)
	v.fields = append([]Val{}, v.fields...)
	w.fields = [2]int{-1, -1}
	for f := 0; f < su.NumFields(); f++ {
		sl, ok := su.Field(f).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		kind := 1
		if _, isS := sl.Elem().Underlying().(*types.Struct); isS {
			kind = 0
		}
		if w.fields[kind] >= 0 {
			panic(undecided("unknown layout of the sets"))
		}
		w.fields[kind] = f
		v.fields[f] = w.mkSlice(sl.Elem(), w.members(sl.Elem(), kind, w.size+i%2))
	}
	if w.fields[0] < 0 || w.fields[1] < 0 {
		panic(undecided("unknown layout of the sets"))
	}
	return v
}

// members are n different elements; all ranges start or all end at the same place in some worlds
func (w *regWorld) members(t types.Type, kind, n int) []Val {
	e := w.e
	var out []Val
	if kind == 1 {
		for i := 0; i < n; i++ {
			x := w.fresh("member", t)
			for _, y := range out {
				w.st.f.addNE(e.A, e.A.sub(x, y.(*Lin)))
			}
			out = append(out, x)
		}
		return out
	}
	su := t.Underlying().(*types.Struct)
	if su.NumFields() != 2 {
		panic(undecided("unknown layout of the ranges"))
	}
	w.ndist++
	f := w.ndist % 2 // the end that is different
	for i := 0; i < n; i++ {
		r := StructV{typ: t, fields: []Val{w.fresh("range", su.Field(0).Type()), w.fresh("range", su.Field(1).Type())}}
		for _, y := range out {
			w.st.f.addNE(e.A, e.A.sub(r.fields[f].(*Lin), y.(StructV).fields[f].(*Lin)))
		}
		out = append(out, r)
	}
	return out
}

func (w *regWorld) override(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	n := ci.name
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	if i := strings.LastIndexByte(n, '/'); i >= 0 && strings.HasPrefix(n, "github.com") {
		n = n[i+1:]
	}
	switch n {
	case "internal.CryptoRandUint64":
		// fails, collides with an identifier in use, or yields a new one
		res := ci.fn.Signature.Results()
		bad := st.clone()
		out := []callOut{{st: bad, val: TupleV{e.freshVal(res.At(0).Type(), "random"), e.errVal("random")}}}
		for _, u := range w.uids {
			out = append(out, callOut{st: st.clone(), val: TupleV{u, NilV{}}})
		}
		x := w.fresh("random", res.At(0).Type())
		for _, u := range append(append([]*Lin{}, w.uids...), w.rand...) {
			st.f.addNE(e.A, e.A.sub(x, u))
		}
		w.rand = append(w.rand, x)
		return append(out, callOut{st: st, val: TupleV{x, NilV{}}}), true
	case "slices.Delete", "slices.DeleteFunc", "slices.Index", "slices.IndexFunc", "slices.Contains", "slices.ContainsFunc", "slices.Insert":
		return w.slices(e, st, ci, n)
	}
	if ci.fn != nil && ci.fn.Pkg != nil && w.p.inModule(ci.fn) && strings.HasSuffix(ci.fn.Pkg.Pkg.Path(), "/mask") {
		return []callOut{{st: st, val: e.freshVal(e.resType(ci), ci.fn.Name())}}, true
	}
	if ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg != w.p.pkg("builder") && w.p.inModule(ci.fn) && ci.fn.Signature.Recv() == nil {
		// functions of numbers alone
		basic := true
		for _, t := range []*types.Tuple{ci.fn.Signature.Params(), ci.fn.Signature.Results()} {
			for i := 0; i < t.Len(); i++ {
				b, ok := t.At(i).Type().Underlying().(*types.Basic)
				basic = basic && ok && b.Info()&(types.IsInteger|types.IsFloat) != 0
			}
		}
		if basic {
			return []callOut{{st: st, val: e.freshVal(e.resType(ci), ci.fn.Name())}}, true
		}
	}
	return nil, false
}

// slices models the library on slices of known length
func (w *regWorld) slices(e *Engine, st *State, ci *callInfo, n string) ([]callOut, bool) {
	if len(ci.args) < 2 {
		return nil, false
	}
	sl, ok := ci.cc.Args[0].Type().Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	s, ok := ci.args[0].(SliceV)
	if !ok || s.isNil {
		return nil, false
	}
	if _, known := e.normLinTop(st, s.len).isConst(); !known {
		return nil, false
	}
	vals := regElems(e, st, s, sl.Elem())
	mk := func(st *State, vals []Val) SliceV {
		old := w.st
		w.st = st
		r := w.mkSlice(sl.Elem(), vals)
		w.st = old
		return r
	}
	if n == "slices.Delete" {
		i, ok1 := e.normLinTop(st, ci.args[1].(*Lin)).isConst()
		j, ok2 := e.normLinTop(st, ci.args[2].(*Lin)).isConst()
		if !ok1 || !ok2 {
			return nil, false
		}
		if i < 0 || j < i || j > int64(len(vals)) {
			return []callOut{{st: st, panicked: true}}, true
		}
		return []callOut{{st: st, val: mk(st, append(append([]Val{}, vals[:i]...), vals[j:]...))}}, true
	}
	if n == "slices.Insert" {
		return nil, false
	}
	// decide the predicate for each element, in order
	type path struct {
		st    *State
		match []bool
	}
	paths := []path{{st: st}}
	for _, v := range vals {
		var next []path
		for _, pt := range paths {
			if strings.HasSuffix(n, "Func") {
				f, ok := ci.args[1].(FuncV)
				if !ok || f.fn == nil {
					return nil, false
				}
				for _, o := range e.callFn(f.fn, []Val{v}, f.binds, pt.st) {
					g, ok := o.val.(*Form)
					if !ok {
						panic(undecided("unknown predicate"))
					}
					for _, b := range []bool{true, false} {
						for _, s := range e.assume(o.st.clone(), g, b) {
							next = append(next, path{s, append(append([]bool{}, pt.match...), b)})
						}
					}
				}
			} else {
				g := e.eqForm(pt.st, v, ci.args[1])
				for _, b := range []bool{true, false} {
					for _, s := range e.assume(pt.st.clone(), g, b) {
						next = append(next, path{s, append(append([]bool{}, pt.match...), b)})
					}
				}
			}
		}
		paths = nil
		for _, pt := range next {
			if !e.impossible(pt.st) {
				paths = append(paths, pt)
			}
		}
	}
	var out []callOut
	for _, pt := range paths {
		first := -1
		var kept []Val
		for i, m := range pt.match {
			if m && first < 0 {
				first = i
			}
			if !m {
				kept = append(kept, vals[i])
			}
		}
		switch n {
		case "slices.DeleteFunc":
			out = append(out, callOut{st: pt.st, val: mk(pt.st, kept)})
		case "slices.Index", "slices.IndexFunc":
			out = append(out, callOut{st: pt.st, val: e.c(int64(first))})
		default:
			f := formF
			if first >= 0 {
				f = formT
			}
			out = append(out, callOut{st: pt.st, val: f})
		}
	}
	return out, true
}

// check compares the registry after an operation with the expected entries
func (w *regWorld) check(o outcome, keys []*Lin, vals []Val, what string) {
	e, pos := w.e, w.p.instrPos(o.in)
	m, ok := e.readCell(o.st, w.o, "."+w.reg.mapField, nil, w.mapT).(MapV)
	if !ok {
		panic(undecided("unknown map"))
	}
	if !o.st.f.proveEQ(e.A, e.A.addc(e.mapLen(o.st, m), int64(-len(keys)))) {
		w.fail("entries", pos, fmt.Sprintf("%s: the number of entries becomes %s instead of %d", what, e.mapLen(o.st, m), len(keys)))
		return
	}
	for i, k := range keys {
		has, v := e.mapLookup(o.st, m, k, w.mapT.Elem())
		if b, known := e.decide(o.st, has); !known || !b {
			w.fail("entries", pos, what+": an entry is missing")
			return
		}
		if vals[i] != nil && !sameVal(e, o.st, w.mapT.Elem(), v, vals[i]) {
			w.fail("contents", pos, what+": the contents of an entry aren't the expected ones")
			return
		}
	}
	var want []Val
	for _, k := range keys {
		want = append(want, k)
	}
	got := regElems(e, o.st, e.readCell(o.st, w.o, "."+w.reg.order, nil, w.ordT), w.ordT.Elem())
	if !sameElems(e, o.st, w.ordT.Elem(), got, want) {
		w.fail("order", pos, what+": the list with the order of the entries has other elements than the map")
	}
}

// others: the other registries aren't touched
func (w *regWorld) others() func(o outcome) {
	e := w.e
	type snap struct {
		f   string
		t   types.Type
		key string
		reg *region
	}
	var snaps []snap
	for _, r := range registries {
		if r.name == w.reg.name {
			continue
		}
		for _, f := range []string{r.mapField, r.order} {
			t := fieldType(w.fontT, f)
			if t == nil {
				continue
			}
			v := e.readCell(w.st, w.o, "."+f, nil, t)
			s := snap{f: f, t: t, key: valKey(v)}
			if m, ok := v.(MapV); ok && !m.isNil {
				s.reg = e.mapRegion(w.st, m)
			}
			snaps = append(snaps, s)
		}
	}
	return func(o outcome) {
		for _, s := range snaps {
			v := e.readCell(o.st, w.o, "."+s.f, nil, s.t)
			if m, ok := v.(MapV); ok && !m.isNil && s.reg != nil && e.mapRegion(o.st, m) != s.reg || valKey(v) != s.key {
				w.fail("other", w.p.instrPos(o.in), "the operation on the "+w.reg.name+" changes "+s.f)
			}
		}
	}
}

func (w *regWorld) run(name string, extra []Val) []outcome {
	fn := w.p.method("builder", "Font", name)
	if fn == nil {
		panic(undecided("no method " + name))
	}
	args := []Val{PtrV{o: w.o}}
	args = append(args, extra...)
	for i := len(args); i < len(fn.Params); i++ {
		args = append(args, w.e.symVal(fn.Params[i].Type(), fn.Params[i].Name(), nil, nil))
	}
	if len(args) != len(fn.Params) {
		panic(undecided("unexpected parameters of " + name))
	}
	oth := w.others()
	var out []outcome
	for _, o := range w.e.callFn(fn, args, nil, w.st.clone()) {
		if !w.e.impossible(o.st) {
			oth(o)
			out = append(out, o)
		}
	}
	return out
}

// success tells whether the error or the bool reports success
func (w *regWorld) success(o outcome, v Val) bool {
	f, ok := v.(*Form)
	if !ok {
		f = w.e.isNilForm(v)
	}
	b, known := w.e.decide(o.st, f)
	if !known {
		panic(undecided("the result is not decided"))
	}
	return b
}

func checkCreate(p *Prog, reg registry, n int, isNil bool, fail func(rule, pos, d string)) {
	w := newRegWorld(p, reg, n, 2, isNil, fail)
	done := 0
	for _, o := range w.run(reg.create, nil) {
		t, ok := o.val.(TupleV)
		if !ok || len(t) != 2 {
			panic(undecided("unknown result"))
		}
		if !w.success(o, t[1]) {
			w.check(o, w.uids, w.vals, "failed addition")
			continue
		}
		done++
		uid, ok := t[0].(*Lin)
		if !ok {
			panic(undecided("unknown identifier"))
		}
		for _, u := range w.uids {
			if !o.st.f.proveGE(w.e.A, w.e.A.addc(w.e.A.sub(uid, u), -1)) && !o.st.f.proveGE(w.e.A, w.e.A.addc(w.e.A.sub(u, uid), -1)) {
				if v, known := w.e.decide(o.st, w.e.eqForm(o.st, uid, u)); !known || v {
					fail("identifier", p.instrPos(o.in), "the identifier of an existing entry is given out again")
				}
			}
		}
		var v Val
		if _, isS := w.mapT.Elem().Underlying().(*types.Struct); isS {
			v = w.e.zeroVal(w.mapT.Elem())
		}
		w.check(o, append(append([]*Lin{}, w.uids...), uid), append(append([]Val{}, w.vals...), v), "addition")
	}
	if done == 0 {
		fail("refused", p.pos(p.method("builder", "Font", reg.create).Pos()), "no addition succeeds")
	}
}

// target makes the identifier of entry k, or one that isn't in use for k < 0
func (w *regWorld) target(k int) *Lin {
	if k >= 0 {
		return w.uids[k]
	}
	x := w.fresh("target", w.mapT.Key())
	for _, u := range w.uids {
		w.st.f.addNE(w.e.A, w.e.A.sub(x, u))
	}
	return x
}

func checkRemove(p *Prog, reg registry, n, k int, fail func(rule, pos, d string)) {
	w := newRegWorld(p, reg, n, 2, n == 0, fail)
	x := w.target(k)
	outs := w.run(reg.remove, []Val{x})
	if len(outs) == 0 {
		fail("refused", p.pos(p.method("builder", "Font", reg.remove).Pos()), "the removal doesn't return")
	}
	for _, o := range outs {
		if k < 0 {
			if w.success(o, o.val) {
				fail("result", p.instrPos(o.in), "the removal of an unknown entry reports success")
			}
			w.check(o, w.uids, w.vals, "removal of an unknown entry")
			continue
		}
		if !w.success(o, o.val) {
			fail("result", p.instrPos(o.in), "the removal of an existing entry reports a failure")
		}
		keys := append(append([]*Lin{}, w.uids[:k]...), w.uids[k+1:]...)
		vals := append(append([]Val{}, w.vals[:k]...), w.vals[k+1:]...)
		w.check(o, keys, vals, "removal")
	}
}

// memberArgs: the arguments that denote member m of a set, or one that isn't a member, in every way
func (w *regWorld) memberArgs(st types.Type, kind int, members []Val, m int, way int) []Val {
	if m >= 0 {
		if s, ok := members[m].(StructV); ok {
			return s.fields
		}
		return []Val{members[m]}
	}
	e := w.e
	if kind == 1 {
		x := w.fresh("member", st)
		for _, y := range members {
			w.st.f.addNE(e.A, e.A.sub(x, y.(*Lin)))
		}
		return []Val{x}
	}
	su := st.Underlying().(*types.Struct)
	r := []Val{w.fresh("first", su.Field(0).Type()), w.fresh("last", su.Field(1).Type())}
	for i, y := range members {
		f := way >> i & 1
		w.st.f.addNE(e.A, e.A.sub(r[f].(*Lin), y.(StructV).fields[f].(*Lin)))
	}
	return r
}

// checkMember runs the addition or removal of a member of set k
func checkMember(p *Prog, reg registry, add bool, kind, n, size, k, m, way int, fail func(rule, pos, d string)) {
	w := newRegWorld(p, reg, n, size, n == 0, fail)
	su, ok := w.mapT.Elem().Underlying().(*types.Struct)
	if !ok {
		panic(undecided("unknown sets"))
	}
	name := reg.rm[kind]
	if add {
		name = reg.add[kind]
	}
	x := w.target(k)
	var et types.Type
	var members []Val
	if n == 0 {
		w.value(0)
	}
	et = su.Field(w.fields[kind]).Type().Underlying().(*types.Slice).Elem()
	if k >= 0 {
		members = regElems(w.e, w.st, w.vals[k].(StructV).fields[w.fields[kind]], et)
		if m >= len(members) {
			return
		}
	}
	args := w.memberArgs(et, kind, members, m, way)
	pos := p.pos(p.method("builder", "Font", name).Pos())
	done := 0
	for _, o := range w.run(name, append([]Val{x}, args...)) {
		ok := w.success(o, o.val)
		if ok {
			done++
		}
		if !ok {
			w.check(o, w.uids, w.vals, "failed operation")
			if !add && m >= 0 {
				fail("result", p.instrPos(o.in), "the removal of an existing member reports a failure")
			}
			continue
		}
		if k < 0 {
			fail("result", p.instrPos(o.in), "an operation on an unknown set reports success")
			continue
		}
		if !add && m < 0 {
			fail("result", p.instrPos(o.in), "the removal of an unknown member reports success")
			continue
		}
		var now []Val
		now = append(now, members...)
		if add {
			if kind == 0 {
				now = append(now, StructV{typ: et, fields: args})
			} else {
				now = append(now, args[0])
			}
		} else {
			now = append(append([]Val{}, members[:m]...), members[m+1:]...)
		}
		vals := append([]Val{}, w.vals...)
		v := vals[k].(StructV)
		v.fields = append([]Val{}, v.fields...)
		old := w.st
		w.st = o.st
		v.fields[w.fields[kind]] = w.mkSlice(et, now)
		w.st = old
		vals[k] = v
		w.check(o, w.uids, vals, "operation on a member")
	}
	if done == 0 && k >= 0 && (add && m < 0 || !add && m >= 0) {
		fail("refused", pos, "no operation succeeds")
	}
}

// checkNew: a new builder has empty registries
func checkNewRegistries(p *Prog, fail func(rule, pos, d string)) {
	w := newRegWorld(p, registries[0], 0, 2, true, fail)
	fn := p.fn("builder", "New")
	if fn == nil {
		panic(undecided("no function New"))
	}
	w.e.OnPanic = nil
	n := 0
	for _, o := range w.e.callFn(fn, nil, nil, w.st.clone()) {
		pt, ok := o.val.(PtrV)
		if w.e.impossible(o.st) {
			continue
		}
		if !ok {
			panic(undecided("unknown result"))
		}
		n++
		for _, r := range registries {
			mt, ot := fieldType(w.fontT, r.mapField), fieldType(w.fontT, r.order)
			if mt == nil || ot == nil {
				panic(undecided("the registry " + r.name + " does not exist"))
			}
			m := w.e.readCell(o.st, pt.o, pt.skel+"."+r.mapField, pt.idx, mt)
			l, isM := m.(MapV)
			ln := w.e.c(0)
			if isM {
				ln = w.e.mapLen(o.st, l)
			} else if _, isNil := m.(NilV); !isNil {
				panic(undecided("unknown map"))
			}
			ord := regElems(w.e, o.st, w.e.readCell(o.st, pt.o, pt.skel+"."+r.order, pt.idx, ot), ot.(*types.Slice).Elem())
			if c, ok := ln.isConst(); !ok || c != 0 || len(ord) != 0 {
				fail("entries", p.instrPos(o.in), "the registry of "+r.name+" of a new builder isn't empty")
			}
		}
	}
	if n == 0 {
		panic(undecided("no outcome of New"))
	}
}

// registryWriters: only the operations that are decided change the registries
func registryWriters(p *Prog, r *Report) {
	fields := map[string]string{}
	allowed := map[string]bool{"New": true, "NewFrom": true, "ParseEditionData": true}
	for _, g := range registries {
		fields[g.mapField], fields[g.order] = g.name, g.name
		for _, n := range []string{g.create, g.remove, g.add[0], g.add[1], g.rm[0], g.rm[1]} {
			allowed[n] = true
		}
	}
	pk := p.pkg("builder")
	fontT := pk.Type("Font").Type()
	// functions reachable only from the decided operations
	callers := map[*ssa.Function][]*ssa.Function{}
	writes := map[*ssa.Function]string{}
	at := map[*ssa.Function]string{}
	isField := func(v ssa.Value) string {
		for i := 0; i < 8; i++ {
			switch x := v.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return ""
				}
				v = x.X
			case *ssa.FieldAddr:
				if types.Identical(x.X.Type().Underlying().(*types.Pointer).Elem(), fontT) {
					n := fontT.Underlying().(*types.Struct).Field(x.Field).Name()
					if fields[n] != "" {
						return n
					}
				}
				return ""
			default:
				return ""
			}
		}
		return ""
	}
	for _, fn := range p.Funcs {
		if fn.Pkg == nil || fn.Pkg != pk {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var f string
				switch x := in.(type) {
				case *ssa.Store:
					if _, ok := x.Addr.(*ssa.FieldAddr); ok {
						f = isField(x.Addr)
					}
				case *ssa.MapUpdate:
					f = isField(x.Map)
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
						f = isField(x.Common().Args[0])
					}
					if c := x.Common().StaticCallee(); c != nil {
						callers[c] = append(callers[c], fn)
					}
				}
				if f != "" {
					writes[fn], at[fn] = f, p.instrPos(in)
				}
			}
		}
	}
	var covered func(fn *ssa.Function, seen map[*ssa.Function]bool) bool
	covered = func(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
		for fn.Parent() != nil {
			fn = fn.Parent()
		}
		if allowed[fn.Name()] {
			return true
		}
		if seen[fn] || token.IsExported(fn.Name()) || len(callers[fn]) == 0 {
			return seen[fn]
		}
		seen[fn] = true
		for _, c := range callers[fn] {
			if !covered(c, seen) {
				return false
			}
		}
		return true
	}
	for _, fn := range p.Funcs {
		f := writes[fn]
		if f == "" {
			continue
		}
		r.check(covered(fn, map[*ssa.Function]bool{}), "writers", p.fname(fn)+" writes "+f, at[fn], "only the decided operations change the registry", "the registry is changed by an operation that isn't an addition or a removal")
	}
}

func checkP20(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the registry operations on symbolic registries of up to 3 entries, and effect analysis of the registry fields"
	run := func(key string, f func(fail func(rule, pos, d string))) {
		seen := map[string]bool{}
		(*acc)(nil).guardRun(r, "registry", key, func(fail func(rule, pos, d string)) {
			f(func(rule, pos, d string) {
				if k := rule + pos + d; !seen[k] {
					seen[k] = true
					fail(rule, pos, d)
				}
			})
		})
	}
	run("New", func(fail func(rule, pos, d string)) { checkNewRegistries(p, fail) })
	for _, reg := range registries {
		reg := reg
		run(reg.create, func(fail func(rule, pos, d string)) {
			for n := 0; n <= regMax; n++ {
				checkCreate(p, reg, n, false, fail)
			}
			if reg.remove != "" {
				checkCreate(p, reg, 0, true, fail)
			}
		})
		if reg.remove == "" {
			continue
		}
		run(reg.remove, func(fail func(rule, pos, d string)) {
			for n := 0; n <= regMax; n++ {
				for k := -1; k < n; k++ {
					checkRemove(p, reg, n, k, fail)
				}
			}
		})
		for kind := 0; kind < 2; kind++ {
			kind := kind
			for _, add := range []bool{true, false} {
				add := add
				name := reg.rm[kind]
				if add {
					name = reg.add[kind]
				}
				run(name, func(fail func(rule, pos, d string)) {
					for _, sz := range [][2]int{{0, 0}, {1, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}} {
						n := sz[0]
						for k := -1; k < n; k++ {
							ways := 1
							if kind == 0 && k >= 0 {
								ways = 1 << (sz[1] + k%2)
							}
							for way := 0; way < ways; way++ {
								checkMember(p, reg, add, kind, n, sz[1], k, -1, way, fail)
							}
							if k >= 0 {
								for m := 0; m < 3; m++ {
									checkMember(p, reg, add, kind, n, sz[1], k, m, 0, fail)
								}
							}
						}
					}
				})
			}
		}
	}
	registryWriters(p, r)
	r.atLeast("registry", 10)
	r.atLeast("writers", 4)
}
