package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// P16: the lifecycle of the rewrite testers.

func init() {
	checks["P16"] = checkP16
}

type tworld struct {
	p        *Prog
	e        *Engine
	st       *State
	pkg      string
	testerT  types.Type
	treeT    types.Type
	ruleT    types.Type
	o        *Obj
	trees    string // fields
	rules    string
	tail     string
	ghost    *Obj
	fail     func(rule, pos, d string)
	nrules   int
	compile  bool // record the rules that are compiled
	compiled map[string]*Lin
	initial  []Val
	dirty    *Form
	root     *ssa.Function // callees with loops are summarised
}

func namedRecv(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil {
		return ""
	}
	t := fn.Signature.Recv().Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// newTworld prepares a tester of the package with some trees and rules
func newTworld(p *Prog, pkg string, ntrees, nrules int, operating bool, fail func(rule, pos, d string)) *tworld {
	pk := p.pkg("internal/rerules/" + pkg)
	if pk == nil || pk.Type("Tester") == nil {
		panic(undecided("no type Tester"))
	}
	w := &tworld{p: p, pkg: pkg, nrules: nrules, testerT: pk.Type("Tester").Type(), fail: fail}
	e := newEngine(p)
	w.e = e
	e.MergeLimit = 64
	w.st = e.newState()
	w.o = e.symObj("tester", w.testerT)
	w.ghost = e.symObj("ghost", w.testerT)
	w.trees, w.treeT = structSlice(w.testerT, func(t types.Type) bool { return hasFields(t, "Condition") })
	w.rules, w.ruleT = structSlice(w.testerT, func(t types.Type) bool { return hasFields(t, "Data") })
	w.tail = fieldWhere(w.testerT, func(v *types.Var) bool { return types.Identical(v.Type(), types.Typ[types.Uint8]) })
	if w.trees == "" || w.rules == "" || w.tail == "" {
		panic(undecided("the state of the tester was not recognised"))
	}
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int {
		if w.loopOver(head) {
			return 6
		}
		return 0
	}
	e.Override = w.override
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
	}
	var ts []Val
	for i := 0; i < ntrees; i++ {
		t := e.symVal(w.treeT, fmt.Sprintf("tree%d", i), nil, nil)
		ts = append(ts, t)
	}
	e.writeCell(w.st, w.o, "."+w.trees, nil, types.NewSlice(w.treeT), w.mkSlice(w.st, w.treeT, ts))
	var rs []Val
	for i := 0; i < nrules; i++ {
		r := e.symVal(w.ruleT, fmt.Sprintf("rule%d", i), nil, nil)
		for _, f := range r.(StructV).fields {
			if s, ok := f.(SliceV); ok {
				w.st.f.addGE(e.A, e.A.addc(s.len, -11))
			}
		}
		rs = append(rs, r)
	}
	e.writeCell(w.st, w.o, "."+w.rules, nil, types.NewSlice(w.ruleT), w.mkSlice(w.st, w.ruleT, rs))
	w.setGhost(w.st, "held", 0)
	w.setGhost(w.st, "compiling", 0)
	w.setGhost(w.st, "begun", 0)
	w.setGhost(w.st, "failed", 0)
	w.setGhost(w.st, "called", 0)
	w.st = w.one(e.assume(w.st, w.operating(w.st), operating))
	if !operating {
		w.st.f.addEQ(e.A, w.pending(w.st))
		w.st.f.addEQ(e.A, w.tailOf(w.st))
	}
	// each tree has its own condition, in order
	for i := 1; i < len(ts); i++ {
		w.st.f.addGE(e.A, e.A.addc(e.A.sub(w.condOf(ts[i]), w.condOf(ts[i-1])), -1))
	}
	return w
}

func (w *tworld) one(sts []*State) *State {
	if len(sts) != 1 {
		panic(undecided("ambiguous initial state"))
	}
	return sts[0]
}

func (w *tworld) mkSlice(st *State, t types.Type, vals []Val) SliceV {
	e := w.e
	o := e.newObj("arr", "alloc", t)
	for i, v := range vals {
		e.writeCell(st, o, "[]", []*Lin{e.c(int64(i))}, t, v)
	}
	n := e.c(int64(len(vals)))
	return SliceV{o: o, off: e.c(0), len: n, cap: n}
}

// loopOver: the loop runs over the trees or the rules
func (w *tworld) loopOver(head *ssa.BasicBlock) bool {
	of := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		b, ok := c.Call.Value.(*ssa.Builtin)
		if !ok || b.Name() != "len" {
			return false
		}
		s, ok := c.Call.Args[0].Type().Underlying().(*types.Slice)
		return ok && (types.Identical(s.Elem(), w.treeT) || types.Identical(s.Elem(), w.ruleT))
	}
	for _, in := range head.Instrs {
		b, ok := in.(*ssa.BinOp)
		if ok && (b.Op == token.LSS || b.Op == token.GTR || b.Op == token.NEQ || b.Op == token.LEQ || b.Op == token.GEQ) && (of(b.X) || of(b.Y)) {
			return true
		}
	}
	return false
}

func (w *tworld) method(name string) *ssa.Function {
	fn := w.p.method("internal/rerules/"+w.pkg, "Tester", name)
	if fn == nil {
		panic(undecided("no method " + name))
	}
	return fn
}

// query calls a method without effects
func (w *tworld) query(st *State, name string) Val {
	save := w.e.OnPanic
	w.e.OnPanic = nil
	defer func() { w.e.OnPanic = save }()
	outs := w.e.callFn(w.method(name), []Val{PtrV{o: w.o}}, nil, st.clone())
	if len(outs) != 1 {
		panic(undecided(name + " isn't a simple query"))
	}
	return outs[0].val
}

func (w *tworld) operating(st *State) *Form {
	f, ok := w.query(st, "IsOperating").(*Form)
	if !ok {
		panic(undecided("unknown IsOperating"))
	}
	return f
}

func (w *tworld) pending(st *State) *Lin {
	for _, n := range []string{"NumPendingGlyphs", "NumPendingRunes", "NumPendingCodePoints", "NumPending"} {
		if w.p.method("internal/rerules/"+w.pkg, "Tester", n) != nil {
			l, ok := w.query(st, n).(*Lin)
			if !ok {
				panic(undecided("unknown " + n))
			}
			return l
		}
	}
	panic(undecided("the number of pending elements was not recognised"))
}

func (w *tworld) tailOf(st *State) *Lin {
	l, ok := w.e.readCell(st, w.o, "."+w.tail, nil, types.Typ[types.Uint8]).(*Lin)
	if !ok {
		panic(undecided("unknown tail"))
	}
	return l
}

func (w *tworld) setGhost(st *State, name string, v int64) {
	w.e.writeCell(st, w.ghost, "."+name, nil, types.Typ[types.Int], w.e.c(v))
}

func (w *tworld) getGhost(st *State, name string) (int64, bool) {
	l, ok := w.e.readCell(st, w.ghost, "."+name, nil, types.Typ[types.Int]).(*Lin)
	if !ok {
		return 0, false
	}
	return w.e.normLinTop(st, l).isConst()
}

func (w *tworld) ghostIs(st *State, name string, v int64) bool {
	k, ok := w.getGhost(st, name)
	return ok && k == v
}

// truth is the value of a condition
func (w *tworld) truth(st *State, cond Val) *Form {
	l, ok := cond.(*Lin)
	if !ok {
		panic(undecided("unknown condition"))
	}
	return &Form{op: "atom", name: "truth(" + w.e.normLinTop(st, l).key + ")"}
}

func (w *tworld) override(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	fail := func(rule, d string) {
		if !e.impossible(st) {
			w.fail(rule, w.p.instrPos(ci.in), d)
		}
	}
	one := func(v Val) ([]callOut, bool) { return []callOut{{st: st, val: v}}, true }
	if ci.fn == nil {
		if _, isB := ci.cc.Value.(*ssa.Builtin); !isB && ci.cc.StaticCallee() == nil && !ci.cc.IsInvoke() {
			w.setGhost(st, "called", 1) // a callback
			return one(e.freshVal(e.resType(ci), "callback"))
		}
		return nil, false
	}
	recv := namedRecv(ci.fn)
	if w.root != nil && ci.fn != w.root && recv == "Tester" && hasLoop(ci.fn) {
		w.summary(st)
		return one(e.freshVal(e.resType(ci), ci.fn.Name()))
	}
	name := ci.fn.Name()
	if i := strings.IndexByte(name, '['); i > 0 {
		name = name[:i]
	}
	switch recv + "." + name {
	case "SingleInstancePool.Retrieve":
		if !w.ghostIs(st, "held", 0) {
			fail("pool", "the shared compiler is retrieved while it is held")
		}
		w.setGhost(st, "held", 1)
		t := ci.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return one(PtrV{o: e.symObj("compiler", t)})
	case "SingleInstancePool.Release":
		if !w.ghostIs(st, "held", 1) {
			fail("pool", "the shared compiler is released while it isn't held")
		}
		if !w.ghostIs(st, "compiling", 0) {
			fail("compiler", "the compiler is released in the middle of a compilation")
		}
		w.setGhost(st, "held", 0)
		return one(TupleV{})
	case "DecisionTreeCompiler.Begin":
		if !w.ghostIs(st, "compiling", 0) || !w.ghostIs(st, "held", 1) {
			fail("compiler", "a compilation begins while another one is ongoing or the compiler isn't held")
		}
		w.setGhost(st, "compiling", 1)
		w.setGhost(st, "begun", 1)
		w.setGhost(st, "fed", 0)
		if w.compile {
			w.beginTree(st, ci)
		}
		return one(TupleV{})
	case "DecisionTreeCompiler.Feed":
		if !w.ghostIs(st, "compiling", 1) {
			fail("compiler", "a rule is compiled outside of a compilation")
		}
		w.fed(st, ci, fail)
		bad := st.clone()
		w.setGhost(bad, "failed", 1)
		return []callOut{{st: st, val: NilV{}}, {st: bad, val: e.errVal("compile")}}, true
	case "DecisionTreeCompiler.Finish":
		if !w.ghostIs(st, "compiling", 1) {
			fail("compiler", "a compilation is finished that isn't ongoing")
		}
		w.setGhost(st, "compiling", 0)
		v := e.freshVal(e.resType(ci), "compiled states")
		if w.compile && w.ghostIs(st, "failed", 0) {
			w.finishTree(st, v, fail)
		}
		return one(v)
	case "SettingsCache.GetRewriteCondition":
		res := ci.fn.Signature.Results()
		if res.Len() != 2 {
			return nil, false
		}
		un := st.clone()
		return []callOut{{st: st, val: TupleV{w.truth(st, ci.args[1]), formT}}, {st: un, val: TupleV{formF, formF}}}, true
	case "SettingsCache.CacheRewriteCondition":
		f, ok := ci.args[2].(*Form)
		if !ok {
			panic(undecided("unknown cached value"))
		}
		t := w.truth(st, ci.args[1])
		if valKey(f) != valKey(t) {
			for _, b := range []bool{true, false} {
				for _, s := range e.assume(st.clone(), t, b) {
					if v, known := e.decide(s, f); !e.impossible(s) && (!known || v != b) {
						fail("condition", "the cached value isn't the value of the condition")
					}
				}
			}
		}
		return one(TupleV{})
	case "FontRewrites.EvaluateCondition":
		return one(w.truth(st, ci.args[1]))
	case "SettingsCache.UnsafeSlice":
		return one(e.symVal(e.resType(ci), "settings", nil, nil))
	case "State.Trigger":
		res := ci.fn.Signature.Results()
		var t TupleV
		for i := 0; i < res.Len(); i++ {
			t = append(t, e.freshVal(res.At(i).Type(), "trigger"))
		}
		return one(t)
	case w.ruleT.(*types.Named).Obj().Name() + ".InLen":
		if w.compile && w.nrules > 1 {
			// the lengths only matter for the room in the accumulator: one suffices here,
			// the analysis with a single rule considers them all
			return one(e.c(3))
		}
		return nil, false
	case "State.SatisfiesMinRequiredHead":
		return one(e.freshVal(e.resType(ci), "head"))
	}
	return nil, false
}

// statesOf finds the compiled states of a tree
func (w *tworld) statesOf(t Val) Val {
	var find func(v Val, t types.Type) Val
	find = func(v Val, t types.Type) Val {
		sv, ok := v.(StructV)
		su, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 {
			return nil
		}
		for i := 0; i < su.NumFields(); i++ {
			if _, ok := su.Field(i).Type().Underlying().(*types.Slice); ok {
				return sv.fields[i]
			}
			if r := find(sv.fields[i], su.Field(i).Type()); r != nil {
				return r
			}
		}
		return nil
	}
	v := find(t, w.treeT)
	if v == nil {
		panic(undecided("the states of the trees were not recognised"))
	}
	return v
}

func (w *tworld) condOf(t Val) *Lin {
	v, _ := structField(t, w.treeT, "Condition")
	l, ok := v.(*Lin)
	if !ok {
		panic(undecided("unknown condition"))
	}
	return l
}

// beginTree notes which tree is compiled
func (w *tworld) beginTree(st *State, ci *callInfo) {
	for _, a := range ci.args {
		if _, ok := a.(SliceV); !ok {
			continue
		}
		for _, t := range w.treeVals(st) {
			if valKey(w.statesOf(t)) == valKey(a) {
				w.e.writeCell(st, w.ghost, ".cond", nil, types.Typ[types.Int], w.condOf(t))
				return
			}
		}
	}
	panic(undecided("the tree of a compilation was not recognised"))
}

// finishTree: exactly the rules with the condition of the tree have been compiled
func (w *tworld) finishTree(st *State, v Val, fail func(rule, d string)) {
	e := w.e
	cond, ok := e.readCell(st, w.ghost, ".cond", nil, types.Typ[types.Int]).(*Lin)
	fed, known := w.getGhost(st, "fed")
	if !ok || !known {
		panic(undecided("the compilation was not recognised"))
	}
	w.compiled[valKey(v)] = cond
	for k, r := range regElems(e, st, e.readCell(st, w.o, "."+w.rules, nil, types.NewSlice(w.ruleT)), w.ruleT) {
		c := w.ruleCond(st, r)
		for _, b := range []bool{true, false} {
			for _, s := range e.assume(st.clone(), e.eq(e.A.sub(c, cond)), b) {
				if !e.impossible(s) && (fed>>uint(k)&1 == 1) != b {
					fail("rules", "the rules that are compiled aren't those with the condition of the tree")
					return
				}
			}
		}
	}
}

func hasLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
	}
	return false
}

// summary of a step of an ongoing sequence: the mode and the conditions stay, inactive trees stay inactive
func (w *tworld) summary(st *State) {
	e := w.e
	su := w.testerT.Underlying().(*types.Struct)
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		switch f.Name() {
		case w.trees:
			s, ok := e.readCell(st, w.o, "."+w.trees, nil, f.Type()).(SliceV)
			if !ok {
				panic(undecided("unknown trees"))
			}
			for k, t := range w.treeVals(st) {
				cv, _ := structField(t, w.treeT, "ConditionCachedValue")
				if on, known := e.decide(st, cv.(*Form)); known && !on {
					continue
				}
				tu := w.treeT.Underlying().(*types.Struct)
				for j := 0; j < tu.NumFields(); j++ {
					f := tu.Field(j)
					switch f.Name() {
					case "ConditionCachedValue", "ConditionIsCached", "Condition", "NeedsResync":
					default:
						n := e.symVal(f.Type(), fmt.Sprintf("tree%d.%s~%d", k, f.Name(), e.nver), nil, nil)
						e.nver++
						e.writeCell(st, s.o, s.skel+"[]."+f.Name(), append(append([]*Lin{}, s.idx...), e.A.addc(s.off, int64(k))), f.Type(), n)
					}
				}
			}
		case w.rules:
		default:
			if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				continue
			}
			e.writeCell(st, w.o, "."+f.Name(), nil, f.Type(), e.freshVal(f.Type(), f.Name()))
		}
	}
}

// units are the functions with loops that an operation of an ongoing sequence runs, and the operation itself
func (w *tworld) units(root *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{root: true}
	todo := []*ssa.Function{root}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if fn == root || hasLoop(fn) {
			out = append(out, fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && !seen[g] && namedRecv(g) == "Tester" && g.Pkg == root.Pkg {
						seen[g] = true
						todo = append(todo, g)
					}
				}
			}
		}
	}
	return out
}

// fed: the rule that is compiled has the condition of the tree being compiled and its own index
func (w *tworld) fed(st *State, ci *callInfo, fail func(rule, d string)) {
	if !w.compile || len(ci.args) != 3 {
		return
	}
	e := w.e
	idx, ok := ci.args[2].(*Lin)
	if !ok {
		panic(undecided("unknown rule index"))
	}
	k, ok := e.normLinTop(st, idx).isConst()
	rs := regElems(e, st, e.readCell(st, w.o, "."+w.rules, nil, types.NewSlice(w.ruleT)), w.ruleT)
	if !ok || k < 0 || int(k) >= len(rs) || valKey(rs[k]) != valKey(ci.args[1]) {
		fail("rules", "a rule is compiled with an index that isn't its own")
		return
	}
	l, _ := e.readCell(st, w.ghost, ".fed", nil, types.Typ[types.Int]).(*Lin)
	f, known := e.normLinTop(st, l).isConst()
	if !known || f>>uint(k)&1 != 0 {
		fail("rules", "a rule is compiled twice")
		return
	}
	w.setGhost(st, "fed", f|1<<uint(k))
}

// treeVals reads the trees
func (w *tworld) treeVals(st *State) []Val {
	return regElems(w.e, st, w.e.readCell(st, w.o, "."+w.trees, nil, types.NewSlice(w.treeT)), w.treeT)
}

func structField(v Val, t types.Type, name string) (Val, types.Type) {
	sv, ok := v.(StructV)
	su, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return nil, nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return sv.fields[i], su.Field(i).Type()
		}
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Embedded() {
			if v, t := structField(sv.fields[i], su.Field(i).Type(), name); v != nil {
				return v, t
			}
		}
	}
	return nil, nil
}

// args makes symbolic arguments for a method
// checkChange: after a rule is added or removed, the tree with its condition is compiled before
// the next sequence
func checkChange(p *Prog, pkg, name string, n int, compile bool, fail func(rule, pos, d string)) {
	w := newTworld(p, pkg, n, n, false, fail)
	w.e.MergeLimit = 1 << 20
	w.e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int {
		if w.loopOver(head) || namedRecv(fn) == "Tester" {
			return 6
		}
		return 0
	}
	fn := w.method(name)
	args := w.args(fn)
	e := w.e
	initial := w.treeVals(w.st)
	if name == "AddRule" {
		// with room for another tree, that holds what an earlier one left
		room := w.mkSlice(w.st, w.treeT, append(append([]Val{}, initial...), e.symVal(w.treeT, "stale tree", nil, nil)))
		room.len = e.c(int64(n))
		e.writeCell(w.st, w.o, "."+w.trees, nil, types.NewSlice(w.treeT), room)
	}
	changed := 0
	for _, o := range e.callFn(fn, args, nil, w.st.clone()) {
		if e.impossible(o.st) {
			continue
		}
		count := int64(n)
		if fn.Signature.Results().Len() > 0 {
			f, ok := o.val.(*Form)
			if !ok {
				f = e.isNilForm(o.val)
			}
			done, known := e.decide(o.st, f)
			if !known {
				panic(undecided("the result of " + name + " is not decided"))
			}
			if !done {
				if l, ok := w.query(o.st, "NumRules").(*Lin); !ok || !o.st.f.proveEQ(e.A, e.A.addc(l, -count)) {
					fail("rules", p.instrPos(o.in), "after a failed "+name+" the number of rules is different")
				}
				continue
			}
		}
		count = map[string]int64{"AddRule": count + 1, "RemoveRule": count - 1}[name]
		if l, ok := w.query(o.st, "NumRules").(*Lin); !ok || !o.st.f.proveEQ(e.A, e.A.addc(l, -count)) {
			fail("rules", p.instrPos(o.in), "after "+name+" the number of rules isn't the expected one")
		}
		changed++
		ts := w.treeVals(o.st)
		for i := 1; i < len(ts); i++ {
			if !o.st.f.proveGE(e.A, e.A.addc(e.A.sub(w.condOf(ts[i]), w.condOf(ts[i-1])), -1)) {
				fail("rules", p.instrPos(o.in), "after "+name+" the trees aren't ordered by their conditions")
			}
		}
		if !compile {
			continue
		}
		x := *w
		x.st = o.st
		x.compile = true
		x.compiled = map[string]*Lin{}
		x.initial = nil
		x.dirty = formT
		e.Override = x.override
		var cond *Lin
		if len(args) > 1 {
			cond = x.ruleCond(o.st, args[1])
		}
		for _, o2 := range x.run("BeginSequence") {
			if !x.isNil(o2) {
				continue
			}
			found := false
			for _, t := range x.treeVals(o2.st) {
				c := x.condOf(t)
				if name == "AddRule" {
					isNew := true
					for _, i := range initial {
						isNew = isNew && !o2.st.f.proveEQ(e.A, e.A.sub(w.condOf(i), c))
					}
					if isNew {
						x.current(o2, t)
					}
				}
				if _, ok := x.compiled[valKey(x.statesOf(t))]; ok {
					found = found || cond != nil && o2.st.f.proveEQ(e.A, e.A.sub(c, cond))
					continue
				}
				same := formT
				if cond != nil {
					same = e.eq(e.A.sub(c, cond))
				}
				for _, s := range e.assume(o2.st.clone(), same, true) {
					if !e.impossible(s) {
						fail("rules", p.instrPos(o.in), "after "+name+" a sequence begins without compiling the rules with the same condition")
					}
				}
			}
			if !found && name == "AddRule" {
				fail("rules", p.instrPos(o.in), "after AddRule a sequence begins without compiling the rule")
			}
		}
		e.Override = w.override
	}
	if changed == 0 && (name != "RemoveRule" || n > 0) {
		fail("undecided", p.pos(fn.Pos()), "no outcome was recognised")
	}
}

func (w *tworld) ruleCond(st *State, r Val) *Lin {
	fn := w.p.method("", w.ruleT.(*types.Named).Obj().Name(), "Condition")
	if fn == nil {
		panic(undecided("no method Condition"))
	}
	o := w.e.newObj("rule", "alloc", w.ruleT)
	s := st.clone()
	w.e.writeCell(s, o, "", nil, w.ruleT, r)
	outs := w.e.callFn(fn, []Val{PtrV{o: o}}, nil, s)
	if len(outs) != 1 {
		panic(undecided("unknown condition of a rule"))
	}
	l, ok := outs[0].val.(*Lin)
	if !ok {
		panic(undecided("unknown condition of a rule"))
	}
	return l
}

func (w *tworld) args(fn *ssa.Function) []Val {
	args := []Val{PtrV{o: w.o}}
	for _, pa := range fn.Params[1:] {
		args = append(args, w.e.symVal(pa.Type(), "arg:"+pa.Name(), nil, nil))
	}
	return args
}

func (w *tworld) run(name string) []outcome {
	fn := w.method(name)
	var out []outcome
	for _, o := range w.e.callFn(fn, w.args(fn), nil, w.st.clone()) {
		if !w.e.impossible(o.st) {
			out = append(out, o)
		}
	}
	return out
}

var testerForbid = []string{"Resync", "RemoveAllRules", "AddRule", "RemoveRule", "BeginSequence"}
var testerNeed = []string{"Feed", "Break", "FinishSequence"}

// refusal: the operation panics in the wrong mode, before doing anything
func checkRefusal(p *Prog, pkg, name string, operating bool, fail func(rule, pos, d string)) {
	for n := 0; n <= 1; n++ {
		w := newTworld(p, pkg, n, n, operating, fail)
		panics := 0
		w.e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
			if e.impossible(st) {
				return
			}
			panics++
			if _, isP := in.(*ssa.Panic); !isP {
				fail("refusal", p.instrPos(in), "in the wrong mode the operation runs until "+kind)
			}
			if !w.ghostIs(st, "called", 0) {
				fail("refusal", p.instrPos(in), "the operation calls back before it refuses to run")
			}
		}
		for _, o := range w.run(name) {
			fail("refusal", p.instrPos(o.in), "the operation runs in the wrong mode")
		}
		if panics == 0 {
			fail("refusal", p.pos(w.method(name).Pos()), "the operation doesn't refuse to run in the wrong mode")
		}
	}
}

// after checks what holds after each operation
func (w *tworld) after(o outcome, operating bool, what string) {
	pos := w.p.instrPos(o.in)
	v, known := w.e.decide(o.st, w.operating(o.st))
	if !known || v != operating {
		w.fail("operating", pos, fmt.Sprintf("%s: the tester isn't left in the expected mode (operating %v)", what, operating))
	}
	if !operating {
		if !o.st.f.proveEQ(w.e.A, w.pending(o.st)) || !o.st.f.proveEQ(w.e.A, w.tailOf(o.st)) {
			w.fail("pending", pos, what+": elements stay pending without an ongoing sequence")
		}
	}
	if !w.ghostIs(o.st, "held", 0) {
		w.fail("pool", pos, what+": the shared compiler isn't released")
	}
	if !w.ghostIs(o.st, "compiling", 0) {
		w.fail("compiler", pos, what+": a compilation isn't finished")
	}
}

func isErrResult(fn *ssa.Function) bool {
	r := fn.Signature.Results()
	return r.Len() == 1 && r.At(0).Type().String() == "error"
}

func (w *tworld) isNil(o outcome) bool {
	v, known := w.e.decide(o.st, w.e.isNilForm(o.val))
	if !known {
		panic(undecided("the error isn't decided"))
	}
	return v
}

// idle operations leave the mode alone
func checkMode(p *Prog, pkg, name string, operating bool, fail func(rule, pos, d string)) {
	for _, n := range [][2]int{{0, 0}, {1, 1}, {2, 2}} {
		w := newTworld(p, pkg, n[0], n[1], operating, fail)
		outs := w.run(name)
		if len(outs) == 0 {
			fail("undecided", p.pos(w.method(name).Pos()), "no outcome was recognised")
		}
		for _, o := range outs {
			w.after(o, operating && name != "FinishSequence", name)
		}
	}
}

func checkBegin(p *Prog, pkg string, fail func(rule, pos, d string)) {
	for _, n := range [][2]int{{0, 0}, {1, 1}, {2, 2}} {
		w := newTworld(p, pkg, n[0], n[1], false, fail)
		w.compile = true
		w.compiled = map[string]*Lin{}
		w.initial = w.treeVals(w.st)
		df := fieldWhere(w.testerT, func(v *types.Var) bool { return v.Name() == "needsRecompile" })
		w.dirty = formT
		if f, ok := w.e.readCell(w.st, w.o, "."+df, nil, types.Typ[types.Bool]).(*Form); ok && df != "" {
			w.dirty = f
		}
		w.e.MergeLimit = 1 << 20
		good, bad := 0, 0
		for _, o := range w.run("BeginSequence") {
			if !w.isNil(o) {
				bad++
				w.after(o, false, "failed BeginSequence")
				// the next attempt compiles again
				x := *w
				x.st = o.st
				w.setGhost(x.st, "begun", 0)
				w.setGhost(x.st, "failed", 0)
				for _, o2 := range x.run("BeginSequence") {
					if x.isNil(o2) && !x.ghostIs(o2.st, "begun", 1) {
						fail("retry", p.instrPos(o2.in), "after a failed attempt a sequence begins without compiling the rules")
					}
				}
				continue
			}
			good++
			if !w.ghostIs(o.st, "failed", 0) {
				fail("operating", p.instrPos(o.in), "a sequence begins although the compilation failed")
			}
			w.after(o, true, "BeginSequence")
			if !o.st.f.proveEQ(w.e.A, w.pending(o.st)) || !o.st.f.proveEQ(w.e.A, w.tailOf(o.st)) {
				fail("pending", p.instrPos(o.in), "a sequence begins with pending elements")
			}
			for _, t := range w.treeVals(o.st) {
				w.treeOk(o, t, true)
				w.treeCompiled(o, t)
			}
			w.deleted(o)
		}
		if good == 0 || bad == 0 && n[0] > 0 {
			fail("undecided", p.pos(w.method("BeginSequence").Pos()), "no outcome was recognised")
		}
	}
}

// deleted: only trees without rules may be dropped
func (w *tworld) deleted(o outcome) {
	e := w.e
	rules := regElems(e, o.st, e.readCell(o.st, w.o, "."+w.rules, nil, types.NewSlice(w.ruleT)), w.ruleT)
	for _, i := range w.initial {
		kept := false
		for _, t := range w.treeVals(o.st) {
			kept = kept || o.st.f.proveEQ(e.A, e.A.sub(w.condOf(i), w.condOf(t)))
		}
		if kept {
			continue
		}
		for _, r := range rules {
			for _, s := range e.assume(o.st.clone(), e.eq(e.A.sub(w.ruleCond(o.st, r), w.condOf(i))), true) {
				if !e.impossible(s) {
					w.fail("rules", w.p.instrPos(o.in), "the tree of a rule is dropped")
				}
			}
		}
	}
}

// treeCompiled: the states of a tree that needs it are those compiled for its condition
func (w *tworld) treeCompiled(o outcome, t Val) {
	e := w.e
	k := valKey(w.statesOf(t))
	if c := w.compiled[k]; c != nil {
		if !o.st.f.proveEQ(e.A, e.A.sub(c, w.condOf(t))) {
			w.fail("rules", w.p.instrPos(o.in), "a tree has the compiled rules of another condition")
		}
		return
	}
	for _, i := range w.initial {
		if valKey(w.statesOf(i)) != k {
			continue
		}
		v, _ := structField(i, w.treeT, "NeedsResync")
		need, known := e.decide(o.st, v.(*Form))
		all, known2 := e.decide(o.st, w.dirty)
		if (!known2 || all) && (!known || need) {
			w.fail("rules", w.p.instrPos(o.in), "a tree isn't compiled although its rules changed")
		}
		return
	}
	w.fail("rules", w.p.instrPos(o.in), "a tree has states that weren't compiled for it")
}

// treeOk: a tree whose condition doesn't hold is neither scanning nor has it a match
func (w *tworld) treeOk(o outcome, t Val, begin bool) {
	e := w.e
	get := func(n string) *Form {
		v, _ := structField(t, w.treeT, n)
		f, ok := v.(*Form)
		if !ok {
			panic(undecided("the field " + n + " of the trees was not recognised"))
		}
		return f
	}
	mv, mt := structField(t, w.treeT, "bestMatch")
	m, ok := mv.(*Lin)
	if !ok {
		panic(undecided("the match of the trees was not recognised"))
	}
	none := w.none(mt)
	cond, scan := get("ConditionCachedValue"), get("isScanning")
	for _, b := range []bool{true, false} {
		for _, s := range e.assume(o.st.clone(), cond, b) {
			if e.impossible(s) {
				continue
			}
			sc, known := e.decide(s, scan)
			if begin && b && (!known || !sc) {
				w.fail("condition", w.p.instrPos(o.in), "a tree whose condition holds doesn't take part")
			}
			if !b && (!known || sc) {
				w.fail("condition", w.p.instrPos(o.in), "a tree whose condition doesn't hold takes part")
			}
			if (!b || begin) && !s.f.proveEQ(e.A, e.A.sub(m, none)) {
				w.fail("condition", w.p.instrPos(o.in), "a tree has a match that doesn't belong to the sequence")
			}
		}
	}
}

func (w *tworld) none(t types.Type) *Lin {
	c, ok := w.p.pkg("internal/rerules/" + w.pkg).Members["RuleNone"].(*ssa.NamedConst)
	if !ok {
		panic(undecided("no constant RuleNone"))
	}
	l, ok := w.e.constVal(c.Value).(*Lin)
	if !ok {
		panic(undecided("unknown constant RuleNone"))
	}
	return l
}

// inactiveInv: the trees outside of the mask don't take part
func (w *tworld) inactiveInv(mask int) *loopInv {
	e := w.e
	return &loopInv{
		holds: func(st *State) bool {
			for i, t := range w.treeVals(st) {
				if mask>>uint(i)&1 == 1 {
					continue
				}
				sc, _ := structField(t, w.treeT, "isScanning")
				m, mt := structField(t, w.treeT, "bestMatch")
				if v, known := e.decide(st, sc.(*Form)); !known || v || !st.f.proveEQ(e.A, e.A.sub(m.(*Lin), w.none(mt))) {
					return false
				}
			}
			return true
		},
		assume: func(st *State) {
			s, ok := e.readCell(st, w.o, "."+w.trees, nil, types.NewSlice(w.treeT)).(SliceV)
			if !ok {
				panic(undecided("unknown trees"))
			}
			for i, t := range w.treeVals(st) {
				if mask>>uint(i)&1 == 1 {
					continue
				}
				idx := append(append([]*Lin{}, s.idx...), e.A.addc(s.off, int64(i)))
				_, mt := structField(t, w.treeT, "bestMatch")
				e.writeCell(st, s.o, s.skel+"[]"+fieldPath(w.treeT, "isScanning"), idx, types.Typ[types.Bool], formF)
				e.writeCell(st, s.o, s.skel+"[]"+fieldPath(w.treeT, "bestMatch"), idx, mt, w.none(mt))
			}
		},
		broken: func(fn *ssa.Function, head *ssa.BasicBlock) {
			w.fail("condition", w.p.pos(fn.Pos()), "a loop of "+fn.Name()+" lets a tree take part whose condition doesn't hold")
		},
	}
}

// fieldPath is the path of a field, possibly of an embedded struct
func fieldPath(t types.Type, name string) string {
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == name {
			return "." + name
		}
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Embedded() {
			if p := fieldPath(su.Field(i).Type(), name); p != "" {
				return "." + su.Field(i).Name() + p
			}
		}
	}
	return ""
}

// checkOngoing: the steps of an ongoing sequence keep the mode and the conditions, and trees whose condition doesn't
// hold never take part
func checkOngoing(p *Prog, pkg, name string, ntrees int, fail func(rule, pos, d string)) {
	for mask := 0; mask < 1<<uint(ntrees); mask++ {
		units := newTworld(p, pkg, 0, 0, true, fail)
		for _, fn := range units.units(units.method(name)) {
			w := newTworld(p, pkg, ntrees, 1, true, fail)
			w.root = fn
			e := w.e
			var conds []*Form
			for i, t := range w.treeVals(w.st) {
				cv, _ := structField(t, w.treeT, "ConditionCachedValue")
				sc, _ := structField(t, w.treeT, "isScanning")
				m, mt := structField(t, w.treeT, "bestMatch")
				if cv == nil || sc == nil || m == nil {
					panic(undecided("the fields of the trees were not recognised"))
				}
				on := mask>>uint(i)&1 == 1
				conds = append(conds, cv.(*Form))
				w.st = w.one(e.assume(w.st, cv.(*Form), on))
				if !on {
					w.st = w.one(e.assume(w.st, sc.(*Form), false))
					w.st.f.addEQ(e.A, e.A.sub(m.(*Lin), w.none(mt)))
				}
			}
			e.LoopInv = w.inactiveInv(mask)
			n := 0
			for _, o := range e.callFn(fn, w.args(fn), nil, w.st.clone()) {
				if e.impossible(o.st) {
					continue
				}
				n++
				v, known := e.decide(o.st, w.operating(o.st))
				if finish := fn.Name() == "FinishSequence"; !known || v == finish {
					fail("operating", p.instrPos(o.in), fmt.Sprintf("%s: the tester isn't left in the expected mode (operating %v)", fn.Name(), !finish))
				} else if finish {
					w.after(o, false, fn.Name())
				}
				ts := w.treeVals(o.st)
				if len(ts) != ntrees {
					fail("condition", p.instrPos(o.in), "the number of trees changes during a sequence")
					continue
				}
				for i, t := range ts {
					cv, _ := structField(t, w.treeT, "ConditionCachedValue")
					f, ok := cv.(*Form)
					if !ok {
						panic(undecided("unknown condition"))
					}
					if v, known := e.decide(o.st, f); (!known || v != (mask>>uint(i)&1 == 1)) && valKey(f) != valKey(conds[i]) {
						fail("condition", p.instrPos(o.in), "the condition of a tree changes during a sequence")
						continue
					}
					w.treeOk(o, t, false)
				}
			}
			if n == 0 {
				panic(undecided("no outcome of " + fn.Name()))
			}
		}
	}
}

// refreshed: the conditions of the trees get their current values
func checkRefresh(p *Prog, pkg string, ntrees int, fail func(rule, pos, d string)) {
	w := newTworld(p, pkg, ntrees, 0, false, fail)
	outs := w.run("RefreshConditions")
	if len(outs) == 0 {
		panic(undecided("no outcome"))
	}
	for _, o := range outs {
		for _, t := range w.treeVals(o.st) {
			w.current(o, t)
		}
	}
}

// current: the cached value of the condition of a tree is its value
func (w *tworld) current(o outcome, t Val) {
	e := w.e
	cv, _ := structField(t, w.treeT, "ConditionCachedValue")
	cond, _ := structField(t, w.treeT, "Condition")
	f, ok1 := cv.(*Form)
	l, ok2 := cond.(*Lin)
	if !ok1 || !ok2 {
		panic(undecided("the fields of the trees were not recognised"))
	}
	always := e.eq(e.A.addc(l, -255))
	for _, s := range e.assume(o.st.clone(), always, true) {
		if v, known := e.decide(s, f); !e.impossible(s) && (!known || !v) {
			w.fail("condition", w.p.instrPos(o.in), "rules without a condition don't always take part")
		}
	}
	tr := w.truth(o.st, l)
	for _, s := range e.assume(o.st.clone(), always, false) {
		for _, b := range []bool{true, false} {
			for _, s2 := range e.assume(s.clone(), tr, b) {
				if v, known := e.decide(s2, f); !e.impossible(s2) && (!known || v != b) {
					w.fail("condition", w.p.instrPos(o.in), "the value of a condition isn't the current one")
				}
			}
		}
	}
}

func checkP16(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the tester operations with the mode, the shared compiler and the compilation as typestates"
	run := func(key string, f func(fail func(rule, pos, d string))) {
		if f := os.Getenv("P16"); f != "" && !strings.Contains(key, f) {
			return
		}
		if os.Getenv("DBG") != "" {
			fmt.Fprintln(os.Stderr, time.Now().Format("15:04:05"), key)
		}
		seen := map[string]bool{}
		(*acc)(nil).guardRun(r, "lifecycle", key, func(fail func(rule, pos, d string)) {
			f(func(rule, pos, d string) {
				if k := rule + pos + d; !seen[k] {
					seen[k] = true
					fail(rule, pos, d)
				}
			})
		})
	}
	for _, pkg := range []string{"glyphrule", "utf8rule"} {
		pkg := pkg
		for _, n := range testerForbid {
			n := n
			run(pkg+"."+n+" refuses", func(fail func(rule, pos, d string)) { checkRefusal(p, pkg, n, true, fail) })
			if n != "BeginSequence" {
				run(pkg+"."+n+" mode", func(fail func(rule, pos, d string)) { checkMode(p, pkg, n, false, fail) })
			}
		}
		for _, n := range testerNeed {
			n := n
			run(pkg+"."+n+" refuses", func(fail func(rule, pos, d string)) { checkRefusal(p, pkg, n, false, fail) })
			for k := 0; k <= 2; k++ {
				k := k
				run(fmt.Sprintf("%s.%s with %d trees", pkg, n, k), func(fail func(rule, pos, d string)) { checkOngoing(p, pkg, n, k, fail) })
			}
		}
		run(pkg+".RefreshConditions mode", func(fail func(rule, pos, d string)) {
			checkMode(p, pkg, "RefreshConditions", false, fail)
			checkMode(p, pkg, "RefreshConditions", true, fail)
		})
		run(pkg+".BeginSequence", func(fail func(rule, pos, d string)) { checkBegin(p, pkg, fail) })
		for _, n := range []string{"AddRule", "RemoveRule", "RemoveAllRules"} {
			for k := 0; k <= 2; k++ {
				n, k := n, k
				run(fmt.Sprintf("%s.%s with %d rules", pkg, n, k), func(fail func(rule, pos, d string)) { checkChange(p, pkg, n, k, n != "AddRule" || k < 2, fail) })
			}
		}
		run(pkg+".RefreshConditions", func(fail func(rule, pos, d string)) { checkRefresh(p, pkg, 2, fail) })
	}
	r.atLeast("lifecycle", 30)
}
