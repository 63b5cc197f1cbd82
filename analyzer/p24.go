package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P24: conservation of the elements of a sequence. The testers are analysed with the decision trees as an arbitrary
// oracle: each step of the detection may go on or stop, and may report any rule whose input has the length scanned so far.
// From the beginning of a sequence, feeding, breaking and finishing are interpreted on symbolic elements until no new
// configuration of the tester arises, so histories of any length are covered for the rules considered. The elements
// reported, the outputs of rules and the elements fed to the detection are compared with a model of the sequence.

func init() {
	checks["P24"] = checkP24
}

type rwRule struct{ h, b, t, out, cond int } // cond: condition number + 1, 0 if unconditional

func (r rwRule) len() int { return r.h + r.b + r.t }

type rwEl struct{ v Val } // reported element

type rwFed struct { // step of the detection of a tree
	tree     string
	v        Val
	min      Val // minimum length of the head, nil if unrestricted
	scanning bool
	match    int // -1: none
}

type rwBegin struct {
	tree string
	p    PtrV
} // the detection of a tree starts

type rwCfg struct {
	st    *State
	n     int // number of elements of the input
	p     int // next unreported element
	s     int // first pending element
	trees map[string]rwTree
	// application of a rule in progress
	rule, outs, tail int
	depth            int
}

type rwTree struct {
	scanning bool
	fed      int // next element of the detection, -1 if it restarted, -2 if it must restart
	prev     int // what fed was before the restart
	match    int // -1: none
}

// scanning reports whether a detection is ongoing
func (c *rwCfg) scanning() bool {
	for _, t := range c.trees {
		if t.scanning {
			return true
		}
	}
	return false
}

// match returns the rule found
func (c *rwCfg) match() int {
	m := -1
	for _, t := range c.trees {
		if t.match >= 0 && (m < 0 || t.match < m) {
			m = t.match
		}
	}
	return m
}

type rwWorld struct {
	p        *Prog
	e        *Engine
	pkg      string
	rules    []rwRule
	o        *Obj
	t        types.Type
	elemT    types.Type
	ids      map[string]int // elements by key
	scanF    string
	matchF   string
	statesF  string
	sets     map[*Obj]int64 // rules of compiled states
	ruleObjs []*Obj
	none     *Lin
	fail     func(rule, pos, d string)
	name     string
}

func (w *rwWorld) method(name string) *ssa.Function {
	f := w.p.method("internal/rerules/"+w.pkg, "Tester", name)
	if f == nil {
		panic(undecided("no method " + name + " of the tester"))
	}
	return f
}

func newRwWorld(p *Prog, pkg string, rules []rwRule, fail func(rule, pos, d string)) *rwWorld {
	pk := p.pkg("internal/rerules/" + pkg)
	if pk == nil || pk.Type("Tester") == nil || pk.Type("DecisionTree") == nil {
		panic(undecided("no tester"))
	}
	w := &rwWorld{p: p, pkg: pkg, rules: rules, t: pk.Type("Tester").Type(), ids: map[string]int{}, fail: fail}
	e := newEngine(p)
	w.e = e
	e.limit *= 10
	e.MergeLimit = 1 << 20
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int { return 40 }
	e.Override = w.override
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			if os.Getenv("DBG") != "" {
				w.dump("panic "+kind, &rwCfg{}, st)
				for _, ev := range st.trace.list(nil) {
					if b, ok := ev.(rwBegin); ok {
						fmt.Fprintln(os.Stderr, b.tree)
					}
				}
			}
			w.fail("panic", p.instrPos(in), fmt.Sprintf("%s can panic with rules%s: %s %s", w.pkg, w.ruleNames(), kind, detail))
		}
	}
	if c := pk.Const("RuleNone"); c != nil {
		w.none, _ = e.constVal(c.Value).(*Lin)
	}
	dt := pk.Type("DecisionTree").Type()
	w.scanF = fieldWhere(dt, func(v *types.Var) bool { return types.Identical(v.Type(), types.Typ[types.Bool]) })
	w.matchF = fieldWhere(dt, func(v *types.Var) bool {
		n, ok := v.Type().(*types.Named)
		return ok && n.Obj().Name() == "RuleIndex"
	})
	w.statesF = fieldWhere(dt, func(v *types.Var) bool {
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	})
	w.sets = map[*Obj]int64{}
	if w.statesF == "" || w.scanF == "" || w.matchF == "" || w.none == nil {
		panic(undecided("the state of the decision trees was not recognised"))
	}
	w.o = e.newObj("tester", "alloc", w.t)
	return w
}

func (w *rwWorld) ruleNames() string {
	s := ""
	for _, r := range w.rules {
		s += fmt.Sprintf(" (head %d, body %d, tail %d, output %d", r.h, r.b, r.t, r.out)
		if r.cond > 0 {
			s += fmt.Sprintf(", condition %d", r.cond-1)
		}
		s += ")"
	}
	return s
}

func (w *rwWorld) override(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	one := func(v Val) ([]callOut, bool) { return []callOut{{st: st, val: v}}, true }
	if ci.fn == nil {
		if _, isB := ci.cc.Value.(*ssa.Builtin); !isB && ci.cc.StaticCallee() == nil && !ci.cc.IsInvoke() {
			if len(ci.args) == 1 {
				st.log(rwEl{ci.args[0]})
			}
			return one(TupleV{})
		}
		return nil, false
	}
	name := ci.fn.Name()
	if i := strings.IndexByte(name, '['); i > 0 {
		name = name[:i]
	}
	if ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "unicode/utf8" {
		var out []callOut
		for _, o := range e.callFn(ci.fn, ci.args, nil, st) {
			out = append(out, callOut{st: o.st, val: o.val})
		}
		return out, true
	}
	switch namedRecv(ci.fn) + "." + name {
	case "SingleInstancePool.Retrieve":
		t := ci.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		return one(PtrV{o: e.symObj("compiler", t)})
	case "SingleInstancePool.Release":
		return one(TupleV{})
	case "DecisionTreeCompiler.Begin":
		w.setGhost(st, "compiling", e.c(0))
		return one(TupleV{})
	case "SettingsCache.GetRewriteCondition":
		return one(TupleV{fConst(true), fConst(true)})
	case "DecisionTreeCompiler.Feed":
		var idx int64 = -1
		for _, a := range ci.args {
			if l, ok := a.(*Lin); ok {
				if v, ok := e.normLinTop(st, l).isConst(); ok {
					idx = v
				}
			}
		}
		m := st.ghosts["compiling"]
		if m == nil || idx < 0 || idx >= int64(len(w.rules)) {
			panic(undecided("the compilation of rules was not understood"))
		}
		given := false
		for _, a := range ci.args {
			if s, ok := a.(StructV); ok && len(s.fields) == 1 {
				sl, ok := s.fields[0].(SliceV)
				given = ok && sl.o == w.ruleObjs[idx]
			}
		}
		if !given {
			w.fail("rules", w.p.instrPos(ci.in), "a rule is compiled under the number of another rule with rules"+w.ruleNames())
		}
		c, _ := m.isConst()
		w.setGhost(st, "compiling", e.c(c|1<<uint(idx)))
		return one(NilV{})
	case "DecisionTreeCompiler.Finish":
		m := st.ghosts["compiling"]
		if m == nil {
			panic(undecided("the compilation of rules was not understood"))
		}
		c, _ := m.isConst()
		sl, ok := e.resType(ci).Underlying().(*types.Slice)
		if !ok {
			panic(undecided("the compilation of rules was not understood"))
		}
		o := e.newObj("states", "alloc", sl.Elem())
		w.sets[o] = c
		return one(SliceV{o: o, off: e.c(0), len: e.c(1), cap: e.c(1)})
	case "DecisionTree.BeginSequence":
		k := valKey(ci.args[0])
		tp, ok := ci.args[0].(PtrV)
		if !ok {
			panic(undecided("unknown tree"))
		}
		st.log(rwBegin{k, tp})
		w.setGhost(st, "cnt"+k, e.c(0))
		return nil, false
	case "DecisionTree.Feed", "DecisionTree.FeedHead":
		pt, ok := ci.args[0].(PtrV)
		if !ok {
			panic(undecided("unknown tree"))
		}
		get := func(k string) int64 {
			if l, ok := st.ghosts[k]; ok {
				if v, c := l.isConst(); c {
					return v
				}
			}
			return 0
		}
		key := valKey(ci.args[0])
		cnt := get("cnt"+key) + 1
		ev := rwFed{tree: key, v: ci.args[1], match: -1}
		if len(ci.args) > 2 {
			ev.min = ci.args[2]
			l, ok := ci.args[2].(*Lin)
			if ok {
				_, ok = e.normLinTop(st, l).isConst()
			}
			if !ok {
				panic(undecided("unknown minimum length of a head"))
			}
		}
		longest := 0
		matches := []int{-1}
		set := w.rulesOf(st, pt)
		for i, r := range w.rules {
			if set&(1<<uint(i)) == 0 {
				continue
			}
			longest = max(longest, r.len())
			if int64(r.len()) == cnt {
				matches = append(matches, i)
			}
		}
		var out []callOut
		for _, m := range matches {
			for _, scan := range []bool{true, false} {
				if scan && cnt >= int64(longest) {
					continue
				}
				s := st.clone()
				ev := ev
				ev.match, ev.scanning = m, scan
				s.log(ev)
				w.setGhost(s, "cnt"+key, e.c(cnt))
				e.writeCell(s, pt.o, pt.skel+"."+w.scanF, pt.idx, types.Typ[types.Bool], fConst(scan))
				if m >= 0 {
					e.writeCell(s, pt.o, pt.skel+"."+w.matchF, pt.idx, w.matchT(), e.c(int64(m)))
				}
				out = append(out, callOut{st: s, val: TupleV{}})
			}
		}
		return out, true
	}
	return nil, false
}

// rulesOf returns the rules compiled for a tree
func (w *rwWorld) rulesOf(st *State, p PtrV) int64 {
	if s, ok := w.e.readCell(st, p.o, p.skel+"."+w.statesF, p.idx, fieldType(w.p.pkg("internal/rerules/"+w.pkg).Type("DecisionTree").Type(), w.statesF)).(SliceV); ok && s.o != nil {
		if m, ok := w.sets[s.o]; ok {
			return m
		}
	}
	panic(undecided("a tree was not compiled"))
}

func (w *rwWorld) matchT() types.Type {
	dt := w.p.pkg("internal/rerules/" + w.pkg).Type("DecisionTree").Type()
	t := fieldType(dt, w.matchF)
	return t
}

func (w *rwWorld) setGhost(st *State, k string, v *Lin) {
	g := map[string]*Lin{}
	for a, b := range st.ghosts {
		g[a] = b
	}
	g[k] = v
	st.ghosts = g
}

// call runs a method of the tester; only returns
func (w *rwWorld) call(st *State, name string, args ...Val) []outcome {
	var out []outcome
	for _, o := range w.e.callFn(w.method(name), append([]Val{PtrV{o: w.o}}, args...), nil, st) {
		if !w.e.impossible(o.st) {
			out = append(out, o)
		}
	}
	return out
}

// trim assumes that slices of the tester don't have spare capacity: what lies beyond the length of a slice
// that was grown isn't tracked
func (w *rwWorld) trim(st *State) {
	s := w.t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			if v, ok := w.e.readCell(st, w.o, "."+f.Name(), nil, f.Type()).(SliceV); ok && v.o != nil {
				v.cap = v.len
				w.e.writeCell(st, w.o, "."+f.Name(), nil, f.Type(), v)
			}
		}
	}
}

func (w *rwWorld) begin() []*rwCfg {
	e := w.e
	states := []*State{e.newState()}
	pk := w.p.pkg("internal/rerules/" + w.pkg)
	add := pk.Prog.LookupMethod(types.NewPointer(w.t), pk.Pkg, "AddRule")
	if add == nil {
		panic(undecided("no method AddRule"))
	}
	rt := add.Signature.Params().At(0).Type()
	for i, r := range w.rules {
		data := []Val{e.c(int64((r.cond + 255) % 256)), e.c(int64(r.h)), e.c(int64(r.b)), e.c(int64(r.t)), e.c(int64(r.out))}
		for j := 0; j < r.out; j++ {
			data = append(data, e.c(int64(100*(i+1)+j)), e.c(0))
			if w.pkg == "utf8rule" {
				data = append(data, e.c(0), e.c(0))
			}
		}
		for len(data) < 24 {
			data = append(data, e.c(int64(i)))
		}
		o := e.newObj("rule", "alloc", types.Typ[types.Uint8])
		w.ruleObjs = append(w.ruleObjs, o)
		for k, v := range data {
			for _, st := range states {
				e.writeCell(st, o, "[]", []*Lin{e.c(int64(k))}, types.Typ[types.Uint8], v)
			}
		}
		n := e.c(int64(len(data)))
		sl := SliceV{o: o, off: e.c(0), len: n, cap: n}
		var v Val = sl
		if s, ok := rt.Underlying().(*types.Struct); ok && s.NumFields() == 1 {
			v = StructV{typ: rt, fields: []Val{sl}}
		} else {
			panic(undecided("unexpected form of rules"))
		}
		var next []*State
		for _, st := range states {
			for _, o := range w.call(st, "AddRule", v) {
				if isNil, known := e.decide(o.st, e.isNilForm(o.val)); !known || !isNil {
					panic(undecided("adding a rule fails"))
				}
				w.trim(o.st)
				next = append(next, o.st)
			}
		}
		if len(next) > 20 {
			panic(undecided("adding rules has too many outcomes"))
		}
		states = next
	}
	w.elemT = w.method("Feed").Params[1].Type()
	var cfgs []*rwCfg
	for _, st := range states {
		for _, o := range w.beginSeq(st) {
			cfgs = append(cfgs, &rwCfg{st: o.st, rule: -1, trees: w.freshTrees(o.st, 0)})
		}
	}
	return cfgs
}

// freshTrees returns the trees of a sequence that begins
func (w *rwWorld) freshTrees(st *State, n int) map[string]rwTree {
	t := map[string]rwTree{}
	var all int64
	for _, ev := range st.trace.list(nil) {
		if b, ok := ev.(rwBegin); ok {
			t[b.tree] = rwTree{scanning: true, fed: n, match: -1, prev: -1}
			all |= w.rulesOf(st, b.p)
		}
	}
	if all != 1<<uint(len(w.rules))-1 {
		w.fail("rules", w.p.pos(w.method("BeginSequence").Pos()), "a sequence begins without some rules being considered with rules"+w.ruleNames())
	}
	return t
}

// beginSeq begins a sequence
func (w *rwWorld) beginSeq(st *State) []outcome {
	e := w.e
	bs := w.method("BeginSequence")
	var args []Val
	for _, p := range bs.Params[1:] {
		args = append(args, e.zeroVal(p.Type()))
	}
	var out []outcome
	for _, o := range w.call(st, "BeginSequence", args...) {
		if isNil, known := e.decide(o.st, e.isNilForm(o.val)); !known || !isNil {
			w.fail("begin", w.p.pos(bs.Pos()), "a sequence can't begin with rules"+w.ruleNames())
			continue
		}
		out = append(out, o)
	}
	return out
}

func (w *rwWorld) fnArg(m *ssa.Function) Val {
	return w.e.symVal(m.Params[len(m.Params)-1].Type(), "report", nil, nil)
}

func (w *rwWorld) elem(st *State, n int) *Lin {
	e := w.e
	l := e.A.of(e.A.mk("var", fmt.Sprintf("element%d", n), 32, 50000))
	w.ids[l.key] = n
	return l
}

func (w *rwWorld) idOf(st *State, v Val) (int, bool) {
	l, ok := v.(*Lin)
	if !ok {
		return 0, false
	}
	if i, ok := w.ids[l.key]; ok {
		return i, true
	}
	l = w.e.normLinTop(st, l)
	i, ok := w.ids[l.key]
	return i, ok
}

// outOf recognises an output of a rule
func (w *rwWorld) outOf(st *State, v Val) (int, int, bool) {
	l, ok := v.(*Lin)
	if !ok {
		return 0, 0, false
	}
	c, isC := w.e.normLinTop(st, l).isConst()
	if !isC || c < 100 {
		return 0, 0, false
	}
	r, j := int(c)/100-1, int(c)%100
	return r, j, r < len(w.rules) && j < w.rules[r].out
}

// follow checks the events of an operation against the model of the sequence
func (w *rwWorld) follow(c *rwCfg, st *State, op string, brk bool, pos string) bool {
	trees := map[string]rwTree{}
	for k, t := range c.trees {
		trees[k] = t
	}
	c.trees = trees
	c0 := *c
	bad := func(d string) bool {
		w.fail("sequence", pos, fmt.Sprintf("%s with rules%s: %s", op, w.ruleNames(), d))
		if os.Getenv("DBG") != "" {
			w.dump(d, &c0, st)
		}
		return false
	}
	held := -1 // rule found by a detection that was restarted since
	found := func() int {
		if held >= 0 {
			return held
		}
		return c.match()
	}
	active := func() bool {
		for _, t := range trees {
			if t.scanning && t.fed >= 0 {
				return true
			}
		}
		return false
	}
	stop := func() { // the detections that were not restarted end
		for k, t := range trees {
			if t.fed != -1 {
				t.scanning, t.fed = false, -2
			}
			t.match, t.prev = -1, -1
			trees[k] = t
		}
	}
	ended := func() bool { // the application of a rule must be complete
		if c.rule >= 0 && (c.outs < w.rules[c.rule].out || c.p < c.s+c.tail) {
			return false
		}
		c.rule, c.outs = -1, 0
		return true
	}
	// commit: the rule found takes effect
	commit := func(r int) string {
		x := w.rules[r]
		if found() != r {
			return "a rule is applied that wasn't found at this place of the sequence"
		}
		if c.p != c.s+x.h {
			return "a rule is applied before its head was reported"
		}
		if held < 0 && active() && !brk {
			return "a rule is applied while the detection is still going on"
		}
		c.s += x.h + x.b
		c.p = c.s
		c.tail = x.t
		c.rule, c.outs = r, 0
		held = -1
		stop()
		return ""
	}
	for _, ev := range st.trace.list(nil) {
		switch x := ev.(type) {
		case rwBegin:
			t := trees[x.tree]
			if m := found(); m >= 0 {
				if w.rules[m].out == 0 && c.p == c.s+w.rules[m].h {
					if d := commit(m); d != "" {
						return bad(d)
					}
					t = trees[x.tree]
				} else {
					held = m
				}
			} else if t.scanning && t.fed >= 0 && !brk {
				return bad("the detection restarts although it is still going on")
			}
			t.scanning, t.match = true, -1
			t.prev = max(t.fed, t.prev)
			t.fed = -1
			trees[x.tree] = t
		case rwEl:
			if r, j, ok := w.outOf(st, x.v); ok {
				if j == 0 && c.outs == 0 && c.rule != r {
					if !ended() {
						return bad("a rule is applied before the previous one was completely")
					}
					if d := commit(r); d != "" {
						return bad(d)
					}
				}
				if c.rule != r || c.outs != j {
					return bad("the output of a rule isn't reported in order")
				}
				c.outs++
				continue
			}
			id, ok := w.idOf(st, x.v)
			if !ok {
				return bad("something is reported that is neither an element of the sequence nor the output of a rule")
			}
			if id != c.p {
				switch {
				case id < c.p:
					return bad("an element is reported again, or although a rule replaced it")
				case id >= c.n:
					return bad("an unknown element is reported")
				}
				return bad("an element is left out or reported too late")
			}
			if c.rule >= 0 && c.p < c.s+c.tail {
				if c.outs < w.rules[c.rule].out {
					return bad("an element is reported before the output of a rule is complete")
				}
				c.p++
				continue
			}
			if !ended() {
				return bad("an element is reported before the output of a rule is complete")
			}
			if m := found(); m >= 0 {
				if c.p >= c.s+w.rules[m].h {
					return bad("a rule that was found isn't applied")
				}
				if held < 0 && active() && !brk {
					return bad("an element is reported while it may still be part of a match")
				}
				c.p++
				continue
			}
			if active() && !brk {
				return bad("an element is reported while it may still be part of a match")
			}
			if c.p > c.s {
				return bad("an element is reported before the previous ones were given up")
			}
			for _, t := range trees {
				if max(t.fed, t.prev) <= c.s {
					return bad("an element is reported without having been considered for matches")
				}
			}
			c.p++
			c.s++ // given up
			stop()
		case rwFed:
			if !ended() {
				return bad("the detection goes on before the application of a rule is complete")
			}
			if held >= 0 {
				return bad("a rule that was found isn't applied")
			}
			id, ok := w.idOf(st, x.v)
			if !ok {
				return bad("the detection is fed something that isn't an element of the sequence")
			}
			t, known := trees[x.tree]
			if !known || !t.scanning {
				return bad("the detection goes on although it ended")
			}
			if t.fed == -1 {
				if id == c.s+1 && c.p > c.s && !active() && found() < 0 {
					for _, t := range trees {
						if max(t.fed, t.prev) <= c.s {
							return bad("an element isn't considered for matches")
						}
					}
					c.s++ // an element that was reported before is given up
				}
				if id != c.s {
					return bad("the detection doesn't restart at the oldest pending element")
				}
				t.fed, t.prev = c.s, -1
			}
			if id != t.fed {
				return bad("the detection isn't fed the elements in order")
			}
			t.fed++
			if l, isL := x.min.(*Lin); x.min != nil {
				v, known := int64(0), false
				if isL {
					v, known = w.e.normLinTop(st, l).isConst()
				}
				if !known || v > int64(c.p-c.s) {
					return bad("matches are restricted to heads longer than the elements already reported")
				}
			}
			t.scanning = x.scanning
			if x.match >= 0 && w.rules[x.match].h >= c.p-c.s { // otherwise it would replace elements already reported
				t.match = x.match
			}
			trees[x.tree] = t
		}
	}
	if held >= 0 {
		return bad("a rule that was found isn't applied")
	}
	if !ended() {
		return bad("the application of a rule isn't completed")
	}
	fresh := true
	for _, t := range trees {
		fresh = fresh && t.fed == -1
	}
	if fresh && c.s == c.n-1 && c.p == c.n {
		for _, t := range trees {
			if t.prev <= c.s {
				return bad("an element isn't considered for matches")
			}
		}
		c.s++ // an element that was reported before is given up
	}
	for k, t := range trees {
		if t.fed == -1 {
			t.fed = c.s
		}
		t.prev = -1
		trees[k] = t
		if c.s == c.n && (!t.scanning || t.fed != c.s) {
			return bad("the detection doesn't restart for the following elements")
		}
		if t.scanning && t.fed != c.n {
			return bad("pending elements aren't considered for matches")
		}
	}
	if c.s < c.n && len(trees) > 0 && !c.scanning() {
		return bad("elements stay pending although no detection is ongoing")
	}
	return true
}

func (w *rwWorld) dump(d string, c *rwCfg, st *State) {
	fmt.Fprintf(os.Stderr, "-- %s (n %d p %d s %d tail %d %v):", d, c.n, c.p, c.s, c.tail, c.trees)
	for _, ev := range st.trace.list(nil) {
		switch x := ev.(type) {
		case rwBegin:
			fmt.Fprint(os.Stderr, " restart")
		case rwEl:
			if r, j, ok := w.outOf(st, x.v); ok {
				fmt.Fprintf(os.Stderr, " out(%d.%d)", r, j)
				continue
			}
			id, ok := w.idOf(st, x.v)
			fmt.Fprintf(os.Stderr, " report(%d %v)", id, ok)
		case rwFed:
			id, _ := w.idOf(st, x.v)
			fmt.Fprintf(os.Stderr, " fed(%d scan %v match %d head %v)", id, x.scanning, x.match, x.min != nil)
		}
	}
	fmt.Fprintln(os.Stderr)
}

func checkP24(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the testers with arbitrary detection, to a fixpoint of the configurations, against a model of the sequence"
	for _, pkg := range []string{"glyphrule", "utf8rule"} {
		for _, rules := range rwRules {
			pkg, rules := pkg, rules
			w := &rwWorld{rules: rules}
			key := pkg + w.ruleNames()
			if s := os.Getenv("P24"); s != "" && !strings.Contains(key, s) {
				continue
			}
			seen := map[string]bool{}
			(*acc)(nil).guardRun(r, "conservation", key, func(fail func(rule, pos, d string)) {
				w := newRwWorld(p, pkg, rules, func(rule, pos, d string) {
					if k := rule + pos + d; !seen[k] {
						seen[k] = true
						fail(rule, pos, d)
					}
				})
				w.explore()
			})
		}
	}
}

var rwRules = [][]rwRule{
	{},
	{{h: 0, b: 1, t: 0, out: 1}},
	{{h: 0, b: 2, t: 0, out: 0}},
	{{h: 1, b: 1, t: 0, out: 1}},
	{{h: 0, b: 1, t: 1, out: 1}},
	{{h: 1, b: 1, t: 1, out: 1}},
	{{h: 0, b: 1, t: 2, out: 1}},
	{{h: 2, b: 1, t: 1, out: 1}},
	{{h: 1, b: 2, t: 1, out: 2}},
	{{h: 0, b: 3, t: 0, out: 1}, {h: 0, b: 2, t: 2, out: 1}},
	{{h: 1, b: 1, t: 1, out: 1}, {h: 0, b: 1, t: 1, out: 1}},
	{{h: 0, b: 2, t: 0, out: 2}, {h: 1, b: 2, t: 1, out: 1}},
	{{h: 2, b: 1, t: 0, out: 1}, {h: 0, b: 1, t: 2, out: 1}},
	{{h: 0, b: 1, t: 0, out: 0}},
	{{h: 2, b: 1, t: 2, out: 1}},
	{{h: 0, b: 4, t: 1, out: 3}},
	{{h: 3, b: 1, t: 0, out: 1}, {h: 0, b: 1, t: 3, out: 1}},
	{{h: 1, b: 1, t: 2, out: 0}, {h: 0, b: 2, t: 1, out: 2}},
	{{h: 0, b: 2, t: 0, out: 1}, {h: 1, b: 1, t: 1, out: 1, cond: 1}},
	{{h: 0, b: 1, t: 1, out: 0, cond: 2}, {h: 0, b: 1, t: 2, out: 1, cond: 1}, {h: 1, b: 1, t: 0, out: 1}},
	{{h: 0, b: 1, t: 3, out: 1}, {h: 1, b: 1, t: 0, out: 1}},
}

func (w *rwWorld) explore() {
	e := w.e
	feed, fin, brk := w.method("Feed"), w.method("FinishSequence"), w.method("Break")
	seen := map[string]bool{}
	var work []*rwCfg
	push := func(c *rwCfg) {
		c.st.trace = nil
		k := w.key(c)
		if seen[k] {
			return
		}
		seen[k] = true
		work = append(work, c)
	}
	for _, c := range w.begin() {
		push(c)
	}
	step := func(c *rwCfg, m *ssa.Function, args []Val, op string, isBrk bool, f func(c *rwCfg, o outcome)) {
		outs := e.callFn(m, append([]Val{PtrV{o: w.o}}, args...), nil, c.st.clone())
		for _, o := range outs {
			if e.impossible(o.st) {
				continue
			}
			n := *c
			n.st = o.st
			n.depth++
			if w.follow(&n, o.st, op, isBrk, w.p.pos(m.Pos())) {
				f(&n, o)
			}
		}
	}
	count := 0
	for len(work) > 0 {
		c := work[0]
		work = work[1:]
		count++
		if count > 3000 {
			panic(undecided("too many configurations"))
		}
		// feed an element
		n := *c
		el := w.elem(c.st, c.n)
		n.n++
		step(&n, feed, []Val{el, w.fnArg(feed)}, "feeding", false, func(c *rwCfg, o outcome) {
			if isNil, known := e.decide(o.st, e.isNilForm(o.val)); !known || !isNil {
				w.fail("sequence", w.p.pos(feed.Pos()), "an element is refused with rules"+w.ruleNames())
				return
			}
			push(c)
		})
		step(c, brk, []Val{w.fnArg(brk)}, "breaking", true, func(c *rwCfg, o outcome) {
			if c.p != c.n {
				w.fail("sequence", w.p.pos(brk.Pos()), "after breaking, elements weren't reported with rules"+w.ruleNames())
				return
			}
			push(c)
		})
		step(c, fin, []Val{w.fnArg(fin)}, "finishing", true, func(c *rwCfg, o outcome) {
			if c.p != c.n {
				w.fail("sequence", w.p.pos(fin.Pos()), "after finishing, elements weren't reported with rules"+w.ruleNames())
				return
			}
			// the next sequence
			for _, o := range w.beginSeq(o.st) {
				n := *c
				n.st, n.s, n.tail, n.trees = o.st, c.n, 0, w.freshTrees(o.st, c.n)
				push(&n)
			}
		})
	}
	if os.Getenv("DBG") != "" {
		fmt.Fprintln(os.Stderr, w.pkg, w.ruleNames(), count, "configurations")
	}
}

// key identifies a configuration up to the numbering of the elements
func (w *rwWorld) key(c *rwCfg) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d %d;", c.n-c.s, c.p-c.s)
	var keys []string
	for k := range c.trees {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		t := c.trees[k]
		fmt.Fprintf(&b, "%d %v %d", t.fed-c.s, t.scanning, t.match)
		for _, g := range []string{"cnt"} {
			if l := c.st.ghosts[g+k]; l != nil {
				b.WriteString("," + l.key)
			}
		}
		b.WriteString(";")
	}
	w.snap(&b, c, PtrV{o: w.o}, w.t, 0)
	return b.String()
}

func (w *rwWorld) snap(b *strings.Builder, c *rwCfg, p PtrV, t types.Type, depth int) {
	e := w.e
	if depth > 6 {
		return
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			w.snap(b, c, PtrV{o: p.o, skel: p.skel + "." + f.Name(), idx: p.idx}, f.Type(), depth+1)
		}
		return
	}
	v := e.readCell(c.st, p.o, p.skel, p.idx, t)
	switch x := v.(type) {
	case *Lin:
		if id, ok := w.idOf(c.st, x); ok {
			if id < c.s {
				b.WriteString("old,")
			} else {
				fmt.Fprintf(b, "e%d,", id-c.s)
			}
			return
		}
		if k, ok := e.normLinTop(c.st, x).isConst(); ok {
			fmt.Fprintf(b, "%d,", k)
		} else {
			b.WriteString("?,")
		}
	case *Form:
		val, known := e.decide(c.st, x)
		fmt.Fprintf(b, "%v%v,", val, known)
	case SliceV:
		n, ok := int64(0), false
		if x.len != nil {
			n, ok = e.normLinTop(c.st, x.len).isConst()
		}
		et := t.Underlying().(*types.Slice).Elem()
		if !ok || n > 40 || x.o == nil {
			b.WriteString("s,")
			return
		}
		b.WriteString("[")
		for i := int64(0); i < n; i++ {
			w.snap(b, c, PtrV{o: x.o, skel: x.skel + "[]", idx: append(append([]*Lin{}, x.idx...), e.A.addc(x.off, i))}, et, depth+1)
		}
		b.WriteString("]")
	}
}
