package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// P25: compiled decision trees find the rules that match. The compiler and the trees are interpreted on rules whose
// elements and sets have symbolic values, so that every way in which ranges may lie relative to each other is a case. Each tree is
// then followed for symbolic elements; on every path, the matches reported and the end of the detection are compared with the rules.

func init() {
	checks["P25"] = checkP25
}

type dtRule struct {
	head  int
	elems []string // parts separated by commas: 5, 5..9, a (any value), a.. (any range); "-": empty set
}

type dtCase struct {
	before [][]dtRule // compiled before with the same compiler and buffers
	rules  []dtRule
	heads  int // number of elements of the sequence that can only be part of a head
}

func dt(s ...string) []dtRule {
	var out []dtRule
	for _, x := range s {
		r := dtRule{elems: strings.Fields(x)}
		if h, ok := strings.CutSuffix(r.elems[0], "|"); ok {
			r.head, _ = strconv.Atoi(h)
			r.elems = r.elems[1:]
		}
		out = append(out, r)
	}
	return out
}

var dtCases = []dtCase{
	{rules: dt("a")},
	{rules: dt("a..")},
	{rules: dt("a.. b..", "c..")},
	{rules: dt("a..", "b..", "c..")},
	{rules: dt("a.. 5", "b.. 6")},
	{rules: dt("a.. 5", "b 6 7", "c.. 6")},
	{rules: dt("10..40 5 6", "a", "b.. 7 8")},
	{rules: dt("a.. 5 6", "20", "10..20 7 8")},
	{rules: dt("a.. 5 6 7", "b 5 8 8", "c 5 9")},
	{rules: dt("10..30 a.. 6", "20..40 b.. 7")},
	{rules: dt("10..30 20..40 6", "20 a.. 7", "15..25 b 8")},
	{rules: dt("a b c", "a b d")},
	{rules: dt("a 5", "a 5", "a 5 6")},
	{rules: dt("-", "a 5")},
	{rules: dt("a 5", "- 5", "5 - 6", "b 5 7")},
	{rules: dt("a..,b.. 5")},
	{rules: dt("10..20,a 5", "b.. 6")},
	{rules: dt("10..20,30..40,50 5 9", "15..35 6 9", "a 7")},
	{rules: dt("10..20 5", "30..40 5", "a.. 5 6", "15 5 7")},
	{rules: dt("1 2 3 4", "1 2 3 5", "1 6..9 3 7", "a.. 2 8 8")},
	{before: [][]dtRule{dt("10..20 5 6 7", "15 5 8 9")}, rules: dt("a 5 6", "b 5 7 7")},
	{before: [][]dtRule{dt("a.. 5 6"), dt("1 2 3", "1 4 4", "6 7")}, rules: dt("a.. 5", "b 6")},
	{rules: dt("0| a.. 5", "2| 10 b 6", "1| 10 5 7"), heads: 1},
	{rules: dt("2| 10 20 6", "3| 10 a.. 7 8", "0| b 20"), heads: 2},
	{rules: dt("0| 10 20", "1| 10..30 20 30"), heads: 1},
	{rules: dt("2| 10 b 6"), heads: 1},
	{rules: dt("3| 10 b 6 7", "2| 20 b.. 6"), heads: 1},
	{rules: dt("1| a.. 5", "3| 10 5 6 7", "0| 10..20 5 8"), heads: 2},
	{rules: dt("2| 10..30 5 6", "1| a.. 5 7", "3| 15 5 6 8"), heads: 2},
	{rules: dt("0..255 5", "a 6", "max 5 7")},
	{rules: dt("top..max 5 6", "max 5", "0..a 6")},
	{rules: dt("a..,b.. 5", "c 5 6")},
	{rules: dt("a.. 5 6", "b.. 5 7", "15 5 8")},
	{rules: dt("10..20 a.. 5", "15 b.. 6", "a 7")},
	{rules: dt("5 a.. 6 7", "5 b 6 8", "4..5 c 6 9")},
	{rules: dt("10..40 5 6 7", "20 5 6 8", "30 5 6 9", "a 5 7 7")},
	{rules: dt("10..40 5 6 7", "20..30 5", "25 5 6", "a 5 6 8")},
	{rules: dt("10..40 5..9 6", "20 7 8", "20 a 6 6", "b 7 6")},
	{rules: dt("1..9 1..9 1..9 1", "4 4 4 2", "a 4 b 3")},
	{before: [][]dtRule{dt("10..40 5 6 7", "20 5 6 8", "a 5 7 7"), dt("1 2"), dt("10..40 5..9 6", "20 7 8")}, rules: dt("10..40 5..9 6", "20 7 8", "b 7 6")},
	{before: [][]dtRule{dt("2| 10..30 5 6", "0| a.. 5 7")}, rules: dt("2| 10 5 6", "1| 20 5 7"), heads: 1},
}

func (c dtCase) String() string {
	f := func(rs []dtRule) string {
		var s []string
		for _, r := range rs {
			x := strings.Join(r.elems, " ")
			if r.head > 0 {
				x = fmt.Sprintf("(head %d) %s", r.head, x)
			}
			s = append(s, x)
		}
		return strings.Join(s, " / ")
	}
	s := f(c.rules)
	for _, b := range c.before {
		s += " after " + f(b)
	}
	if c.heads > 0 {
		s += fmt.Sprintf(", %d reported", c.heads)
	}
	return s
}

type dtPart struct{ lo, hi *Lin }

type dtWorld struct {
	p    *Prog
	e    *Engine
	pkg  string
	w    *rwWorld
	sets []Val // sets of the font
	syms map[string]*Lin
	fail func(rule, pos, d string)
	st   *State
}

func (w *dtWorld) sym(name string) *Lin {
	if l, ok := w.syms[name]; ok {
		return l
	}
	lo, hi := int64(0), int64(200)
	if strings.HasPrefix(name, "length") {
		lo, hi = 0, 40
	}
	l := w.e.A.of(w.e.A.mk("var", name, lo, hi))
	w.syms[name] = l
	return l
}

func (w *dtWorld) parts(el string) []dtPart {
	var out []dtPart
	if el == "-" {
		return nil
	}
	num := func(s string) *Lin {
		if n, err := strconv.Atoi(s); err == nil {
			return w.e.c(int64(n))
		}
		switch s {
		case "max":
			return w.e.c(w.last())
		case "top":
			return w.e.c(w.last() - 2)
		}
		return w.sym(s)
	}
	for _, p := range strings.Split(el, ",") {
		lo, hi, rng := strings.Cut(p, "..")
		x := dtPart{lo: num(lo)}
		switch {
		case !rng:
			x.hi = x.lo
		case hi == "":
			x.hi = w.e.A.add(x.lo, w.sym("length "+lo))
		default:
			x.hi = num(hi)
		}
		out = append(out, x)
	}
	return out
}

// bytesOf makes a slice of bytes
func (w *dtWorld) bytesOf(name string, data []Val) SliceV {
	e := w.e
	o := e.newObj(name, "alloc", types.Typ[types.Uint8])
	for k, v := range data {
		e.writeCell(w.st, o, "[]", []*Lin{e.c(int64(k))}, types.Typ[types.Uint8], v)
	}
	n := e.c(int64(len(data)))
	return SliceV{o: o, off: e.c(0), len: n, cap: n}
}

func (w *dtWorld) raw(t types.Type, s SliceV) Val {
	if x, ok := t.Underlying().(*types.Struct); !ok || x.NumFields() != 1 {
		panic(undecided("unexpected form of rules"))
	}
	return StructV{typ: t, fields: []Val{s}}
}

// last returns the highest element
func (w *dtWorld) last() int64 {
	if w.pkg == "utf8rule" {
		return unicode.MaxRune
	}
	return 56788
}

// wide encodes a value as an element; values that aren't constant are bytes
func (w *dtWorld) wide(v Val) []Val {
	if k, ok := v.(*Lin).isConst(); ok && k > 255 {
		var out []Val
		for i := range w.wide(w.e.c(0)) {
			out = append(out, w.e.c(k>>(8*i)&255))
		}
		return out
	}
	out := []Val{v, w.e.c(0)}
	if w.pkg == "utf8rule" {
		out = append(out, w.e.c(0), w.e.c(0))
	}
	return out
}

func (w *dtWorld) rule(t types.Type, r dtRule) Val {
	e := w.e
	n := len(r.elems)
	data := append([]Val{e.c(255), e.c(int64(r.head)), e.c(int64(n - r.head)), e.c(0), e.c(1)}, w.wide(e.c(9))...)
	if r.head == 0 {
		data = append(data, e.c(0))
	}
	for _, el := range r.elems {
		ps := w.parts(el)
		if len(ps) == 1 && ps[0].lo == ps[0].hi {
			data = append(append(data, e.c(1)), w.wide(ps[0].lo)...)
			continue
		}
		var set, list []Val
		nr, nl := int64(0), int64(0)
		for _, p := range ps {
			if p.lo == p.hi {
				list = append(list, w.wide(p.lo)...)
				nl++
			} else {
				set = append(append(set, w.wide(p.lo)...), e.A.sub(p.hi, p.lo))
				nr++
			}
		}
		set = append(append(append([]Val{e.c(nr)}, set...), e.c(nl)), list...)
		w.sets = append(w.sets, w.bytesOf("set", set))
		data = append(data, e.c(16), e.c(int64(len(w.sets)-1)))
	}
	data = append(data, e.c(0))
	return w.raw(t, w.bytesOf("rule", data))
}

func (w *dtWorld) override(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	if ci.fn == nil {
		return nil, false
	}
	if ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "unicode/utf8" {
		var out []callOut
		for _, o := range e.callFn(ci.fn, ci.args, nil, st) {
			out = append(out, callOut{st: o.st, val: o.val})
		}
		return out, true
	}
	switch namedRecv(ci.fn) + "." + ci.fn.Name() {
	case "FontRewrites.NumGlyphSets", "FontRewrites.NumUTF8Sets":
		return []callOut{{st: st, val: e.c(int64(len(w.sets)))}}, true
	case "FontRewrites.GetGlyphSet", "FontRewrites.GetUtf8Set":
		l, ok := ci.args[1].(*Lin)
		if !ok {
			panic(undecided("unknown set"))
		}
		i, ok := e.normLinTop(st, l).isConst()
		if !ok || i < 0 || i >= int64(len(w.sets)) {
			panic(undecided("unknown set"))
		}
		return []callOut{{st: st, val: w.raw(e.resType(ci), w.sets[i].(SliceV))}}, true
	}
	return nil, false
}

func (w *dtWorld) meth(typ, name string) *ssa.Function {
	f := w.p.method("internal/rerules/"+w.pkg, typ, name)
	if f == nil {
		pk := w.p.pkg("internal/rerules/" + w.pkg)
		if t := pk.Type(typ); t != nil {
			f = pk.Prog.LookupMethod(types.NewPointer(t.Type()), pk.Pkg, name)
		}
	}
	if f == nil {
		panic(undecided("no method " + typ + "." + name))
	}
	return f
}

func (w *dtWorld) call(st *State, f *ssa.Function, args ...Val) []outcome {
	var out []outcome
	for _, o := range w.e.callFn(f, args, nil, st) {
		if !w.e.impossible(o.st) {
			out = append(out, o)
		}
	}
	return out
}

func newDtWorld(p *Prog, pkg string, c dtCase, fail func(rule, pos, d string)) *dtWorld {
	e := newEngine(p)
	e.limit *= 40
	e.MergeLimit = 1 << 20
	e.ExactSlices = true
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int { return 60 }
	w := &dtWorld{p: p, e: e, pkg: pkg, syms: map[string]*Lin{}, fail: fail}
	e.Override = w.override
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			w.fail("panic", p.instrPos(in), fmt.Sprintf("rules %s: %s %s", c, kind, detail))
		}
	}
	w.st = e.newState()
	return w
}

// compile feeds rules to the compiler and returns the states with the trees
func (w *dtWorld) compile(c dtCase) ([]*State, []Val) {
	e := w.e
	co := e.newObj("compiler", "alloc", w.p.pkg("internal/rerules/"+w.pkg).Type("DecisionTreeCompiler").Type())
	cp := PtrV{o: co}
	begin, feed, finish := w.meth("DecisionTreeCompiler", "Begin"), w.meth("DecisionTreeCompiler", "Feed"), w.meth("DecisionTreeCompiler", "Finish")
	rt := feed.Params[1].Type()
	ft, ok := begin.Params[1].Type().Underlying().(*types.Pointer)
	if !ok {
		panic(undecided("unexpected parameters of the compiler"))
	}
	font := PtrV{o: e.symObj("font", ft.Elem())}
	lists := append(append([][]dtRule{}, c.before...), c.rules)
	// the rules first: the sets of the font don't change
	var vals [][]Val
	for _, l := range lists {
		var vs []Val
		for _, r := range l {
			vs = append(vs, w.rule(rt, r))
		}
		vals = append(vals, vs)
	}
	states := []*State{w.st}
	bufs := []Val{e.zeroVal(begin.Params[2].Type())}
	for _, vs := range vals {
		var ns []*State
		var nb []Val
		for k, st := range states {
			cur := []*State{}
			for _, o := range w.call(st, begin, cp, font, bufs[k]) {
				cur = append(cur, o.st)
			}
			for i, v := range vs {
				var next []*State
				for _, st := range cur {
					for _, o := range w.call(st, feed, cp, v, e.c(int64(i))) {
						if isNil, known := e.decide(o.st, e.isNilForm(o.val)); !known || !isNil {
							w.fail("compiled", w.p.pos(feed.Pos()), fmt.Sprintf("rules %s: a valid rule is refused", c))
							continue
						}
						next = append(next, o.st)
					}
				}
				cur = next
			}
			for _, st := range cur {
				for _, o := range w.call(st, finish, cp) {
					ns = append(ns, o.st)
					nb = append(nb, o.val)
				}
			}
		}
		states, bufs = ns, nb
		if len(states) > 20000 {
			panic(undecided("too many cases"))
		}
	}
	return states, bufs
}

// inside: the element is one of those of the rule at a position
func (w *dtWorld) inside(g *Lin, el string) *Form {
	e := w.e
	f := formF
	for _, p := range w.parts(el) {
		x := &Form{op: "and", x: e.ge(e.A.sub(g, p.lo)), y: e.ge(e.A.sub(p.hi, g))}
		f = &Form{op: "or", x: f, y: x}
	}
	return f
}

type dtPath struct {
	st    *State
	alive []bool
	best  int64
}

func (w *dtWorld) follow(c dtCase, st *State, buf Val) int {
	e := w.e
	dtype := w.p.pkg("internal/rerules/" + w.pkg).Type("DecisionTree").Type()
	field := fieldWhere(dtype, func(v *types.Var) bool {
		_, ok := v.Type().Underlying().(*types.Slice)
		return ok
	})
	if field == "" {
		panic(undecided("the states of trees were not recognised"))
	}
	to := e.newObj("tree", "alloc", dtype)
	tp := PtrV{o: to}
	e.writeCell(st, to, "."+field, nil, fieldType(dtype, field), buf)
	begin, feed, head, best, scanning := w.meth("DecisionTree", "BeginSequence"), w.meth("DecisionTree", "Feed"), w.meth("DecisionTree", "FeedHead"), w.meth("DecisionTree", "BestMatch"), w.meth("DecisionTree", "IsScanning")
	none, ok := e.constVal(w.p.pkg("internal/rerules/" + w.pkg).Const("RuleNone").Value).(*Lin)
	if !ok {
		panic(undecided("no constant RuleNone"))
	}
	noneV, _ := none.isConst()
	longest := 0
	for _, r := range c.rules {
		longest = max(longest, len(r.elems))
	}
	var cur []dtPath
	for _, o := range w.call(st, begin, tp) {
		p := dtPath{st: o.st, best: noneV}
		for range c.rules {
			p.alive = append(p.alive, true)
		}
		cur = append(cur, p)
	}
	paths := 0
	pos := w.p.pos(feed.Pos())
	for j := 0; j < longest; j++ {
		g := e.A.of(e.A.mk("var", fmt.Sprintf("element%d", j), 0, w.last()))
		var next []dtPath
		for _, p := range cur {
			var outs []outcome
			if j < c.heads {
				outs = w.call(p.st, head, tp, g, e.c(int64(c.heads)))
			} else {
				outs = w.call(p.st, feed, tp, g)
			}
			for _, o := range outs {
				bs := w.call(o.st, best, tp)
				if len(bs) != 1 {
					panic(undecided("several results of BestMatch"))
				}
				bl, ok := bs[0].val.(*Lin)
				var b int64
				if ok {
					b, ok = e.normLinTop(bs[0].st, bl).isConst()
				}
				if !ok {
					panic(undecided("unknown match"))
				}
				ss := w.call(bs[0].st, scanning, tp)
				if len(ss) != 1 {
					panic(undecided("several results of IsScanning"))
				}
				on, known := e.decide(ss[0].st, ss[0].val.(*Form))
				if !known {
					panic(undecided("unknown state of the detection"))
				}
				// cases by the rules that match so far
				ps := []dtPath{{st: ss[0].st, alive: append([]bool{}, p.alive...), best: p.best}}
				for i, r := range c.rules {
					var qs []dtPath
					for _, q := range ps {
						if !q.alive[i] || j >= len(r.elems) {
							q.alive[i] = false
							qs = append(qs, q)
							continue
						}
						f := w.inside(g, r.elems[j])
						for _, v := range []bool{true, false} {
							if val, known := e.decide(q.st, f); known && val != v {
								continue
							}
							for _, s := range e.assume(q.st.clone(), f, v) {
								if e.impossible(s) {
									continue
								}
								a := append([]bool{}, q.alive...)
								a[i] = v
								qs = append(qs, dtPath{st: s, alive: a, best: q.best})
							}
						}
					}
					ps = qs
				}
				for _, q := range ps {
					paths++
					want := q.best
					for i, r := range c.rules {
						if q.alive[i] && len(r.elems) == j+1 {
							want = int64(i)
							break
						}
					}
					bad := func(d string) {
						w.fail("matches", pos, fmt.Sprintf("rules %s: %s", c, d))
						if os.Getenv("DBG") != "" {
							fmt.Fprintln(os.Stderr, d, "step", j, "best", b, "want", want, "alive", q.alive, "scanning", on)
						}
					}
					// a match that doesn't include the reported elements in its head may be left out
					if want != b && (c.heads == 0 || want == noneV || c.rules[want].head >= c.heads) {
						switch {
						case b == noneV || b == q.best:
							bad(fmt.Sprintf("rule %d matches but isn't found", want))
						case want == noneV || want == q.best:
							bad(fmt.Sprintf("rule %d is found but doesn't match", b))
						default:
							bad(fmt.Sprintf("rule %d is found instead of rule %d", b, want))
						}
						continue
					}
					if on && j+1 >= longest {
						bad("the detection goes on after the longest rule")
						continue
					}
					if !on {
						ok := true
						for i, r := range c.rules {
							if q.alive[i] && len(r.elems) > j+1 && (c.heads == 0 || r.head >= c.heads) {
								bad(fmt.Sprintf("the detection stops although rule %d may still match", i))
								ok = false
								break
							}
						}
						_ = ok
						continue
					}
					q.best = b
					next = append(next, q)
				}
			}
		}
		cur = next
	}
	return paths
}

func checkP25(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the compilation of rules with symbolic elements and sets, and of the compiled trees, against the rules"
	for _, pkg := range []string{"glyphrule", "utf8rule"} {
		for _, c := range dtCases {
			key := pkg + " " + c.String()
			if s := os.Getenv("P25"); s != "" && !strings.Contains(key, s) {
				continue
			}
			seen := map[string]bool{}
			(*acc)(nil).guardRun(r, "detection", key, func(fail func(rule, pos, d string)) {
				w := newDtWorld(p, pkg, c, func(rule, pos, d string) {
					if k := rule + pos + d; !seen[k] {
						seen[k] = true
						fail(rule, pos, d)
					}
				})
				states, bufs := w.compile(c)
				n := 0
				for i, st := range states {
					n += w.follow(c, st, bufs[i])
				}
				if n == 0 {
					fail("undecided", "-", "nothing was analysed")
				}
				if os.Getenv("DBG") != "" {
					fmt.Fprintln(os.Stderr, key, len(states), "trees", n, "cases")
				}
			})
		}
	}
}
