package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["P17"] = checkP17 }

// ruleKind describes one of the two kinds of rewrite rules.
type ruleKind struct {
	name  string
	pkg   string
	w     int64 // bytes per element
	valid func(s *scan, l *Lin) *Form
	count string // number of sets of a font
	get   string // lookup of a set
}

var ruleKinds = []ruleKind{
	{"glyph", "internal/rerules/glyphrule", 2, func(s *scan, l *Lin) *Form {
		return s.c.ltF(l, s.c.k(maxGlyphs))
	}, "NumGlyphSets", "GetGlyphSet"},
	{"utf8", "internal/rerules/utf8rule", 4, func(s *scan, l *Lin) *Form {
		return fNot(s.c.eqF(l, s.c.k(0xFFFD)))
	}, "NumUTF8Sets", "GetUtf8Set"},
}

// scan is the analysis of the scanner of a kind of rules.
type scan struct {
	c        *acc
	p        *Prog
	k        ruleKind
	start    *ssa.Function
	hasNext  *ssa.Function
	next     *ssa.Function
	self     PtrV
	rule     Val
	data     SliceV
	none     [2]int64
	fail     func(rule, pos, d string)
	accepted int
	rejected int
}

func newScan(p *Prog, k ruleKind, fail func(rule, pos, d string)) *scan {
	s := &scan{p: p, k: k, fail: fail}
	s.start = p.method(k.pkg, "RuleScanner", "Start")
	s.hasNext = p.method(k.pkg, "RuleScanner", "HasNext")
	s.next = p.method(k.pkg, "RuleScanner", "Next")
	if s.start == nil || s.hasNext == nil || s.next == nil || len(s.start.Params) != 2 {
		panic(undecided("no scanner of " + k.name + " rules"))
	}
	e := newEngine(p)
	e.MergeLimit = 1 << 20
	s.c = &acc{e: e, p: p, st: e.newState()}
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			s.fail("panic", p.instrPos(in), "scanning malformed data can fail: "+kind+" "+detail)
		}
	}
	rt := s.start.Params[0].Type().Underlying().(*types.Pointer).Elem()
	s.self = PtrV{o: e.symObj("scanner", rt)}
	s.rule = e.symVal(s.start.Params[1].Type(), "rule", nil, nil)
	var ok bool
	if s.data, ok = sliceIn(s.rule); !ok {
		panic(undecided("unknown data of the rules"))
	}
	res := s.next.Signature.Results()
	if res.Len() != 3 {
		panic(undecided("unknown results of Next"))
	}
	s.none[0] = s.sentinel(res.At(0).Type())
	s.none[1] = s.sentinel(res.At(1).Type())
	return s
}

// sliceIn finds the byte slice in a struct value
func sliceIn(v Val) (SliceV, bool) {
	switch x := v.(type) {
	case SliceV:
		return x, true
	case StructV:
		for _, f := range x.fields {
			if s, ok := sliceIn(f); ok {
				return s, true
			}
		}
	}
	return SliceV{}, false
}

// sentinel is the value of a result that stands for no element
func (s *scan) sentinel(t types.Type) int64 {
	sc := s.p.pkg(s.k.pkg).Pkg.Scope()
	var vals []int64
	for _, n := range sc.Names() {
		c, ok := sc.Lookup(n).(*types.Const)
		if !ok || !c.Exported() {
			continue
		}
		ct := c.Type()
		if b, ok := ct.(*types.Basic); ok && b.Kind() == types.UntypedRune {
			ct = types.Typ[types.Int32]
		}
		if !types.Identical(ct, t) {
			continue
		}
		if v, ok := constant.Int64Val(constant.ToInt(c.Val())); ok {
			vals = append(vals, v)
		}
	}
	if len(vals) != 1 {
		panic(undecided("unknown value for no " + typeName(t)))
	}
	return vals[0]
}

// u reads a number of the rule
func (s *scan) u(st *State, at *Lin, n int) *Lin {
	s.c.st = st
	return s.c.uIn(s.data, at, n)
}

type scanPath struct {
	st    *State
	elems []TupleV
	pos   string
}

func (s *scan) callTuple(fn *ssa.Function, st *State, args ...Val) []outcome {
	return s.c.outs(fn, args, st)
}

// isNil partitions the outcomes by a nil error
func (s *scan) nilErr(o outcome, err Val) (yes, no []*State) {
	f := s.c.e.isNilForm(err)
	for _, st := range s.c.fork(o.st, f) {
		if v, k := s.c.e.decide(st, f); k && v {
			yes = append(yes, st)
		} else if k {
			no = append(no, st)
		} else {
			panic(undecided("unknown error"))
		}
	}
	return
}

// scanAll interprets a complete scan and calls end for its outcomes
func (s *scan) scanAll(st *State, limit int, end func(p scanPath, ok bool)) {
	var paths []scanPath
	for _, o := range s.callTuple(s.start, st, s.self, s.rule) {
		yes, no := s.nilErr(o, o.val)
		for _, x := range no {
			end(scanPath{st: x, pos: s.p.instrPos(o.in)}, false)
		}
		for _, x := range yes {
			paths = append(paths, scanPath{st: x, pos: s.p.instrPos(o.in)})
		}
	}
	for round := 0; len(paths) > 0; round++ {
		if round > limit {
			s.fail("elements", paths[0].pos, "a scan yields more elements than the rule declares")
			return
		}
		var next []scanPath
		for _, pa := range paths {
			for _, h := range s.callTuple(s.hasNext, pa.st, s.self) {
				f, ok := h.val.(*Form)
				if !ok {
					panic(undecided("unknown result of HasNext"))
				}
				for _, hs := range s.c.fork(h.st, f) {
					v, k := s.c.e.decide(hs, f)
					if !k {
						panic(undecided("unknown result of HasNext"))
					}
					if !v {
						end(scanPath{st: hs, elems: pa.elems, pos: pa.pos}, true)
						continue
					}
					for _, o := range s.callTuple(s.next, hs, s.self) {
						t := o.val.(TupleV)
						yes, no := s.nilErr(o, t[2])
						for _, x := range no {
							end(scanPath{st: x, elems: pa.elems, pos: s.p.instrPos(o.in)}, false)
						}
						for _, x := range yes {
							el := append(append([]TupleV{}, pa.elems...), t)
							next = append(next, scanPath{st: x, elems: el, pos: s.p.instrPos(o.in)})
						}
					}
				}
			}
		}
		paths = next
	}
}

// refElem is an element that the format gives to a rule
type refElem struct {
	set bool
	val *Lin
}

type refRun struct {
	st    *State
	at    *Lin
	elems []refElem
}

// reference walks the rule as the format defines it. The verdict is "" for
// valid rules, "may" for those that lack just the closing empty block.
func (s *scan) reference(st *State, lens [3]int64, end func(r refRun, bad string)) {
	c := s.c
	c.st = st
	out := s.u(st, c.k(4), 1)
	at := c.add(c.k(5), c.mul(out, s.k.w))
	s.walkBlock(refRun{st: st, at: at}, lens, 0, lens[0], true, end)
}

// need forks on the presence of bytes
func (s *scan) need(r refRun, n int64, end func(r refRun, bad string), why string) (refRun, bool) {
	c := s.c
	f := c.e.ge(c.sub(s.data.len, c.add(r.at, c.k(n))))
	ok := false
	var res refRun
	for _, st := range c.fork(r.st, f) {
		r2 := r
		r2.st = st
		if v, k := c.e.decide(st, f); k && v {
			ok, res = true, r2
		} else {
			end(r2, why)
		}
	}
	return res, ok
}

func (s *scan) walkBlock(r refRun, lens [3]int64, b int, remaining int64, first bool, end func(r refRun, bad string)) {
	c := s.c
	if remaining == 0 && (!first || lens[b] != 0) {
		if b == 2 {
			s.atEnd(r, end)
			return
		}
		s.walkBlock(r, lens, b+1, lens[b+1], true, end)
		return
	}
	why := "truncated"
	if b == 2 && lens[2] == 0 {
		why = "may"
	}
	r, ok := s.need(r, 1, end, why)
	if !ok {
		return
	}
	ctrl := s.u(r.st, r.at, 1)
	sets := c.e.div(r.st, ctrl, 16)
	elems := c.sub(ctrl, c.mul(sets, 16))
	sum := c.add(sets, elems)
	// a control with an acceptable number of elements
	for ns := int64(0); ns <= remaining; ns++ {
		for ne := int64(0); ns+ne <= remaining; ne++ {
			if ns+ne == 0 && lens[b] != 0 {
				continue
			}
			for _, st := range c.e.assume(r.st.clone(), c.eqF(ctrl, c.k(ns*16+ne)), true) {
				if c.e.impossible(st) {
					continue
				}
				r2 := r
				r2.st = st
				r2.at = c.add(r.at, c.k(1))
				s.walkElems(r2, lens, b, remaining-ns-ne, ns, ne, end)
			}
		}
	}
	// or not
	over := r.st.clone()
	over.f.addGE(c.e.A, c.e.A.addc(sum, -remaining-1))
	if !c.e.impossible(over) {
		r2 := r
		r2.st = over
		end(r2, "more elements than the block has")
	}
	if lens[b] != 0 {
		for _, st := range c.e.assume(r.st.clone(), c.eqF(ctrl, c.k(0)), true) {
			if !c.e.impossible(st) {
				r2 := r
				r2.st = st
				end(r2, "empty fragment in a block with elements")
			}
		}
	}
}

func (s *scan) walkElems(r refRun, lens [3]int64, b int, remaining, ns, ne int64, end func(r refRun, bad string)) {
	c := s.c
	if ns+ne == 0 {
		s.walkBlock(r, lens, b, remaining, false, end)
		return
	}
	w := s.k.w
	if ns > 0 {
		w = 1
	}
	r, ok := s.need(r, w, end, "truncated")
	if !ok {
		return
	}
	v := s.u(r.st, r.at, int(w))
	valid := s.k.valid(s, v)
	if ns > 0 {
		valid = c.ltF(v, c.k(s.none[1]))
	}
	for _, st := range c.fork(r.st, valid) {
		r2 := r
		r2.st = st
		if x, k := c.e.decide(st, valid); !k || !x {
			end(r2, "invalid element")
			continue
		}
		r2.at = c.add(r.at, c.k(w))
		r2.elems = append(append([]refElem{}, r.elems...), refElem{ns > 0, v})
		if ns > 0 {
			s.walkElems(r2, lens, b, remaining, ns-1, ne, end)
		} else {
			s.walkElems(r2, lens, b, remaining, ns, ne-1, end)
		}
	}
}

func (s *scan) atEnd(r refRun, end func(r refRun, bad string)) {
	c := s.c
	f := c.eqF(r.at, s.data.len)
	for _, st := range c.fork(r.st, f) {
		r2 := r
		r2.st = st
		if v, k := c.e.decide(st, f); k && v {
			end(r2, "")
		} else {
			end(r2, "more data than the rule needs")
		}
	}
}

// compare decides a scan outcome against the format
func (s *scan) compare(pa scanPath, lens [3]int64, ok bool) {
	c := s.c
	s.reference(pa.st, lens, func(r refRun, bad string) {
		if c.e.impossible(r.st) {
			return
		}
		shape := fmt.Sprintf("rule with blocks of %d, %d and %d elements", lens[0], lens[1], lens[2])
		if !ok {
			s.rejected++
			if bad == "" {
				s.fail("rejects", pa.pos, "a valid rule is rejected: "+shape)
			}
			return
		}
		if bad != "" && bad != "may" {
			s.fail("accepts", pa.pos, "an invalid rule is accepted: "+shape+", "+bad)
			return
		}
		s.accepted++
		if len(pa.elems) != len(r.elems) {
			s.fail("elements", pa.pos, fmt.Sprintf("%d elements are reported for a %s", len(pa.elems), shape))
			return
		}
		for i, el := range r.elems {
			t := pa.elems[i]
			want := [2]*Lin{el.val, c.k(s.none[1])}
			if el.set {
				want = [2]*Lin{c.k(s.none[0]), el.val}
			}
			for j := range want {
				got, is := t[j].(*Lin)
				if !is {
					panic(undecided("unknown element"))
				}
				// code points are signed
				d := c.sub(got, want[j])
				if !r.st.f.proveEQ(c.e.A, d) && !r.st.f.proveEQ(c.e.A, c.e.wrap(r.st, d, 32, true)) {
					s.fail("elements", pa.pos, fmt.Sprintf("element %d of a %s is not the encoded one", i, shape))
				}
			}
		}
	})
}

// lengths: rules that start being scanned have acceptable block lengths
func (s *scan) lengths() {
	c := s.c
	st := c.e.newState()
	n := 0
	for _, o := range s.callTuple(s.start, st, s.self, s.rule) {
		yes, _ := s.nilErr(o, o.val)
		for _, x := range yes {
			n++
			if !x.f.proveGE(c.e.A, c.e.A.addc(s.data.len, -5)) {
				s.fail("lengths", s.p.instrPos(o.in), "a rule without a complete header is accepted")
				continue
			}
			h, b, t, out := s.u(x, c.k(1), 1), s.u(x, c.k(2), 1), s.u(x, c.k(3), 1), s.u(x, c.k(4), 1)
			cases := c.fork(x, c.eqF(c.e.div(x, c.add(h, b), 256), c.k(0)), c.eqF(c.e.div(x, c.add(h, b, t), 256), c.k(0)))
			for _, y := range cases {
				for _, q := range []*Lin{c.e.div(x, c.add(h, b), 256), c.e.div(x, c.add(h, b, t), 256)} {
					if v, k := c.e.decide(y, c.eqF(q, c.k(0))); k && v {
						y.f.addEQ(c.e.A, q)
					}
				}
			}
			req := func(l *Lin, d string) {
				for _, y := range cases {
					if !y.f.proveGE(c.e.A, l) {
						s.fail("lengths", s.p.instrPos(o.in), d)
					}
				}
			}
			req(c.sub(c.k(255), c.add(h, b, t)), "a rule with more than 255 elements is accepted")
			req(c.e.A.addc(out, -1), "a rule without output is accepted")
			req(c.e.A.addc(b, -1), "a rule without body is accepted")
			req(c.sub(b, out), "a rule with more output than body is accepted")
		}
	}
	if n == 0 {
		s.fail("undecided", s.p.pos(s.start.Pos()), "no successful outcome of Start was recognised")
	}
}

func checkP17(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the scanners compared with the rule format, on symbolic rule data"
	for _, k := range ruleKinds {
		key := k.name
		(*acc)(nil).guardRun(r, "lengths", key, func(fail func(rule, pos, d string)) {
			newScan(p, k, fail).lengths()
		})
		(*acc)(nil).guardRun(r, "total", key, func(fail func(rule, pos, d string)) {
			newScan(p, k, fail).total()
		})
		(*acc)(nil).guardRun(r, "sets", key, func(fail func(rule, pos, d string)) {
			compileSets(p, k, fail)
		})
		for h := int64(0); h <= 2; h++ {
			for b := int64(0); b <= 2; b++ {
				for t := int64(0); t <= 2; t++ {
					if h+b+t > 4 {
						continue
					}
					lens := [3]int64{h, b, t}
					(*acc)(nil).guardRun(r, "format", fmt.Sprint(key, lens), func(fail func(rule, pos, d string)) {
						scanShape(p, k, lens, fail)
					})
				}
			}
		}
	}
	r.atLeast("format", 40)
	r.atLeast("lengths", 2)
}

func scanShape(p *Prog, k ruleKind, lens [3]int64, fail func(rule, pos, d string)) {
	s := newScan(p, k, fail)
	c := s.c
	st := c.e.newState()
	st.f.addGE(c.e.A, c.e.A.addc(s.data.len, -(9+k.w))) // enforced by AddRule
	for i, n := range lens {
		st.f.addEQ(c.e.A, c.sub(s.u(st, c.k(int64(i+1)), 1), c.k(n)))
	}
	out := s.u(st, c.k(4), 1)
	st.f.addGE(c.e.A, c.e.A.addc(out, -1))
	st.f.addGE(c.e.A, c.sub(c.k(lens[1]), out))
	if c.e.impossible(st) {
		return
	}
	s.scanAll(st, int(lens[0]+lens[1]+lens[2]), func(pa scanPath, ok bool) {
		if !c.e.impossible(pa.st) {
			s.compare(pa, lens, ok)
		}
	})
	if s.accepted == 0 {
		fail("undecided", p.pos(s.start.Pos()), "no valid rule was recognised")
	}
	if s.rejected == 0 {
		fail("undecided", p.pos(s.start.Pos()), "no invalid rule was recognised")
	}
}

// scanFact is a candidate for an invariant of a scanner between calls
type scanFact struct {
	name string
	lin  func(st *State) *Lin // nonnegative
}

// facts enumerates the candidates: upper bounds of the fields and lower
// bounds of the amount of data
func (s *scan) facts() []scanFact {
	c := s.c
	var res []scanFact
	rt := s.self.o
	t := s.start.Params[0].Type().Underlying().(*types.Pointer).Elem()
	var walk func(skel string, t types.Type)
	walk = func(skel string, t types.Type) {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(skel+"."+u.Field(i).Name(), u.Field(i).Type())
			}
		case *types.Basic:
			if u.Info()&types.IsInteger == 0 {
				return
			}
			res = append(res, scanFact{skel + " >= 0", func(st *State) *Lin {
				l, ok := c.e.readCell(st, rt, skel, nil, t).(*Lin)
				if !ok {
					return c.k(-1)
				}
				return l
			}})
			for _, k := range []int64{0, 1, 2, 3, 4, 15, 16, 30, 255, 600, 1 << 20} {
				k := k
				res = append(res, scanFact{fmt.Sprint(skel, " <= ", k), func(st *State) *Lin {
					l, ok := c.e.readCell(st, rt, skel, nil, t).(*Lin)
					if !ok {
						return c.k(-1)
					}
					return c.sub(c.k(k), l)
				}})
			}
		case *types.Slice:
			for _, k := range []int64{1, 2, 3, 4, 5, 9 + s.k.w} {
				k := k
				res = append(res, scanFact{fmt.Sprint("len ", skel, " >= ", k), func(st *State) *Lin {
					v, ok := c.e.readCell(st, rt, skel, nil, t).(SliceV)
					if !ok {
						return c.k(-1)
					}
					return c.e.A.addc(v.len, -k)
				}})
			}
		}
	}
	walk("", t)
	return res
}

// total: no data of any size makes the scanner fail
func (s *scan) total() {
	c := s.c
	report := c.e.OnPanic
	c.e.OnPanic = nil
	fs := s.facts()
	keep := func(st *State) {
		var ns []scanFact
		for _, f := range fs {
			if st.f.proveGE(c.e.A, f.lin(st)) {
				ns = append(ns, f)
			}
		}
		fs = ns
	}
	st := c.e.newState()
	st.f.addGE(c.e.A, c.e.A.addc(s.data.len, -(9+s.k.w)))
	c.e.OnPanic = report
	for _, o := range s.callTuple(s.start, st, s.self, s.rule) {
		yes, _ := s.nilErr(o, o.val)
		for _, x := range yes {
			keep(x)
		}
	}
	c.e.OnPanic = nil
	step := func(each func(*State)) {
		st := c.e.newState()
		for _, f := range fs {
			st.f.addGE(c.e.A, f.lin(st))
		}
		for _, h := range s.callTuple(s.hasNext, st, s.self) {
			f, ok := h.val.(*Form)
			if !ok {
				panic(undecided("unknown result of HasNext"))
			}
			for _, hs := range c.e.assume(h.st, f, true) {
				if c.e.impossible(hs) {
					continue
				}
				for _, o := range s.callTuple(s.next, hs, s.self) {
					yes, _ := s.nilErr(o, o.val.(TupleV)[2])
					for _, x := range yes {
						each(x)
					}
				}
			}
		}
	}
	for {
		n := len(fs)
		step(keep)
		if len(fs) == n {
			break
		}
	}
	c.e.OnPanic = report
	step(func(*State) {})
}

func init() {
	debugCmds["scan"] = func(p *Prog, args []string) {
		var lens [3]int64
		fmt.Sscan(args[0], &lens[0])
		fmt.Sscan(args[1], &lens[1])
		fmt.Sscan(args[2], &lens[2])
		t := time.Now()
		scanShape(p, ruleKinds[0], lens, func(rule, pos, d string) { fmt.Println("FAIL", rule, pos, d) })
		fmt.Println(time.Since(t))
	}
	debugCmds["scantotal"] = func(p *Prog, args []string) {
		t := time.Now()
		s := newScan(p, ruleKinds[0], func(rule, pos, d string) { fmt.Println("FAIL", rule, pos, d) })
		s.lengths()
		fmt.Println(time.Since(t))
		s.total()
		fmt.Println(time.Since(t))
	}
}

// compileSets: compiling only looks up sets that the font has
func compileSets(p *Prog, k ruleKind, fail func(rule, pos, d string)) {
	feed := p.method(k.pkg, "DecisionTreeCompiler", "Feed")
	next := p.method(k.pkg, "RuleScanner", "Next")
	num := p.method("", "FontRewrites", k.count)
	get := p.method("", "FontRewrites", k.get)
	if feed == nil || next == nil || num == nil || get == nil {
		panic(undecided("no compiler of " + k.name + " rules"))
	}
	e := newEngine(p)
	e.MergeLimit = 64
	lookups := 0
	e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.fn == nil || !p.inModule(ci.fn) {
			return nil, false
		}
		if ci.fn == get {
			lookups++
			outs := e.callFn(num, ci.args[:1], nil, st.clone())
			ok := false
			if len(outs) == 1 {
				n, is := outs[0].val.(*Lin)
				i, is2 := ci.args[1].(*Lin)
				ok = is && is2 && outs[0].st.f.proveGE(e.A, e.A.addc(e.A.sub(n, i), -1))
			}
			if !ok && !e.impossible(st) {
				fail("sets", p.instrPos(ci.in), "a set that the font may not have is looked up")
			}
			return []callOut{{st: st, val: e.freshVal(e.resType(ci), "set")}}, true
		}
		if ci.fn == num || ci.fn.Parent() != nil || ci.fn.Name() == "Rewrites" || ci.fn.Pkg == feed.Pkg && sharesSets(p, ci.fn, get) {
			return nil, false
		}
		return []callOut{{st: st, val: e.freshVal(e.resType(ci), ci.fn.Name())}}, true
	}
	st := e.newState()
	var args []Val
	for _, pa := range feed.Params {
		args = append(args, e.symVal(pa.Type(), pa.Name(), nil, nil))
	}
	e.callFn(feed, args, nil, st)
	if lookups == 0 {
		fail("undecided", p.pos(feed.Pos()), "no lookup of a set was recognised")
	}
}

// sharesSets: whether a function can lead to lookups of sets
func sharesSets(p *Prog, fn, get *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var walk func(f *ssa.Function) bool
	walk = func(f *ssa.Function) bool {
		if f == get {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && (g == get || p.inModule(g)) && walk(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return walk(fn)
}
