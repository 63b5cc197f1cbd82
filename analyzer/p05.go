package main

// P05: every read accessor of a font returns what the format specification stores for it.
// The specification of the layout is the oracle: it is written below as abstract values over
// the bytes of the font, and compared with the abstract result of each accessor.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P05"] = checkP05
	debugCmds["p05"] = func(p *Prog, args []string) {
		r := newReport("P05")
		runAccessors(p, r, args)
		for _, o := range r.obls {
			fmt.Println(o.OK, o.Rule, o.Key, o.Pos, o.Detail)
		}
	}
}

const maxFontData = 32 << 20

// acc is the context in which an accessor is analysed.
type acc struct {
	e        *Engine
	p        *Prog
	st       *State // state in which reads of the specification are made
	font     PtrV
	ft       types.Type // the font struct
	data     SliceV
	args     []Val
	recv     Val
	metrics  *Lin // start of the metrics, if not in the font
	secStart func(string) *Lin
	refine   func(*State) *State // well formedness at a point of the analysis, nil for invalid keys
}

// onAcc, when set, receives each context before its analysis starts
var onAcc func(c *acc)

func newAcc(p *Prog) *acc {
	e := newEngine(p)
	e.MergeLimit = 256
	c := &acc{e: e, p: p, st: e.newState()}
	c.ft = p.pkg("internal").Type("Font").Type()
	o := e.symObj("font", c.ft)
	c.font = PtrV{o: o}
	fs := c.ft.Underlying().(*types.Struct)
	for i := 0; i < fs.NumFields(); i++ {
		f := fs.Field(i)
		v := e.readCell(c.st, o, "."+f.Name(), nil, f.Type())
		switch x := v.(type) {
		case SliceV:
			c.data = x
			c.st.f.addGE(e.A, e.A.sub(e.c(maxFontData), x.len))
		}
	}
	for i := 0; i < fs.NumFields(); i++ {
		f := fs.Field(i)
		if l, ok := e.readCell(c.st, o, "."+f.Name(), nil, f.Type()).(*Lin); ok {
			c.st.f.addGE(e.A, e.A.sub(c.data.len, l))
		}
	}
	if onAcc != nil {
		onAcc(c)
	}
	return c
}

func (c *acc) off(name string) *Lin {
	v, _ := c.e.readCell(c.st, c.font.o, "."+name, nil, types.Typ[types.Uint32]).(*Lin)
	if v == nil {
		panic(undecided("no font offset " + name))
	}
	return v
}

func (c *acc) add(ls ...*Lin) *Lin {
	r := c.e.c(0)
	for _, l := range ls {
		r = c.e.A.add(r, l)
	}
	return r
}
func (c *acc) k(n int64) *Lin           { return c.e.c(n) }
func (c *acc) mul(l *Lin, n int64) *Lin { return c.e.A.scale(l, n) }
func (c *acc) sub(a, b *Lin) *Lin       { return c.e.A.sub(a, b) }
func (c *acc) le(a, b *Lin)             { c.st.f.addGE(c.e.A, c.e.A.sub(b, a)) }
func (c *acc) lt(a, b *Lin)             { c.st.f.addGE(c.e.A, c.e.A.addc(c.e.A.sub(b, a), -1)) }
func (c *acc) ltF(a, b *Lin) *Form      { return c.e.ge(c.e.A.addc(c.e.A.sub(b, a), -1)) }
func (c *acc) eqF(a, b *Lin) *Form      { return c.e.eq(c.e.A.sub(a, b)) }
func (c *acc) uN(at *Lin, n int) *Lin   { return c.uIn(c.data, at, n) }
func (c *acc) u8(at *Lin) *Lin          { return c.uN(at, 1) }
func (c *acc) u16(at *Lin) *Lin         { return c.uN(at, 2) }
func (c *acc) fits(end *Lin)            { c.le(end, c.data.len) }
func (c *acc) arg(i int) *Lin           { return c.args[i].(*Lin) }
func (c *acc) view(off, n *Lin) SliceV {
	s := c.data
	s.off, s.len = c.add(s.off, off), n
	return s
}
func (c *acc) str(off, n *Lin) Val { return c.e.bytesToStr(c.st, c.view(off, n)) }

// uIn is the little endian number of n bytes at a position of a slice.
func (c *acc) uIn(s SliceV, at *Lin, n int) *Lin {
	r := c.k(0)
	for i := 0; i < n; i++ {
		b, ok := c.e.readCell(c.st, s.o, s.skel+"[]", append(append([]*Lin{}, s.idx...), c.add(s.off, at, c.k(int64(i)))), types.Typ[types.Uint8]).(*Lin)
		if !ok {
			panic(undecided("byte read"))
		}
		r = c.add(r, c.mul(b, 1<<(8*i)))
	}
	return r
}

func (c *acc) isZero(l *Lin) bool { return c.st.f.proveEQ(c.e.A, l) }

// tbl is a table of cumulative end offsets followed somewhere by the data.
type tbl struct {
	n    *Lin // number of elements
	ends *Lin
	w    int
	data *Lin
}

func (c *acc) end(t tbl, i *Lin) *Lin { return c.uN(c.add(t.ends, c.mul(i, int64(t.w))), t.w) }
func (c *acc) start(t tbl, i *Lin) *Lin {
	if c.isZero(i) {
		return c.k(0)
	}
	return c.end(t, c.e.A.addc(i, -1))
}
func (c *acc) size(t tbl, i *Lin) *Lin { return c.sub(c.end(t, i), c.start(t, i)) }
func (c *acc) elem(t tbl, i *Lin) (off, n *Lin) {
	return c.add(t.data, c.start(t, i)), c.size(t, i)
}

// wf: the element i of a well formed table is not empty and lies in the font
func (c *acc) wf(t tbl, i *Lin, unit int64) {
	c.lt(c.start(t, i), c.end(t, i))
	c.fits(c.add(t.data, c.mul(c.end(t, i), unit)))
	c.fits(c.add(t.data))
}

type accSpec struct {
	typ, name string
	split     func(c *acc) []*Form // partition of the initial states
	splits    []func(c *acc) []*Form
	wf        func(c *acc)       // facts that hold for well formed fonts
	guard     func(c *acc) *Form // is the key valid?
	want      func(c *acc, got []Val) []Val
	bad       func(c *acc) []Val // results for invalid keys (nil: must not return)
	count     func(c *acc) *Lin  // iterators: number of calls
	each      func(c *acc, n *Lin) []Val
	wfN       func(c *acc, n *Lin)
	errEach   bool // the callback can return an error that stops the iteration
	unroll    int
}

func (c *acc) same(st *State, a, b Val) bool {
	e := c.e
	switch x := a.(type) {
	case rasterized:
		y, ok := b.(rasterized)
		return ok && c.same(st, x.s, y.s)
	case predefWord:
		y, ok := b.(predefWord)
		return ok && c.same(st, x.i, y.i)
	case *Lin:
		y, ok := b.(*Lin)
		return ok && st.f.proveEQ(e.A, e.A.sub(x, y))
	case *Form:
		y, ok := b.(*Form)
		if !ok {
			return false
		}
		if x.String() == y.String() {
			return true
		}
		s1, s2 := st.clone(), st.clone()
		for _, s := range e.assume(s1, x, true) {
			if v, k := e.decide(s, y); !k || !v {
				return false
			}
		}
		for _, s := range e.assume(s2, x, false) {
			if v, k := e.decide(s, y); !k || v {
				return false
			}
		}
		return true
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			return false
		}
		if x.isConst || y.isConst {
			if x.isConst && y.isConst {
				return x.s == y.s
			}
			if x.isConst && x.s == "" {
				return st.f.proveEQ(e.A, y.len)
			}
			if y.isConst && y.s == "" {
				return st.f.proveEQ(e.A, x.len)
			}
			return false
		}
		if x.sl != nil && y.sl != nil {
			return c.same(st, *x.sl, *y.sl)
		}
		return x.key == y.key
	case SliceV:
		y, ok := b.(SliceV)
		if !ok || len(x.idx) != len(y.idx) || x.o != y.o || x.skel != y.skel {
			return false
		}
		for i := range x.idx {
			if !st.f.proveEQ(e.A, e.A.sub(x.idx[i], y.idx[i])) {
				return false
			}
		}
		return st.f.proveEQ(e.A, e.A.sub(x.off, y.off)) && st.f.proveEQ(e.A, e.A.sub(x.len, y.len))
	case StructV:
		y, ok := b.(StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return false
		}
		for i := range x.fields {
			if !c.same(st, x.fields[i], y.fields[i]) {
				return false
			}
		}
		return true
	}
	return valKey(a) == valKey(b)
}

// stc builds a struct value of a type of the root package by field names.
func (c *acc) stc(t types.Type, f map[string]Val) Val {
	s := t.Underlying().(*types.Struct)
	v := StructV{typ: t}
	for i := 0; i < s.NumFields(); i++ {
		fv, ok := f[s.Field(i).Name()]
		if !ok {
			fv = c.e.zeroVal(s.Field(i).Type())
		}
		v.fields = append(v.fields, fv)
	}
	return v
}

func (c *acc) typ(name string) types.Type { return c.p.pkg("").Type(name).Type() }

func valsKey(vs []Val) string {
	var s []string
	for _, v := range vs {
		s = append(s, valKey(v))
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// run analyses one accessor.
func (sp *accSpec) run(p *Prog, r *Report) {
	key := sp.typ + "." + sp.name
	fn := p.method("", sp.typ, sp.name)
	if fn == nil {
		r.fail("accessor", key, "-", "the accessor does not exist")
		return
	}
	c := newAcc(p)
	e := c.e
	e.MergeLimit = 64
	init := c.st
	pos := p.pos(fn.Pos())
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(undecided); ok {
				r.fail("undecided", key, pos, string(u))
				return
			}
			panic(x)
		}
	}()
	// arguments
	c.recv = c.font
	rt := fn.Params[0].Type()
	if pt, ok := rt.Underlying().(*types.Pointer); ok {
		rt = pt.Elem()
	}
	if !types.Identical(rt.Underlying(), c.ft.Underlying()) {
		c.recv = PtrV{o: e.symObj("recv", rt)}
	}
	args := []Val{c.recv}
	cbName := ""
	for _, pr := range fn.Params[1:] {
		v := e.symVal(pr.Type(), "arg:"+pr.Name(), nil, nil)
		if f, ok := v.(FuncV); ok {
			cbName = f.name
		}
		args = append(args, v)
	}
	c.args = args[1:]
	if sp.wf != nil {
		sp.wf(c)
	}
	good := 0
	fails := map[string]bool{}
	fail := func(rule, pos, d string) {
		fails[rule] = true
		r.fail(rule, key, pos, d)
	}
	validKey := func(st *State) (bool, bool) {
		if sp.guard == nil {
			return true, true
		}
		old := c.st
		c.st = st
		g := sp.guard(c)
		c.st = old
		return e.decide(st, g)
	}
	e.Opaque = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.fv == nil || ci.fv.fn != nil || ci.fv.name != cbName || cbName == "" {
			return nil, false
		}
		n := st.ghosts["calls"]
		if e.quiet == 0 && sp.each != nil {
			s2 := st.clone()
			c.st = s2
			c.le(c.k(0), n)
			if sp.wfN != nil {
				sp.wfN(c, n)
			}
			want := sp.each(c, n)
			ok := len(want) == len(ci.args)
			for i := range want {
				ok = ok && c.same(s2, want[i], ci.args[i])
			}
			if s2.f.infeasible(e.A) {
				ok = true
			}
			if !ok {
				fail("element", p.instrPos(ci.in), fmt.Sprintf("call number n=%s gets %s, the specification stores %s", n, valsKey(ci.args), valsKey(want)))
			} else if !s2.f.proveGE(e.A, e.A.addc(e.A.sub(sp.count(c), n), -1)) {
				fail("count", p.instrPos(ci.in), fmt.Sprintf("more calls than the declared count %s: n=%s", sp.count(c), n))
			} else {
				good++
			}
			c.st = init
		}
		if sp.errEach {
			ev := e.freshVal(e.resType(ci), "cberr").(IfaceV)
			s2 := st.clone()
			var outs []callOut
			for _, s := range e.assume(st, e.isNilForm(ev), true) {
				s.setGhost("calls", e.A.addc(n, 1))
				outs = append(outs, callOut{st: s, val: ev})
			}
			for _, s := range e.assume(s2, e.isNilForm(ev), false) {
				s.setGhost("calls", e.A.addc(n, 1))
				s.setGhost("err", c.k(1))
				s.bools["err:"+ev.name] = true
				outs = append(outs, callOut{st: s, val: ev})
			}
			return outs, true
		}
		st.setGhost("calls", e.A.addc(n, 1))
		return []callOut{{st: st, val: TupleV{}}}, true
	}
	e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.fn == nil {
			return nil, false
		}
		switch ci.fn {
		case p.fn("", "GetPredefinedWord"):
			return []callOut{{st: st, val: predefWord{ci.args[0].(*Lin)}}}, true
		case p.fn("mask", "Rasterize"):
			v := e.freshVal(e.resType(ci), "rasterize").(TupleV)
			if s, ok := ci.args[0].(SliceV); ok {
				v[0] = rasterized{s}
			}
			var outs []callOut
			for _, s := range e.assume(st, e.isNilForm(v[1]), true) {
				outs = append(outs, callOut{st: s, val: v})
			}
			return outs, true
		}
		return nil, false
	}
	// refine adds to a copy of a state what a valid key and a well formed font imply
	refine := func(st *State) *State {
		s2 := st.clone()
		old := c.st
		c.st = s2
		if sp.guard != nil {
			e.assume(s2, sp.guard(c), true)
		}
		if sp.wfN != nil {
			if n := st.ghosts["calls"]; n != nil && !s2.f.dead {
				if sp.count != nil {
					c.lt(n, sp.count(c))
				}
				sp.wfN(c, n)
			}
		}
		c.st = old
		return s2
	}
	c.refine = func(st *State) *State {
		if v, k := validKey(st); k && !v {
			return nil
		}
		return refine(st)
	}
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if v, k := validKey(st); k && !v {
			return
		}
		// a well formed font and a valid key can't get here
		s2 := refine(st)
		if e.impossible(s2) {
			return
		}
		if os.Getenv("DBG") != "" {
			fmt.Println("STATE n=", st.ghosts["calls"], "facts:")
			for _, g := range s2.f.ge {
				fmt.Println("   ", g, ">= 0")
			}
		}
		fail("panics", p.instrPos(in), fmt.Sprintf("%s %s can happen with a well formed font and a valid key", kind, detail))
	}
	init.setGhost("calls", c.k(0))
	starts := []*State{init}
	part := func(f *Form) {
		var ns []*State
		for _, s := range starts {
			s2 := s.clone()
			ns = append(ns, e.assume(s, f, true)...)
			ns = append(ns, e.assume(s2, f, false)...)
		}
		starts = ns
	}
	if sp.split != nil {
		sp.splits = append(sp.splits, sp.split)
	}
	for _, split := range sp.splits {
		old := starts
		var all []*State
		for _, s := range old {
			c.st = s
			starts = []*State{s}
			for _, f := range split(c) {
				part(f)
			}
			all = append(all, starts...)
		}
		starts = all
	}
	if sp.guard != nil && len(sp.splits) == 0 {
		c.st = init
		part(sp.guard(c))
	}
	returns := 0
	for _, s := range starts {
		c.st = s
		if sp.wf != nil {
			sp.wf(c)
		}
		for _, o := range e.callFn(fn, args, nil, s.clone()) {
			if e.impossible(o.st) {
				continue
			}
			c.st = o.st
			v, k := validKey(o.st)
			if !k {
				fail("key", pos, "cannot tell whether the accessor returned with a valid key")
				continue
			}
			var got []Val
			switch x := o.val.(type) {
			case TupleV:
				got = x
			default:
				got = []Val{x}
			}
			if !v {
				if sp.bad == nil {
					fail("outside", p.instrPos(o.in), "returns data for a key outside of the declared count: "+valsKey(got))
					continue
				}
				want := sp.bad(c)
				if len(want) != len(got) {
					fail("outside", p.instrPos(o.in), "unexpected results")
					continue
				}
				for i := range want {
					if !c.same(o.st, want[i], got[i]) {
						fail("outside", p.instrPos(o.in), fmt.Sprintf("result for a key outside of the declared count is %s, expected %s", valKey(got[i]), valKey(want[i])))
					}
				}
				good++
				continue
			}
			returns++
			if sp.count != nil {
				n := o.st.ghosts["calls"]
				if sp.errEach {
					if len(got) == 1 && o.st.ghosts["err"] != nil {
						iv, ok := got[0].(IfaceV)
						if !ok || !o.st.bools["err:"+iv.name] {
							fail("error", p.instrPos(o.in), "the error of the callback is not returned: "+valKey(got[0]))
						}
						good++
						continue
					}
					if len(got) != 1 || !isNilVal(got[0]) {
						if nv, k := e.decide(o.st, e.isNilForm(got[0])); !k || !nv {
							fail("error", p.instrPos(o.in), "error without a failing callback: "+valKey(got[0]))
							continue
						}
					}
				}
				if n == nil || !o.st.f.proveEQ(e.A, c.sub(n, sp.count(c))) {
					fail("count", p.instrPos(o.in), fmt.Sprintf("ends after %s calls, the declared count is %s", n, sp.count(c)))
				} else {
					good++
				}
			}
			if sp.want != nil {
				want := sp.want(c, got)
				if len(want) != len(got) {
					fail("value", p.instrPos(o.in), "unexpected number of results")
					continue
				}
				ok := true
				for i := range want {
					if !c.same(o.st, want[i], got[i]) {
						ok = false
						fail("value", p.instrPos(o.in), fmt.Sprintf("returns %s, the specification stores %s", valKey(got[i]), valKey(want[i])))
					}
				}
				if ok {
					good++
				}
			}
		}
	}
	c.st = init
	if returns == 0 && len(fails) == 0 {
		fail("returns", pos, "the accessor never returns for a valid key")
	}
	if len(fails) == 0 {
		r.ok("accessor", key, pos, fmt.Sprintf("%d paths/elements agree with the specification", max(good, returns)))
	}
}

func runAccessors(p *Prog, r *Report, only []string) {
	for _, sp := range accSpecs() {
		if len(only) > 0 && !strings.Contains(sp.typ+"."+sp.name, only[0]) {
			continue
		}
		sp.run(p, r)
	}
	has := func(k string) bool { return len(only) == 0 || strings.Contains(k, only[0]) }
	if has("FontMapping.EvaluateSwitch") {
		checkSwitchEval(p, r)
	}
	if has("FontKerning.Get") {
		checkKernGet(p, r, "Get", "OffsetToHorzKernings", false)
		checkKernGet(p, r, "GetVert", "OffsetToVertKernings", false)
	}
	if has("FontGlyphs.FindIndexByName") {
		checkFindName(p, r, false)
	}
	for _, t := range []string{"GlyphRewriteRule", "Utf8RewriteRule"} {
		if has(t + ".Equals") {
			ruleEquals(p, r, t)
		}
	}
	if has("FontMapping.Utf8") {
		checkUtf8(p, r, false, false)
		checkUtf8(p, r, true, false)
	}
}

func checkP05(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of each accessor over symbolic font bytes, compared with the layout table of the format specification"
	runAccessors(p, r, nil)
	r.atLeast("accessor", 30)
}
