package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P13"] = checkP13
	debugCmds["cond"] = func(p *Prog, args []string) {
		for _, x := range condShapes() {
			if len(args) > 0 && !strings.HasPrefix(x.String(), args[0]) {
				continue
			}
			condCheck(p, x, 1, func(rule, pos, d string) { fmt.Println("FAIL", x, rule, pos, d) })
		}
	}
}

// cexpr is the shape of an encoded condition
type cexpr struct {
	kind  string // "or", "and", "cmp" (settings), "cmpc" (constant), "quick", "raw"
	op    int64  // comparison or, for raw, control byte
	n     int    // bytes, for raw
	terms []*cexpr
	at    int64 // position, once laid out
}

func (x *cexpr) String() string {
	if x.terms == nil {
		return fmt.Sprintf("%s%d", x.kind, x.op)
	}
	if len(x.terms) > 4 {
		return fmt.Sprintf("%s(%s x%d)", x.kind, x.terms[0], len(x.terms))
	}
	var s []string
	for _, t := range x.terms {
		s = append(s, t.String())
	}
	return x.kind + "(" + strings.Join(s, ",") + ")"
}

func (x *cexpr) layout(at int64) int64 {
	x.at = at
	switch x.kind {
	case "or", "and":
		at++
		for _, t := range x.terms {
			at = t.layout(at)
		}
		return at
	case "cmp", "cmpc":
		return at + 3
	case "raw":
		return at + int64(x.n)
	}
	return at + 2
}

func (x *cexpr) each(f func(*cexpr)) {
	f(x)
	for _, t := range x.terms {
		t.each(f)
	}
}

func (x *cexpr) copy() *cexpr {
	y := *x
	y.terms = nil
	for _, t := range x.terms {
		y.terms = append(y.terms, t.copy())
	}
	return &y
}

func grp(kind string, ts ...*cexpr) *cexpr {
	x := &cexpr{kind: kind}
	for _, t := range ts {
		x.terms = append(x.terms, t.copy())
	}
	return x
}

func rep(t *cexpr, n int) []*cexpr {
	var ts []*cexpr
	for i := 0; i < n; i++ {
		ts = append(ts, t)
	}
	return ts
}

// condShapes enumerates the well formed conditions that are decided
func condShapes() []*cexpr {
	var leaves []*cexpr
	for op := int64(0); op < 6; op++ {
		leaves = append(leaves, &cexpr{kind: "cmp", op: op}, &cexpr{kind: "cmpc", op: op})
	}
	for op := int64(0); op < 4; op++ {
		leaves = append(leaves, &cexpr{kind: "quick", op: op})
	}
	res := append([]*cexpr{}, leaves...)
	q := &cexpr{kind: "quick"}
	c := &cexpr{kind: "cmpc", op: 2}
	for _, k := range []string{"or", "and"} {
		other := "and"
		if k == "and" {
			other = "or"
		}
		// each leaf evaluated or skipped at each place of a group
		for _, l := range leaves {
			res = append(res, grp(k, l, q), grp(k, q, l), grp(k, c, l, q))
		}
		for _, n := range []int{4, 7, 8, 15, 16, 31} {
			res = append(res, grp(k, rep(q, n)...))
		}
		in := grp(other, q, c)
		in3 := grp(other, c, q, q)
		same := grp(k, q, c)
		deep := grp(other, c, grp(k, q, grp(other, q, c), q))
		for _, g := range []*cexpr{in, in3, same, deep} {
			res = append(res, grp(k, g, q), grp(k, q, g), grp(k, c, g, q), grp(k, g, g))
		}
		// groups skipped as a whole, of any declared size
		for _, n := range []int{1, 3, 4, 7, 8, 15, 16, 17, 31} {
			big := &cexpr{kind: other}
			big.terms = append(big.terms, rep(q, n)...)
			skipped := grp(other, q, grp(other, big.terms...))
			res = append(res, grp(k, q, grp(other, rep(q, n)...), q), grp(k, q, grp(k, rep(q, n)...), q))
			if n > 2 {
				res = append(res, grp(k, q, skipped, q))
			}
		}
	}
	return res
}

// invalid conditions must not yield a result
func condInvalid() []*cexpr {
	var res []*cexpr
	for op := int64(6); op < 16; op++ {
		res = append(res, &cexpr{kind: "raw", op: 0x40 + op, n: 3}, &cexpr{kind: "raw", op: 0x50 + op, n: 3})
	}
	for op := int64(0xE0); op < 0x100; op++ {
		res = append(res, &cexpr{kind: "raw", op: op, n: 2})
	}
	q := &cexpr{kind: "quick"}
	bad := &cexpr{kind: "raw", op: 0xE5, n: 2}
	for _, k := range []string{"or", "and"} {
		res = append(res, grp(k, bad, q))
	}
	return res
}

type condRun struct {
	c    *acc
	p    *Prog
	base *Lin // start of the condition
	set  SliceV
}

func (r *condRun) b(st *State, at int64) *Lin {
	r.c.st = st
	return r.c.u8(r.c.add(r.base, r.c.k(at)))
}

func (r *condRun) setting(st *State, i *Lin) *Lin {
	r.c.st = st
	return r.c.uIn(r.set, i, 1)
}

// constrain makes the data at the condition encode the expression
func (r *condRun) constrain(st *State, x *cexpr, length *Lin) {
	c := r.c
	x.each(func(x *cexpr) {
		ctrl := r.b(st, x.at)
		is := func(k int64) { st.f.addEQ(c.e.A, c.e.A.addc(ctrl, -k)) }
		below := func(at int64) {
			st.f.addGE(c.e.A, c.e.A.addc(c.sub(length, r.b(st, at)), -1))
		}
		switch x.kind {
		case "or":
			is(int64(len(x.terms)))
		case "and":
			is(0x20 + int64(len(x.terms)))
		case "cmp":
			is(0x40 + x.op)
			below(x.at + 1)
			below(x.at + 2)
		case "cmpc":
			is(0x50 + x.op)
			below(x.at + 1)
		case "quick":
			lo := 0x60 + 0x20*x.op
			st.f.addGE(c.e.A, c.e.A.addc(ctrl, -lo))
			st.f.addGE(c.e.A, c.e.A.addc(c.e.A.neg(ctrl), lo+31))
			below(x.at + 1)
		case "raw":
			is(x.op)
			for i := 1; i < x.n; i++ {
				below(x.at + int64(i))
			}
		}
	})
}

type condVal struct {
	st  *State
	val bool
}

// eval gives the truth values that the format assigns, partitioning the state
func (r *condRun) eval(st *State, x *cexpr) []condVal {
	c := r.c
	if x.terms != nil {
		stop := x.kind == "or"
		sts := []*State{st}
		var res []condVal
		for _, t := range x.terms {
			var next []*State
			for _, s := range sts {
				for _, v := range r.eval(s, t) {
					if v.val == stop {
						res = append(res, v)
					} else {
						next = append(next, v.st)
					}
				}
			}
			sts = next
		}
		for _, s := range sts {
			res = append(res, condVal{s, !stop})
		}
		return res
	}
	a := r.setting(st, r.b(st, x.at+1))
	var b *Lin
	op := x.op
	switch x.kind {
	case "cmp":
		b = r.setting(st, r.b(st, x.at+2))
	case "cmpc":
		b = r.b(st, x.at+2)
	case "quick":
		b = c.e.A.addc(r.b(st, x.at), -(0x60 + 0x20*x.op))
	}
	var f *Form
	switch op {
	case 0:
		f = c.eqF(a, b)
	case 1:
		f = fNot(c.eqF(a, b))
	case 2:
		f = c.ltF(a, b)
	case 3:
		f = c.ltF(b, a)
	case 4:
		f = c.e.ge(c.sub(b, a))
	case 5:
		f = c.e.ge(c.sub(a, b))
	}
	var res []condVal
	for _, s := range c.fork(st, f) {
		v, k := c.e.decide(s, f)
		if !k {
			panic(undecided("unknown comparison"))
		}
		res = append(res, condVal{s, v})
	}
	return res
}

// condStart prepares a condition in the font: key 0 or any other
func condStart(p *Prog, x *cexpr, key int) (*condRun, *ssa.Function, *State, []Val) {
	fn := p.method("", "FontRewrites", "EvaluateCondition")
	if fn == nil || len(fn.Params) != 3 {
		panic(undecided("no method EvaluateCondition"))
	}
	c := newAcc(p)
	e := c.e
	e.MergeLimit = 1 << 20
	e.Recursion = 6
	e.Unroll = func(*ssa.Function, *ssa.BasicBlock) int { return 40 }
	k := e.symVal(fn.Params[1].Type(), "arg:condition", nil, nil).(*Lin)
	set := e.symVal(fn.Params[2].Type(), "arg:settings", nil, nil).(SliceV)
	c.le(set.len, c.k(255))
	b := c.off("OffsetToRewriteConditions")
	c.fits(c.add(b, c.k(1)))
	n := c.u8(b)
	t := tbl{n: n, ends: c.add(b, c.k(1)), w: 2, data: c.add(b, c.k(1), c.mul(n, 2))}
	if key == 0 {
		c.st.f.addEQ(e.A, k)
	} else {
		c.le(c.k(1), k)
	}
	c.lt(k, n)
	c.wf(t, k, 1)
	r := &condRun{c: c, p: p, set: set}
	x = x.copy()
	size := x.layout(0)
	r.base, _ = c.elem(t, k)
	c.st.f.addEQ(e.A, c.e.A.addc(c.size(t, k), -size))
	for i := int64(0); i < size; i++ {
		c.hint(c.data, c.add(r.base, c.k(i)))
	}
	return r, fn, c.st, []Val{c.font, k, set}
}

func condCheck(p *Prog, x *cexpr, key int, fail func(rule, pos, d string)) {
	r, fn, st, args := condStart(p, x, key)
	c := r.c
	x = x.copy()
	x.layout(0)
	r.constrain(st, x, r.set.len)
	if c.e.impossible(st) {
		panic(undecided("contradictory condition"))
	}
	c.e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			fail("evaluates", p.instrPos(in), "a valid condition isn't evaluated: "+kind+" "+detail)
		}
	}
	n := 0
	for _, o := range c.outs(fn, args, st) {
		f, ok := o.val.(*Form)
		if !ok {
			panic(undecided("unknown result"))
		}
		for _, v := range r.eval(o.st, x) {
			if c.e.impossible(v.st) {
				continue
			}
			n++
			got, known := c.e.decide(v.st, f)
			if !known || got != v.val {
				fail("value", p.instrPos(o.in), fmt.Sprintf("the format assigns %v, which isn't the result", v.val))
			}
		}
	}
	if n == 0 {
		fail("undecided", p.pos(fn.Pos()), "no outcome was recognised")
	}
}

// condRefuse: invalid conditions yield no result
func condRefuse(p *Prog, x *cexpr, fail func(rule, pos, d string)) {
	r, fn, st, args := condStart(p, x, 1)
	x = x.copy()
	x.layout(0)
	r.constrain(st, x, r.set.len)
	for _, o := range r.c.outs(fn, args, st) {
		fail("undefined", p.instrPos(o.in), "an undefined control or operator yields a result")
	}
}

// condUnknown: settings that the font doesn't have are not used
func condUnknown(p *Prog, x *cexpr, at int64, fail func(rule, pos, d string)) {
	r, fn, st, args := condStart(p, x, 1)
	x = x.copy()
	x.layout(0)
	r.constrain(st, x, r.c.k(256))
	st.f.addGE(r.c.e.A, r.c.sub(r.b(st, at), r.set.len))
	for _, o := range r.c.outs(fn, args, st) {
		fail("undefined", p.instrPos(o.in), "a setting that doesn't exist is used")
	}
}

func checkP13(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the condition evaluation on symbolic conditions of each shape, against the condition format"
	for i, x := range condShapes() {
		x := x
		for key := 0; key <= 1; key++ {
			if key == 0 && i%7 != 0 {
				continue
			}
			(*acc)(nil).guardRun(r, "condition", fmt.Sprintf("%s/%d", x, key), func(fail func(rule, pos, d string)) {
				condCheck(p, x, key, fail)
			})
		}
		if x.terms == nil {
			last := int64(1)
			if x.kind == "cmp" {
				last = 2
			}
			for at := int64(1); at <= last; at++ {
				(*acc)(nil).guardRun(r, "undefined", fmt.Sprintf("%s setting %d", x, at), func(fail func(rule, pos, d string)) {
					condUnknown(p, x, at, fail)
				})
			}
		}
	}
	for _, x := range condInvalid() {
		x := x
		(*acc)(nil).guardRun(r, "undefined", x.String(), func(fail func(rule, pos, d string)) {
			condRefuse(p, x, fail)
		})
	}
	r.atLeast("condition", 100)
	r.atLeast("undefined", 60)
}
