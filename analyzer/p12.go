package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// P12: the lookups find every entry of a sorted table. A lookup is analysed on a table in which the target is
// at some index p (a symbol); each comparison with the key at an index m is decided for m < p, m == p and
// m > p from the order of the table; loops run to a fixpoint whose invariants may mention p.

func init() {
	checks["P12"] = checkP12
	debugCmds["p12"] = func(p *Prog, args []string) {
		r := newReport("P12")
		checkP12(p, r)
		for _, o := range r.obls {
			fmt.Println(o.OK, o.Rule, o.Key, o.Pos, o.Detail)
		}
	}
}

func formLins(f *Form, out []*Lin) []*Lin {
	if f == nil {
		return out
	}
	if f.l != nil {
		out = append(out, f.l)
	}
	return formLins(f.y, formLins(f.x, out))
}

// order3 splits a state in m < p, m == p, m > p; each with the facts given by fact(sign of m-p)
func (c *acc) order3(e *Engine, st *State, m, p *Lin, fact func(s *State, sign int)) []*State {
	var out []*State
	for sign := -1; sign <= 1; sign++ {
		s := st.clone()
		switch sign {
		case -1:
			s.f.addGE(e.A, e.A.addc(e.A.sub(p, m), -1))
		case 0:
			s.f.addEQ(e.A, e.A.sub(m, p))
		case 1:
			s.f.addGE(e.A, e.A.addc(e.A.sub(m, p), -1))
		}
		if s.f.dead || e.impossible(s) {
			continue
		}
		fact(s, sign)
		if !s.f.dead {
			out = append(out, s)
		}
	}
	return out
}

// loopsEnd makes loops without a ranking function a violation
func (c *acc) loopsEnd(fail func(rule, pos, d string)) {
	c.e.OnLoop = func(fn *ssa.Function, head *ssa.BasicBlock, ok bool) {
		if !ok {
			fail("endless", c.p.instrPos(firstPos(head)), "no measure proves that the loop ends")
		}
	}
}

func firstPos(b *ssa.BasicBlock) ssa.Instruction {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in
			}
		}
	}
	return b.Instrs[0]
}

// present prepares the analysis of a lookup of a target that is in the table of n keys of w bytes at base.
func (c *acc) present(base *Lin, w int64, n, target *Lin, fail func(rule, pos, d string)) *Lin {
	e := c.e
	p := e.A.of(e.A.fresh("p", 0, maxFontData))
	c.lt(p, n)
	c.st.f.addEQ(e.A, c.sub(c.rawU(c.add(base, c.mul(p, w)), int(w)), target))
	for j := int64(0); j < w; j++ {
		c.hint(c.data, c.add(base, c.mul(p, w), c.k(j)))
	}
	e.Outer = append(e.Outer, p, c.add(p, c.k(1)), c.add(p, c.k(-1)))
	c.loopsEnd(fail)
	e.OnCond = func(e *Engine, st *State, f *Form) []*State {
		var ms []*Lin
		seen := map[string]bool{}
		nb := e.normLin(st, base)
		for _, l := range formLins(f, nil) {
			for _, t := range l.t {
				a := t.a
				if a.op != "sel" || len(a.args) != 1 || a.reg == nil || a.reg.o != c.data.o {
					continue
				}
				d := e.A.sub(a.args[0], nb)
				ok := d.k%w == 0
				for _, t := range d.t {
					ok = ok && t.c%w == 0
				}
				if !ok {
					continue
				}
				m := e.A.canon(d.k/w, nil)
				for _, t := range d.t {
					m = e.A.add(m, e.A.scale(e.A.of(t.a), t.c/w))
				}
				if seen[m.key] || !st.f.proveGE(e.A, m) || !st.f.proveGE(e.A, e.A.addc(e.A.sub(n, m), -1)) {
					continue
				}
				seen[m.key] = true
				ms = append(ms, m)
			}
		}
		sts := []*State{st}
		for _, m := range ms {
			var ns []*State
			for _, s := range sts {
				old := c.st
				c.st = s
				key := c.rawU(c.add(base, c.mul(m, w)), int(w))
				c.st = old
				ns = append(ns, c.order3(e, s, m, p, func(s *State, sign int) {
					d := e.A.sub(key, target)
					switch sign {
					case -1:
						s.f.addGE(e.A, e.A.addc(e.A.neg(d), -1))
					case 0:
						s.f.addEQ(e.A, d)
					case 1:
						s.f.addGE(e.A, e.A.addc(d, -1))
					}
				})...)
			}
			sts = ns
		}
		return sts
	}
	return p
}

func checkP12(p *Prog, r *Report) {
	r.Technique = "abstract interpretation with loop invariants: a symbolic table position, order facts per comparison, ranking functions"
	f := os.Getenv("P12")
	if f == "" || f == "kern" {
		checkKernGet(p, r, "Get", "OffsetToHorzKernings", true)
		checkKernGet(p, r, "GetVert", "OffsetToVertKernings", true)
	}
	if f == "" || f == "utf8" {
		checkUtf8(p, r, false, true)
		checkUtf8(p, r, true, true)
	}
	if f == "" || f == "names" {
		checkFindName(p, r, true)
	}
	if f == "" || f == "trigger" {
		for _, pkg := range []string{"glyphrule", "utf8rule"} {
			checkTrigger(p, r, pkg, true)
			checkTrigger(p, r, pkg, false)
			for n := int64(-1); n <= 3; n++ {
				checkAddRule(p, r, pkg, n)
			}
		}
	}
	r.atLeast("lookup", 5)
}
