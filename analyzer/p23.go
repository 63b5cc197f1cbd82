package main

import (
	"fmt"
	"math/big"
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P03"] = checkP03
	checks["P21"] = checkP21
	checks["P23"] = checkP23
}

func prefixed(p string, s []string) []string {
	var out []string
	for _, x := range s {
		out = append(out, p+x)
	}
	return out
}

// vdoc is a documented condition under which the validation of a section fails
type vdoc struct {
	name string
	cond func(c *acc) *Form
}

func metric(c *acc, i int64) *Lin { return c.u8(c.add(c.metricsAt(), c.k(i))) }

var vdocs = map[string][]vdoc{
	"FontHeader": {
		{"another format version", func(c *acc) *Form { return fNot(c.eqF(c.uN(c.k(0), 4), c.k(formatVersion))) }},
		{"an empty name", func(c *acc) *Form { return c.eqF(c.u8(c.k(28)), c.k(0)) }},
	},
	"FontMetrics": {
		{"no glyphs", func(c *acc) *Form { return c.eqF(c.numGlyphs(), c.k(0)) }},
		{"too many glyphs", func(c *acc) *Form { return c.gtF(c.numGlyphs(), c.k(maxGlyphs)) }},
		{"an invalid boolean", func(c *acc) *Form { return c.gtF(metric(c, 2), c.k(1)) }},
		{"no ascent", func(c *acc) *Form { return c.eqF(metric(c, 4), c.k(0)) }},
		{"more extra ascent than ascent", func(c *acc) *Form { return c.gtF(metric(c, 5), metric(c, 4)) }},
		{"vertical interspacing without vertical layout", func(c *acc) *Form {
			return &Form{op: "and", x: fNot(c.eqF(metric(c, 2), c.k(1))), y: c.gtF(metric(c, 11), c.k(0))}
		}},
	},
	"FontColor": {
		{"too many color sections", func(c *acc) *Form {
			return c.gtF(c.add(c.u8(c.off("OffsetToDyes")), c.u8(c.off("OffsetToPalettes"))), c.k(255))
		}},
	},
	"FontGlyphs": {
		{"more named glyphs than glyphs", func(c *acc) *Form { return c.gtF(c.u16(c.off("OffsetToGlyphNames")), c.numGlyphs()) }},
	},
}

const formatVersion = 2

var minEntropy = big.NewRat(26, 100)

// sectionsRead assumes that the sections up to the given one have been parsed: each is at least as long as its count
// and ends where the next one starts
func (c *acc) sectionsRead(last int, strong bool) []*State {
	e := c.e
	start := func(i int) *Lin {
		if i == 0 {
			return c.k(0)
		}
		if i >= len(grammar) {
			return c.data.len
		}
		return c.off(grammar[i].field)
	}
	sts := []*State{c.st}
	for i := 0; i <= last; i++ {
		g := grammar[i]
		next := start(i + 1)
		if i == last {
			next = c.data.len
		}
		var out []*State
		for _, s := range sts {
			c.st = s
			c.le(next, c.data.len)
			n := c.k(0)
			if g.count > 0 {
				c.le(c.add(start(i), c.k(int64(g.count))), next)
				if !strong || last-i > 4 {
					out = append(out, s)
					continue
				}
				n = c.uN(start(i), g.count)
				for _, q := range c.fork(s, e.eq(n)) {
					c.st = q
					if q.f.proveEQ(e.A, n) {
						c.le(c.add(start(i), c.k(int64(g.count))), next)
					} else {
						c.le(g.end(c, start(i), n), next)
					}
					out = append(out, q)
				}
				continue
			}
			if g.field == "OffsetToGlyphMasks" {
				if c.is(c.eqF(c.numGlyphs(), c.k(0))) {
					continue
				}
				s.f.addGE(e.A, c.add(c.numGlyphs(), c.k(-1)))
			}
			c.le(g.end(c, start(i), n), next)
			out = append(out, s)
		}
		sts = out
	}
	return sts
}

// checkValidator checks the validation of a section against its documented conditions
func checkValidator(p *Prog, typ string, strong bool, fail func(rule, pos, d string)) {
	fn := p.method("", typ, "Validate")
	if fn == nil {
		panic(undecided("no method Validate of " + typ))
	}
	entropies := []string{""}
	if typ == "FontHeader" {
		entropies = []string{"0", "12/48", "13/48", "1"}
	}
	for _, ent := range entropies {
		c := newAcc(p)
		e := c.e
		last := 0
		if f := validatorNeeds[typ]; f != "" {
			last = secIndex(f)
		}
		asked := 0
		e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
			if ci.fn != nil && p.inModule(ci.fn) && len(ci.args) == 1 && ci.fn.Signature.Recv() == nil {
				if b, ok := e.resType(ci).(*types.Basic); ok && b.Kind() == types.Float64 {
					asked++
					id := (&acc{e: e, p: p, st: st, data: c.data}).uN(c.k(4), 8)
					if l, ok := ci.args[0].(*Lin); !ok || !st.f.proveEQ(e.A, e.A.sub(l, id)) {
						fail("conditions", p.instrPos(ci.in), "the entropy is not that of the font identifier")
					}
					return []callOut{{st: st, val: OpaqueV{ent}}}, true
				}
			}
			return nil, false
		}
		e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
			if !e.impossible(st) {
				fail("panic", p.instrPos(in), kind+" "+detail)
			}
		}
		mode := p.pkg("").Members["FmtDefault"].(*ssa.NamedConst)
		for _, st := range c.sectionsRead(last, strong) {
			type caseT struct {
				st  *State
				bad string
			}
			cases := []caseT{{st, ""}}
			if ent != "" {
				if r, _ := new(big.Rat).SetString(ent); r.Cmp(minEntropy) < 0 {
					cases[0].bad = "a low entropy"
				}
			}
			for _, d := range vdocs[typ] {
				var next []caseT
				for _, cs := range cases {
					if cs.bad != "" {
						next = append(next, cs)
						continue
					}
					c.st = cs.st
					f := d.cond(c)
					for _, q := range e.assume(cs.st.clone(), f, true) {
						if !e.impossible(q) {
							next = append(next, caseT{q, d.name})
						}
					}
					for _, q := range e.assume(cs.st, f, false) {
						if !e.impossible(q) {
							next = append(next, caseT{q, ""})
						}
					}
				}
				cases = next
			}
			for _, cs := range cases {
				n := 0
				for _, o := range e.callFn(fn, []Val{c.font, e.constVal(mode.Value)}, nil, cs.st) {
					if e.impossible(o.st) {
						continue
					}
					n++
					v, k := e.decide(o.st, e.isNilForm(o.val))
					switch {
					case !k:
						fail("conditions", p.instrPos(o.in), "unknown result of the validation")
					case v && cs.bad != "":
						fail("conditions", p.instrPos(o.in), "the validation accepts "+cs.bad)
					case !v && cs.bad == "":
						fail("conditions", p.instrPos(o.in), "the validation refuses a section that meets every documented condition")
					}
				}
				if n == 0 {
					fail("panic", p.pos(fn.Pos()), "the validation does not return")
				}
			}
		}
		if ent != "" && asked == 0 {
			fail("conditions", p.pos(fn.Pos()), "the entropy of the font identifier is not examined")
		}
	}
}

// validators runs the checks of the section validations for the rules of a property
func validators(p *Prog, r *Report, rules map[string]bool) {
	for _, typ := range sortedKeys(validatorNeeds) {
		(*acc)(nil).guardRun(r, "validator", typ+".Validate", func(fail func(rule, pos, d string)) {
			run := func(strong bool) (out [][3]string, und string) {
				defer func() {
					if x := recover(); x != nil {
						u, ok := x.(undecided)
						if !ok {
							panic(x)
						}
						und = string(u)
					}
				}()
				checkValidator(p, typ, strong, func(rule, pos, d string) { out = append(out, [3]string{rule, pos, d}) })
				return
			}
			out, und := run(false)
			if len(out) > 0 && und == "" {
				out, und = run(true)
			}
			if und != "" {
				panic(undecided(und))
			}
			seen := map[string]bool{}
			for _, f := range out {
				if rules[f[0]] && !seen[fmt.Sprint(f)] {
					seen[fmt.Sprint(f)] = true
					fail(f[0], f[1], f[2])
				}
			}
		})
	}
	r.atLeast("validator", 8)
}

// checkAggregate checks that the validation of a font runs those of its sections, in the mode of the caller
func checkAggregate(p *Prog, fail func(rule, pos, d string)) {
	fn := p.method("", "Font", "Validate")
	if fn == nil {
		fn = p.method("internal", "Font", "Validate")
	}
	if fn == nil {
		panic(undecided("no method Validate of Font"))
	}
	c := newAcc(p)
	e := c.e
	e.MergeLimit = 1 << 12
	e.Unroll = func(*ssa.Function, *ssa.BasicBlock) int { return 16 }
	ghost := e.symObj("validation ghost", types.Typ[types.Int])
	set := func(st *State, f string, k int64) { e.writeCell(st, ghost, "."+f, nil, types.Typ[types.Int], e.c(k)) }
	get := func(st *State, f string) int64 {
		l, _ := e.readCell(st, ghost, "."+f, nil, types.Typ[types.Int]).(*Lin)
		if l == nil {
			return -1
		}
		if k, ok := l.isConst(); ok {
			return k
		}
		return -1
	}
	mode := e.symVal(fn.Params[1].Type(), "mode", nil, nil)
	set(c.st, "failed", 0)
	for t := range validatorNeeds {
		set(c.st, t, 0)
	}
	e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.fn == nil || ci.fn == fn || ci.fn.Name() != "Validate" || ci.fn.Signature.Recv() == nil || len(ci.args) != 2 {
			return nil, false
		}
		typ := typeName(ci.fn.Signature.Recv().Type())
		if _, ok := validatorNeeds[typ]; !ok {
			return nil, false
		}
		if f, ok := ci.args[0].(PtrV); !ok || f.o != c.font.o {
			fail("aggregate", p.instrPos(ci.in), "the validation of "+typ+" is made on another font")
		}
		if valKey(ci.args[1]) != valKey(mode) {
			fail("mode", p.instrPos(ci.in), typ+" is not validated in the requested mode")
		}
		set(st, typ, 1)
		bad := st.clone()
		set(bad, "failed", 1)
		return []callOut{{st: st, val: IfaceV{isNil: true}}, {st: bad, val: e.errVal("validation")}}, true
	}
	n := 0
	for _, o := range e.callFn(fn, []Val{c.font, mode}, nil, c.st) {
		if e.impossible(o.st) {
			continue
		}
		v, k := e.decide(o.st, e.isNilForm(o.val))
		pos := p.instrPos(o.in)
		switch {
		case !k:
			fail("aggregate", pos, "unknown result of the validation")
		case v:
			n++
			if get(o.st, "failed") != 0 {
				fail("aggregate", pos, "a font is valid although the validation of a section failed")
				continue
			}
			for _, t := range sortedKeys(validatorNeeds) {
				if get(o.st, t) != 1 {
					fail("aggregate", pos, "a font is valid without the validation of "+strings.TrimPrefix(t, "Font"))
				}
			}
		case get(o.st, "failed") == 0:
			fail("aggregate", pos, "a font is refused although the validation of every section succeeds")
		}
	}
	if n == 0 {
		fail("aggregate", p.pos(fn.Pos()), "no font is valid")
	}
}

func checkP23(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the validations over symbolic font data, against the documented conditions"
	validators(p, r, ruleSet("conditions undecided"))
	(*acc)(nil).guardRun(r, "aggregate", "Font.Validate", func(fail func(rule, pos, d string)) { checkAggregate(p, fail) })
	parseObligations(p, r, ruleSet("stale validated mode undecided"))
}

func checkP21(p *Prog, r *Report) {
	r.Technique = "typestate of the position in Parse, with the documented structural limits as case distinctions"
	parseObligations(p, r, ruleSet("refused accepted undecided"), "limits")
}

func checkP03(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the parsing buffer, Parse and the validations with every panic as an obligation"
	checkBuffer(p, r, ruleSet("panic undecided"))
	parseObligations(p, r, ruleSet("panic stale undecided"))
	validators(p, r, ruleSet("panic undecided"))
}
