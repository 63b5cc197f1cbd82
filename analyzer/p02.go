package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P02"] = checkP02
	checks["P04"] = checkP04
}

func ruleSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, f := range strings.Fields(s) {
		m[f] = true
	}
	return m
}

// parseObligations interprets Parse and reports the failed rules of the set
func parseObligations(p *Prog, r *Report, rules map[string]bool, opts ...string) *parseRun {
	var pr *parseRun
	(*acc)(nil).guardRun(r, "parse", "Parse", func(fail func(rule, pos, d string)) {
		seen := map[string]bool{}
		f := func(rule, key, pos, d string) {
			k := rule + key + pos + d
			if rules != nil && !rules[rule] || seen[k] {
				return
			}
			seen[k] = true
			if key != "" {
				d = key + ": " + d
			}
			fail(rule, pos, d)
		}
		pr = newParseRun(p, f)
		pr.limits = len(opts) > 0
		pr.e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
			if !e.impossible(st) {
				f("panic", "", p.instrPos(in), kind+" "+detail)
			}
		}
		if n := pr.run(); n == 0 {
			fail("undecided", p.pos(pr.fn.Pos()), "no successful outcome of Parse was recognised")
		}
		if pr.ends == 0 {
			f("order", "EnsureEOF", p.pos(pr.fn.Pos()), "the end of the data is never required")
		}
	})
	return pr
}

// checkRawReads reports the direct reads of sources: they can be short
func checkRawReads(p *Prog, r *Report) {
	b := (*pbuf)(nil)
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(undecided); !ok {
					panic(x)
				}
			}
		}()
		b = findPbuf(p)
	}()
	n := 0
	for _, fn := range p.Funcs {
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := c.Common()
				name := ""
				var results *types.Tuple
				if cc.IsInvoke() {
					name = cc.Method.Name()
					results = cc.Method.Type().(*types.Signature).Results()
				} else if f := cc.StaticCallee(); f != nil {
					name = f.Name()
					results = f.Signature.Results()
					if f.Pkg != nil && f.Pkg.Pkg.Path() == "io" && (name == "ReadFull" || name == "ReadAll") {
						n++
						r.ok("source", p.fname(fn)+" "+name, p.instrPos(in), "reads completely, however the source splits the data")
						continue
					}
					if _, is := gzipTarget(cc); is {
						if b != nil && fn == b.reader {
							n++
							continue
						}
					} else if p.inModule(f) || f.Signature.Recv() == nil {
						continue
					}
				}
				if name != "Read" && name != "ReadAtLeast" || results == nil || results.Len() != 2 {
					continue
				}
				r.fail("source", p.fname(fn)+" "+name, p.instrPos(in), "a source is read directly: what is parsed can depend on how it splits the data")
			}
		}
	}
	r.check(n > 0, "source", "reads", "-", fmt.Sprint(n, " reads of sources"), "no read of a source was recognised")
}

func checkP02(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the parsing buffer with the decompressor as an arbitrary io.Reader, and typestate of the position in Parse"
	checkBuffer(p, r, ruleSet("read chunks append position end progress contract spurious value undecided"))
	parseObligations(p, r, ruleSet("order data undecided"))
	checkRawReads(p, r)
}

func checkP04(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the parsing buffer, Parse and Build with the size and glyph count limits as obligations"
	checkBuffer(p, r, ruleSet("limit undecided"))
	parseObligations(p, r, ruleSet("glyphs undecided"))
	buildLimits(p, r)
	addLimits(p, r)
}

// buildLimits: a font is only built with data up to the maximum size and an acceptable number of glyphs
func buildLimits(p *Prog, r *Report) {
	(*acc)(nil).guardRun(r, "build", "Build", func(fail func(rule, pos, d string)) {
		b := runBuild(p, nil)
		if len(b.ok) == 0 {
			fail("undecided", p.pos(b.fn.Pos()), "no successful outcome of the build was recognised")
		}
		for _, bf := range b.ok {
			e, st := b.e, bf.out.st
			pos := p.instrPos(bf.out.in)
			d, ok := e.readCell(st, bf.font.o, bf.font.skel+".Data", bf.font.idx, byteSlice).(SliceV)
			if !ok {
				fail("undecided", pos, "unknown data of the built font")
				continue
			}
			if !st.f.proveGE(e.A, e.A.sub(e.c(maxFontData), d.len)) {
				fail("limit", pos, "a font larger than the maximum size can be built")
			}
			n := glyphCount(p, e, st, b.self)
			if !st.f.proveGE(e.A, e.A.addc(n, -1)) {
				fail("glyphs", pos, "a font without glyphs can be built")
			}
			if !st.f.proveGE(e.A, e.A.sub(e.c(maxGlyphs), n)) {
				fail("glyphs", pos, "a font with more than the maximum number of glyphs can be built")
			}
		}
	})
}

// glyphCount evaluates the number of glyphs that a builder reports
func glyphCount(p *Prog, e *Engine, st *State, self Val) *Lin {
	fn := p.method("builder", "Font", "GetNumGlyphs")
	if fn == nil {
		panic(undecided("no method GetNumGlyphs"))
	}
	outs := e.callFn(fn, []Val{self}, nil, st.clone())
	if len(outs) == 1 {
		if l, ok := outs[0].val.(*Lin); ok {
			return l
		}
	}
	panic(undecided("unknown number of glyphs"))
}

// addLimits: adding a glyph keeps the number of glyphs within the limit
func addLimits(p *Prog, r *Report) {
	(*acc)(nil).guardRun(r, "build", "AddGlyph", func(fail func(rule, pos, d string)) {
		fn := p.method("builder", "Font", "AddGlyph")
		if fn == nil {
			panic(undecided("no method AddGlyph"))
		}
		e := newEngine(p)
		e.MergeLimit = 64
		e.Unroll = func(*ssa.Function, *ssa.BasicBlock) int { return 8 }
		e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
			if ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg != fn.Pkg && p.inModule(ci.fn) {
				return []callOut{{st: st, val: e.freshVal(e.resType(ci), ci.fn.Name())}}, true
			}
			return nil, false
		}
		st := e.newState()
		var args []Val
		for _, pa := range fn.Params {
			args = append(args, e.symVal(pa.Type(), pa.Name(), nil, nil))
		}
		before := glyphCount(p, e, st, args[0])
		st.f.addGE(e.A, e.A.sub(e.c(maxGlyphs), before))
		n := 0
		for _, o := range e.callFn(fn, args, nil, st) {
			if e.impossible(o.st) {
				continue
			}
			pos := p.instrPos(o.in)
			t, ok := o.val.(TupleV)
			if !ok {
				panic(undecided("unknown result of AddGlyph"))
			}
			after := glyphCount(p, e, o.st, args[0])
			if !o.st.f.proveGE(e.A, e.A.sub(e.c(maxGlyphs), after)) {
				fail("glyphs", pos, "a glyph can be added beyond the maximum number of glyphs")
			}
			if v, k := e.decide(o.st, e.isNilForm(t[len(t)-1])); !k || v {
				n++
			}
		}
		if n == 0 {
			fail("undecided", p.pos(fn.Pos()), "no successful outcome of AddGlyph was recognised")
		}
	})
}
