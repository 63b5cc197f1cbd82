package main

import (
	"fmt"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P18"] = checkP18
}

var scratchField = regexp.MustCompile(`^\.(temp|scratch|tmp|build)[A-Za-z0-9_]*`)

// operations that produce or load whole fonts, rather than editing the contents being built
func notEditing(f *ssa.Function) bool {
	n := f.Name()
	return n == "Build" || strings.HasPrefix(n, "Export") || strings.HasPrefix(n, "Validate") || strings.HasPrefix(n, "ParseEdition")
}

func checkP18(p *Prog, r *Report) {
	r.Technique = "path-sensitive write-effect analysis (points-to + disjunctive abstract interpretation)"
	r.Explanation = "For every exported editing operation of the builder with an error result, the points-to analysis determines which instructions (in the operation and all its callees, per call context) may write memory reachable from the builder. The operation is then interpreted along every feasible path, forking on the outcome of every call: no path that ends with a non-nil error may have executed such a write before. Scratch buffers of the builder are not contents and are exempt."
	r.Assumptions = []string{"scratch fields of the builder (temp*) carry no contents between operations"}
	n := 0
	var fns []*ssa.Function
	for _, f := range builderAPI(p) {
		if f.Signature.Recv() == nil || errResultIdx(f.Signature) < 0 || notEditing(f) {
			continue
		}
		fns = append(fns, f)
	}
	for i, a := range solveAll(p, fns) {
		f := fns[i]
		if a == nil {
			continue
		}
		key := p.fname(f)
		eff := map[*pctx]map[ssa.Instruction]string{}
		has := map[*pctx]bool{}
		recv := a.symObjs(0)
		own := map[*pobj]bool{}
		for _, o := range recv {
			own[o] = true
		}
		ne := 0
		for _, e := range a.events {
			o := e.tgt.o
			if !own[o] {
				continue
			}
			// scratch buffers: the field itself, or what it points to
			suffix := strings.TrimPrefix(o.name, "param "+f.Params[0].Name()+"*")
			if scratchField.MatchString(suffix + e.tgt.path) {
				continue
			}
			if eff[e.ctx] == nil {
				eff[e.ctx] = map[ssa.Instruction]string{}
			}
			eff[e.ctx][e.in] = fmt.Sprintf("%s of builder%s%s at %s", e.kind, suffix, e.tgt.path, p.instrPos(e.in))
			ne++
			for q := e.ctx; q != nil; q = q.parent {
				has[q] = true
			}
		}
		w := newWalker(p)
		w.exempt = errExempt
		w.rootCtx = a.root
		w.effect = func(pc *pctx, in ssa.Instruction) string { return eff[pc][in] }
		w.hasEff = func(pc *pctx) bool { return has[pc] }
		w.kidOf = func(pc *pctx, in ssa.Instruction, g *ssa.Function) *pctx { return pc.kids[in][g] }
		bad := false
		ei := errResultIdx(f.Signature)
		w.onExit = func(fn *ssa.Function, s *wstate, exit ssa.Instruction) {
			if s.dirty == "" || s.ret[ei].k == avNil {
				return
			}
			bad = true
			r.fail("unchanged-on-error", key+": "+stripPos(s.dirty), p.instrPos(exit), "an error can be returned here after the "+s.dirty)
		}
		w.analyze(f)
		n++
		if !bad {
			r.ok("unchanged-on-error", key, p.pos(f.Pos()), fmt.Sprintf("%d write effects, %d path exits", ne, w.paths))
		}
	}
	r.atLeast("unchanged-on-error", 20)
}

func stripPos(s string) string {
	if i := strings.LastIndex(s, " at "); i >= 0 {
		return s[:i]
	}
	return s
}
