package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P19"] = checkP19
}

// reachableObjs: objects reachable through memory from the given owners.
func (a *pta) reachableFrom(start []*pobj) map[*pobj]string {
	seen := map[*pobj]string{}
	var work []*pobj
	for _, o := range start {
		if _, ok := seen[o]; !ok {
			seen[o] = o.name
			work = append(work, o)
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for path := range a.paths[o] {
			for t := range a.pts[pnode{o, path}] {
				if _, ok := seen[t.o]; !ok {
					seen[t.o] = seen[o] + path
					work = append(work, t.o)
				}
			}
		}
	}
	return seen
}

func (a *pta) symObjs(rootIdx int) []*pobj {
	var out []*pobj
	pre := fmt.Sprintf("%d:", rootIdx)
	for _, o := range a.objs {
		if o.kind == "sym" && strings.HasPrefix(o.root, pre) {
			out = append(out, o)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// mutableShared: object kinds whose memory a caller could change later
func mutableObj(o *pobj) bool {
	return o.kind != "func" && o.kind != "closure" && o.kind != "global"
}

func builderAPI(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.exportedAPI("builder") {
		if f.Blocks != nil && !isTestOnly(p, f) {
			out = append(out, f)
		}
	}
	return out
}

func checkP19(p *Prog, r *Report) {
	r.Technique = "context-sensitive points-to / ownership analysis"
	r.Explanation = "For every exported builder operation a field-sensitive points-to analysis (call-string cloning) computes the heap reachable from the builder, from the arguments and from the results. Obligations: (a) no memory of a slice, map or pointer argument becomes reachable from the builder or from package-level variables; (b) nothing is written through such arguments; (c) no memory of the builder is reachable from the results (built fonts included)."
	r.Assumptions = []string{"standard library functions retain and modify only what they document"}
	api := builderAPI(p)
	slicesSeen := 0
	for i, a := range solveAll(p, api) {
		f := api[i]
		if a == nil {
			continue
		}
		key := p.fname(f)
		recv := f.Signature.Recv() != nil
		first := 0
		if recv {
			first = 1
		}
		isArg := func(o *pobj) (string, bool) {
			if o.kind != "sym" {
				return "", false
			}
			for q := first; q < len(f.Params); q++ {
				if strings.HasPrefix(o.root, fmt.Sprintf("%d:", q)) {
					// callbacks and streams are collaborators, not data
					t := f.Params[q].Type().Underlying().String()
					if strings.HasPrefix(t, "func(") || strings.HasPrefix(t, "interface{Read") || strings.HasPrefix(t, "interface{Write") {
						return "", false
					}
					return f.Params[q].Name(), true
				}
			}
			return "", false
		}
		for q := first; q < len(f.Params); q++ {
			if isPtrLike(f.Params[q].Type()) {
				slicesSeen++
			}
		}
		bad := false
		// (a) retention
		var holders []*pobj
		if recv {
			holders = append(holders, a.symObjs(0)...)
		}
		for _, o := range a.objs {
			if o.kind == "global" {
				holders = append(holders, o)
			}
		}
		for o, path := range a.reachableFrom(holders) {
			if n, is := isArg(o); is && mutableObj(o) {
				bad = true
				r.fail("no-retained-argument", key+" retains "+n, p.pos(f.Pos()), "memory of the argument is reachable from the builder through "+path)
			}
		}
		// (b) mutation
		for _, e := range a.events {
			if n, is := isArg(e.tgt.o); is {
				bad = true
				r.fail("no-mutated-argument", key+" writes "+n+" in "+p.fname(e.ctx.fn), p.instrPos(e.in), "call path: "+e.ctx.chain(p))
			}
		}
		// (c) results
		if recv {
			var roots []*pobj
			for path := range a.paths[retOwner{a.root}] {
				for t := range a.pts[pnode{retOwner{a.root}, path}] {
					roots = append(roots, t.o)
				}
			}
			own := a.reachableFrom(a.symObjs(0))
			for o, path := range a.reachableFrom(roots) {
				if !mutableObj(o) || o.kind == "extern" {
					continue
				}
				if _, is := own[o]; is {
					bad = true
					r.fail("no-shared-result", key+" shares "+o.name, p.pos(f.Pos()), "memory of the builder is reachable from the result through "+path)
				}
			}
		}
		if !bad {
			r.ok("ownership", key, p.pos(f.Pos()), fmt.Sprintf("%d write effects, %d call contexts", len(a.events), len(a.ctxs)))
		}
	}
	if slicesSeen < 10 {
		r.fail("instance-count", "reference arguments", "-", fmt.Sprintf("only %d reference-typed arguments were seen", slicesSeen))
	}
	r.Notes = append(r.Notes, fmt.Sprintf("operations: %d, reference-typed arguments: %d", len(api), slicesSeen))
	r.atLeast("ownership", 60)
}
