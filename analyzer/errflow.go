package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P22"] = checkP22
	checks["P08"] = checkP08
	checks["P01"] = checkP01
}

// calls whose error results carry no information (they cannot fail, or only report to the console)
func errExempt(c *ssa.CallCommon) bool {
	n := extName(c)
	switch {
	case strings.HasPrefix(n, "fmt.Print"), strings.HasPrefix(n, "fmt.Fprint"), n == "builtin.print", n == "builtin.println":
		return true
	case strings.HasPrefix(n, "(*strings.Builder)."), strings.HasPrefix(n, "(*bytes.Buffer).Write"):
		return true
	case strings.HasPrefix(n, "crypto/rand."):
		return false
	}
	return false
}

func reachable(p *Prog, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil || !p.inModule(f) {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			visit(a)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() {
						for _, m := range p.implementers(c.Common()) {
							visit(m)
						}
					} else {
						visit(c.Common().StaticCallee())
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

// implementers resolves an interface call to the module methods that may be its target (class hierarchy analysis).
func (p *Prog) implementers(c *ssa.CallCommon) []*ssa.Function {
	var out []*ssa.Function
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			t, ok := m.(*ssa.Type)
			if !ok {
				continue
			}
			for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				if _, isI := tt.Underlying().(*types.Interface); isI {
					continue
				}
				if types.Implements(tt, it) {
					if f := p.SSA.LookupMethod(tt, c.Method.Pkg(), c.Method.Name()); f != nil {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

func checkP22(p *Prog, r *Report) {
	r.Technique = "path-sensitive error-flow analysis (finite disjunctive abstract interpretation over SSA)"
	r.Explanation = "Every function of the module is analysed along every feasible CFG path; each call with an error result is interpreted once per outcome. On the paths where the call failed, the enclosing function has to end with an error that is provably non-nil (or panic). The end-of-file signal of reads is exempt, as are calls that run while another error is already on its way out."
	r.Assumptions = []string{"errors.New/fmt.Errorf and error values boxed from concrete types are non-nil", "console printing calls and in-memory builders cannot fail"}
	dropped := map[string]bool{}
	sitesBad := map[string]string{}
	w := newWalker(p)
	w.exempt = errExempt
	w.onDrop = func(fn *ssa.Function, site, sitePos, exitPos string) {
		k := site
		if !dropped[k] {
			dropped[k] = true
			sitesBad[k] = fmt.Sprintf("when it fails, %s can end at %s without reporting an error", p.fname(fn), exitPos)
			r.fail("error-reported", k, sitePos, sitesBad[k])
		}
	}
	n := 0
	for _, fn := range p.Funcs {
		if isTestOnly(p, fn) || fn.Synthetic != "" && fn.Origin() == nil || inlinedClosure(fn) {
			continue
		}
		n++
		w.analyze(fn)
	}
	var ks []string
	for k := range w.siteKeys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !dropped[k] {
			r.ok("error-reported", k, w.siteKeys[k], "every path after a failure ends in an error")
		}
	}
	r.Notes = append(r.Notes, fmt.Sprintf("functions analysed: %d, abstract states: %d, exits: %d", n, w.steps, w.paths))
	r.atLeast("error-reported", 80)
}

// inlinedClosure: a function literal without error results that is only called or deferred by its parent
func inlinedClosure(fn *ssa.Function) bool {
	if fn.Parent() == nil || errResultIdx(fn.Signature) >= 0 {
		return false
	}
	ok := true
	for _, b := range fn.Parent().Blocks {
		for _, in := range b.Instrs {
			uses := false
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(fn) {
					uses = true
				}
				if mk, is := (*op).(*ssa.MakeClosure); is && mk.Fn == fn {
					uses = true
				}
			}
			if !uses {
				continue
			}
			switch x := in.(type) {
			case *ssa.MakeClosure:
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if a == ssa.Value(fn) {
						ok = false
					}
				}
			case *ssa.Defer:
			default:
				ok = false
			}
		}
	}
	return ok
}

func isTestOnly(p *Prog, fn *ssa.Function) bool {
	return strings.HasSuffix(p.Fset.Position(fn.Pos()).Filename, "_test.go")
}

func isFileOpen(c *ssa.CallCommon) bool {
	n := extName(c)
	if n == "os.Open" || n == "os.OpenFile" || n == "os.Create" {
		return true
	}
	if c.IsInvoke() && c.Method.Name() == "Open" {
		res := c.Signature().Results()
		return res.Len() == 2 && isErrorType(res.At(1).Type())
	}
	return false
}

func isClose(c *ssa.CallCommon) (ssa.Value, bool) {
	if c.IsInvoke() && c.Method.Name() == "Close" {
		return c.Value, true
	}
	if f := c.StaticCallee(); f != nil && f.Name() == "Close" && len(c.Args) > 0 && f.Pkg != nil && f.Pkg.Pkg.Path() == "os" {
		return c.Args[0], true
	}
	return nil, false
}

func checkP08(p *Prog, r *Report) {
	r.Technique = "path-sensitive resource typestate analysis over SSA"
	r.Explanation = "Every library function that opens a file (directly or through helpers) is interpreted along every feasible path, forking on the success or failure of every call. At every exit the opened handle must have been closed exactly through its Close method, unless it was returned to the caller; if nothing else failed, a Close failure must be part of the returned error."
	r.Assumptions = []string{"io/fs and os report a failed open with a non-nil error and no handle"}
	w := newWalker(p)
	w.exempt = errExempt
	w.opener, w.closer = isFileOpen, isClose
	for _, fn := range p.Funcs {
		if isTestOnly(p, fn) || !isAPI(fn) || fn.Parent() != nil {
			continue
		}
		if !w.opensResource(fn, map[*ssa.Function]bool{}) {
			continue
		}
		key := p.fname(fn)
		leaks, drops, exits, escapes := 0, 0, 0, 0
		w.onLeak = func(f *ssa.Function, res, exitPos string) {
			leaks++
			r.fail("closed-at-exit", key+" / "+res, exitPos, "the opened file is still open at this exit of "+key)
		}
		w.onDrop = func(f *ssa.Function, site, sitePos, exitPos string) {
			drops++
			r.fail("close-error-reported", key+" / "+site, sitePos, "a failure of this call is not reported by the exit at "+exitPos)
		}
		w.onExit = func(f *ssa.Function, s *wstate, exit ssa.Instruction) {
			exits++
			for _, st := range s.res {
				if st == "escaped" {
					escapes++
				}
			}
		}
		w.analyze(fn)
		if escapes > 0 {
			r.fail("closed-at-exit", key+" / escape", p.pos(fn.Pos()), "the opened file is handed out or stored, so its release can't be established")
		}
		if leaks == 0 && escapes == 0 {
			r.ok("closed-at-exit", key, p.pos(fn.Pos()), fmt.Sprintf("closed on all %d path exits", exits))
		}
		if drops == 0 {
			r.ok("close-error-reported", key, p.pos(fn.Pos()), fmt.Sprintf("reported on all %d path exits", exits))
		}
	}
	r.atLeast("closed-at-exit", 2)
}

// isAPI: exported function or exported method
func isAPI(fn *ssa.Function) bool {
	return fn.Object() != nil && fn.Object().Exported()
}

func checkP01(p *Prog, r *Report) {
	r.Technique = "path-sensitive error-flow and must-pass-through analysis over SSA"
	r.Explanation = "All functions reachable from the parsing entry points are interpreted along every feasible path, forking on the outcome of each call. After any failed call (read, decompression, bounds or validation), the function must end with a non-nil error, so failures propagate to the entry point. Every success exit of Parse must have passed through the successful validation of each section and through the end-of-stream check."
	r.Assumptions = []string{"io.Reader implementations return a non-nil error when they fail"}
	entries := []*ssa.Function{p.fn("", "Parse"), p.fn("", "ParseFromPath"), p.fn("", "ParseFromFS")}
	for i, e := range entries {
		if e == nil {
			r.fail("anchor", fmt.Sprintf("parse entry %d", i), "-", "parsing entry point not found")
			return
		}
	}
	rs := reachable(p, entries...)
	w := newWalker(p)
	w.exempt = errExempt
	bad := map[string]bool{}
	w.onDrop = func(fn *ssa.Function, site, sitePos, exitPos string) {
		bad[site] = true
		r.fail("failure-propagates", site, sitePos, fmt.Sprintf("when it fails, %s can end at %s without an error", p.fname(fn), exitPos))
	}
	w.mile = func(c *ssa.CallCommon) string {
		f := c.StaticCallee()
		if f == nil || f.Signature.Recv() == nil || !p.inModule(f) {
			return ""
		}
		if f.Name() == "Validate" {
			return "validated " + recvTypeName(f)
		}
		if f.Name() == "EnsureEOF" {
			return "end of stream"
		}
		return ""
	}
	var fns []*ssa.Function
	for f := range rs {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		if f.Synthetic != "" && f.Origin() == nil || inlinedClosure(f) {
			continue
		}
		w.onExit = nil
		w.analyze(f)
	}
	var ks []string
	for k := range w.siteKeys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if !bad[k] {
			r.ok("failure-propagates", k, w.siteKeys[k], "")
		}
	}
	// success exits
	need := []string{"FontHeader", "FontMetrics", "FontColor", "FontGlyphs", "FontSettings", "FontMapping", "FontRewrites", "FontKerning"}
	sm := w.summary(entries[0])
	for _, n := range need {
		m := "validated " + n
		r.check(sm.miles[m], "success-requires", "Parse / "+m, p.pos(entries[0].Pos()), "on every success path", "a success exit of Parse can be reached without a successful validation of this section")
	}
	r.check(sm.miles["end of stream"], "success-requires", "Parse / end of stream", p.pos(entries[0].Pos()), "on every success path", "a success exit of Parse can be reached without checking for the end of the data")
	for _, e := range entries[1:] {
		s := w.summary(e)
		r.check(s.miles["end of stream"], "success-requires", e.Name()+" / Parse", p.pos(e.Pos()), "on every success path", "success can be reported without a successful Parse")
	}
	r.Notes = append(r.Notes, fmt.Sprintf("functions analysed: %d, abstract states: %d", len(fns), w.steps))
	r.atLeast("failure-propagates", 20)
	r.atLeast("success-requires", 11)
}

func recvTypeName(f *ssa.Function) string {
	t := f.Signature.Recv().Type()
	if pt, ok := types.Unalias(t).(*types.Pointer); ok {
		t = pt.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}
