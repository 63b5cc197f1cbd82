package main

import (
	"fmt"
	"go/types"
	"sort"
	"sync"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P07"] = checkP07
}

func (p *Prog) fontStruct() *types.Struct {
	pk := p.pkg("internal")
	if pk == nil || pk.Type("Font") == nil {
		return nil
	}
	s, _ := pk.Type("Font").Type().Underlying().(*types.Struct)
	return s
}

func (p *Prog) isFontStruct(t types.Type) bool {
	fs := p.fontStruct()
	return fs != nil && t != nil && types.Identical(t.Underlying(), fs)
}

func (p *Prog) isRawBlock(t types.Type) bool {
	pk := p.pkg("internal")
	if pk == nil || pk.Type("RawBlock") == nil {
		return false
	}
	return types.Identical(t.Underlying(), pk.Type("RawBlock").Type().Underlying())
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// readerAPI: every exported operation that takes or queries a font (or data taken from one).
func readerAPI(p *Prog) []*ssa.Function {
	var out []*ssa.Function
	parseEntry := map[string]bool{"Parse": true, "ParseFromFS": true, "ParseFromPath": true}
	for _, f := range p.exportedAPI("") {
		if f.Blocks == nil || parseEntry[f.Name()] && f.Signature.Recv() == nil {
			continue
		}
		out = append(out, f)
	}
	for _, rel := range []string{"internal/rerules/glyphrule", "internal/rerules/utf8rule"} {
		out = append(out, p.exportedAPI(rel)...)
	}
	for _, f := range p.exportedAPI("mask") {
		if f.Signature.Recv() == nil {
			out = append(out, f)
		}
	}
	if f := p.method("mask", "Encoder", "AppendRasterOps"); f != nil {
		out = append(out, f)
	}
	return out
}

func checkP07(p *Prog, r *Report) {
	r.Technique = "context-sensitive points-to and write-effect analysis"
	r.Explanation = "For every exported operation that receives a font, a view of it, or data taken from it, a points-to analysis (call-string cloning, field-sensitive) computes what each store, append, copy, clear, map update or writing library call in the operation and all its callees may write to. None of them may be the font structure, the font's data (the Data field of the font or of raw blocks, or raw bytes passed by the caller) or package-level memory; only memory created by the operation itself or owned by the caller's cache/tester objects may be written. Package-level memory may only change through sync/atomic."
	r.Assumptions = []string{"standard library functions write only through the documented arguments", "callers don't share caches and testers between goroutines (they are documented as unsynchronized)"}
	api := readerAPI(p)
	totalW := 0
	for i, a := range solveAll(p, api) {
		f := api[i]
		if a == nil {
			continue
		}
		key := p.fname(f)
		bad := map[string]bool{}
		isEncoder := fnPkg(f).Path() == p.ModPath+"/mask" && f.Signature.Recv() != nil
		for _, e := range a.events {
			totalW++
			o := e.tgt.o
			why := ""
			switch {
			case o.kind == "global" && o.name != "":
				if isSyncType(o.typ) {
					break
				}
				why = "package level variable " + o.root
			case o.kind == "sym" && o.isData:
				why = "font data reached through " + o.name
			case o.kind == "sym" && p.isFontStruct(o.typ):
				why = "the font itself, through " + o.name
			case o.kind == "sym" && isByte(o.typ) && !isEncoder && fnPkg(f).Path() == p.ModPath+"/mask":
				why = "the raw bytes given by the caller (" + o.name + ")"
			case o.kind == "sym" && len(o.root) > 0 && !isParamRoot(o.root):
				why = "memory shared through the package level variable " + o.root
			}
			if why == "" {
				continue
			}
			k := key + " writes in " + p.fname(e.ctx.fn) + " [" + e.kind + "] " + why
			if bad[k] {
				continue
			}
			bad[k] = true
			r.fail("no-shared-write", k, p.instrPos(e.in), "call path: "+e.ctx.chain(p))
		}
		if len(bad) == 0 {
			r.ok("no-shared-write", key, p.pos(f.Pos()), fmt.Sprintf("%d write effects in %d call contexts, none on the font or shared memory", len(a.events), len(a.ctxs)))
		}
	}
	var ns []string
	for _, f := range api {
		ns = append(ns, p.fname(f))
	}
	sort.Strings(ns)
	r.Notes = append(r.Notes, fmt.Sprintf("entry points: %d, write effects classified: %d", len(ns), totalW))
	if totalW < 200 {
		r.fail("instance-count", "write effects", "-", fmt.Sprintf("only %d write effects were seen", totalW))
	}
	r.atLeast("no-shared-write", 100)
}

func isParamRoot(s string) bool { return len(s) > 1 && s[0] >= '0' && s[0] <= '9' }

func isSyncType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

// solveAll runs the points-to analysis of every entry point, in parallel.
func solveAll(p *Prog, fns []*ssa.Function) []*pta {
	out := make([]*pta, len(fns))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	var mu sync.Mutex
	var fault any
	for i, f := range fns {
		if f.Blocks == nil || isTestOnly(p, f) {
			continue
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() {
				if e := recover(); e != nil {
					mu.Lock()
					fault = e
					mu.Unlock()
				}
				<-sem
			}()
			a := newPTA(p)
			a.solve(f)
			out[i] = a
		}()
	}
	wg.Wait()
	if fault != nil {
		panic(fault)
	}
	return out
}
