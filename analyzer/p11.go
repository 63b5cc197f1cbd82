package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P11"] = checkP11
}

// naturalLoop returns the blocks of the natural loop(s) with header h.
func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	if len(work) == 0 {
		return nil
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if body[b] {
			continue
		}
		body[b] = true
		work = append(work, b.Preds...)
	}
	return body
}

type mapLoop struct {
	next *ssa.Next
	rng  *ssa.Range
	head *ssa.BasicBlock
	body map[*ssa.BasicBlock]bool
}

func mapLoops(fn *ssa.Function) []mapLoop {
	var out []mapLoop
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			r, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if _, isMap := r.X.Type().Underlying().(*types.Map); !isMap {
				continue
			}
			body := naturalLoop(b)
			if body == nil {
				body = map[*ssa.BasicBlock]bool{b: true}
			}
			out = append(out, mapLoop{nx, r, b, body})
		}
	}
	return out
}

// order-taint state
type ostate struct {
	unsorted map[ptgt]string  // slice contents in map order
	values   map[*pobj]string // maps whose values depend on map order
	keysOf   map[ptgt]ptgt    // slice holding exactly the keys of a map
	assigned map[string]bool  // scratch cells assigned since the start (must)
}

func newOstate() *ostate {
	return &ostate{map[ptgt]string{}, map[*pobj]string{}, map[ptgt]ptgt{}, map[string]bool{}}
}

func (s *ostate) clone() *ostate {
	n := newOstate()
	for k, v := range s.unsorted {
		n.unsorted[k] = v
	}
	for k, v := range s.values {
		n.values[k] = v
	}
	for k, v := range s.keysOf {
		n.keysOf[k] = v
	}
	for k := range s.assigned {
		n.assigned[k] = true
	}
	return n
}

// join merges o into s, reporting changes
func (s *ostate) join(o *ostate) bool {
	ch := false
	for k, v := range o.unsorted {
		if _, ok := s.unsorted[k]; !ok {
			s.unsorted[k] = v
			ch = true
		}
	}
	for k, v := range o.values {
		if _, ok := s.values[k]; !ok {
			s.values[k] = v
			ch = true
		}
	}
	for k, v := range o.keysOf {
		if _, ok := s.keysOf[k]; !ok {
			s.keysOf[k] = v
			ch = true
		}
	}
	for k := range s.assigned {
		if !o.assigned[k] {
			delete(s.assigned, k)
			ch = true
		}
	}
	return ch
}

func (s *ostate) key() string {
	var ks []string
	for k := range s.unsorted {
		ks = append(ks, "u"+k.o.name+k.path)
	}
	for k := range s.values {
		ks = append(ks, "v"+k.name)
	}
	for k := range s.keysOf {
		ks = append(ks, "k"+k.o.name+k.path)
	}
	for k := range s.assigned {
		ks = append(ks, "a"+k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

type orderAnalysis struct {
	p       *Prog
	a       *pta
	r       *Report
	entry   string
	memo    map[string]*ostate
	busy    map[*pctx]bool
	loops   map[*ssa.Function][]mapLoop
	scratch map[string]string // param field path -> name of scratch fields
	seenMap map[string]bool
	nLoops  int
	bad     map[string]bool
}

func (oa *orderAnalysis) fail(rule, key, pos, detail string) {
	oa.bad[rule+key] = true
	oa.r.fail(rule, oa.entry+": "+key, pos, detail)
}

func isSortCall(name string) bool {
	switch name {
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "sort.Slice", "sort.SliceStable", "sort.Ints", "sort.Strings", "sort.Sort", "sort.Stable":
		return true
	}
	return false
}

func isSortedProducer(name string) bool {
	switch name {
	case "slices.Sorted", "slices.SortedFunc", "slices.SortedStableFunc":
		return true
	}
	return false
}

// totalOrder: the comparator orders distinct elements strictly by comparing the elements themselves.
func totalOrder(c *ssa.CallCommon) bool {
	name := extName(c)
	if name == "slices.Sort" || name == "sort.Ints" || name == "sort.Strings" || name == "slices.Sorted" {
		return true
	}
	if len(c.Args) < 2 {
		return false
	}
	var fn *ssa.Function
	switch v := c.Args[len(c.Args)-1].(type) {
	case *ssa.Function:
		fn = v
	case *ssa.MakeClosure:
		fn = v.Fn.(*ssa.Function)
	}
	if fn == nil {
		return false
	}
	if strings.HasPrefix(fn.String(), "cmp.Compare") || strings.HasPrefix(fn.String(), "strings.Compare") {
		return true
	}
	if fn.Blocks == nil || len(fn.Params) < 2 {
		return false
	}
	a, b := fn.Params[0], fn.Params[1]
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.BinOp:
				if (x.X == ssa.Value(a) && x.Y == ssa.Value(b) || x.X == ssa.Value(b) && x.Y == ssa.Value(a)) && (x.Op == token.LSS || x.Op == token.GTR || x.Op == token.SUB) {
					return true
				}
			case *ssa.Call:
				n := extName(&x.Call)
				if (n == "cmp.Compare" || n == "strings.Compare") && len(x.Call.Args) == 2 {
					if x.Call.Args[0] == ssa.Value(a) && x.Call.Args[1] == ssa.Value(b) || x.Call.Args[0] == ssa.Value(b) && x.Call.Args[1] == ssa.Value(a) {
						return true
					}
				}
			}
		}
	}
	return false
}

// dependsOn: v is computed from one of the given values (within the loop body)
func dependsOn(v ssa.Value, on map[ssa.Value]bool, body map[*ssa.BasicBlock]bool, seen map[ssa.Value]bool) bool {
	if on[v] {
		return true
	}
	if seen[v] {
		return false
	}
	seen[v] = true
	in, ok := v.(ssa.Instruction)
	if !ok || in.Block() == nil || !body[in.Block()] {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && dependsOn(*op, on, body, seen) {
			return true
		}
	}
	return false
}

// commutative: the loop-carried scalar phi is updated only by order-independent steps
func commutativePhi(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) bool {
	var okVal func(v ssa.Value, seen map[ssa.Value]bool) bool
	dep := func(v ssa.Value) bool {
		return dependsOn(v, map[ssa.Value]bool{ph: true}, body, map[ssa.Value]bool{})
	}
	isPart := map[ssa.Value]bool{}
	okVal = func(v ssa.Value, seen map[ssa.Value]bool) bool {
		if v == ssa.Value(ph) || isPart[v] {
			return true
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.BinOp:
			switch x.Op {
			case token.ADD, token.OR, token.AND, token.XOR, token.MUL:
				if b, isB := x.Type().Underlying().(*types.Basic); isB && b.Info()&types.IsString != 0 {
					return false
				}
				if okVal(x.X, seen) && !dep(x.Y) {
					return true
				}
				return okVal(x.Y, seen) && !dep(x.X)
			case token.SUB:
				return okVal(x.X, seen) && !dep(x.Y)
			}
			return false
		case *ssa.Call:
			if b, isB := x.Call.Value.(*ssa.Builtin); isB && (b.Name() == "min" || b.Name() == "max") {
				for i, a := range x.Call.Args {
					if !okVal(a, seen) && dep(a) {
						_ = i
						return false
					}
				}
				return true
			}
			return false
		case *ssa.Phi:
			if !body[x.Block()] {
				return false
			}
			for i, e := range x.Edges {
				if okVal(e, seen) {
					continue
				}
				// conditional minimum / maximum: the edge is taken only when e compares with ph
				if !minMaxEdge(x, i, e, ph) {
					return false
				}
			}
			return true
		}
		return false
	}
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			continue
		}
		if e == ssa.Value(ph) {
			continue
		}
		if okVal(e, map[ssa.Value]bool{}) {
			continue
		}
		if minMaxEdge(ph, i, e, ph) {
			continue
		}
		return false
	}
	return true
}

// minMaxEdge: phi takes e on an edge guarded by a comparison of e with the accumulator
func minMaxEdge(x *ssa.Phi, i int, e ssa.Value, acc ssa.Value) bool {
	b := x.Block().Preds[i]
	for k := 0; k < 4 && b != nil; k++ {
		for _, pr := range b.Preds {
			if len(pr.Instrs) == 0 {
				continue
			}
			iff, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			if c, ok := iff.Cond.(*ssa.BinOp); ok {
				l, r := stripConv(c.X), stripConv(c.Y)
				if (sameValue(l, stripConv(e)) && r == acc || sameValue(r, stripConv(e)) && l == acc) && (c.Op == token.LSS || c.Op == token.GTR || c.Op == token.LEQ || c.Op == token.GEQ) {
					return true
				}
			}
		}
		if len(b.Preds) != 1 {
			break
		}
		b = b.Preds[0]
	}
	return false
}

func stripConv(v ssa.Value) ssa.Value { return v }

// sameValue: syntactically equal pure computations
func sameValue(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.Convert:
		y, ok := b.(*ssa.Convert)
		return ok && types.Identical(x.Type(), y.Type()) && sameValue(x.X, y.X)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == y.Op && x.Op != token.MUL && sameValue(x.X, y.X)
	case *ssa.BinOp:
		y, ok := b.(*ssa.BinOp)
		return ok && x.Op == y.Op && sameValue(x.X, y.X) && sameValue(x.Y, y.Y)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	return false
}

func endsInFailure(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return false
	}
	seen[b] = true
	if len(b.Instrs) == 0 {
		return false
	}
	switch x := b.Instrs[len(b.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		for _, v := range x.Results {
			if isErrorType(v.Type()) && !isNilConst(v) {
				return true
			}
		}
		return false
	case *ssa.Jump, *ssa.If:
		for _, s := range b.Succs {
			if !endsInFailure(s, seen) {
				return false
			}
		}
		return true
	}
	return false
}

func (oa *orderAnalysis) loopsOf(fn *ssa.Function) []mapLoop {
	if l, ok := oa.loops[fn]; ok {
		return l
	}
	l := mapLoops(fn)
	oa.loops[fn] = l
	return l
}

// scalar structure of a map loop, independent of the state
func (oa *orderAnalysis) checkLoopShape(c *pctx, l mapLoop) {
	fn := c.fn
	key := oa.p.fname(fn) + " range over map " + describeVal(l.rng.X)
	pos := oa.p.instrPos(l.rng)
	if !oa.seenMap[key] {
		oa.seenMap[key] = true
		oa.nLoops++
	}
	// loop-carried values
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if _, isSl := ph.Type().Underlying().(*types.Slice); isSl {
			continue // contents are tracked by the state
		}
		if !commutativePhi(ph, l.body) {
			oa.fail("map-order", key+" carries "+ph.Comment, pos, "the value accumulated over the iteration depends on the map iteration order")
		}
	}
	// early exits
	for b := range l.body {
		for _, s := range b.Succs {
			if l.body[s] || b == l.head {
				continue
			}
			if endsInFailure(s, map[*ssa.BasicBlock]bool{}) {
				continue
			}
			okc := true
			pi := predIndex(s, b)
			for _, in := range s.Instrs {
				ph, isPh := in.(*ssa.Phi)
				if !isPh {
					break
				}
				if _, isC := ph.Edges[pi].(*ssa.Const); !isC {
					okc = false
				}
			}
			if rt, isRet := s.Instrs[len(s.Instrs)-1].(*ssa.Return); isRet {
				for _, v := range rt.Results {
					if _, isC := v.(*ssa.Const); !isC {
						if iv, isI := v.(ssa.Instruction); isI && l.body[iv.Block()] {
							okc = false
						}
					}
				}
			}
			if !okc {
				oa.fail("map-order", key+" exits early", pos, "an element chosen by the map iteration order leaves the loop")
			}
		}
	}
}

func describeVal(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		return describeVal(x.X)
	case *ssa.FieldAddr:
		return describeVal(x.X) + "." + fieldName(x.X.Type(), x.Field)
	case *ssa.Parameter:
		return x.Name()
	case *ssa.MakeMap:
		return "map"
	case *ssa.Phi:
		if x.Comment != "" {
			return x.Comment
		}
	case *ssa.Global:
		return x.Name()
	case *ssa.FreeVar:
		return x.Name()
	}
	return v.Type().String()
}

// flow runs the dataflow in one call context.
func (oa *orderAnalysis) flow(c *pctx, in *ostate, inMapLoop bool) *ostate {
	mk := fmt.Sprintf("%d|%v|%s", c.id, inMapLoop, in.key())
	if m, ok := oa.memo[mk]; ok {
		return m.clone()
	}
	if oa.busy[c] {
		return in.clone()
	}
	oa.busy[c] = true
	defer delete(oa.busy, c)
	loops := oa.loopsOf(c.fn)
	for _, l := range loops {
		oa.checkLoopShape(c, l)
	}
	inL := func(b *ssa.BasicBlock) *mapLoop {
		for i := range loops {
			if loops[i].body[b] && !(b == loops[i].head) {
				return &loops[i]
			}
		}
		return nil
	}
	states := map[*ssa.BasicBlock]*ostate{c.fn.Blocks[0]: in.clone()}
	var out *ostate
	work := []*ssa.BasicBlock{c.fn.Blocks[0]}
	for n := 0; len(work) > 0; n++ {
		if n > 20000 {
			panic("order analysis does not converge in " + c.fn.String())
		}
		b := work[0]
		work = work[1:]
		st := states[b].clone()
		l := inL(b)
		if body := naturalLoop(b); body != nil {
			oa.reassigned(c, st, b, body)
		}
		for _, ins := range b.Instrs {
			oa.step(c, st, ins, l, inMapLoop)
		}
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
				if out == nil {
					out = st.clone()
				} else {
					out.join(st)
				}
			}
		}
		for i, s := range b.Succs {
			st := st
			if m := emptyOnEdge(b, i); m != nil {
				st = st.clone()
				for _, t := range oa.tg(c, m) {
					delete(st.values, t.o)
					delete(st.unsorted, t)
				}
			}
			if states[s] == nil {
				states[s] = st.clone()
				work = append(work, s)
			} else if states[s].join(st) {
				work = append(work, s)
			}
		}
	}
	if out == nil {
		out = in.clone()
	}
	oa.memo[mk] = out
	return out.clone()
}

// emptyOnEdge: the collection known to be empty when the i-th successor is taken
func emptyOnEdge(b *ssa.BasicBlock, i int) ssa.Value {
	iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	c, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return nil
	}
	k, ok := c.Y.(*ssa.Const)
	if !ok || k.Value == nil || k.Value.Kind() != constant.Int {
		return nil
	}
	n := k.Int64()
	empty := -1
	switch {
	case c.Op == token.GTR && n == 0, c.Op == token.NEQ && n == 0, c.Op == token.GEQ && n == 1:
		empty = 1
	case c.Op == token.EQL && n == 0, c.Op == token.LEQ && n == 0, c.Op == token.LSS && n == 1:
		empty = 0
	}
	if empty != i {
		return nil
	}
	v := c.X
	for {
		if cv, ok := v.(*ssa.Convert); ok {
			v = cv.X
			continue
		}
		break
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	if bi, ok := call.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
		return nil
	}
	return call.Call.Args[0]
}

func (oa *orderAnalysis) tg(c *pctx, v ssa.Value) []ptgt { return oa.a.targets(c, v) }

func (oa *orderAnalysis) readCheck(c *pctx, st *ostate, v ssa.Value, in ssa.Instruction) {
	for _, t := range oa.tg(c, v) {
		if why, ok := st.unsorted[t]; ok {
			oa.fail("map-order", oa.p.fname(c.fn)+" reads elements gathered by "+why, oa.p.instrPos(in), "elements gathered in map iteration order are used before being sorted")
		}
	}
}

func (oa *orderAnalysis) step(c *pctx, st *ostate, in ssa.Instruction, l *mapLoop, inMapLoop bool) {
	inLoop := l != nil || inMapLoop
	switch x := in.(type) {
	case *ssa.Store:
		if path, name := oa.scratchPath(c, x.Addr); name != "" {
			st.assigned[path] = true
			return
		}
		if !inLoop {
			return
		}
		for _, t := range oa.tg(c, x.Addr) {
			if t.o.kind == "alloc" && l != nil {
				if al, ok := t.o.site.(*ssa.Alloc); ok {
					if l.body[al.Block()] {
						continue // local to the iteration
					}
					if ex, isEx := x.Val.(*ssa.Extract); isEx && ex.Tuple == ssa.Value(l.next) && usedOnlyIn(al, l.body) {
						continue // the iteration variables
					}
				}
			}
			if _, isSl := x.Val.Type().Underlying().(*types.Slice); isSl {
				continue // slice headers: contents tracked through appends
			}
			if _, isC := x.Val.(*ssa.Const); isC {
				continue
			}
			if t.o.kind == "alloc" && t.o.site != nil && c.fn != t.o.site.Parent() {
				continue
			}
			if ad, ok := x.Addr.(*ssa.IndexAddr); ok && l != nil && !strings.HasPrefix(fmt.Sprint(ad.Index), "t") {
				continue
			}
			oa.fail("map-order", oa.p.fname(c.fn)+" stores in a map loop to "+t.o.name+t.path, oa.p.instrPos(in), "memory written while iterating a map in unspecified order")
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if path, name := oa.scratchPath(c, x.X); name != "" && !st.assigned[path] {
				if !onlyReset(x) {
					oa.fail("scratch-reset", oa.p.fname(c.fn)+" uses "+name, oa.p.instrPos(in), "the scratch field may still hold contents of an earlier build")
				}
			}
			if ia, ok := x.X.(*ssa.IndexAddr); ok {
				oa.readCheck(c, st, ia.X, in)
			}
		}
	case *ssa.Lookup:
		if _, isMap := x.X.Type().Underlying().(*types.Map); isMap {
			for _, t := range oa.tg(c, x.X) {
				if why, ok := st.values[t.o]; ok && (!x.CommaOk || usesValue(x)) {
					oa.fail("map-order", oa.p.fname(c.fn)+" looks up values assigned by "+why, oa.p.instrPos(in), "values assigned in map iteration order are used")
				}
			}
		}
	case *ssa.MapUpdate:
		if l != nil {
			// order dependent values?
			carried := map[ssa.Value]bool{}
			for _, i2 := range l.head.Instrs {
				if ph, ok := i2.(*ssa.Phi); ok {
					carried[ph] = true
				}
			}
			valDep := dependsOn(x.Value, carried, l.body, map[ssa.Value]bool{})
			keyDep := dependsOn(x.Key, carried, l.body, map[ssa.Value]bool{})
			if keyDep {
				oa.fail("map-order", oa.p.fname(c.fn)+" keys assigned in a map loop", oa.p.instrPos(in), "map keys depend on the iteration order of another map")
			}
			if valDep {
				for _, t := range oa.tg(c, x.Map) {
					st.values[t.o] = oa.p.fname(c.fn) + " range over map " + describeVal(l.rng.X)
				}
			}
			return
		}
	case *ssa.Go, *ssa.Select:
		oa.fail("nondeterminism", oa.p.fname(c.fn)+" concurrency", oa.p.instrPos(in), "goroutine scheduling can affect the result")
	case *ssa.Convert:
		if isUnsafe(x.X.Type()) {
			if b, ok := x.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr {
				oa.fail("nondeterminism", oa.p.fname(c.fn)+" address", oa.p.instrPos(in), "memory addresses are converted to integers")
			}
		}
	case ssa.CallInstruction:
		oa.callStep(c, st, in, x.Common(), l, inLoop)
	}
}

func usesValue(x *ssa.Lookup) bool {
	for _, r := range *x.Referrers() {
		if e, ok := r.(*ssa.Extract); ok && e.Index == 0 && len(*e.Referrers()) > 0 {
			return true
		}
	}
	return false
}

// reassigned: a loop over a slice holding all the keys of a map that assigns m[key] on every iteration
func (oa *orderAnalysis) reassigned(c *pctx, st *ostate, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) {
	for b := range body {
		every := true
		for _, p := range h.Preds {
			if body[p] && !b.Dominates(p) {
				every = false
			}
		}
		if !every {
			continue
		}
		for _, in := range b.Instrs {
			x, ok := in.(*ssa.MapUpdate)
			if !ok {
				continue
			}
			u, ok := x.Key.(*ssa.UnOp)
			if !ok || u.Op != token.MUL {
				continue
			}
			ia, ok := u.X.(*ssa.IndexAddr)
			if !ok || !indexCounts(ia.Index, h, body) {
				continue
			}
			for _, s := range oa.tg(c, ia.X) {
				if m, ok := st.keysOf[s]; ok {
					if _, uns := st.unsorted[s]; !uns {
						delete(st.values, m.o)
					}
				}
			}
		}
	}
}

// indexCounts: the index is a counter of the loop (its header phi, or that phi plus one)
func indexCounts(v ssa.Value, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
		v = b.X
	}
	ph, ok := v.(*ssa.Phi)
	return ok && ph.Block() == h
}

func usedOnlyIn(al *ssa.Alloc, body map[*ssa.BasicBlock]bool) bool {
	for _, r := range *al.Referrers() {
		if !body[r.Block()] {
			return false
		}
	}
	return true
}

// onlyReset: the loaded slice is only used to be emptied
func onlyReset(x *ssa.UnOp) bool {
	for _, r := range *x.Referrers() {
		switch u := r.(type) {
		case *ssa.Slice:
			hc, ok := u.High.(*ssa.Const)
			if !ok || hc.Int64() != 0 {
				return false
			}
		case *ssa.Call:
			b, ok := u.Call.Value.(*ssa.Builtin)
			if !ok || (b.Name() != "clear" && b.Name() != "cap") {
				return false
			}
		case *ssa.BinOp:
			if !isNilConst(u.X) && !isNilConst(u.Y) {
				return false
			}
		case *ssa.DebugRef:
		default:
			return false
		}
	}
	return true
}

// scratchPath: the address of a scratch field of the builder
func (oa *orderAnalysis) scratchPath(c *pctx, addr ssa.Value) (string, string) {
	fa, ok := addr.(*ssa.FieldAddr)
	if !ok {
		return "", ""
	}
	name := fieldName(fa.X.Type(), fa.Field)
	if !scratchField.MatchString("." + name) {
		return "", ""
	}
	for _, t := range oa.tg(c, fa.X) {
		if t.o.kind == "sym" && t.o.depth <= 1 {
			return t.o.name + t.path + "." + name, name
		}
	}
	return "", ""
}

func nondetCall(name string) bool {
	for _, pre := range []string{"time.Now", "time.Since", "math/rand", "crypto/rand", "(*math/rand", "os.Getpid", "os.Hostname", "os.Getenv", "runtime.", "hash/maphash", "(*hash/maphash", "os.Getwd", "time.Local"} {
		if strings.HasPrefix(name, pre) {
			return true
		}
	}
	return false
}

func (oa *orderAnalysis) callStep(c *pctx, st *ostate, in ssa.Instruction, cc *ssa.CallCommon, l *mapLoop, inLoop bool) {
	name := extName(cc)
	var res ssa.Value
	if v, ok := in.(ssa.Value); ok {
		res = v
	}
	if nondetCall(name) {
		oa.fail("nondeterminism", oa.p.fname(c.fn)+" calls "+name, oa.p.instrPos(in), "the result of building would depend on time, randomness or the environment")
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			if inLoop && res != nil {
				why := oa.p.fname(c.fn) + " range over a map"
				var mt []ptgt
				exact := false
				if l != nil {
					why = oa.p.fname(c.fn) + " range over map " + describeVal(l.rng.X)
					mt = oa.tg(c, l.rng.X)
					exact = appendsKey(cc, l)
				}
				for _, t := range oa.tg(c, res) {
					st.unsorted[t] = why
					if exact && len(mt) == 1 {
						st.keysOf[t] = mt[0]
					}
				}
			} else if res != nil {
				// appending unsorted contents elsewhere
				oa.readCheck(c, st, cc.Args[1], in)
				for _, t := range oa.tg(c, cc.Args[0]) {
					if why, ok := st.unsorted[t]; ok {
						for _, d := range oa.tg(c, res) {
							st.unsorted[d] = why
						}
					}
				}
			}
		case "clear":
			if u, ok := cc.Args[0].(*ssa.UnOp); ok && u.Op == token.MUL {
				if path, n := oa.scratchPath(c, u.X); n != "" {
					st.assigned[path] = true
				}
			}
			for _, t := range oa.tg(c, cc.Args[0]) {
				delete(st.values, t.o)
				delete(st.unsorted, t)
			}
		case "copy":
			oa.readCheck(c, st, cc.Args[1], in)
		}
		return
	}
	if isSortCall(name) {
		for _, t := range oa.tg(c, cc.Args[0]) {
			if _, ok := st.unsorted[t]; ok && !totalOrder(cc) {
				oa.fail("map-order", oa.p.fname(c.fn)+" sorts with ties", oa.p.instrPos(in), "elements gathered in map order are sorted by a comparison that may leave ties in that order")
			}
			delete(st.unsorted, t)
		}
		return
	}
	if isSortedProducer(name) {
		if !totalOrder(cc) {
			oa.fail("map-order", oa.p.fname(c.fn)+" sorts with ties", oa.p.instrPos(in), "the comparison may leave ties in map order")
		}
		return
	}
	switch name {
	case "slices.Collect", "slices.AppendSeq":
		src := cc.Args[len(cc.Args)-1]
		if res != nil && fromMapIter(src) {
			for _, t := range oa.tg(c, res) {
				st.unsorted[t] = oa.p.fname(c.fn) + " collecting a map"
			}
		}
		return
	}
	// range-over-func loops on map iterators run their body in map order
	if call, ok := cc.Value.(*ssa.Call); ok && strings.HasPrefix(extName(&call.Call), "maps.") {
		inLoop = true
	}
	kids := c.kids[in]
	if len(kids) == 0 {
		if inLoop && res == nil && !strings.HasPrefix(name, "builtin") && !strings.HasPrefix(name, "fmt.Print") && cc.IsInvoke() {
			oa.fail("map-order", oa.p.fname(c.fn)+" calls "+name+" in a map loop", oa.p.instrPos(in), "an external effect happens in map iteration order")
		}
		// unsorted contents handed to external code
		for _, g := range cc.Args {
			if _, isSl := g.Type().Underlying().(*types.Slice); isSl {
				oa.readCheck(c, st, g, in)
			}
		}
		return
	}
	var fs []*ssa.Function
	for f := range kids {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	var out *ostate
	for _, f := range fs {
		if !oa.p.inModule(f) {
			// generic library code: its reads are reads of the contents
			for _, g := range cc.Args {
				if _, isSl := g.Type().Underlying().(*types.Slice); isSl && !orderFree(name) {
					oa.readCheck(c, st, g, in)
				}
			}
			continue
		}
		o := oa.flow(kids[f], st, inLoop)
		if out == nil {
			out = o
		} else {
			out.join(o)
		}
	}
	if out != nil {
		*st = *out
	}
}

// library helpers whose use of a slice doesn't expose element order
func orderFree(name string) bool {
	switch name {
	case "slices.Grow", "slices.Clip", "slices.Contains", "slices.Max", "slices.Min":
		return true
	}
	return false
}

func fromMapIter(v ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	return ok && strings.HasPrefix(extName(&c.Call), "maps.")
}

// appendsKey: the append adds exactly the loop's key, on every iteration
func appendsKey(cc *ssa.CallCommon, l *mapLoop) bool {
	sl, ok := cc.Args[1].(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, q := range *ia.Referrers() {
			s, ok := q.(*ssa.Store)
			if !ok {
				continue
			}
			e, ok := s.Val.(*ssa.Extract)
			if !ok || e.Tuple != ssa.Value(l.next) || e.Index != 1 {
				return false
			}
			for _, p := range l.head.Preds {
				if l.body[p] && !s.Block().Dominates(p) {
					return false
				}
			}
			return true
		}
	}
	return false
}

func checkP11(p *Prog, r *Report) {
	r.Technique = "interprocedural map-order taint analysis over points-to objects"
	r.Explanation = "Starting from Build and the export operations, all code reachable is analysed in its call contexts with a forward dataflow over points-to objects. Slices filled while ranging over a map are order-tainted until they are sorted by a total order; values assigned in map order taint the map until every key is reassigned; scalar accumulations over map loops must be commutative; no element may leave such a loop early. No reachable code may use time, randomness, goroutines, addresses or write package-level variables, and scratch fields must be reset before use, so results don't depend on earlier builds. Build may only write scratch fields of the builder."
	r.Assumptions = []string{"slices.Sort and friends sort; equal contents of a totally ordered slice are indistinguishable", "branching on values of a map that is being iterated (words being organized) only distinguishes order-independent classes"}
	var entries []*ssa.Function
	for _, f := range builderAPI(p) {
		if f.Signature.Recv() != nil && (f.Name() == "Build" || strings.HasPrefix(f.Name(), "Export")) {
			entries = append(entries, f)
		}
	}
	if f := p.method("", "Font", "Export"); f != nil {
		entries = append(entries, f)
	}
	total := 0
	for i, a := range solveAll(p, entries) {
		f := entries[i]
		oa := &orderAnalysis{p: p, a: a, r: r, entry: p.fname(f), memo: map[string]*ostate{}, busy: map[*pctx]bool{}, loops: map[*ssa.Function][]mapLoop{}, seenMap: map[string]bool{}, bad: map[string]bool{}}
		oa.flow(a.root, newOstate(), false)
		total += oa.nLoops
		// writes to contents or globals
		for _, e := range a.events {
			o := e.tgt.o
			if o.kind == "global" || o.kind == "sym" && o.root != "" && !isParamRoot(o.root) {
				oa.fail("no-hidden-state", oa.p.fname(e.ctx.fn)+" writes "+o.root, p.instrPos(e.in), "package-level memory is modified while building")
			}
			if o.kind == "sym" && strings.HasPrefix(o.root, "0:") {
				suffix := strings.TrimPrefix(o.name, "param "+f.Params[0].Name()+"*")
				if !scratchField.MatchString(suffix + e.tgt.path) {
					oa.fail("no-hidden-state", oa.p.fname(e.ctx.fn)+" writes builder"+suffix+e.tgt.path, p.instrPos(e.in), "building modifies the contents being built, so a later build may differ")
				}
			}
		}
		var ks []string
		for k := range oa.seenMap {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if len(oa.bad) == 0 {
				r.ok("map-order", oa.entry+": "+k, "", "order-independent or sorted before use")
			}
		}
		if len(oa.bad) == 0 {
			r.ok("deterministic", oa.entry, p.pos(f.Pos()), fmt.Sprintf("%d call contexts, %d map loops, %d write effects", len(a.ctxs), oa.nLoops, len(a.events)))
		}
	}
	r.Notes = append(r.Notes, fmt.Sprintf("map loops in context: %d", total))
	r.atLeast("deterministic", 3)
}
