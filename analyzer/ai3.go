package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- joins ----

func (e *Engine) merge(fn *ssa.Function, b *ssa.BasicBlock, items []*item, loopHead bool) []*item {
	lim := e.MergeLimit
	if e.MergeIn != nil {
		if n := e.MergeIn(fn); n > 0 {
			lim = n
		}
	}
	if loopHead && lim > 6 && !(e.Unroll != nil && e.Unroll(fn, b) > 0) {
		lim = 6
	}
	if len(items) <= lim {
		return items
	}
	groups := map[string][]*item{}
	var order []string
	for _, it := range items {
		k := it.st.part
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], it)
	}
	live := e.live(fn)[b]
	var out []*item
	for _, k := range order {
		g := groups[k]
		m := g[0]
		for _, o := range g[1:] {
			m = e.join(b, m, o, live)
		}
		out = append(out, m)
	}
	return out
}

type joiner struct {
	e      *Engine
	a, b   *State
	pairs  map[string]*Atom
	ps     []*Lin
	eqA    []*Lin
	eqB    []*Lin
	failed bool
}

// joinOf records the two values that a joined value stands for
type joinOf struct {
	vals [2]*Lin
	sts  [2]*State
}

func (j *joiner) lin(x, y *Lin, lo, hi int64) *Lin {
	if x == y {
		return x
	}
	k := x.key + "|" + y.key
	p := j.pairs[k]
	if p == nil {
		// one of the two may describe both sides
		d := j.e.A.sub(x, y)
		if j.a.f.proveEQ(j.e.A, d) {
			return y
		}
		if j.b.f.proveEQ(j.e.A, d) {
			return x
		}
		al, ah := j.a.f.linRange(x)
		bl, bh := j.b.f.linRange(y)
		p = j.e.A.fresh("join", min(al, bl), max(ah, bh))
		j.pairs[k] = p
		if j.e.joins == nil {
			j.e.joins = map[*Atom]joinOf{}
		}
		j.e.joins[p] = joinOf{[2]*Lin{x, y}, [2]*State{j.a, j.b}}
		if p.lo != p.hi {
			j.ps = append(j.ps, j.e.A.of(p))
			j.eqA = append(j.eqA, j.e.A.sub(j.e.A.of(p), x))
			j.eqB = append(j.eqB, j.e.A.sub(j.e.A.of(p), y))
		}
	}
	return j.e.A.of(p)
}

func (j *joiner) val(x, y Val, t types.Type) Val {
	e := j.e
	if valKey(x) == valKey(y) {
		return x
	}
	switch a := x.(type) {
	case *Lin:
		if b, ok := y.(*Lin); ok {
			return j.lin(a, b, 0, 0)
		}
	case SliceV:
		if b, ok := y.(SliceV); ok {
			if a.o == b.o && a.skel == b.skel && linsKey(a.idx) == linsKey(b.idx) && !a.isNil && !b.isNil {
				return SliceV{o: a.o, skel: a.skel, idx: a.idx, off: j.lin(a.off, b.off, 0, 0), len: j.lin(a.len, b.len, 0, 0), cap: j.lin(a.cap, b.cap, 0, 0)}
			}
			o := e.newObj("joined", "alt", a.o.typ)
			pa, pb := a, b
			o.parent, o.init = &pa, &pb
			o.sides = [2]*State{j.a, j.b}
			o.full = j.lin(a.len, b.len, 0, 0)
			return SliceV{o: o, off: e.c(0), len: o.full, cap: j.lin(a.cap, b.cap, 0, 0)}
		}
	case StrV:
		if b, ok := y.(StrV); ok {
			e.nver++
			return StrV{key: fmt.Sprintf("joinstr#%d", e.nver), len: j.lin(a.len, b.len, 0, 0)}
		}
	case StructV:
		if b, ok := y.(StructV); ok && len(a.fields) == len(b.fields) {
			v := StructV{typ: a.typ}
			for i := range a.fields {
				v.fields = append(v.fields, j.val(a.fields[i], b.fields[i], nil))
			}
			return v
		}
	case TupleV:
		if b, ok := y.(TupleV); ok && len(a) == len(b) {
			var v TupleV
			for i := range a {
				v = append(v, j.val(a[i], b[i], nil))
			}
			return v
		}
	case *Form:
		e.nver++
		return &Form{op: "atom", name: fmt.Sprintf("joinb#%d", e.nver)}
	case IfaceV:
		if b, ok := y.(IfaceV); ok && a.typ != nil && b.typ != nil && types.Identical(a.typ, b.typ) && a.typ == errDummy {
			return e.errVal("joined error")
		}
		e.nver++
		return IfaceV{name: fmt.Sprintf("joini#%d", e.nver)}
	case FuncV:
		e.nver++
		return FuncV{name: fmt.Sprintf("joinf#%d", e.nver)}
	case MapV:
		if t != nil {
			return e.freshVal(t, "joinm")
		}
	}
	if t != nil {
		return e.freshVal(t, "join")
	}
	e.nver++
	return OpaqueV{fmt.Sprintf("join#%d", e.nver)}
}

func (e *Engine) join(blk *ssa.BasicBlock, x, y *item, live map[ssa.Value]bool) *item {
	j := &joiner{e: e, a: x.st, b: y.st, pairs: map[string]*Atom{}}
	n := &item{st: &State{mem: map[memKey]*region{}, ver: x.st.ver, bools: map[string]bool{}, part: x.st.part}, env: map[ssa.Value]Val{}, pred: x.pred, defers: x.defers}
	for v, a := range x.env {
		if live != nil && !live[v] {
			if ph, ok := v.(*ssa.Phi); !ok || ph.Block() != blk {
				continue
			}
		}
		b, ok := y.env[v]
		if !ok {
			continue
		}
		n.env[v] = j.val(a, b, v.Type())
	}
	keys := map[memKey]bool{}
	for k := range x.st.mem {
		keys[k] = true
	}
	for k := range y.st.mem {
		keys[k] = true
	}
	var ks []memKey
	for k := range keys {
		ks = append(ks, k)
	}
	sortKeys(ks)
	for _, k := range ks {
		ra, rb := x.st.mem[k], y.st.mem[k]
		if ra == rb {
			n.st.mem[k] = ra
			continue
		}
		if ra == nil || rb == nil {
			one := ra
			oth := y.st
			if one == nil {
				one = rb
				oth = x.st
			}
			if one.w == nil {
				if e.regionOf(oth, k.o, k.skel, one.base.typ).base == one.base {
					n.st.mem[k] = one
					continue
				}
			}
			if k.o.kind == "alloc" || k.o.kind == "cat" {
				// allocated on one side only, or written on one side only
				if ra == nil {
					ra = e.regionOf(x.st, k.o, k.skel, one.base.typ)
				} else {
					rb = e.regionOf(y.st, k.o, k.skel, one.base.typ)
				}
			} else if ra == nil {
				ra = e.regionOf(x.st, k.o, k.skel, one.base.typ)
			} else {
				rb = e.regionOf(y.st, k.o, k.skel, one.base.typ)
			}
		}
		if ra.base == rb.base && ra.depth == 0 && rb.depth == 0 {
			n.st.mem[k] = ra
			continue
		}
		if containsIdx(k.skel) {
			if r := j.arrays(x.st, y.st, ra, rb, k); r != nil {
				n.st.mem[k] = r
				continue
			}
		}
		if len(k.skel) >= 2 && (containsIdx(k.skel) || k.skel == "{}") {
			e.nver++
			n.st.mem[k] = &region{base: e.base(fmt.Sprintf("%s~%d%s@%d", k.o.name, k.o.id, k.skel, e.nver), k.o, k.skel, ra.base.typ, "sym")}
			continue
		}
		if k.skel == "{len}" {
			va, vb := e.mapLen(x.st, MapV{o: k.o}), e.mapLen(y.st, MapV{o: k.o})
			b := e.base("maplen", nil, "{len}", types.Typ[types.Int], "sym")
			n.st.mem[k] = &region{base: b, prev: &region{base: b}, w: &regWrite{val: j.lin(va, vb, 0, 0)}, depth: 1}
			continue
		}
		va := e.readRegion(x.st, ra, k.o, k.skel, nil, ra.base.typ)
		vb := e.readRegion(y.st, rb, k.o, k.skel, nil, rb.base.typ)
		v := j.val(va, vb, ra.base.typ)
		n.st.mem[k] = &region{base: ra.base, prev: &region{base: ra.base}, w: &regWrite{val: v}, depth: 1}
	}
	for k, v := range x.st.bools {
		if w, ok := y.st.bools[k]; ok && v == w {
			n.st.bools[k] = v
		}
	}
	n.st.ghosts = map[string]*Lin{}
	for g, a := range x.st.ghosts {
		b := y.st.ghosts[g]
		if b == nil {
			b = e.c(0)
		}
		n.st.ghosts[g] = j.lin(a, b, 0, 0)
	}
	for g, b := range y.st.ghosts {
		if x.st.ghosts[g] == nil {
			n.st.ghosts[g] = j.lin(e.c(0), b, 0, 0)
		}
	}
	if x.st.trace == y.st.trace {
		n.st.trace = x.st.trace
	} else {
		pre := commonTrace(x.st.trace, y.st.trace)
		n.st.trace = pre
		n.st.log(altEv{x.st.trace.list(pre), y.st.trace.list(pre)})
	}
	// facts
	fa, fb := x.st.f.clone(), y.st.f.clone()
	for _, l := range j.eqA {
		fa.addEQ(e.A, l)
	}
	for _, l := range j.eqB {
		fb.addEQ(e.A, l)
	}
	f := newFacts()
	for a, r := range fa.rng {
		lo, hi := fb.arange(a)
		lo, hi = min(lo, r[0]), max(hi, r[1])
		if lo > a.lo || hi < a.hi {
			f.rng[a] = [2]int64{lo, hi}
		}
	}
	try := func(src, dst *facts) {
		for _, l := range src.ge {
			if f.has[l.key] {
				continue
			}
			if dst.has[l.key] || dst.proveGE(e.A, l) {
				f.addGE(e.A, l)
			}
		}
		for _, l := range src.ne {
			if dst.proveNE(e.A, l) {
				f.addNE(e.A, l)
			}
		}
		// ranges that only hold as relations on the other side
		for a, r := range src.rng {
			if _, ok := f.rng[a]; ok {
				continue
			}
			al := e.A.canon(0, []lterm{{a, 1}})
			if r[0] > a.lo {
				if x := e.A.addc(al, -r[0]); dst.proveGE(e.A, x) {
					f.addGE(e.A, x)
				}
			}
			if r[1] < a.hi {
				if x := e.A.addc(e.A.neg(al), r[1]); dst.proveGE(e.A, x) {
					f.addGE(e.A, x)
				}
			}
		}
	}
	try(fa, fb)
	try(fb, fa)
	terms := e.Outer
	if e.JoinLens && len(j.ps) > 0 {
		terms = terms[:len(terms):len(terms)]
		seen := map[string]*Lin{}
		var keys []string
		for v := range live {
			if s, ok := n.env[v].(SliceV); ok && s.len != nil && seen[s.len.key] == nil {
				seen[s.len.key] = s.len
				keys = append(keys, s.len.key)
			}
		}
		sort.Strings(keys)
		for _, k := range keys {
			terms = append(terms, seen[k], e.A.addc(seen[k], -1))
		}
	}
	for _, p := range j.ps {
		for _, o := range terms {
			if d := e.A.sub(o, p); fa.proveGE(e.A, d) && fb.proveGE(e.A, d) {
				f.addGE(e.A, d)
			}
			if d := e.A.sub(p, o); fa.proveGE(e.A, d) && fb.proveGE(e.A, d) {
				f.addGE(e.A, d)
			}
		}
	}
	n.st.f = f
	return n
}

// arrays joins two versions of an array: the elements written at constant positions keep their joined values
func (j *joiner) arrays(sx, sy *State, ra, rb *region, k memKey) *region {
	e := j.e
	isConst := func(w *regWrite) bool {
		if w.bulk || len(w.idx) == 0 {
			return false
		}
		for _, i := range w.idx {
			if _, ok := i.isConst(); !ok {
				return false
			}
		}
		return true
	}
	var ws []*regWrite
	var r *region
	if ra.base == rb.base {
		// back to the common version
		x, y, ok := ra, rb, true
		for x != y && !(x.w == nil && y.w == nil) {
			w := x.w
			if x.depth >= y.depth {
				x = x.prev
			} else {
				w, y = y.w, y.prev
			}
			ws = append(ws, w)
			ok = ok && isConst(w)
		}
		if ok && len(ws) <= 16 {
			r = x
		}
	}
	if r == nil {
		ws = nil
		for _, x := range []*region{ra, rb} {
			for n := 0; x.w != nil && n < 16; x, n = x.prev, n+1 {
				if isConst(x.w) {
					ws = append(ws, x.w)
				}
			}
		}
		if len(ws) == 0 {
			return nil
		}
		e.nver++
		r = &region{base: e.base(fmt.Sprintf("%s~%d%s@%d", k.o.name, k.o.id, k.skel, e.nver), k.o, k.skel, ra.base.typ, "sym")}
	}
	done := map[string]bool{}
	for _, w := range ws {
		key := ""
		for _, i := range w.idx {
			key += i.key + ","
		}
		if done[key] {
			continue
		}
		done[key] = true
		va := e.readRegion(sx, ra, k.o, k.skel, w.idx, ra.base.typ)
		vb := e.readRegion(sy, rb, k.o, k.skel, w.idx, rb.base.typ)
		r = &region{base: r.base, prev: r, w: &regWrite{idx: w.idx, val: j.val(va, vb, ra.base.typ)}, depth: r.depth + 1}
	}
	return r
}

type altEv struct{ a, b []any }

func commonTrace(a, b *traceNode) *traceNode {
	for a != b {
		if a == nil || b == nil {
			return nil
		}
		if a.n > b.n {
			a = a.prev
		} else if b.n > a.n {
			b = b.prev
		} else {
			a, b = a.prev, b.prev
		}
	}
	return a
}

func containsIdx(s string) bool {
	for i := 0; i+1 < len(s); i++ {
		if s[i] == '[' && s[i+1] == ']' {
			return true
		}
	}
	return false
}

func sortKeys(ks []memKey) {
	for i := 1; i < len(ks); i++ {
		for j := i; j > 0; j-- {
			a, b := ks[j-1], ks[j]
			if a.o.id < b.o.id || (a.o.id == b.o.id && a.skel <= b.skel) {
				break
			}
			ks[j-1], ks[j] = b, a
		}
	}
}
