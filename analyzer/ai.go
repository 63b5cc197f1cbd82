package main

// Abstract interpreter over the SSA form: linear forms over atoms for integers, symbolic
// objects for memory, a linear constraint domain for relations between them, trace
// partitioning with joins, and loop fixpoints with inductive invariants.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Engine struct {
	p       *Prog
	A       *atoms
	nobj    int
	joins   map[*Atom]joinOf
	nver    int
	allObjs []*Obj
	objs    map[string]*Obj
	bases   map[string]*regBase
	quiet   int
	stack   []*ssa.Function
	steps   int
	limit   int

	Present     func(m MapV, key Val) bool // keys that are known to be in a map
	sorts       map[string]*sortInfo
	LogStores   bool // writes into slices built by appends go to the trace instead of the memory
	MergeLimit  int
	Recursion   int                                              // allowed depth of recursive calls
	globs       map[*Obj]*ssa.Global                             // objects of global variables
	ExactSlices bool                                             // appends to known memory keep it known element by element
	MergeIn     func(fn *ssa.Function) int                       // join limit by function (0: default)
	Unroll      func(fn *ssa.Function, head *ssa.BasicBlock) int // iterations to unroll (0: fixpoint)
	// hooks
	Override func(e *Engine, st *State, c *callInfo) ([]callOut, bool)
	Opaque   func(e *Engine, st *State, c *callInfo) ([]callOut, bool)
	OnPanic  func(e *Engine, st *State, in ssa.Instruction, kind, detail string)
	OnWrap   func(e *Engine, st *State, in ssa.Instruction, l *Lin, t types.Type, what string)
	OnStore  func(e *Engine, st *State, in ssa.Instruction, p PtrV, v Val)
	OnInstr  func(in ssa.Instruction)
	OnVal    func(e *Engine, st *State, in ssa.Value, v Val)
	cur      *item // of the instruction under way
	// OnCond may refine (split) the state in which a branch condition is decided
	OnCond func(e *Engine, st *State, f *Form) []*State
	// StrCmp gives the sign of the comparison of two byte sequences, nil when it has nothing to say
	StrCmp func(e *Engine, st *State, a, b StrV) *Lin
	// OnLoop learns of each analysed loop whether a ranking function proves that it ends
	OnLoop func(fn *ssa.Function, head *ssa.BasicBlock, terminates bool)
	// LoopInv is an invariant that is assumed in each loop that starts with it, and checked after each iteration
	LoopInv *loopInv
	// Outer are further terms for the loop invariants
	Outer []*Lin
	// SplitMinMax makes min and max of two values split the paths
	SplitMinMax bool
	// JoinLens keeps the relations of joined values with the lengths of the slices at hand
	JoinLens bool
	OnBlock  func(e *Engine, st *State, b *ssa.BasicBlock, env map[ssa.Value]Val)
	// cells known under several index expressions: provably equal indices are read as the hinted one
	hints     map[*regBase][]*Lin
	loopInfos map[*ssa.Function]*fnLoops
	liveness  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	depthLim  int
	exitTo    map[*item]*ssa.BasicBlock // target block of items leaving a region
}

type loopInv struct {
	holds  func(st *State) bool
	assume func(st *State)
	broken func(fn *ssa.Function, head *ssa.BasicBlock)
}

type callInfo struct {
	in     ssa.Instruction
	cc     *ssa.CallCommon
	fn     *ssa.Function // static or resolved callee (nil if opaque)
	name   string        // full name of the callee for functions outside of the module
	fv     *FuncV
	args   []Val
	caller *ssa.Function
}

type callOut struct {
	st  *State
	val Val
	// the call ended by panicking
	panicked bool
}

type item struct {
	st     *State
	env    map[ssa.Value]Val
	pred   *ssa.BasicBlock
	defers []deferRec
}

type deferRec struct {
	c *callInfo
}

type outcome struct {
	st  *State
	val Val
	in  ssa.Instruction
}

func newEngine(p *Prog) *Engine {
	return &Engine{p: p, A: newAtoms(), objs: map[string]*Obj{}, bases: map[string]*regBase{}, limit: 3000000, hints: map[*regBase][]*Lin{}, MergeLimit: 16,
		loopInfos: map[*ssa.Function]*fnLoops{}, liveness: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, depthLim: 48, exitTo: map[*item]*ssa.BasicBlock{}}
}

func (e *Engine) newState() *State {
	return &State{mem: map[memKey]*region{}, ver: map[*Obj]string{}, f: newFacts(), bools: map[string]bool{}, ghosts: map[string]*Lin{}}
}

func (e *Engine) newObj(name, kind string, t types.Type) *Obj {
	e.nobj++
	o := &Obj{id: e.nobj, name: name, kind: kind, typ: t}
	e.allObjs = append(e.allObjs, o)
	return o
}

func (e *Engine) symObj(key string, t types.Type) *Obj {
	if o := e.objs[key]; o != nil {
		return o
	}
	o := e.newObj(key, "sym", t)
	e.objs[key] = o
	return o
}

func (e *Engine) base(name string, o *Obj, skel string, t types.Type, kind string) *regBase {
	k := kind + ":" + name
	if b := e.bases[k]; b != nil {
		return b
	}
	b := &regBase{name: name, o: o, skel: skel, typ: t, kind: kind}
	e.bases[k] = b
	return b
}

func (e *Engine) c(k int64) *Lin { return e.A.c(k) }

// ---- symbolic values ----

func (e *Engine) freshVal(t types.Type, name string) Val {
	e.nver++
	return e.symVal(t, fmt.Sprintf("%s#%d", name, e.nver), nil, nil)
}

func (e *Engine) symVal(t types.Type, key string, b *regBase, idx []*Lin) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if lo, hi, ok := intRange(u); ok {
			if b != nil {
				a := e.A.mk("sel", b.name, lo, hi, idx...)
				a.reg = b
				return e.A.of(a)
			}
			return e.A.of(e.A.mk("var", key, lo, hi))
		}
		if u.Info()&types.IsBoolean != 0 {
			return &Form{op: "atom", name: key}
		}
		if u.Info()&types.IsString != 0 {
			return StrV{key: key, len: e.A.of(e.A.mk("var", "len("+key+")", 0, infNum))}
		}
	case *types.Pointer:
		return PtrV{o: e.symObj(key, u.Elem())}
	case *types.Slice:
		l := e.A.of(e.A.mk("var", "len("+key+")", 0, infNum))
		return SliceV{o: e.symObj(key, u.Elem()), off: e.c(0), len: l, cap: e.A.add(l, e.A.of(e.A.mk("var", "spare("+key+")", 0, infNum)))}
	case *types.Map:
		return MapV{o: e.symObj(key, u)}
	case *types.Signature:
		return FuncV{name: key}
	case *types.Interface:
		return IfaceV{name: key}
	case *types.Struct:
		v := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, e.symVal(u.Field(i).Type(), key+"."+u.Field(i).Name(), nil, nil))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 {
			v := StructV{typ: t}
			for i := int64(0); i < u.Len(); i++ {
				v.fields = append(v.fields, e.symVal(u.Elem(), fmt.Sprintf("%s.%d", key, i), nil, nil))
			}
			return v
		}
	case *types.Tuple:
		var tv TupleV
		for i := 0; i < u.Len(); i++ {
			tv = append(tv, e.symVal(u.At(i).Type(), fmt.Sprintf("%s.r%d", key, i), nil, nil))
		}
		return tv
	}
	return OpaqueV{key}
}

func (e *Engine) zeroVal(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if _, _, ok := intRange(u); ok {
			return e.c(0)
		}
		if u.Info()&types.IsBoolean != 0 {
			return formF
		}
		if u.Info()&types.IsString != 0 {
			return StrV{isConst: true, len: e.c(0)}
		}
	case *types.Pointer:
		return NilV{}
	case *types.Slice:
		return SliceV{isNil: true, off: e.c(0), len: e.c(0), cap: e.c(0), o: e.symObj("nil slice", u.Elem())}
	case *types.Map:
		return MapV{isNil: true}
	case *types.Signature:
		return FuncV{isNil: true}
	case *types.Interface:
		return IfaceV{isNil: true}
	case *types.Struct:
		v := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, e.zeroVal(u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 {
			v := StructV{typ: t}
			for i := int64(0); i < u.Len(); i++ {
				v.fields = append(v.fields, e.zeroVal(u.Elem()))
			}
			return v
		}
	}
	return OpaqueV{"zero"}
}

// ---- memory access ----

func (e *Engine) regionOf(st *State, o *Obj, skel string, t types.Type) *region {
	k := memKey{o, skel}
	if r := st.mem[k]; r != nil {
		return r
	}
	kind := "sym"
	if o.kind == "alloc" {
		kind = "zero"
	}
	name := fmt.Sprintf("%s%s", o.name, skel)
	if o.kind != "sym" && o.kind != "global" {
		name = fmt.Sprintf("%s~%d%s", o.name, o.id, skel)
	}
	if v := st.ver[o]; v != "" {
		name += "@" + v
		kind = "sym"
	}
	r := &region{base: e.base(name, o, skel, t, kind)}
	st.mem[k] = r
	return r
}

func (e *Engine) readRegion(st *State, r *region, o *Obj, skel string, idx []*Lin, t types.Type) Val {
	for x := r; x.w != nil; x = x.prev {
		w := x.w
		if w.bulk {
			i := idx[len(idx)-1]
			in := st.f.proveGE(e.A, e.A.sub(i, w.lo)) && st.f.proveGE(e.A, e.A.addc(e.A.sub(e.A.add(w.lo, w.n), i), -1))
			if in {
				if w.sreg == nil {
					return e.freshVal(t, r.base.name)
				}
				si := append(append([]*Lin{}, w.spre...), e.A.add(e.A.sub(i, w.lo), w.soff))
				return e.readRegion(st, w.sreg, w.sreg.base.o, w.sreg.base.skel, si, t)
			}
			out := st.f.proveGE(e.A, e.A.addc(e.A.sub(w.lo, i), -1)) || st.f.proveGE(e.A, e.A.sub(i, e.A.add(w.lo, w.n)))
			if out {
				continue
			}
			return e.freshVal(t, r.base.name+"?")
		}
		eq, ne := true, false
		for j := range idx {
			d := e.A.sub(idx[j], w.idx[j])
			if c, isC := d.isConst(); isC {
				if c != 0 {
					eq, ne = false, true
				}
				continue
			}
			if !st.f.proveEQ(e.A, d) {
				eq = false
				if st.f.proveNE(e.A, d) {
					ne = true
				}
			}
		}
		if eq {
			return w.val
		}
		if ne {
			continue
		}
		return e.freshVal(t, r.base.name+"?")
	}
	b := r.base
	if len(idx) > 0 && o != nil && strings.HasPrefix(skel, "[]") {
		switch o.kind {
		case "cat":
			if v, ok := e.readCat(st, o, skel, idx, t); ok {
				return v
			}
			return e.freshVal(t, b.name+"?")
		}
	}
	if b.kind == "zero" {
		return e.zeroVal(t)
	}
	ix := make([]*Lin, len(idx))
	for i := range idx {
		ix[i] = e.normLin(st, idx[i])
	}
	if len(ix) == 1 {
		for _, h := range e.hints[b] {
			if h.key == ix[0].key {
				break
			}
			if st.f.proveEQ(e.A, e.A.sub(h, ix[0])) {
				ix[0] = h
				break
			}
		}
	}
	return e.symVal(t, b.name+linsKey(ix), b, ix)
}

func (e *Engine) readCat(st *State, o *Obj, skel string, idx []*Lin, t types.Type) (Val, bool) {
	i := idx[0]
	if st.f.proveGE(e.A, e.A.addc(e.A.sub(o.parent.len, i), -1)) {
		pi := append([]*Lin{e.A.add(i, o.parent.off)}, idx[1:]...)
		pre := append(append([]*Lin{}, o.parent.idx...), pi...)
		return e.readCell(st, o.parent.o, o.parent.skel+skel, pre, t), true
	}
	at := o.parent.len
	for _, it := range o.items {
		n := e.c(1)
		if it.sl != nil {
			n = it.sl.len
		} else if it.str != nil {
			n = it.str.len
		}
		end := e.A.add(at, n)
		if st.f.proveGE(e.A, e.A.addc(e.A.sub(end, i), -1)) {
			if !st.f.proveGE(e.A, e.A.sub(i, at)) {
				return nil, false
			}
			if it.sl != nil {
				pi := append([]*Lin{e.A.add(e.A.sub(i, at), it.sl.off)}, idx[1:]...)
				pre := append(append([]*Lin{}, it.sl.idx...), pi...)
				return e.readCell(st, it.sl.o, it.sl.skel+skel, pre, t), true
			}
			if it.str != nil {
				return e.strIndex(st, *it.str, e.A.sub(i, at)), true
			}
			// single element: select the sub path
			v := it.val
			rest := strings.TrimPrefix(skel, "[]")
			for rest != "" {
				sv, ok := v.(StructV)
				if !ok {
					return nil, false
				}
				su, ok := isStructT(sv.typ)
				if !ok {
					return nil, false
				}
				found := false
				for f := 0; f < su.NumFields(); f++ {
					n := "." + su.Field(f).Name()
					if rest == n || strings.HasPrefix(rest, n+".") || strings.HasPrefix(rest, n+"[") {
						v = sv.fields[f]
						rest = rest[len(n):]
						found = true
						break
					}
				}
				if !found {
					return nil, false
				}
			}
			return v, true
		}
		at = end
	}
	return nil, false
}

func (e *Engine) readCell(st *State, o *Obj, skel string, idx []*Lin, t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			v.fields = append(v.fields, e.readCell(st, o, skel+"."+u.Field(i).Name(), idx, u.Field(i).Type()))
		}
		return v
	case *types.Array:
		if u.Len() <= 16 {
			v := StructV{typ: t}
			for i := int64(0); i < u.Len(); i++ {
				v.fields = append(v.fields, e.readCell(st, o, skel+"[]", append(append([]*Lin{}, idx...), e.c(i)), u.Elem()))
			}
			return v
		}
		return OpaqueV{"array " + o.name + skel}
	}
	return e.readRegion(st, e.regionOf(st, o, skel, t), o, skel, idx, t)
}

func (e *Engine) writeCell(st *State, o *Obj, skel string, idx []*Lin, t types.Type, v Val) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		sv, ok := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			var fv Val
			if ok && i < len(sv.fields) {
				fv = sv.fields[i]
			} else {
				fv = e.freshVal(u.Field(i).Type(), "fld")
			}
			e.writeCell(st, o, skel+"."+u.Field(i).Name(), idx, u.Field(i).Type(), fv)
		}
		return
	case *types.Array:
		sv, ok := v.(StructV)
		if u.Len() <= 16 {
			for i := int64(0); i < u.Len(); i++ {
				var fv Val
				if ok && int(i) < len(sv.fields) {
					fv = sv.fields[i]
				} else {
					fv = e.freshVal(u.Elem(), "elem")
				}
				e.writeCell(st, o, skel+"[]", append(append([]*Lin{}, idx...), e.c(i)), u.Elem(), fv)
			}
			return
		}
		e.havocCell(st, o, skel+"[]", u.Elem())
		return
	}
	k := memKey{o, skel}
	r := e.regionOf(st, o, skel, t)
	if len(idx) == 0 {
		st.mem[k] = &region{base: r.base, prev: &region{base: r.base}, w: &regWrite{val: v}, depth: 1}
		return
	}
	st.mem[k] = &region{base: r.base, prev: r, w: &regWrite{idx: idx, val: v}, depth: r.depth + 1}
}

// havocCell forgets the contents of the cells under a path.
func (e *Engine) havocCell(st *State, o *Obj, skel string, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			e.havocCell(st, o, skel+"."+u.Field(i).Name(), u.Field(i).Type())
		}
		return
	case *types.Array:
		e.havocCell(st, o, skel+"[]", u.Elem())
		return
	}
	e.nver++
	st.mem[memKey{o, skel}] = &region{base: e.base(fmt.Sprintf("%s~%d%s@%d", o.name, o.id, skel, e.nver), o, skel, t, "sym")}
}

func (e *Engine) load(st *State, p Val, t types.Type, in ssa.Instruction) Val {
	switch x := p.(type) {
	case PtrV:
		if g := e.globs[x.o]; g != nil && x.skel == "" && isErrorType(t) && e.p.globalNonNil(g) {
			return e.errVal("global " + g.String())
		}
		return e.readCell(st, x.o, x.skel, x.idx, t)
	case NilV:
		e.raise(st, in, "nil dereference", "")
		st.f.dead = true
	}
	return e.freshVal(t, "ld")
}

func (e *Engine) raise(st *State, in ssa.Instruction, kind, detail string) {
	if e.quiet == 0 && e.OnPanic != nil && !st.f.dead {
		e.OnPanic(e, st, in, kind, detail)
	}
}

// ---- numeric helpers ----

func (e *Engine) normLin(st *State, l *Lin) *Lin {
	out := l
	for _, t := range l.t {
		lo, hi := st.f.arange(t.a)
		if lo == hi {
			out = e.A.add(out, e.A.canon(lo*t.c, []lterm{{t.a, -t.c}}))
			continue
		}
		if len(t.a.args) > 0 {
			if n := e.normAtom(st, t.a); n != nil {
				out = e.A.add(out, e.A.scale(e.A.sub(n, e.A.of(t.a)), t.c))
			}
		}
	}
	return out
}

func (e *Engine) normAtom(st *State, a *Atom) *Lin {
	changed := false
	args := make([]*Lin, len(a.args))
	for i, x := range a.args {
		args[i] = e.normLin(st, x)
		if args[i] != x {
			changed = true
		}
	}
	if !changed {
		return nil
	}
	return e.rebuild(st, a, args)
}

func (e *Engine) rebuild(st *State, a *Atom, args []*Lin) *Lin {
	switch a.op {
	case "div":
		return e.div(st, args[0], args[1].k)
	case "mul":
		return e.mul(st, args[0], args[1])
	case "sel":
		n := e.A.mk("sel", a.reg.name, a.lo, a.hi, args...)
		n.reg = a.reg
		return e.A.of(n)
	}
	name := strings.TrimPrefix(a.key, a.op+":")
	if i := strings.IndexByte(name, '('); i >= 0 {
		name = name[:i]
	}
	return e.A.of(e.A.mk(a.op, name, a.lo, a.hi, args...))
}

// subst replaces atoms by linear forms.
func (e *Engine) subst(st *State, l *Lin, m map[*Atom]*Lin) *Lin {
	out := l
	for _, t := range l.t {
		if r, ok := m[t.a]; ok {
			out = e.A.add(out, e.A.scale(e.A.sub(r, e.A.of(t.a)), t.c))
			continue
		}
		if len(t.a.args) > 0 {
			changed := false
			args := make([]*Lin, len(t.a.args))
			for i, x := range t.a.args {
				args[i] = e.subst(st, x, m)
				if args[i] != x {
					changed = true
				}
			}
			if changed {
				out = e.A.add(out, e.A.scale(e.A.sub(e.rebuild(st, t.a, args), e.A.of(t.a)), t.c))
			}
		}
	}
	return out
}

func dependsAtom(l *Lin, bad func(*Atom) bool) bool {
	for _, t := range l.t {
		if atomDepends(t.a, bad) {
			return true
		}
	}
	return false
}

func atomDepends(a *Atom, bad func(*Atom) bool) bool {
	if bad(a) {
		return true
	}
	for _, x := range a.args {
		if dependsAtom(x, bad) {
			return true
		}
	}
	return false
}

// div: floor(l / m), m > 0
func (e *Engine) div(st *State, l *Lin, m int64) *Lin {
	if m == 1 {
		return l
	}
	l = e.normLinTop(st, l)
	var q, rest []lterm
	for _, t := range l.t {
		if t.c%m == 0 {
			q = append(q, lterm{t.a, t.c / m})
		} else {
			rest = append(rest, t)
		}
	}
	kq := floorDiv(l.k, m)
	ql := e.A.canon(kq, q)
	rl := e.A.canon(l.k-kq*m, rest)
	if len(rest) == 0 {
		return ql
	}
	lo, hi := st.f.linRange(rl)
	if lo > -infNum && hi < infNum && floorDiv(lo, m) == floorDiv(hi, m) {
		return e.A.addc(ql, floorDiv(lo, m))
	}
	if st.f.proveGE(e.A, rl) && st.f.proveGE(e.A, e.A.addc(e.A.neg(rl), m-1)) {
		return ql
	}
	if len(rest) == 1 && rest[0].c == 1 && rest[0].a.op == "div" && (rl.k == 0 || m < 1<<32 && rest[0].a.args[1].k < 1<<30) {
		if m > infNum/rest[0].a.args[1].k {
			if lo >= 0 {
				return ql
			}
			return e.A.add(ql, e.A.of(e.A.fresh("div", -infNum, infNum)))
		}
		b := rest[0].a.args[1].k
		return e.A.add(ql, e.div(st, e.A.addc(rest[0].a.args[0], rl.k*b), m*b))
	}
	glo, ghi := newFacts().linRange(rl)
	if glo > -infNum {
		glo = floorDiv(glo, m)
	}
	if ghi < infNum {
		ghi = floorDiv(ghi, m)
	}
	d := e.A.mk("div", "", glo, ghi, rl, e.c(m))
	if m == 2 && len(rest) == 2 {
		// the middle of two numbers: relate it to them with integer precision
		dl := e.A.of(d)
		for _, t := range rest {
			if t.c != 1 {
				continue
			}
			a := e.A.of(t.a)
			for _, g := range []*Lin{e.A.addc(e.A.sub(a, dl), -1), e.A.sub(dl, a)} {
				if !st.f.has[g.key] && st.f.proveGE(e.A, e.A.add(g, e.A.canon(0, nil))) {
					st.f.addGE(e.A, g)
				}
			}
		}
	}
	return e.A.add(ql, e.A.of(d))
}

func (e *Engine) normLinTop(st *State, l *Lin) *Lin {
	out := l
	for _, t := range l.t {
		lo, hi := st.f.arange(t.a)
		if lo == hi {
			out = e.A.add(out, e.A.canon(lo*t.c, []lterm{{t.a, -t.c}}))
		}
	}
	return out
}

func (e *Engine) mul(st *State, a, b *Lin) *Lin {
	a, b = e.normLinTop(st, a), e.normLinTop(st, b)
	if k, ok := a.isConst(); ok {
		return e.A.scale(b, k)
	}
	if k, ok := b.isConst(); ok {
		return e.A.scale(a, k)
	}
	// distribute over sums, products of atoms are atoms
	out := e.c(a.k * b.k)
	if a.k != 0 {
		out = e.A.add(out, e.A.scale(e.A.addc(b, -b.k), a.k))
	}
	if b.k != 0 {
		out = e.A.add(out, e.A.scale(e.A.addc(a, -a.k), b.k))
	}
	for _, x := range a.t {
		for _, y := range b.t {
			p, q := x.a, y.a
			if p.id > q.id {
				p, q = q, p
			}
			lo, hi := mulRange(p.lo, p.hi, q.lo, q.hi)
			at := e.A.mk("mul", "", lo, hi, e.A.of(p), e.A.of(q))
			out = e.A.add(out, e.A.scale(e.A.of(at), x.c*y.c))
		}
	}
	return out
}

func mulRange(al, ah, bl, bh int64) (int64, int64) {
	v := []int64{satMul(al, bl), satMul(al, bh), satMul(ah, bl), satMul(ah, bh)}
	lo, hi := v[0], v[0]
	for _, x := range v {
		if x < lo {
			lo = x
		}
		if x > hi {
			hi = x
		}
	}
	return lo, hi
}

func (e *Engine) fn(name string, lo, hi int64, args ...*Lin) *Lin {
	return e.A.of(e.A.mk("fn", name, lo, hi, args...))
}

// and with a constant nonnegative mask
func (e *Engine) andMask(st *State, x *Lin, m int64) *Lin {
	if k, ok := x.isConst(); ok && k >= 0 {
		return e.c(k & m)
	}
	out := e.c(0)
	for bit := uint(0); bit < 62 && m>>bit != 0; {
		if m>>bit&1 == 0 {
			bit++
			continue
		}
		end := bit
		for end < 62 && m>>end&1 == 1 {
			end++
		}
		// 2^bit * (x/2^bit - 2^(end-bit) * (x/2^end))
		q1 := e.div(st, x, 1<<bit)
		q2 := e.div(st, x, 1<<end)
		out = e.A.add(out, e.A.sub(e.A.scale(q1, 1<<bit), e.A.scale(q2, 1<<end)))
		bit = end
	}
	return out
}

func pow2Multiple(l *Lin) uint {
	g := l.k
	for _, t := range l.t {
		g = gcd64(g, t.c)
	}
	if g == 0 {
		return 62
	}
	n := uint(0)
	for g%2 == 0 {
		g /= 2
		n++
	}
	return n
}

func (e *Engine) inRange(st *State, l *Lin, lo, hi int64) bool {
	a, b := st.f.linRange(l)
	if (a >= lo || st.f.proveGE(e.A, e.A.addc(l, -lo))) && (hi >= infNum || b <= hi || st.f.proveGE(e.A, e.A.addc(e.A.neg(l), hi))) {
		return true
	}
	return false
}

// fit brings a mathematical result into the range of an integer type.
func (e *Engine) fit(st *State, l *Lin, t types.Type, in ssa.Instruction, what string) *Lin {
	lo, hi, ok := intRange(t)
	if !ok {
		return l
	}
	bits, signed := intBits(t)
	if bits == 64 && signed {
		return l
	}
	if bits == 64 {
		if e.inRange(st, l, 0, infNum) {
			return l
		}
		if what == "conversion" {
			// negative values: keep an opaque value
			if e.quiet == 0 && e.OnWrap != nil {
				e.OnWrap(e, st, in, l, t, what)
			}
			return e.fn("wrap64", 0, infNum, l)
		}
		if e.quiet == 0 && e.OnWrap != nil {
			e.OnWrap(e, st, in, l, t, what)
		}
		return e.fn("wrap64", 0, infNum, l)
	}
	if e.inRange(st, l, lo, hi) {
		return l
	}
	if e.quiet == 0 && e.OnWrap != nil && !st.f.dead {
		e.OnWrap(e, st, in, l, t, what)
	}
	return e.wrap(st, l, bits, signed)
}

func (e *Engine) wrap(st *State, l *Lin, bits uint, signed bool) *Lin {
	m := int64(1) << bits
	if signed {
		h := e.A.addc(l, m/2)
		return e.A.addc(e.A.sub(h, e.A.scale(e.div(st, h, m), m)), -m/2)
	}
	return e.A.sub(l, e.A.scale(e.div(st, l, m), m))
}

func (e *Engine) arith(st *State, op token.Token, x, y *Lin, t types.Type, in ssa.Instruction) *Lin {
	switch op {
	case token.ADD:
		return e.fit(st, e.A.add(x, y), t, in, "sum")
	case token.SUB:
		return e.fit(st, e.A.sub(x, y), t, in, "difference")
	case token.MUL:
		return e.fit(st, e.mul(st, x, y), t, in, "product")
	}
	x, y = e.normLinTop(st, x), e.normLinTop(st, y)
	ky, yc := y.isConst()
	kx, xc := x.isConst()
	lo, hi, _ := intRange(t)
	bits, signed := intBits(t)
	switch op {
	case token.QUO, token.REM:
		if !yc && !st.f.proveNE(e.A, y) {
			e.raise(st, in, "division by zero", "the divisor can be zero")
			st.f.addNE(e.A, y)
		}
		if yc && ky == 0 {
			e.raise(st, in, "division by zero", "")
			st.f.dead = true
			return x
		}
		if yc && ky > 0 && st.f.proveGE(e.A, x) {
			q := e.div(st, x, ky)
			if op == token.QUO {
				return q
			}
			return e.A.sub(x, e.A.scale(q, ky))
		}
		if xc && yc {
			if op == token.QUO {
				return e.c(kx / ky)
			}
			return e.c(kx % ky)
		}
		if op == token.REM && st.f.proveGE(e.A, x) && st.f.proveGE(e.A, e.A.addc(y, -1)) {
			r := e.fn("rem", 0, hi, x, y)
			st.f.addGE(e.A, e.A.addc(e.A.sub(y, r), -1))
			st.f.addGE(e.A, e.A.sub(x, r))
			return r
		}
		if op == token.QUO && st.f.proveGE(e.A, x) && st.f.proveGE(e.A, e.A.addc(y, -1)) {
			r := e.fn("quo", 0, hi, x, y)
			st.f.addGE(e.A, e.A.sub(x, r))
			return r
		}
		return e.fn(op.String(), lo, hi, x, y)
	case token.SHL:
		if yc && ky >= 0 && ky < 62 {
			// bits shifted out are lost: only flagged if the value does not fit
			return e.fit(st, e.A.scale(x, 1<<uint(ky)), t, in, "shift")
		}
		return e.fn("shl", lo, hi, x, y)
	case token.SHR:
		if yc && ky >= 0 && ky < 62 {
			return e.div(st, x, 1<<uint(ky))
		}
		return e.fn("shr", lo, hi, x, y)
	case token.AND:
		if xc && kx >= 0 {
			return e.andMask(st, y, kx)
		}
		if yc && ky >= 0 {
			return e.andMask(st, x, ky)
		}
		if x == y {
			return x
		}
		if x.key > y.key {
			x, y = y, x
		}
		r := e.fn("and", lo, hi, x, y)
		if st.f.proveGE(e.A, x) {
			st.f.addGE(e.A, r)
			st.f.addGE(e.A, e.A.sub(x, r))
		}
		if st.f.proveGE(e.A, y) {
			st.f.addGE(e.A, r)
			st.f.addGE(e.A, e.A.sub(y, r))
		}
		return r
	case token.AND_NOT:
		if yc && ky >= 0 {
			return e.A.sub(x, e.andMask(st, x, ky))
		}
		return e.fn("andnot", lo, hi, x, y)
	case token.OR, token.XOR:
		if xc && !yc {
			x, y, kx, ky, xc, yc = y, x, ky, kx, yc, xc
		}
		if yc && ky >= 0 && (st.f.proveGE(e.A, x) || !signed) {
			a := e.andMask(st, x, ky)
			if op == token.OR {
				return e.A.sub(e.A.addc(x, ky), a)
			}
			return e.A.sub(e.A.addc(x, ky), e.A.scale(a, 2))
		}
		for i := 0; i < 2; i++ {
			n := pow2Multiple(x)
			if n > 0 {
				if n > 60 {
					n = 60
				}
				if e.inRange(st, y, 0, int64(1)<<n-1) {
					return e.A.add(x, y)
				}
			}
			x, y = y, x
		}
		if x.key > y.key {
			x, y = y, x
		}
		_ = bits
		if op == token.OR && st.f.proveGE(e.A, x) && st.f.proveGE(e.A, y) {
			r := e.fn("or", 0, hi, x, y)
			st.f.addGE(e.A, e.A.sub(r, x))
			st.f.addGE(e.A, e.A.sub(r, y))
			st.f.addGE(e.A, e.A.sub(e.A.add(x, y), r))
			return r
		}
		return e.fn(op.String(), lo, hi, x, y)
	}
	return e.A.of(e.A.fresh("arith", lo, hi))
}

// ---- conditions ----

func (e *Engine) decide(st *State, f *Form) (val, known bool) {
	switch f.op {
	case "const":
		return f.b, true
	case "not":
		v, k := e.decide(st, f.x)
		return !v, k
	case "atom":
		v, k := st.bools[f.name]
		return v, k
	case "ge":
		if st.f.proveGE(e.A, f.l) {
			return true, true
		}
		if st.f.proveGE(e.A, e.A.addc(e.A.neg(f.l), -1)) {
			return false, true
		}
	case "eq":
		if st.f.proveNE(e.A, f.l) {
			return false, true
		}
		if st.f.proveEQ(e.A, f.l) {
			return true, true
		}
	case "and":
		a, ka := e.decide(st, f.x)
		b, kb := e.decide(st, f.y)
		if (ka && !a) || (kb && !b) {
			return false, true
		}
		if ka && kb {
			return true, true
		}
	case "or":
		a, ka := e.decide(st, f.x)
		b, kb := e.decide(st, f.y)
		if (ka && a) || (kb && b) {
			return true, true
		}
		if ka && kb {
			return false, true
		}
	}
	return false, false
}

// closeSingletons: an atom has become a constant, facts on cells indexed by it also hold for the
// cells under their new index.
func (e *Engine) closeSingletons(st *State, l *Lin) {
	hit := map[*Atom]bool{}
	for _, t := range l.t {
		if lo, hi := st.f.arange(t.a); lo == hi {
			hit[t.a] = true
		}
	}
	if len(hit) == 0 || st.f.dead {
		return
	}
	e.closeAtoms(st, func(a *Atom) bool { return hit[a] })
}

// impossible tells whether the facts of a state are contradictory.
func (e *Engine) impossible(st *State) bool {
	if st.f.dead || st.f.infeasible(e.A) {
		return true
	}
	st = st.clone()
	e.closeAtoms(st, func(a *Atom) bool {
		lo, hi := st.f.arange(a)
		return lo == hi
	})
	return st.f.dead || st.f.infeasible(e.A)
}

func (e *Engine) closeAtoms(st *State, bad func(*Atom) bool) {
	seen := map[*Atom]bool{}
	var eqs []*Lin
	for _, fs := range [][]*Lin{st.f.ge, st.f.ne} {
		for _, g := range fs {
			for _, t := range g.t {
				if seen[t.a] || len(t.a.args) == 0 {
					continue
				}
				seen[t.a] = true
				if !atomDepends(t.a, bad) {
					continue
				}
				if n := e.normAtom(st, t.a); n != nil {
					eqs = append(eqs, e.A.sub(e.A.of(t.a), n))
				}
			}
		}
	}
	for _, q := range eqs {
		st.f.addEQ(e.A, q)
	}
}

// assume returns the states in which f has the given outcome (st is consumed).
func (e *Engine) assume(st *State, f *Form, out bool) []*State {
	if v, k := e.decide(st, f); k {
		if v == out {
			return []*State{st}
		}
		return nil
	}
	switch f.op {
	case "not":
		return e.assume(st, f.x, !out)
	case "atom":
		st.bools[f.name] = out
		return []*State{st}
	case "ge":
		if out {
			st.f.addGE(e.A, f.l)
		} else {
			st.f.addGE(e.A, e.A.addc(e.A.neg(f.l), -1))
		}
		e.closeSingletons(st, f.l)
	case "eq":
		if out {
			st.f.addEQ(e.A, f.l)
		} else {
			st.f.addNE(e.A, f.l)
		}
		e.closeSingletons(st, f.l)
	case "and", "or":
		if (f.op == "and") == out {
			var res []*State
			for _, s := range e.assume(st, f.x, out) {
				res = append(res, e.assume(s, f.y, out)...)
			}
			return res
		}
		s2 := st.clone()
		res := e.assume(st, f.x, out)
		for _, s := range e.assume(s2, f.x, !out) {
			res = append(res, e.assume(s, f.y, out)...)
		}
		return res
	}
	if st.f.dead {
		return nil
	}
	return []*State{st}
}

func (e *Engine) ge(l *Lin) *Form {
	if k, ok := l.isConst(); ok {
		return fConst(k >= 0)
	}
	return &Form{op: "ge", l: l}
}
func (e *Engine) eq(l *Lin) *Form {
	if k, ok := l.isConst(); ok {
		return fConst(k == 0)
	}
	return &Form{op: "eq", l: l}
}

func (e *Engine) isNilForm(v Val) *Form {
	switch x := v.(type) {
	case NilV:
		return formT
	case PtrV:
		return formF
	case SliceV:
		if x.isNil {
			return formT
		}
		if x.o.kind == "alloc" {
			return formF
		}
		return &Form{op: "atom", name: "nil?" + valKey(v)}
	case MapV:
		if x.isNil {
			return formT
		}
		if x.o.kind == "alloc" {
			return formF
		}
		return &Form{op: "atom", name: fmt.Sprintf("nil?m%d", x.o.id)}
	case FuncV:
		if x.isNil {
			return formT
		}
		if x.fn != nil {
			return formF
		}
		return &Form{op: "atom", name: "nil?" + x.name}
	case IfaceV:
		if x.isNil {
			return formT
		}
		if x.typ != nil {
			return formF
		}
		return &Form{op: "atom", name: "nil?" + x.name}
	}
	return &Form{op: "atom", name: "nil?" + valKey(v)}
}

func isNilVal(v Val) bool {
	switch x := v.(type) {
	case NilV:
		return true
	case SliceV:
		return x.isNil
	case MapV:
		return x.isNil
	case FuncV:
		return x.isNil
	case IfaceV:
		return x.isNil
	}
	return false
}

func (e *Engine) eqForm(st *State, a, b Val) *Form {
	switch x := a.(type) {
	case *Lin:
		if y, ok := b.(*Lin); ok {
			return e.eq(e.A.sub(x, y))
		}
	case *Form:
		if y, ok := b.(*Form); ok {
			if x.op == "const" {
				if x.b {
					return y
				}
				return fNot(y)
			}
			if y.op == "const" {
				if y.b {
					return x
				}
				return fNot(x)
			}
			if x.String() == y.String() {
				return formT
			}
			return &Form{op: "or", x: &Form{op: "and", x: x, y: y}, y: &Form{op: "and", x: fNot(x), y: fNot(y)}}
		}
	case StrV:
		if y, ok := b.(StrV); ok {
			if x.isConst && y.isConst {
				return fConst(x.s == y.s)
			}
			if e.StrCmp != nil {
				if l := e.StrCmp(e, st, x, y); l != nil {
					return e.eq(l)
				}
			}
			if y.isConst && y.s == "" {
				return e.eq(x.len)
			}
			if x.isConst && x.s == "" {
				return e.eq(y.len)
			}
			k1, k2 := valKey(x), valKey(y)
			if k1 == k2 {
				return formT
			}
			if k1 > k2 {
				k1, k2 = k2, k1
			}
			return &Form{op: "atom", name: "streq(" + k1 + "," + k2 + ")", vals: []Val{x, y}}
		}
	case StructV:
		if y, ok := b.(StructV); ok && len(x.fields) == len(y.fields) {
			f := formT
			for i := range x.fields {
				g := e.eqForm(st, x.fields[i], y.fields[i])
				if f == formT {
					f = g
				} else if g != formT {
					f = &Form{op: "and", x: f, y: g}
				}
			}
			return f
		}
	}
	if isNilVal(b) {
		return e.isNilForm(a)
	}
	if isNilVal(a) {
		return e.isNilForm(b)
	}
	k1, k2 := valKey(a), valKey(b)
	if k1 == k2 {
		return formT
	}
	if p, ok := a.(PtrV); ok {
		if q, ok := b.(PtrV); ok && (p.o.kind == "alloc" || q.o.kind == "alloc") && p.o != q.o {
			return formF
		}
	}
	if k1 > k2 {
		k1, k2 = k2, k1
	}
	return &Form{op: "atom", name: "eq(" + k1 + "," + k2 + ")", vals: []Val{a, b}}
}

func (e *Engine) cmp(st *State, op token.Token, a, b Val) *Form {
	switch op {
	case token.EQL:
		return e.eqForm(st, a, b)
	case token.NEQ:
		return fNot(e.eqForm(st, a, b))
	}
	if x, ok := a.(*Lin); ok {
		if y, ok := b.(*Lin); ok {
			switch op {
			case token.LSS:
				return e.ge(e.A.addc(e.A.sub(y, x), -1))
			case token.LEQ:
				return e.ge(e.A.sub(y, x))
			case token.GTR:
				return e.ge(e.A.addc(e.A.sub(x, y), -1))
			case token.GEQ:
				return e.ge(e.A.sub(x, y))
			}
		}
	}
	if x, ok := a.(OpaqueV); ok {
		if y, ok := b.(OpaqueV); ok { // constants
			p, ok1 := new(big.Rat).SetString(x.name)
			q, ok2 := new(big.Rat).SetString(y.name)
			if ok1 && ok2 {
				switch k := p.Cmp(q); op {
				case token.LSS:
					return fConst(k < 0)
				case token.LEQ:
					return fConst(k <= 0)
				case token.GTR:
					return fConst(k > 0)
				case token.GEQ:
					return fConst(k >= 0)
				}
			}
		}
	}
	if x, ok := a.(StrV); ok {
		if y, ok := b.(StrV); ok {
			if e.StrCmp != nil {
				if l := e.StrCmp(e, st, x, y); l != nil {
					return e.cmp(st, op, l, e.c(0))
				}
			}
			less := func(p, q StrV) *Form {
				if p.isConst && q.isConst {
					return fConst(p.s < q.s)
				}
				return &Form{op: "atom", name: "strlt(" + valKey(p) + "," + valKey(q) + ")", vals: []Val{p, q}}
			}
			switch op {
			case token.LSS:
				return less(x, y)
			case token.GTR:
				return less(y, x)
			case token.LEQ:
				return fNot(less(y, x))
			case token.GEQ:
				return fNot(less(x, y))
			}
		}
	}
	e.nver++
	return &Form{op: "atom", name: fmt.Sprintf("cmp#%d", e.nver)}
}

func (e *Engine) strIndex(st *State, s StrV, i *Lin) Val {
	if s.isConst {
		if k, ok := e.normLinTop(st, i).isConst(); ok && k >= 0 && k < int64(len(s.s)) {
			return e.c(int64(s.s[k]))
		}
	}
	if s.sl != nil {
		idx := append(append([]*Lin{}, s.sl.idx...), e.A.add(s.sl.off, i))
		if s.reg != nil {
			return e.readRegion(st, s.reg, s.sl.o, s.sl.skel+"[]", idx, types.Typ[types.Uint8])
		}
		return e.readCell(st, s.sl.o, s.sl.skel+"[]", idx, types.Typ[types.Uint8])
	}
	return e.A.of(e.A.mk("fn", "strat:"+valKey(s), 0, 255, e.normLin(st, i)))
}

func (e *Engine) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return e.zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Int:
		if i, ok := constant.Int64Val(c.Value); ok {
			if i > -infNum && i < infNum {
				return e.c(i)
			}
		}
		if constant.Sign(c.Value) < 0 {
			return e.A.of(e.A.mk("var", "const "+c.Value.ExactString(), -infNum, -(1 << 60)))
		}
		return e.A.of(e.A.mk("var", "const "+c.Value.ExactString(), 1<<60, infNum))
	case constant.Bool:
		return fConst(constant.BoolVal(c.Value))
	case constant.String:
		s := constant.StringVal(c.Value)
		return StrV{isConst: true, s: s, len: e.c(int64(len(s)))}
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
				return e.c(i)
			}
		}
	}
	return OpaqueV{c.Value.ExactString()}
}

func (e *Engine) val(it *item, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Global:
		o := e.symObj("global "+x.String(), x.Type().Underlying().(*types.Pointer).Elem())
		o.kind = "global"
		if e.globs == nil {
			e.globs = map[*Obj]*ssa.Global{}
		}
		e.globs[o] = x
		return PtrV{o: o}
	case *ssa.Builtin:
		return FuncV{name: "builtin " + x.Name()}
	}
	if r, ok := it.env[v]; ok {
		return r
	}
	return e.freshVal(v.Type(), "undef "+v.Name())
}

func (e *Engine) lin(it *item, v ssa.Value) *Lin {
	if l, ok := e.val(it, v).(*Lin); ok {
		return l
	}
	lo, hi, _ := intRange(v.Type())
	return e.A.of(e.A.fresh("int "+v.Name(), lo, hi))
}

func (e *Engine) form(it *item, v ssa.Value) *Form {
	if f, ok := e.val(it, v).(*Form); ok {
		return f
	}
	e.nver++
	return &Form{op: "atom", name: fmt.Sprintf("bool#%d", e.nver)}
}

// ---- functions ----

func (e *Engine) live(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l := e.liveness[fn]; l != nil {
		return l
	}
	l := blockLive(fn)
	e.liveness[fn] = l
	return l
}

func (e *Engine) callFn(fn *ssa.Function, args, binds []Val, st *State) []outcome {
	if len(fn.Blocks) == 0 {
		return []outcome{{st: st, val: e.freshVal(fn.Signature.Results(), fn.Name())}}
	}
	depth := 0
	for _, g := range e.stack {
		if g == fn {
			depth++
		}
	}
	if depth > e.Recursion {
		panic(undecided("recursive call of " + fn.String()))
	}
	if len(e.stack) > e.depthLim {
		panic(undecided("call depth"))
	}
	e.stack = append(e.stack, fn)
	defer func() { e.stack = e.stack[:len(e.stack)-1] }()
	env := map[ssa.Value]Val{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			env[v] = binds[i]
		}
	}
	var outs []outcome
	e.runRegion(fn, nil, fn.Blocks[0], []*item{{st: st, env: env}}, func(it *item, in ssa.Instruction, v Val) {
		outs = append(outs, outcome{st: it.st, val: v, in: in})
	})
	return outs
}

type undecided string

func (u undecided) Error() string { return string(u) }

type edgeItems struct {
	pred, to *ssa.BasicBlock
	items    []*item
}

// runRegion interprets the blocks of a region (nil: the whole function) starting at entry.
// Returns the items leaving the region and those returning to its entry block.
func (e *Engine) runRegion(fn *ssa.Function, blocks map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, start []*item, ret func(*item, ssa.Instruction, Val)) (exits, backs []*item) {
	li := e.loops(fn)
	pending := map[*ssa.BasicBlock][]*item{entry: start}
	deliver := func(it *item, to *ssa.BasicBlock) {
		if it.st.f.dead {
			return
		}
		if to == entry && blocks != nil {
			backs = append(backs, it)
			return
		}
		if blocks != nil && !blocks[to] {
			x := &item{st: it.st, env: it.env, pred: it.pred, defers: it.defers}
			exits = append(exits, x)
			e.exitTo[x] = to
			return
		}
		pending[to] = append(pending[to], it)
	}
	first := true
	for _, b := range li.rpo {
		if blocks != nil && !blocks[b] {
			continue
		}
		if !first && b == entry {
			continue
		}
		items := pending[b]
		if len(items) == 0 {
			continue
		}
		delete(pending, b)
		if l := li.heads[b]; l != nil && !(first && b == entry && blocks != nil) {
			// inner loop
			for _, it := range items {
				e.phis(it, b)
			}
			items = e.merge(fn, b, items, true)
			for _, it := range items {
				for _, x := range e.runLoop(fn, l, it, ret) {
					to := e.exitTo[x]
					delete(e.exitTo, x)
					deliver(x, to)
				}
			}
			first = false
			continue
		}
		first = false
		if b != entry {
			for _, it := range items {
				e.phis(it, b)
			}
		}
		items = e.merge(fn, b, items, false)
		for _, it := range items {
			e.runBlock(fn, b, 0, it, deliver, ret)
		}
	}
	for b, x := range pending {
		if len(x) > 0 {
			panic(undecided(fmt.Sprintf("irreducible control flow in %s at block %d", fn, b.Index)))
		}
	}
	return exits, backs
}

func (e *Engine) phis(it *item, b *ssa.BasicBlock) {
	if it.pred == nil {
		return
	}
	pi := predIndex(b, it.pred)
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, ph)
		vals = append(vals, e.val(it, ph.Edges[pi]))
	}
	for i, ph := range ps {
		it.env[ph] = vals[i]
	}
}

func (it *item) fork(st *State) *item {
	n := &item{st: st, pred: it.pred, defers: it.defers, env: make(map[ssa.Value]Val, len(it.env))}
	for k, v := range it.env {
		n.env[k] = v
	}
	return n
}

func (e *Engine) runBlock(fn *ssa.Function, b *ssa.BasicBlock, from int, it *item, deliver func(*item, *ssa.BasicBlock), ret func(*item, ssa.Instruction, Val)) {
	if from == 0 && e.OnBlock != nil && e.quiet == 0 {
		e.OnBlock(e, it.st, b, it.env)
	}
	for i := from; i < len(b.Instrs); i++ {
		if it.st.f.dead {
			return
		}
		e.steps++
		if e.steps > e.limit {
			panic(undecided("step limit in " + fn.String()))
		}
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			it.pred = b
			deliver(it, b.Succs[0])
			return
		case *ssa.If:
			f := e.form(it, x.Cond)
			its := []*item{it}
			if e.OnCond != nil {
				its = nil
				for _, s := range e.OnCond(e, it.st, f) {
					its = append(its, it.fork(s))
				}
			}
			for _, it := range its {
				if v, k := e.decide(it.st, f); k {
					it.pred = b
					if v {
						deliver(it, b.Succs[0])
					} else {
						deliver(it, b.Succs[1])
					}
					continue
				}
				other := it.fork(it.st.clone())
				for _, s := range e.assume(it.st, f, true) {
					n := it.fork(s)
					n.pred = b
					deliver(n, b.Succs[0])
				}
				for _, s := range e.assume(other.st, f, false) {
					n := other.fork(s)
					n.pred = b
					deliver(n, b.Succs[1])
				}
			}
			return
		case *ssa.Return:
			var tv TupleV
			for _, r := range x.Results {
				tv = append(tv, e.val(it, r))
			}
			var v Val = tv
			if len(tv) == 1 {
				v = tv[0]
			}
			ret(it, x, v)
			return
		case *ssa.Panic:
			d := ""
			if iv, ok := e.val(it, x.X).(IfaceV); ok {
				if s, ok := iv.v.(StrV); ok && s.isConst {
					d = s.s
				}
			}
			e.raise(it.st, x, "panic", d)
			return
		case *ssa.RunDefers:
			ds := it.defers
			it.defers = nil
			states := []*State{it.st}
			for j := len(ds) - 1; j >= 0; j-- {
				var next []*State
				for _, s := range states {
					for _, o := range e.invoke(s, ds[j].c) {
						if !o.panicked && !o.st.f.dead {
							next = append(next, o.st)
						}
					}
				}
				states = next
			}
			for _, s := range states {
				n := it.fork(s)
				e.runBlock(fn, b, i+1, n, deliver, ret)
			}
			return
		case *ssa.Defer:
			c := e.callInfo(fn, it, x, &x.Call)
			it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferRec{c})
		case *ssa.Go:
			e.invoke(it.st, e.callInfo(fn, it, x, &x.Call))
		case *ssa.Call:
			outs := e.invoke(it.st, e.callInfo(fn, it, x, &x.Call))
			var ok []callOut
			for _, o := range outs {
				if !o.panicked && !o.st.f.dead {
					ok = append(ok, o)
				}
			}
			if len(ok) == 0 {
				return
			}
			if len(ok) == 1 {
				it.st = ok[0].st
				it.env[x] = ok[0].val
				continue
			}
			for _, o := range ok {
				n := it.fork(o.st)
				n.env[x] = o.val
				e.runBlock(fn, b, i+1, n, deliver, ret)
			}
			return
		case *ssa.TypeAssert:
			for _, s := range e.typeAssert(it, x) {
				e.runBlock(fn, b, i+1, s, deliver, ret)
			}
			return
		case *ssa.Next:
			// the outcome of the iteration is split immediately
			for _, s := range e.next(it, x) {
				e.runBlock(fn, b, i+1, s, deliver, ret)
			}
			return
		default:
			e.instr(fn, it, in)
			if e.OnVal != nil && !it.st.f.dead {
				if x, ok := in.(ssa.Value); ok {
					e.OnVal(e, it.st, x, it.env[x])
				}
			}
		}
	}
}

func (e *Engine) callInfo(fn *ssa.Function, it *item, in ssa.Instruction, cc *ssa.CallCommon) *callInfo {
	c := &callInfo{in: in, cc: cc, caller: fn}
	if cc.IsInvoke() {
		c.args = append(c.args, e.val(it, cc.Value))
		c.name = "(" + cc.Value.Type().String() + ")." + cc.Method.Name()
		if iv, ok := c.args[0].(IfaceV); ok && iv.typ != nil && iv.typ != errDummy {
			if m := e.p.SSA.LookupMethod(iv.typ, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				c.fn = m
				c.args[0] = iv.v
			}
		}
	} else {
		switch f := cc.Value.(type) {
		case *ssa.Builtin:
			c.name = "builtin " + f.Name()
		case *ssa.Function:
			c.fn = f
		default:
			fv := e.val(it, cc.Value)
			if v, ok := fv.(FuncV); ok {
				c.fv = &v
				c.fn = v.fn
			}
		}
	}
	for _, a := range cc.Args {
		c.args = append(c.args, e.val(it, a))
	}
	if c.fn != nil && c.name == "" {
		c.name = c.fn.String()
		if o := c.fn.Origin(); o != nil {
			c.name = o.String()
		}
	}
	return c
}

func (e *Engine) resType(c *callInfo) types.Type {
	if c.cc == nil {
		return types.NewTuple()
	}
	r := c.cc.Signature().Results()
	if r.Len() == 1 {
		return r.At(0).Type()
	}
	return r
}

// invoke performs a call (also deferred ones).
func (e *Engine) invoke(st *State, c *callInfo) []callOut {
	if strings.HasPrefix(c.name, "builtin ") {
		return e.builtin(st, c, strings.TrimPrefix(c.name, "builtin "))
	}
	if e.Override != nil {
		if outs, ok := e.Override(e, st, c); ok {
			return outs
		}
	}
	if c.fn != nil {
		if outs, ok := e.model(st, c); ok {
			return outs
		}
		if e.p.inModule(c.fn) || (len(c.fn.Blocks) > 0 && c.fn.Synthetic != "") {
			var binds []Val
			if c.fv != nil {
				binds = c.fv.binds
			}
			var res []callOut
			for _, o := range e.callFn(c.fn, c.args, binds, st) {
				res = append(res, callOut{st: o.st, val: o.val})
			}
			return res
		}
	}
	if outs, ok := e.model(st, c); ok {
		return outs
	}
	if e.Opaque != nil {
		if outs, ok := e.Opaque(e, st, c); ok {
			return outs
		}
	}
	return e.opaqueCall(st, c)
}

// opaqueCall: unknown results, and the documented writes of library functions
func (e *Engine) opaqueCall(st *State, c *callInfo) []callOut {
	for _, i := range externWrites(c.name, len(c.args)) {
		if i < len(c.args) {
			if s, ok := c.args[i].(SliceV); ok && !s.isNil {
				e.havocSlice(st, s, c.cc.Args)
			}
		}
	}
	n := c.name
	if n == "" {
		n = "call"
	}
	return []callOut{{st: st, val: e.freshVal(e.resType(c), n)}}
}

func (e *Engine) havocSlice(st *State, s SliceV, _ []ssa.Value) {
	t := s.o.typ
	if t == nil {
		return
	}
	if e.LogStores && e.quiet == 0 && (s.o.kind == "cat" || s.o.kind == "seq" || s.o.kind == "alt") {
		st.log(storeEv{p: PtrV{o: s.o}})
	}
	for k := range st.mem {
		if k.o == s.o && strings.HasPrefix(k.skel, s.skel+"[]") {
			r := st.mem[k]
			e.nver++
			st.mem[k] = &region{base: e.base(fmt.Sprintf("%s~%d%s@%d", s.o.name, s.o.id, k.skel, e.nver), s.o, k.skel, r.base.typ, "sym")}
		}
	}
	e.havocCell(st, s.o, s.skel+"[]", elemOf(s))
}

func elemOf(s SliceV) types.Type {
	t := s.o.typ
	if s.skel == "" {
		return t
	}
	// walk the skeleton from the object type
	cur := t
	rest := s.skel
	for rest != "" {
		if strings.HasPrefix(rest, "[]") {
			rest = rest[2:]
			switch u := cur.Underlying().(type) {
			case *types.Array:
				cur = u.Elem()
			case *types.Slice:
				cur = u.Elem()
			}
			continue
		}
		su, ok := isStructT(cur)
		if !ok {
			return types.Typ[types.Uint8]
		}
		hit := false
		for i := 0; i < su.NumFields(); i++ {
			n := "." + su.Field(i).Name()
			if rest == n || strings.HasPrefix(rest, n+".") || strings.HasPrefix(rest, n+"[") {
				cur = su.Field(i).Type()
				rest = rest[len(n):]
				hit = true
				break
			}
		}
		if !hit {
			return types.Typ[types.Uint8]
		}
	}
	if a, ok := isArrayT(cur); ok {
		return a.Elem()
	}
	return cur
}

func (e *Engine) typeAssert(it *item, x *ssa.TypeAssert) []*item {
	iv, _ := e.val(it, x.X).(IfaceV)
	_, toIface := x.AssertedType.Underlying().(*types.Interface)
	mk := func(i *item, v Val, ok bool) *item {
		if x.CommaOk {
			i.env[x] = TupleV{v, fConst(ok)}
		} else {
			i.env[x] = v
		}
		return i
	}
	if iv.isNil || iv.typ != nil {
		match := false
		if iv.typ != nil {
			if toIface {
				match = types.Implements(iv.typ, x.AssertedType.Underlying().(*types.Interface))
			} else {
				match = types.Identical(iv.typ, x.AssertedType)
			}
		}
		if match {
			if toIface {
				return []*item{mk(it, iv, true)}
			}
			return []*item{mk(it, iv.v, true)}
		}
		if x.CommaOk {
			return []*item{mk(it, e.zeroVal(x.AssertedType), false)}
		}
		e.raise(it.st, x, "type assertion", "")
		return nil
	}
	nm := fmt.Sprintf("isa(%s,%s)", iv.name, x.AssertedType)
	other := it.fork(it.st.clone())
	var v Val
	if toIface {
		v = iv
	} else {
		v = e.symVal(x.AssertedType, nm, nil, nil)
	}
	it.st.bools[nm] = true
	out := []*item{mk(it, v, true)}
	if x.CommaOk {
		other.st.bools[nm] = false
		out = append(out, mk(other, e.zeroVal(x.AssertedType), false))
	} else {
		e.raise(it.st, x, "type assertion", "")
	}
	return out
}

type iterV struct {
	m   Val
	id  int
	pos *Obj // number of elements so far
	n   *Lin // number of elements at the start

	exact   bool // the elements are known
	entries []mapEntry
}

// mapEntries returns the elements of a map, if they are known: the last ones added first, as any order is possible
func (e *Engine) mapEntries(st *State, m MapV) ([]mapEntry, bool) {
	r := e.mapRegion(st, m)
	var out []mapEntry
	var seen []Val
	x := r
outer:
	for ; x.w != nil; x = x.prev {
		me, ok := x.w.val.(mapEntry)
		if !ok {
			return nil, false
		}
		for _, k := range seen {
			eq, ne := e.keyRel(st, k, me.key)
			if eq {
				continue outer
			}
			if !ne {
				return nil, false
			}
		}
		seen = append(seen, me.key)
		if !me.del {
			out = append(out, me)
		}
	}
	return out, x.base.kind == "zero"
}

func (e *Engine) next(it *item, x *ssa.Next) []*item {
	iv, ok := e.val(it, x.Iter).(iterV)
	done := it.fork(it.st.clone())
	tup := x.Type().(*types.Tuple)
	zero := func(t types.Type) Val {
		if t == types.Typ[types.Invalid] {
			return NilV{}
		}
		return e.zeroVal(t)
	}
	done.env[x] = TupleV{formF, zero(tup.At(1).Type()), zero(tup.At(2).Type())}
	e.nver++
	if ok && iv.exact {
		if pos, isLin := e.readCell(it.st, iv.pos, "", nil, types.Typ[types.Int]).(*Lin); isLin {
			if i, known := e.normLinTop(it.st, pos).isConst(); known {
				for ; i < int64(len(iv.entries)); i++ {
					me := iv.entries[i]
					if m, isM := iv.m.(MapV); isM {
						f, v := e.mapLookup(it.st, m, me.key, x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map).Elem())
						if b, known := e.decide(it.st, f); known && !b {
							continue
						}
						me.val = v
					}
					e.writeCell(it.st, iv.pos, "", nil, types.Typ[types.Int], e.c(i+1))
					it.env[x] = TupleV{formT, me.key, me.val}
					return []*item{it}
				}
				return []*item{done}
			}
		}
	}
	if x.IsString {
		s, _ := iv.m.(StrV)
		i := e.A.of(e.A.mk("var", fmt.Sprintf("strpos#%d", e.nver), 0, infNum))
		if s.len != nil {
			it.st.f.addGE(e.A, e.A.addc(e.A.sub(s.len, i), -1))
		}
		r := e.A.of(e.A.mk("var", fmt.Sprintf("rune#%d", e.nver), 0, 0x10FFFF))
		it.env[x] = TupleV{formT, i, r}
		if it.st.f.dead {
			return []*item{done}
		}
		return []*item{it, done}
	}
	var kt, vt types.Type
	if r, ok2 := x.Iter.(*ssa.Range); ok2 {
		m := r.X.Type().Underlying().(*types.Map)
		kt, vt = m.Key(), m.Elem()
	}
	key := e.symVal(kt, fmt.Sprintf("key#%d", e.nver), nil, nil)
	var val Val
	if m, isM := iv.m.(MapV); ok && isM && !m.isNil {
		f, v := e.mapLookup(it.st, m, key, vt)
		ss := e.assume(it.st, f, true)
		if len(ss) == 0 {
			return []*item{done}
		}
		it.st = ss[0]
		ml := e.mapLen(it.st, m)
		it.st.f.addGE(e.A, e.A.addc(ml, -1))
		val = v
		if iv.pos != nil && ml == iv.n {
			// not resized: every element comes exactly once
			if pos, isLin := e.readCell(it.st, iv.pos, "", nil, types.Typ[types.Int]).(*Lin); isLin {
				it.st.f.addGE(e.A, e.A.addc(e.A.sub(ml, pos), -1))
				e.writeCell(it.st, iv.pos, "", nil, types.Typ[types.Int], e.A.addc(pos, 1))
				done.st.f.addEQ(e.A, e.A.sub(ml, pos))
				if done.st.f.dead {
					return []*item{it}
				}
			}
		}
	} else {
		if m.isNil {
			return []*item{done}
		}
		val = e.freshVal(vt, "mapval")
	}
	it.env[x] = TupleV{formT, key, val}
	return []*item{it, done}
}

// ---- maps ----

type mapEntry struct {
	key, val Val
	del      bool
}

func (e *Engine) mapRegion(st *State, m MapV) *region {
	return e.regionOf(st, m.o, "{}", types.Typ[types.Int])
}

func (e *Engine) mapLen(st *State, m MapV) *Lin {
	if m.isNil {
		return e.c(0)
	}
	k := memKey{m.o, "{len}"}
	if r := st.mem[k]; r != nil && r.w != nil {
		return r.w.val.(*Lin)
	}
	if m.o.kind == "alloc" && st.ver[m.o] == "" && st.mem[k] == nil {
		return e.c(0)
	}
	n := m.o.name
	if m.o.kind != "sym" && m.o.kind != "global" {
		n = fmt.Sprintf("%s~%d", n, m.o.id)
	}
	if r := st.mem[k]; r != nil {
		n = r.base.name
	}
	l := e.A.of(e.A.mk("var", "len("+n+")", 0, infNum))
	return l
}

func (e *Engine) setMapLen(st *State, m MapV, l *Lin) {
	b := e.base("maplen", nil, "{len}", types.Typ[types.Int], "sym")
	st.mem[memKey{m.o, "{len}"}] = &region{base: b, prev: &region{base: b}, w: &regWrite{val: l}, depth: 1}
}

// provably equal / different keys
func (e *Engine) keyRel(st *State, a, b Val) (eq, ne bool) {
	if valKey(a) == valKey(b) {
		return true, false
	}
	v, k := e.decide(st, e.eqForm(st, a, b))
	return k && v, k && !v
}

func (e *Engine) mapLookup(st *State, m MapV, key Val, vt types.Type) (*Form, Val) {
	if m.isNil {
		return formF, e.zeroVal(vt)
	}
	r := e.mapRegion(st, m)
	for x := r; x.w != nil; x = x.prev {
		me, ok := x.w.val.(mapEntry)
		if !ok {
			break
		}
		eq, ne := e.keyRel(st, me.key, key)
		if eq {
			if me.del {
				return formF, e.zeroVal(vt)
			}
			return formT, me.val
		}
		if ne {
			continue
		}
		e.nver++
		return &Form{op: "atom", name: fmt.Sprintf("has#%d", e.nver)}, e.freshVal(vt, "mapval")
	}
	if r.base.kind == "zero" {
		return formF, e.zeroVal(vt)
	}
	kk := valKey(key)
	if l, ok := key.(*Lin); ok {
		kk = e.normLin(st, l).key
	}
	if e.Present != nil && e.Present(m, key) {
		return formT, e.symVal(vt, r.base.name+"{"+kk+"}", nil, nil)
	}
	has := &Form{op: "atom", name: "has(" + r.base.name + "," + kk + ")", vals: []Val{m, key}}
	if v, known := st.bools[has.name]; known && !v {
		return formF, e.zeroVal(vt)
	}
	return has, e.symVal(vt, r.base.name+"{"+kk+"}", nil, nil)
}

func (e *Engine) mapUpdate(st *State, m MapV, key, val Val, del bool, vt types.Type) {
	if m.isNil {
		return
	}
	has, _ := e.mapLookup(st, m, key, vt)
	l := e.mapLen(st, m)
	v, known := e.decide(st, has)
	switch {
	case known && v == !del:
		// length unchanged
		e.setMapLen(st, m, l)
	case known && del:
		e.setMapLen(st, m, l)
	case known && !v && !del:
		e.setMapLen(st, m, e.A.addc(l, 1))
	default:
		n := e.A.of(e.A.fresh("maplen", 0, infNum))
		if del {
			if known && v {
				e.setMapLen(st, m, e.A.addc(l, -1))
				break
			}
			st.f.addGE(e.A, e.A.sub(l, n))
			st.f.addGE(e.A, e.A.addc(e.A.sub(n, l), 1))
		} else {
			st.f.addGE(e.A, e.A.sub(n, l))
			st.f.addGE(e.A, e.A.addc(e.A.sub(l, n), 1))
		}
		e.setMapLen(st, m, n)
	}
	if known && v && del {
		e.setMapLen(st, m, e.A.addc(l, -1))
	}
	if known && !v && del {
		return
	}
	r := e.mapRegion(st, m)
	st.mem[memKey{m.o, "{}"}] = &region{base: r.base, prev: r, w: &regWrite{val: mapEntry{key, val, del}}, depth: r.depth + 1}
}

func sortedLines(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
