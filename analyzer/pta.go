package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Context-sensitive (call-string cloning), field-sensitive, flow-insensitive
// points-to analysis, run separately for each entry point. The parameters of
// the entry point and the package level variables are symbolic: their
// pre-existing pointees are materialised on demand as symbolic objects.

type pobj struct {
	name   string
	kind   string // alloc, sym, global, extern, closure, func
	typ    types.Type
	root   string // for symbolic objects: parameter or global name they are reached from
	depth  int
	isData bool // reached through a font data field
	site   ssa.Instruction
	clo    *ssa.MakeClosure
	cloCtx *pctx
	fn     *ssa.Function
}

type ptgt struct {
	o    *pobj
	path string
}

type pnode struct {
	owner any // *pobj or pval
	path  string
}

type pval struct {
	ctx *pctx
	v   ssa.Value
}

type pctx struct {
	parent *pctx
	site   ssa.Instruction
	fn     *ssa.Function
	kids   map[ssa.Instruction]map[*ssa.Function]*pctx
	depth  int
	id     int
}

type pta struct {
	p       *Prog
	pts     map[pnode]map[ptgt]bool
	paths   map[any]map[string]bool
	changed bool
	objs    map[string]*pobj
	ctxs    []*pctx
	root    *pctx
	events  []pevent
	record  bool
	inline  func(f *ssa.Function) bool
	dataFld func(st types.Type, field int) bool
}

// pevent is a write to memory.
type pevent struct {
	kind string // store, append, copy, map, clear, extern
	in   ssa.Instruction
	ctx  *pctx
	tgt  ptgt
}

func newPTA(p *Prog) *pta {
	a := &pta{p: p, pts: map[pnode]map[ptgt]bool{}, paths: map[any]map[string]bool{}, objs: map[string]*pobj{}}
	a.inline = func(f *ssa.Function) bool {
		if f.Blocks == nil {
			return false
		}
		if p.inModule(f) {
			return true
		}
		pk := fnPkg(f)
		if pk == nil {
			return false
		}
		switch pk.Path() {
		case "slices", "maps", "cmp", "iter":
			return true
		}
		return false
	}
	return a
}

func (a *pta) add(n pnode, t ptgt) {
	m := a.pts[n]
	if m == nil {
		m = map[ptgt]bool{}
		a.pts[n] = m
		ps := a.paths[n.owner]
		if ps == nil {
			ps = map[string]bool{}
			a.paths[n.owner] = ps
		}
		ps[n.path] = true
	}
	if !m[t] {
		m[t] = true
		a.changed = true
	}
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

// leaves calls f for each pointer-like leaf inside a value of type t.
func leaves(t types.Type, path string, f func(path string, t types.Type, st types.Type, fld int)) {
	leavesIn(t, path, nil, 0, f)
}

func leavesIn(t types.Type, path string, st types.Type, fld int, f func(string, types.Type, types.Type, int)) {
	if isPtrLike(t) {
		f(path, t, st, fld)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			leavesIn(u.Field(i).Type(), path+"."+u.Field(i).Name(), t, i, f)
		}
	case *types.Array:
		leavesIn(u.Elem(), path+"[]", nil, 0, f)
	}
}

func (a *pta) isDataField(st types.Type, fld int) bool {
	if st == nil {
		return false
	}
	n, ok := types.Unalias(st).(*types.Named)
	if !ok {
		return false
	}
	s, ok := n.Underlying().(*types.Struct)
	if !ok || s.Field(fld).Name() != "Data" || !a.p.inModPkg(n.Obj().Pkg()) {
		return false
	}
	return a.p.isFontStruct(s) || a.p.isRawBlock(s)
}

// isDataPath: the path names the Data field of a font or raw block inside o
func (a *pta) isDataPath(o *pobj, path string) bool {
	if o.typ == nil || !strings.HasSuffix(path, ".Data") {
		return false
	}
	t := o.typ
	pre := strings.TrimSuffix(path, ".Data")
	for pre != "" && t != nil {
		switch {
		case strings.HasPrefix(pre, "[]"), strings.HasPrefix(pre, "[v]"), strings.HasPrefix(pre, "[k]"):
			switch u := t.Underlying().(type) {
			case *types.Array:
				t = u.Elem()
			case *types.Slice:
				t = u.Elem()
			case *types.Map:
				t = u.Elem()
			}
			pre = pre[strings.Index(pre, "]")+1:]
		case pre[0] == '.':
			rest := pre[1:]
			n := strings.IndexAny(rest, ".[")
			name := rest
			if n >= 0 {
				name = rest[:n]
				pre = rest[n:]
			} else {
				pre = ""
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return false
			}
			t = nil
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == name {
					t = st.Field(i).Type()
				}
			}
		default:
			return false
		}
	}
	if t == nil {
		return false
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	return a.p.isFontStruct(st) || a.p.isRawBlock(st)
}

// materialize symbolic pointees for the pointer-like leaves of (o,path) with type t
func (a *pta) materialize(o *pobj, path string, t types.Type) {
	if o.kind != "sym" && o.kind != "global" && o.kind != "extern" {
		return
	}
	leaves(t, path, func(lp string, lt types.Type, st types.Type, fld int) {
		n := pnode{o, lp}
		if len(a.pts[n]) > 0 {
			for tg := range a.pts[n] {
				if tg.o.kind == "sym" && strings.HasPrefix(tg.o.name, o.name) {
					return
				}
			}
		}
		var so *pobj
		name := o.name + lp + "*"
		if o.depth > 6 {
			so = o
		} else {
			so = a.objs[name]
			if so == nil {
				so = &pobj{name: name, kind: "sym", root: o.root, depth: o.depth + 1, typ: pointee(lt), isData: o.isData || a.isDataField(st, fld) || a.isDataPath(o, lp)}
				a.objs[name] = so
			}
		}
		a.add(n, ptgt{so, basePath(lt)})
	})
}

func pointee(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return t
}

func basePath(t types.Type) string {
	if _, ok := t.Underlying().(*types.Slice); ok {
		return "[]"
	}
	return ""
}

func (a *pta) obj(key, kind string, t types.Type) *pobj {
	o := a.objs[key]
	if o == nil {
		o = &pobj{name: key, kind: kind, typ: t}
		a.objs[key] = o
	}
	return o
}

func (a *pta) val(c *pctx, v ssa.Value) map[ptgt]bool {
	return a.pts[a.node(c, v)]
}

func (a *pta) node(c *pctx, v ssa.Value) pnode {
	switch v := v.(type) {
	case *ssa.Global:
		n := pnode{pval{nil, v}, ""}
		o := a.obj("global "+v.String(), "global", v.Type().Underlying().(*types.Pointer).Elem())
		o.root = v.String()
		a.add(n, ptgt{o, ""})
		return n
	case *ssa.Function:
		n := pnode{pval{nil, v}, ""}
		o := a.obj("func "+v.String(), "func", v.Type())
		o.fn = v
		a.add(n, ptgt{o, ""})
		return n
	}
	return pnode{pval{c, v}, ""}
}

func (a *pta) copyTree(dst any, dpath string, src any, spath string) {
	var ps []string
	for q := range a.paths[src] {
		if strings.HasPrefix(q, spath) {
			ps = append(ps, q)
		}
	}
	for _, q := range ps {
		for t := range a.pts[pnode{src, q}] {
			a.add(pnode{dst, dpath + q[len(spath):]}, t)
		}
	}
}

// solve runs the analysis from an entry point.
func (a *pta) solve(entry *ssa.Function) {
	a.root = &pctx{fn: entry, kids: map[ssa.Instruction]map[*ssa.Function]*pctx{}}
	a.ctxs = []*pctx{a.root}
	for i, prm := range entry.Params {
		o := a.obj(fmt.Sprintf("param %s", prm.Name()), "sym", prm.Type())
		o.root = fmt.Sprintf("%d:%s", i, prm.Name())
		// a pseudo object holding the parameter value itself
		a.materialize(o, "", prm.Type())
		a.copyTree(pval{a.root, prm}, "", o, "")
	}
	for i := 0; ; i++ {
		a.changed = false
		for j := 0; j < len(a.ctxs); j++ {
			a.pass(a.ctxs[j])
		}
		if !a.changed {
			break
		}
		if i > 200 {
			panic("points-to analysis did not stabilise for " + entry.String())
		}
	}
	a.record = true
	for j := 0; j < len(a.ctxs); j++ {
		a.pass(a.ctxs[j])
	}
	a.record = false
}

func (a *pta) kid(c *pctx, in ssa.Instruction, f *ssa.Function) *pctx {
	if k := c.kids[in][f]; k != nil {
		return k
	}
	for q := c; q != nil; q = q.parent {
		if q.fn == f {
			if c.kids[in] == nil {
				c.kids[in] = map[*ssa.Function]*pctx{}
			}
			c.kids[in][f] = q
			return q
		}
	}
	k := &pctx{parent: c, site: in, fn: f, kids: map[ssa.Instruction]map[*ssa.Function]*pctx{}, depth: c.depth + 1, id: len(a.ctxs)}
	if c.kids[in] == nil {
		c.kids[in] = map[*ssa.Function]*pctx{}
	}
	c.kids[in][f] = k
	a.ctxs = append(a.ctxs, k)
	a.changed = true
	return k
}

func (a *pta) write(kind string, in ssa.Instruction, c *pctx, t ptgt) {
	if a.record {
		a.events = append(a.events, pevent{kind, in, c, t})
	}
}

func (a *pta) pass(c *pctx) {
	for _, b := range c.fn.Blocks {
		for _, in := range b.Instrs {
			a.instr(c, in)
		}
	}
}

func (a *pta) cp(c *pctx, dst, src ssa.Value) {
	a.node(c, src)
	a.copyTree(a.node(c, dst).owner, "", a.node(c, src).owner, "")
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return t.Underlying().(*types.Struct).Field(i).Name()
}

func (a *pta) targets(c *pctx, v ssa.Value) []ptgt {
	m := a.val(c, v)
	out := make([]ptgt, 0, len(m))
	for t := range m {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].o.name != out[j].o.name {
			return out[i].o.name < out[j].o.name
		}
		return out[i].path < out[j].path
	})
	return out
}

func (a *pta) instr(c *pctx, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		o := a.obj(fmt.Sprintf("alloc %d %s.%s", c.id, c.fn.String(), x.Name()), "alloc", x.Type().Underlying().(*types.Pointer).Elem())
		o.site = x
		a.add(a.node(c, x), ptgt{o, ""})
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		v := in.(ssa.Value)
		o := a.obj(fmt.Sprintf("make %d %s.%s", c.id, c.fn.String(), v.Name()), "alloc", v.Type())
		o.site = in
		a.add(a.node(c, v), ptgt{o, basePath(v.Type())})
	case *ssa.MakeClosure:
		o := a.obj(fmt.Sprintf("closure %d %s.%s", c.id, c.fn.String(), x.Name()), "closure", x.Type())
		o.clo, o.cloCtx = x, c
		a.add(a.node(c, x), ptgt{o, ""})
		for i, bnd := range x.Bindings {
			a.node(c, bnd)
			a.copyTree(o, fmt.Sprintf("^%d", i), a.node(c, bnd).owner, "")
		}
	case *ssa.FieldAddr:
		for _, t := range a.targets(c, x.X) {
			a.add(a.node(c, x), a.exclusive(c, x.Block(), pnode{}, ptgt{t.o, t.path + "." + fieldName(x.X.Type(), x.Field)}))
		}
	case *ssa.IndexAddr:
		_, isSlice := x.X.Type().Underlying().(*types.Slice)
		for _, t := range a.targets(c, x.X) {
			if isSlice {
				a.add(a.node(c, x), t)
			} else {
				a.add(a.node(c, x), ptgt{t.o, t.path + "[]"})
			}
		}
	case *ssa.Field:
		a.copyTree(pval{c, x}, "", pval{c, x.X}, "."+fieldName(x.X.Type(), x.Field))
	case *ssa.Index:
		if _, ok := x.X.Type().Underlying().(*types.Array); ok {
			a.copyTree(pval{c, x}, "", pval{c, x.X}, "[]")
		}
	case *ssa.Slice:
		if x.Max != nil {
			if k, ok := x.Max.(*ssa.Const); ok && k.Value != nil && constant.Sign(k.Value) == 0 {
				return
			}
		}
		_, isArr := x.X.Type().Underlying().(*types.Pointer)
		for _, t := range a.targets(c, x.X) {
			if isArr {
				a.add(a.node(c, x), ptgt{t.o, t.path + "[]"})
			} else {
				a.add(a.node(c, x), t)
			}
		}
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			for _, t := range a.targets(c, x.X) {
				a.materialize(t.o, t.path, x.Type())
				a.copyTree(pval{c, x}, "", t.o, t.path)
			}
		case token.ARROW:
		}
	case *ssa.Store:
		for _, t := range a.targets(c, x.Addr) {
			a.node(c, x.Val)
			a.copyTree(t.o, t.path, a.node(c, x.Val).owner, "")
			a.write("store", in, c, t)
		}
	case *ssa.Phi:
		for i, e := range x.Edges {
			if len(gateBlocks(c.fn)) > 0 {
				for _, t := range a.targets(c, e) {
					a.add(a.node(c, x), a.exclusive(c, x.Block().Preds[i], pnode{}, t))
				}
				continue
			}
			a.cp(c, x, e)
		}
	case *ssa.ChangeType:
		a.cp(c, x, x.X)
	case *ssa.ChangeInterface:
		a.cp(c, x, x.X)
	case *ssa.MakeInterface:
		a.cp(c, x, x.X)
	case *ssa.TypeAssert:
		if x.CommaOk {
			a.node(c, x.X)
			a.copyTree(pval{c, x}, "#0", a.node(c, x.X).owner, "")
		} else {
			a.cp(c, x, x.X)
		}
	case *ssa.Convert:
		// []byte(string) and string([]byte) copy; unsafe pointers alias
		if b, ok := x.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if _, isSl := x.Type().Underlying().(*types.Slice); isSl {
				o := a.obj(fmt.Sprintf("conv %d %s.%s", c.id, c.fn.String(), x.Name()), "alloc", x.Type())
				a.add(a.node(c, x), ptgt{o, "[]"})
				return
			}
		}
		if isPtrLike(x.Type()) || isUnsafe(x.Type()) {
			a.cp(c, x, x.X)
		}
	case *ssa.SliceToArrayPointer:
		for _, t := range a.targets(c, x.X) {
			a.add(a.node(c, x), ptgt{t.o, strings.TrimSuffix(t.path, "[]")})
		}
	case *ssa.Extract:
		a.copyTree(pval{c, x}, "", pval{c, x.Tuple}, fmt.Sprintf("#%d", x.Index))
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); ok {
			dst := ""
			et := x.Type()
			if x.CommaOk {
				dst = "#0"
				et = x.Type().(*types.Tuple).At(0).Type()
			}
			for _, t := range a.targets(c, x.X) {
				a.materialize(t.o, t.path+"[v]", et)
				a.copyTree(pval{c, x}, dst, t.o, t.path+"[v]")
			}
		}
	case *ssa.MapUpdate:
		for _, t := range a.targets(c, x.Map) {
			a.node(c, x.Value)
			a.node(c, x.Key)
			a.copyTree(t.o, t.path+"[v]", a.node(c, x.Value).owner, "")
			a.copyTree(t.o, t.path+"[k]", a.node(c, x.Key).owner, "")
			a.write("map", in, c, ptgt{t.o, t.path + "[v]"})
		}
	case *ssa.Range:
		a.cp(c, x, x.X)
	case *ssa.Next:
		if !x.IsString {
			tt := x.Type().(*types.Tuple)
			for _, t := range a.targets(c, x.Iter) {
				if tt.At(2).Type() != types.Typ[types.Invalid] {
					a.materialize(t.o, t.path+"[v]", tt.At(2).Type())
				}
				a.copyTree(pval{c, x}, "#1", t.o, t.path+"[k]")
				a.copyTree(pval{c, x}, "#2", t.o, t.path+"[v]")
			}
		}
	case *ssa.Return:
		// handled by the caller through result nodes
		for i, r := range x.Results {
			a.node(c, r)
			pre := ""
			if len(x.Results) > 1 {
				pre = fmt.Sprintf("#%d", i)
			}
			if _, gated := gateBlocks(c.fn)[x.Block()]; gated && isPtrLike(r.Type()) {
				for _, t := range a.targets(c, r) {
					a.add(pnode{retOwner{c}, pre}, a.exclusive(c, x.Block(), pnode{}, t))
				}
				continue
			}
			a.copyTree(retOwner{c}, pre, a.node(c, r).owner, "")
		}
	case *ssa.Call:
		a.call(c, in, &x.Call, x)
	case *ssa.Defer:
		a.call(c, in, &x.Call, nil)
	case *ssa.Go:
		a.call(c, in, &x.Call, nil)
	}
}

type retOwner struct{ c *pctx }

func isUnsafe(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.UnsafePointer
}

func (a *pta) bind(c *pctx, in ssa.Instruction, f *ssa.Function, args []ssa.Value, res ssa.Value, clo *pobj) {
	k := a.kid(c, in, f)
	for i, prm := range f.Params {
		if i < len(args) {
			a.node(c, args[i])
			a.copyTree(pval{k, prm}, "", a.node(c, args[i]).owner, "")
		}
	}
	if clo != nil {
		for i, fv := range f.FreeVars {
			a.copyTree(pval{k, fv}, "", clo, fmt.Sprintf("^%d", i))
		}
	}
	if res != nil {
		a.copyTree(pval{c, res}, "", retOwner{k}, "")
	}
}

func (a *pta) call(c *pctx, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		a.builtin(c, in, cc, b.Name(), res)
		return
	}
	if cc.IsInvoke() {
		for _, m := range a.p.implementers(cc) {
			if a.inline(m) {
				a.bind(c, in, m, append([]ssa.Value{cc.Value}, cc.Args...), res, nil)
			}
		}
		a.extern(c, in, cc, res)
		return
	}
	if f := cc.StaticCallee(); f != nil {
		if mk, ok := cc.Value.(*ssa.MakeClosure); ok {
			for t := range a.val(c, mk) {
				if t.o.kind == "closure" {
					a.bind(c, in, f, cc.Args, res, t.o)
				}
			}
			return
		}
		if a.inline(f) {
			a.bind(c, in, f, cc.Args, res, nil)
			return
		}
		a.extern(c, in, cc, res)
		return
	}
	ext := true
	for _, t := range a.targets(c, cc.Value) {
		switch t.o.kind {
		case "closure":
			a.bind(c, in, t.o.clo.Fn.(*ssa.Function), cc.Args, res, t.o)
			ext = false
		case "func":
			if a.inline(t.o.fn) {
				a.bind(c, in, t.o.fn, cc.Args, res, nil)
				ext = false
			}
		}
	}
	if ext {
		a.extern(c, in, cc, res)
	}
}

func (a *pta) builtin(c *pctx, in ssa.Instruction, cc *ssa.CallCommon, name string, res ssa.Value) {
	switch name {
	case "append":
		if res == nil {
			return
		}
		sl, _ := res.Type().Underlying().(*types.Slice)
		nonEmptyAdd := true
		if k, ok := cc.Args[1].(*ssa.Const); ok && k.IsNil() {
			nonEmptyAdd = false
		}
		o := a.obj(fmt.Sprintf("append %d %s.%s", c.id, c.fn.String(), res.Name()), "alloc", res.Type())
		o.site = in
		a.cp(c, res, cc.Args[0])
		a.add(a.node(c, res), ptgt{o, "[]"})
		// elements
		for _, t := range a.targets(c, cc.Args[0]) {
			if sl != nil {
				a.materialize(t.o, t.path, sl.Elem())
			}
			a.copyTree(o, "[]", t.o, t.path)
			if nonEmptyAdd && !fullSliced(cc.Args[0]) {
				a.write("append", in, c, t)
			}
		}
		for _, t := range a.targets(c, cc.Args[1]) {
			if sl != nil {
				a.materialize(t.o, t.path, sl.Elem())
			}
			a.copyTree(o, "[]", t.o, t.path)
			for _, d := range a.targets(c, cc.Args[0]) {
				a.copyTree(d.o, d.path, t.o, t.path)
			}
		}
	case "copy":
		for _, d := range a.targets(c, cc.Args[0]) {
			for _, t := range a.targets(c, cc.Args[1]) {
				a.copyTree(d.o, d.path, t.o, t.path)
			}
			a.write("copy", in, c, d)
		}
	case "clear":
		for _, d := range a.targets(c, cc.Args[0]) {
			a.write("clear", in, c, d)
		}
	case "delete":
		for _, d := range a.targets(c, cc.Args[0]) {
			a.write("map", in, c, ptgt{d.o, d.path + "[v]"})
		}
	case "String", "StringData", "SliceData", "Slice", "Add": // unsafe
		if res != nil {
			for _, g := range cc.Args {
				if isPtrLike(g.Type()) {
					for _, t := range a.targets(c, g) {
						a.add(a.node(c, res), t)
					}
				}
			}
		}
	}
}

// fullSliced: the slice expression limits capacity to its length, so appends never write in place
func fullSliced(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	return ok && s.Max != nil && s.High == s.Max
}

// argument positions that an external function writes through
func externWrites(name string, nargs int) []int {
	switch {
	case strings.HasPrefix(name, "sort."):
		return []int{0}
	case name == "io.ReadFull" || name == "io.ReadAtLeast":
		return []int{1}
	case strings.HasSuffix(name, ").Read"):
		return []int{1}
	case name == "crypto/rand.Read" || name == "math/rand.Read" || name == "math/rand/v2.Read":
		return []int{0}
	case strings.Contains(name, ".PutUint") || strings.Contains(name, ".PutUvarint"):
		return []int{nargs - 2}
	case strings.HasPrefix(name, "image/draw.Draw"):
		return []int{0}
	}
	return nil
}

func (a *pta) extern(c *pctx, in ssa.Instruction, cc *ssa.CallCommon, res ssa.Value) {
	name := extName(cc)
	if cc.IsInvoke() && cc.Method.Name() == "Read" && len(cc.Args) == 1 {
		for _, t := range a.targets(c, cc.Args[0]) {
			a.write("extern", in, c, t)
		}
	}
	for _, i := range externWrites(name, len(cc.Args)) {
		if i >= 0 && i < len(cc.Args) {
			for _, t := range a.targets(c, cc.Args[i]) {
				a.write("extern", in, c, t)
			}
		}
	}
	if res == nil {
		return
	}
	// results: fresh external memory, or something derived from the arguments
	o := a.obj(fmt.Sprintf("extern %d %s.%s", c.id, c.fn.String(), res.Name()), "extern", res.Type())
	o.site = in
	derive := externDerives(name)
	put := func(path string, t types.Type) {
		leaves(t, path, func(lp string, lt types.Type, st types.Type, fld int) {
			a.add(pnode{pval{c, res}, lp}, ptgt{o, basePath(lt)})
			if derive {
				for _, g := range cc.Args {
					for _, tg := range a.targets(c, g) {
						a.add(pnode{pval{c, res}, lp}, tg)
					}
				}
			}
		})
	}
	if tt, ok := res.Type().(*types.Tuple); ok {
		for i := 0; i < tt.Len(); i++ {
			put(fmt.Sprintf("#%d", i), tt.At(i).Type())
		}
	} else {
		put("", res.Type())
	}
}

func externDerives(name string) bool {
	switch {
	case strings.HasPrefix(name, "bytes.Trim"), strings.HasPrefix(name, "bytes.Split"), strings.HasPrefix(name, "bytes.Fields"):
		return true
	case strings.Contains(name, "SubImage"):
		return true
	case strings.HasPrefix(name, "encoding/binary.Append") || strings.Contains(name, "AppendUint"):
		return true
	case strings.HasPrefix(name, "strconv.Append"), strings.HasPrefix(name, "fmt.Append"):
		return true
	}
	return false
}

// pathTo describes how a context was reached.
func (c *pctx) chain(p *Prog) string {
	var out []string
	for q := c; q != nil; q = q.parent {
		out = append([]string{p.fname(q.fn)}, out...)
	}
	return strings.Join(out, " -> ")
}
