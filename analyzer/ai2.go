package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errDummy types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(token.NoPos, nil, "anyError", nil), types.NewStruct(nil, nil), nil))

func (e *Engine) errVal(what string) IfaceV {
	return IfaceV{typ: errDummy, v: StrV{key: what, len: e.c(1)}}
}

func (e *Engine) newErr(st *State, c *callInfo) IfaceV {
	msg := ""
	if len(c.args) > 0 {
		if s, ok := c.args[0].(StrV); ok && s.isConst {
			msg = s.s
		}
	}
	return IfaceV{typ: errDummy, v: StrV{key: "error:" + msg, s: msg, len: e.c(1)}}
}

func (e *Engine) instr(fn *ssa.Function, it *item, in ssa.Instruction) {
	st := it.st
	e.cur = it
	if e.OnInstr != nil && e.quiet == 0 {
		e.OnInstr(in)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		n := x.Comment
		if n == "" {
			n = "new"
		}
		o := e.newObj(n, "alloc", t)
		o.site = x
		it.env[x] = PtrV{o: o}
	case *ssa.BinOp:
		it.env[x] = e.binop(it, x)
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			it.env[x] = e.load(st, e.val(it, x.X), x.Type(), x)
		case token.NOT:
			it.env[x] = fNot(e.form(it, x.X))
		case token.SUB:
			if _, _, ok := intRange(x.Type()); ok {
				it.env[x] = e.fit(st, e.A.neg(e.lin(it, x.X)), x.Type(), x, "negation")
			} else {
				it.env[x] = e.freshVal(x.Type(), "neg")
			}
		case token.XOR:
			_, hi, _ := intRange(x.Type())
			_, signed := intBits(x.Type())
			l := e.lin(it, x.X)
			if signed {
				it.env[x] = e.A.addc(e.A.neg(l), -1)
			} else if hi < infNum {
				it.env[x] = e.A.addc(e.A.neg(l), hi)
			} else {
				it.env[x] = e.fn("not", 0, infNum, l)
			}
		default:
			it.env[x] = e.freshVal(x.Type(), "unop")
		}
	case *ssa.Convert:
		it.env[x] = e.convert(it, x, x.X, x.Type())
	case *ssa.MultiConvert:
		it.env[x] = e.convert(it, x, x.X, x.Type())
	case *ssa.ChangeType:
		v := e.val(it, x.X)
		if sv, ok := v.(StructV); ok {
			sv.typ = x.Type()
			v = sv
		}
		it.env[x] = v
	case *ssa.ChangeInterface:
		it.env[x] = e.val(it, x.X)
	case *ssa.MakeInterface:
		it.env[x] = IfaceV{typ: x.X.Type(), v: e.val(it, x.X)}
	case *ssa.MakeClosure:
		f := FuncV{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			f.binds = append(f.binds, e.val(it, b))
		}
		it.env[x] = f
	case *ssa.MakeMap:
		it.env[x] = MapV{o: e.newObj("map", "alloc", x.Type())}
	case *ssa.MakeSlice:
		n, c := e.lin(it, x.Len), e.lin(it, x.Cap)
		if !st.f.proveGE(e.A, n) {
			e.raise(st, x, "negative length", n.String())
			st.f.addGE(e.A, n)
		}
		if !st.f.proveGE(e.A, e.A.sub(c, n)) {
			e.raise(st, x, "capacity below length", "")
			st.f.addGE(e.A, e.A.sub(c, n))
		}
		o := e.newObj("make", "alloc", x.Type().Underlying().(*types.Slice).Elem())
		o.site = x
		it.env[x] = SliceV{o: o, off: e.c(0), len: n, cap: c}
	case *ssa.Slice:
		it.env[x] = e.slice(it, x)
	case *ssa.FieldAddr:
		su := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		name := "." + su.Field(x.Field).Name()
		switch p := e.val(it, x.X).(type) {
		case PtrV:
			it.env[x] = PtrV{o: p.o, skel: p.skel + name, idx: p.idx}
		default:
			if _, isNil := p.(NilV); isNil {
				e.raise(st, x, "nil dereference", "")
				st.f.dead = true
			}
			it.env[x] = PtrV{o: e.newObj("unknown", "sym", x.X.Type().Underlying().(*types.Pointer).Elem()), skel: name}
		}
	case *ssa.Field:
		if sv, ok := e.val(it, x.X).(StructV); ok && x.Field < len(sv.fields) {
			it.env[x] = sv.fields[x.Field]
		} else {
			it.env[x] = e.freshVal(x.Type(), "field")
		}
	case *ssa.IndexAddr:
		i := e.lin(it, x.Index)
		switch p := e.val(it, x.X).(type) {
		case SliceV:
			e.boundsCheck(st, x, i, p.len)
			it.env[x] = PtrV{o: p.o, skel: p.skel + "[]", idx: append(append([]*Lin{}, p.idx...), e.A.add(p.off, i))}
		case PtrV:
			n := int64(0)
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				if at, ok := isArrayT(pt.Elem()); ok {
					n = at.Len()
				}
			}
			e.boundsCheck(st, x, i, e.c(n))
			it.env[x] = PtrV{o: p.o, skel: p.skel + "[]", idx: append(append([]*Lin{}, p.idx...), i)}
		default:
			it.env[x] = e.freshVal(x.Type(), "idx")
		}
	case *ssa.Index:
		i := e.lin(it, x.Index)
		switch p := e.val(it, x.X).(type) {
		case StructV:
			e.boundsCheck(st, x, i, e.c(int64(len(p.fields))))
			if k, ok := e.normLinTop(st, i).isConst(); ok && k >= 0 && k < int64(len(p.fields)) {
				it.env[x] = p.fields[k]
				return
			}
		case StrV:
			e.boundsCheck(st, x, i, p.len)
			it.env[x] = e.strIndex(st, p, i)
			return
		}
		it.env[x] = e.freshVal(x.Type(), "idx")
	case *ssa.Lookup:
		switch p := e.val(it, x.X).(type) {
		case StrV:
			i := e.lin(it, x.Index)
			e.boundsCheck(st, x, i, p.len)
			it.env[x] = e.strIndex(st, p, i)
		case MapV:
			vt := x.X.Type().Underlying().(*types.Map).Elem()
			f, v := e.mapLookup(st, p, e.val(it, x.Index), vt)
			if x.CommaOk {
				it.env[x] = TupleV{v, f}
			} else {
				if b, k := e.decide(st, f); k {
					if !b {
						v = e.zeroVal(vt)
					}
				} else {
					v = e.symVal(vt, "orzero:"+valKey(v), nil, nil)
				}
				it.env[x] = v
			}
		default:
			it.env[x] = e.freshVal(x.Type(), "lookup")
		}
	case *ssa.MapUpdate:
		if m, ok := e.val(it, x.Map).(MapV); ok {
			if m.isNil {
				e.raise(st, x, "assignment to nil map", "")
				st.f.dead = true
				return
			}
			if m.o.kind != "alloc" {
				nf := e.isNilForm(m)
				if v, k := e.decide(st, nf); !k || v {
					_ = v // possibly nil map fields are judged by the checks that care
				}
			}
			e.mapUpdate(st, m, e.val(it, x.Key), e.val(it, x.Value), false, x.Map.Type().Underlying().(*types.Map).Elem())
			st.log(mapEv{in: x, m: m, key: e.val(it, x.Key), val: e.val(it, x.Value)})
		}
	case *ssa.Range:
		iv := iterV{m: e.val(it, x.X)}
		if m, ok := iv.m.(MapV); ok && !m.isNil {
			iv.pos, iv.n = e.newObj("iteration", "alloc", types.Typ[types.Int]), e.mapLen(st, m)
			e.writeCell(st, iv.pos, "", nil, types.Typ[types.Int], e.c(0))
			if e.ExactSlices {
				iv.entries, iv.exact = e.mapEntries(st, m)
			}
		}
		if s, ok := iv.m.(StrV); ok && s.isConst && e.ExactSlices {
			iv.pos = e.newObj("iteration", "alloc", types.Typ[types.Int])
			e.writeCell(st, iv.pos, "", nil, types.Typ[types.Int], e.c(0))
			for i, r := range s.s {
				iv.entries = append(iv.entries, mapEntry{key: e.c(int64(i)), val: e.c(int64(r))})
			}
			iv.exact = true
		}
		it.env[x] = iv
	case *ssa.Extract:
		if tv, ok := e.val(it, x.Tuple).(TupleV); ok && x.Index < len(tv) {
			it.env[x] = tv[x.Index]
		} else {
			it.env[x] = e.freshVal(x.Type(), "extract")
		}
	case *ssa.Store:
		v := e.val(it, x.Val)
		switch p := e.val(it, x.Addr).(type) {
		case PtrV:
			if e.OnStore != nil && e.quiet == 0 {
				e.OnStore(e, st, x, p, v)
			}
			if e.LogStores && (p.o.kind == "cat" || p.o.kind == "seq" || p.o.kind == "alt") {
				st.log(storeEv{x, p, v})
				break
			}
			e.writeCell(st, p.o, p.skel, p.idx, x.Val.Type(), v)
		case NilV:
			e.raise(st, x, "nil dereference", "")
			st.f.dead = true
		}
	case *ssa.SliceToArrayPointer:
		it.env[x] = e.freshVal(x.Type(), "arrptr")
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		if v, ok := in.(ssa.Value); ok {
			it.env[v] = e.freshVal(v.Type(), "chan")
		}
	default:
		if v, ok := in.(ssa.Value); ok {
			it.env[v] = e.freshVal(v.Type(), fmt.Sprintf("%T", in))
		}
	}
}

type mapEv struct {
	in       ssa.Instruction
	m        MapV
	key, val Val
	del      bool
}

func (e *Engine) boundsCheck(st *State, in ssa.Instruction, i, n *Lin) {
	if !st.f.proveGE(e.A, i) {
		e.require(st, in, i, "index out of range", fmt.Sprintf("index %s may be negative", i))
	}
	d := e.A.addc(e.A.sub(n, i), -1)
	if !st.f.proveGE(e.A, d) {
		e.require(st, in, d, "index out of range", fmt.Sprintf("index %s, length %s", i, n))
	}
}

func (e *Engine) require(st *State, in ssa.Instruction, l *Lin, kind, detail string) {
	if !st.f.proveGE(e.A, l) {
		if e.quiet == 0 && e.OnPanic != nil && !st.f.dead {
			// the state of the failing execution
			s2 := st.clone()
			s2.f.addGE(e.A, e.A.addc(e.A.neg(l), -1))
			e.raise(s2, in, kind, detail)
		}
		st.f.addGE(e.A, l)
	}
}

func (e *Engine) slice(it *item, x *ssa.Slice) Val {
	st := it.st
	get := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		return e.lin(it, v)
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = e.c(0)
	}
	switch p := e.val(it, x.X).(type) {
	case SliceV:
		cp := p.cap
		if hi == nil {
			hi = p.len
		} else {
			e.require(st, x, e.A.sub(p.cap, hi), "slice bounds out of range", fmt.Sprintf("end %s, capacity of %s", hi, p.o.name))
		}
		if mx != nil {
			e.require(st, x, e.A.sub(p.cap, mx), "slice bounds out of range", "max")
			e.require(st, x, e.A.sub(mx, hi), "slice bounds out of range", "max")
			cp = mx
		}
		e.require(st, x, lo, "slice bounds out of range", fmt.Sprintf("start %s may be negative", lo))
		e.require(st, x, e.A.sub(hi, lo), "slice bounds out of range", fmt.Sprintf("start %s, end %s", lo, hi))
		if p.isNil {
			return p
		}
		return SliceV{o: p.o, skel: p.skel, idx: p.idx, off: e.A.add(p.off, lo), len: e.A.sub(hi, lo), cap: e.A.sub(cp, lo)}
	case StrV:
		if hi == nil {
			hi = p.len
		} else {
			e.require(st, x, e.A.sub(p.len, hi), "slice bounds out of range", fmt.Sprintf("end %s of string", hi))
		}
		e.require(st, x, lo, "slice bounds out of range", "")
		e.require(st, x, e.A.sub(hi, lo), "slice bounds out of range", fmt.Sprintf("start %s, end %s", lo, hi))
		kl, ok1 := e.normLinTop(st, lo).isConst()
		kh, ok2 := e.normLinTop(st, hi).isConst()
		if p.isConst && ok1 && ok2 && kl >= 0 && kh >= kl && kh <= int64(len(p.s)) {
			return StrV{isConst: true, s: p.s[kl:kh], len: e.c(kh - kl)}
		}
		n := e.A.sub(hi, lo)
		out := StrV{key: "sub(" + valKey(p) + "," + e.normLin(st, lo).key + "," + e.normLin(st, n).key + ")", len: n}
		if p.sl != nil {
			sl := *p.sl
			sl.off = e.A.add(sl.off, lo)
			sl.len = n
			out.sl = &sl
			out.reg = p.reg
			out.key = e.viewKey(st, sl, p.reg)
		}
		return out
	case PtrV:
		n := e.c(0)
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := isArrayT(pt.Elem()); ok {
				n = e.c(at.Len())
			}
		}
		if hi == nil {
			hi = n
		}
		e.require(st, x, e.A.sub(n, hi), "slice bounds out of range", "")
		e.require(st, x, e.A.sub(hi, lo), "slice bounds out of range", "")
		e.require(st, x, lo, "slice bounds out of range", "")
		return SliceV{o: p.o, skel: p.skel, idx: p.idx, off: lo, len: e.A.sub(hi, lo), cap: e.A.sub(n, lo)}
	}
	return e.freshVal(x.Type(), "slice")
}

func (e *Engine) viewKey(st *State, s SliceV, r *region) string {
	base := ""
	if r != nil {
		base = fmt.Sprintf("%s/%d", r.base.name, r.depth)
		if r.depth > 0 {
			base = fmt.Sprintf("%s/%p", r.base.name, r)
		}
	}
	if s.o.kind == "cat" {
		base = fmt.Sprintf("cat~%d", s.o.id)
	}
	var ix []*Lin
	for _, l := range s.idx {
		ix = append(ix, e.normLin(st, l))
	}
	return fmt.Sprintf("%s%s[%s:+%s]", base, linsKey(ix), e.normLin(st, s.off).key, e.normLin(st, s.len).key)
}

func (e *Engine) bytesToStr(st *State, s SliceV) StrV {
	if k, ok := s.len.isConst(); ok && k == 0 {
		return StrV{isConst: true, len: e.c(0)}
	}
	r := e.regionOf(st, s.o, s.skel+"[]", types.Typ[types.Uint8])
	v := s
	return StrV{key: e.viewKey(st, s, r), len: s.len, sl: &v, reg: r}
}

func (e *Engine) convert(it *item, in ssa.Instruction, xv ssa.Value, t types.Type) Val {
	st := it.st
	v := e.val(it, xv)
	if l, ok := v.(*Lin); ok {
		if _, _, isInt := intRange(t); isInt {
			return e.fit(st, l, t, in, "conversion")
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return StrV{key: "string(" + l.key + ")", len: e.A.of(e.A.mk("var", "runelen("+l.key+")", 1, 4))}
		}
		return e.freshVal(t, "conv")
	}
	switch x := v.(type) {
	case SliceV:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if es, ok := xv.Type().Underlying().(*types.Slice); ok && isByte(es.Elem()) {
				return e.bytesToStr(st, x)
			}
			return e.freshVal(t, "str")
		}
		return x
	case StrV:
		if sl, ok := t.Underlying().(*types.Slice); ok {
			if isByte(sl.Elem()) {
				o := e.newObj("bytes", "cat", sl.Elem())
				o.parent = &SliceV{o: e.symObj("nil slice", sl.Elem()), off: e.c(0), len: e.c(0), cap: e.c(0), isNil: true}
				s := x
				o.items = []catItem{{str: &s}}
				return SliceV{o: o, off: e.c(0), len: x.len, cap: x.len}
			}
			return e.freshVal(t, "runes")
		}
		return x
	}
	if _, ok := t.Underlying().(*types.Pointer); ok {
		return v
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return v
	}
	return e.freshVal(t, "conv")
}

func (e *Engine) binop(it *item, x *ssa.BinOp) Val {
	a, b := e.val(it, x.X), e.val(it, x.Y)
	switch x.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return e.cmp(it.st, x.Op, a, b)
	}
	if la, ok := a.(*Lin); ok {
		if lb, ok := b.(*Lin); ok {
			return e.arith(it.st, x.Op, la, lb, x.Type(), x)
		}
	}
	if sa, ok := a.(StrV); ok && x.Op == token.ADD {
		if sb, ok := b.(StrV); ok {
			if sa.isConst && sb.isConst {
				return StrV{isConst: true, s: sa.s + sb.s, len: e.c(int64(len(sa.s) + len(sb.s)))}
			}
			return StrV{key: "concat(" + valKey(sa) + "," + valKey(sb) + ")", len: e.A.add(sa.len, sb.len)}
		}
	}
	if fa, ok := a.(*Form); ok {
		if fb, ok := b.(*Form); ok {
			switch x.Op {
			case token.AND:
				return &Form{op: "and", x: fa, y: fb}
			case token.OR:
				return &Form{op: "or", x: fa, y: fb}
			}
		}
	}
	return e.freshVal(x.Type(), "binop")
}

// ---- appends ----

func (e *Engine) appendTo(st *State, s SliceV, items []catItem, elem types.Type) SliceV {
	n := s.len
	for _, it := range items {
		switch {
		case it.sl != nil:
			n = e.A.add(n, it.sl.len)
		case it.str != nil:
			n = e.A.add(n, it.str.len)
		default:
			n = e.A.addc(n, 1)
		}
	}
	if len(items) == 0 {
		return s
	}
	o := e.newObj("append", "cat", elem)
	p := s
	o.parent = &p
	o.items = items
	o.full = n
	return SliceV{o: o, off: e.c(0), len: n, cap: e.A.add(n, e.A.of(e.A.mk("var", fmt.Sprintf("spare(%d)", o.id), 0, infNum)))}
}

func (e *Engine) spreadItems(st *State, v Val, elem types.Type) []catItem {
	switch x := v.(type) {
	case SliceV:
		if x.isNil {
			return nil
		}
		if k, ok := e.normLinTop(st, x.len).isConst(); ok {
			if k == 0 {
				return nil
			}
			if k <= 12 && x.o.kind == "alloc" {
				var out []catItem
				for i := int64(0); i < k; i++ {
					idx := append(append([]*Lin{}, x.idx...), e.A.addc(x.off, i))
					out = append(out, catItem{val: e.readCell(st, x.o, x.skel+"[]", idx, elem)})
				}
				return out
			}
		}
		s := x
		return []catItem{{sl: &s}}
	case StrV:
		if x.isConst && x.s == "" {
			return nil
		}
		s := x
		return []catItem{{str: &s}}
	}
	f := e.freshVal(types.NewSlice(elem), "spread").(SliceV)
	return []catItem{{sl: &f}}
}

// known returns the length and capacity of a slice of memory known element by element
func (e *Engine) knownSlice(st *State, s SliceV, limit int64) (n, c int64, ok bool) {
	if s.isNil {
		return 0, 0, true
	}
	n, ok1 := e.normLinTop(st, s.len).isConst()
	c, ok2 := e.normLinTop(st, s.cap).isConst()
	return n, c, ok1 && ok2 && n <= limit && s.o != nil && s.o.kind == "alloc"
}

func (e *Engine) sliceElem(st *State, s SliceV, i int64, t types.Type) Val {
	return e.readCell(st, s.o, s.skel+"[]", append(append([]*Lin{}, s.idx...), e.normLinTop(st, e.A.addc(s.off, i))), t)
}

func (e *Engine) setSliceElem(st *State, s SliceV, i int64, t types.Type, v Val) {
	e.writeCell(st, s.o, s.skel+"[]", append(append([]*Lin{}, s.idx...), e.normLinTop(st, e.A.addc(s.off, i))), t, v)
}

// exactAppend appends to memory known element by element; slices that grow are moved and get no spare capacity
func (e *Engine) exactAppend(st *State, args []Val, t types.Type) (Val, bool) {
	s, ok := args[0].(SliceV)
	if !ok || len(args) != 2 {
		return nil, false
	}
	x, ok := args[1].(SliceV)
	if !ok {
		return nil, false
	}
	n, c, ok1 := e.knownSlice(st, s, 64)
	k, _, ok2 := e.knownSlice(st, x, 64)
	if !ok1 || !ok2 {
		return nil, false
	}
	if k == 0 {
		return s, true
	}
	var vs []Val
	for i := int64(0); i < k; i++ {
		vs = append(vs, e.sliceElem(st, x, i, t))
	}
	if n+k <= c {
		for i, v := range vs {
			e.setSliceElem(st, s, n+int64(i), t, v)
		}
		s.len = e.c(n + k)
		return s, true
	}
	d := SliceV{o: e.newObj("append", "alloc", t), off: e.c(0), len: e.c(n + k), cap: e.c(n + k)}
	for i := int64(0); i < n; i++ {
		e.setSliceElem(st, d, i, t, e.sliceElem(st, s, i, t))
	}
	for i, v := range vs {
		e.setSliceElem(st, d, n+int64(i), t, v)
	}
	return d, true
}

func (e *Engine) exactCopy(st *State, c *callInfo) (Val, bool) {
	d, ok1 := c.args[0].(SliceV)
	s, ok2 := c.args[1].(SliceV)
	if !ok1 || !ok2 {
		return nil, false
	}
	n, _, ok1 := e.knownSlice(st, d, 4096)
	k, _, ok2 := e.knownSlice(st, s, 4096)
	if !ok1 || !ok2 {
		return nil, false
	}
	n = min(n, k)
	t := c.cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	var vs []Val
	for i := int64(0); i < n; i++ {
		vs = append(vs, e.sliceElem(st, s, i, t))
	}
	for i, v := range vs {
		e.setSliceElem(st, d, int64(i), t, v)
	}
	return e.c(n), true
}

func (e *Engine) builtin(st *State, c *callInfo, name string) []callOut {
	one := func(v Val) []callOut { return []callOut{{st: st, val: v}} }
	switch name {
	case "len", "cap":
		switch x := c.args[0].(type) {
		case SliceV:
			if name == "cap" {
				return one(x.cap)
			}
			return one(x.len)
		case StrV:
			return one(x.len)
		case MapV:
			return one(e.mapLen(st, x))
		case StructV:
			return one(e.c(int64(len(x.fields))))
		}
		t := c.cc.Args[0].Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		if a, ok := t.(*types.Array); ok {
			return one(e.c(a.Len()))
		}
		return one(e.A.of(e.A.fresh("len", 0, infNum)))
	case "append":
		elem := c.cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		if e.ExactSlices {
			if v, ok := e.exactAppend(st, c.args, elem); ok {
				return one(v)
			}
		}
		s, ok := c.args[0].(SliceV)
		if !ok {
			return one(e.freshVal(c.cc.Args[0].Type(), "append"))
		}
		if len(c.args) < 2 {
			return one(s)
		}
		return one(e.appendTo(st, s, e.spreadItems(st, c.args[1], elem), elem))
	case "copy":
		if e.ExactSlices {
			if v, ok := e.exactCopy(st, c); ok {
				return one(v)
			}
		}
		d, ok := c.args[0].(SliceV)
		var sn *Lin
		var src SliceV
		isSl := false
		switch x := c.args[1].(type) {
		case SliceV:
			sn, src, isSl = x.len, x, true
		case StrV:
			sn = x.len
			if x.sl != nil {
				src, isSl = *x.sl, true
			}
		}
		if !ok || sn == nil {
			return one(e.A.of(e.A.fresh("copied", 0, infNum)))
		}
		var n *Lin
		switch {
		case st.f.proveGE(e.A, e.A.sub(sn, d.len)):
			n = d.len
		case st.f.proveGE(e.A, e.A.sub(d.len, sn)):
			n = sn
		default:
			n = e.A.of(e.A.fresh("copied", 0, infNum))
			st.f.addGE(e.A, e.A.sub(sn, n))
			st.f.addGE(e.A, e.A.sub(d.len, n))
		}
		if d.isNil {
			return one(e.c(0))
		}
		elem := c.cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		_, isS := isStructT(elem)
		_, isA := isArrayT(elem)
		if isS || isA {
			if k, known := e.normLinTop(st, n).isConst(); known && k <= 16 && isSl {
				at := func(s SliceV, i int64) []*Lin {
					return append(append([]*Lin{}, s.idx...), e.A.addc(s.off, i))
				}
				var vals []Val
				for i := int64(0); i < k; i++ {
					vals = append(vals, e.readCell(st, src.o, src.skel+"[]", at(src, i), elem))
				}
				for i, v := range vals {
					e.writeCell(st, d.o, d.skel+"[]", at(d, int64(i)), elem, v)
				}
				st.log(copyEv{in: c.in, dst: d, src: c.args[1], n: n})
				return one(n)
			}
			e.havocCell(st, d.o, d.skel+"[]", elem)
			return one(n)
		}
		k := memKey{d.o, d.skel + "[]"}
		r := e.regionOf(st, d.o, d.skel+"[]", elem)
		w := &regWrite{bulk: true, lo: d.off, n: n, soff: e.c(0)}
		if isSl {
			w.sreg = e.regionOf(st, src.o, src.skel+"[]", elem)
			w.spre = src.idx
			w.soff = src.off
		}
		st.mem[k] = &region{base: r.base, prev: r, w: w, depth: r.depth + 1}
		st.log(copyEv{in: c.in, dst: d, src: c.args[1], n: n})
		return one(n)
	case "delete":
		if m, ok := c.args[0].(MapV); ok && !m.isNil {
			vt := c.cc.Args[0].Type().Underlying().(*types.Map).Elem()
			e.mapUpdate(st, m, c.args[1], nil, true, vt)
			st.log(mapEv{in: c.in, m: m, key: c.args[1], del: true})
		}
		return one(TupleV{})
	case "clear":
		switch x := c.args[0].(type) {
		case MapV:
			if !x.isNil {
				e.nver++
				b := e.base(fmt.Sprintf("cleared#%d", e.nver), x.o, "{}", types.Typ[types.Int], "zero")
				st.mem[memKey{x.o, "{}"}] = &region{base: b}
				e.setMapLen(st, x, e.c(0))
			}
		case SliceV:
			if n, ok := x.len.isConst(); ok && n <= 64 {
				et := c.cc.Args[0].Type().Underlying().(*types.Slice).Elem()
				for k := int64(0); k < n; k++ {
					e.writeCell(st, x.o, x.skel+"[]", append(append([]*Lin{}, x.idx...), e.A.addc(x.off, k)), et, e.zeroVal(et))
				}
				break
			}
			e.havocSlice(st, x, nil)
		}
		return one(TupleV{})
	case "min", "max":
		r := c.args[0]
		if e.SplitMinMax && len(c.args) == 2 {
			x, ok1 := c.args[0].(*Lin)
			y, ok2 := c.args[1].(*Lin)
			if ok1 && ok2 {
				d := e.A.sub(y, x)
				if name == "max" {
					d = e.A.neg(d)
				}
				var out []callOut
				for _, s := range e.assume(st.clone(), e.ge(d), true) {
					out = append(out, callOut{st: s, val: x})
				}
				for _, s := range e.assume(st, e.ge(d), false) {
					out = append(out, callOut{st: s, val: y})
				}
				return out
			}
		}
		for _, a := range c.args[1:] {
			x, ok1 := r.(*Lin)
			y, ok2 := a.(*Lin)
			if !ok1 || !ok2 {
				return one(e.freshVal(e.resType(c), name))
			}
			d := e.A.sub(y, x)
			if name == "max" {
				d = e.A.neg(d)
			}
			if st.f.proveGE(e.A, d) {
				continue
			}
			if st.f.proveGE(e.A, e.A.neg(d)) {
				r = y
				continue
			}
			if x.key > y.key {
				x, y = y, x
			}
			xl, xh := st.f.linRange(x)
			yl, yh := st.f.linRange(y)
			lo, hi := min(xl, yl), min(xh, yh)
			if name == "max" {
				lo, hi = max(xl, yl), max(xh, yh)
			}
			gl, gh, _ := intRange(e.resType(c))
			m := e.fn(name, gl, gh, x, y)
			st.f.addGE(e.A, e.A.addc(m, -lo))
			if hi < infNum {
				st.f.addGE(e.A, e.A.addc(e.A.neg(m), hi))
			}
			if name == "min" {
				st.f.addGE(e.A, e.A.sub(x, m))
				st.f.addGE(e.A, e.A.sub(y, m))
			} else {
				st.f.addGE(e.A, e.A.sub(m, x))
				st.f.addGE(e.A, e.A.sub(m, y))
			}
			r = m
		}
		return one(r)
	case "ssa:wrapnilchk":
		return one(c.args[0])
	case "SliceData":
		if s, ok := c.args[0].(SliceV); ok {
			return one(PtrV{o: s.o, skel: s.skel + "[]", idx: append(append([]*Lin{}, s.idx...), s.off)})
		}
	case "StringData":
		if s, ok := c.args[0].(StrV); ok {
			o := e.newObj("bytes", "cat", types.Typ[types.Uint8])
			o.parent = &SliceV{o: e.symObj("nil slice", types.Typ[types.Uint8]), off: e.c(0), len: e.c(0), cap: e.c(0), isNil: true}
			o.items = []catItem{{str: &s}}
			return one(PtrV{o: o, skel: "[]", idx: []*Lin{e.c(0)}})
		}
	case "String", "Slice":
		if p, ok := c.args[0].(PtrV); ok && len(p.idx) > 0 && strings.HasSuffix(p.skel, "[]") {
			n, ok2 := c.args[1].(*Lin)
			if ok2 {
				s := SliceV{o: p.o, skel: strings.TrimSuffix(p.skel, "[]"), idx: p.idx[:len(p.idx)-1], off: p.idx[len(p.idx)-1], len: n, cap: n}
				if name == "String" {
					return one(e.bytesToStr(st, s))
				}
				return one(s)
			}
		}
	case "print", "println":
		return one(TupleV{})
	case "recover":
		return one(IfaceV{isNil: true})
	}
	return one(e.freshVal(e.resType(c), name))
}

type copyEv struct {
	in  ssa.Instruction
	dst SliceV
	src Val
	n   *Lin
}

type callEv struct {
	in   ssa.Instruction
	name string
	args []Val
}

// sortInfo is a call that permutes a slice
type sortInfo struct {
	name  string
	args  []Val
	slice SliceV
	st    *State
	in    ssa.Instruction
}

// ---- library models ----

func (e *Engine) model(st *State, c *callInfo) ([]callOut, bool) {
	one := func(v Val) ([]callOut, bool) { return []callOut{{st: st, val: v}}, true }
	n := c.name
	if i := strings.IndexByte(n, '['); i > 0 {
		n = n[:i]
	}
	switch n {
	case "errors.New", "fmt.Errorf", "errors.Join":
		return one(e.newErr(st, c))
	case "slices.Clone", "bytes.Clone":
		if s, ok := c.args[0].(SliceV); ok {
			if s.isNil {
				return one(s)
			}
			elem := c.cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			nilS := SliceV{o: e.symObj("nil slice", elem), off: e.c(0), len: e.c(0), cap: e.c(0), isNil: true}
			r := e.appendTo(st, nilS, []catItem{{sl: &s}}, elem)
			return one(r)
		}
	case "slices.Grow":
		return one(c.args[0])
	case "slices.Delete":
		s, ok1 := c.args[0].(SliceV)
		i, ok2 := c.args[1].(*Lin)
		j, ok3 := c.args[2].(*Lin)
		if ok1 && ok2 && ok3 {
			e.require(st, c.in, i, "slice bounds out of range", "")
			e.require(st, c.in, e.A.sub(j, i), "slice bounds out of range", "")
			e.require(st, c.in, e.A.sub(s.len, j), "slice bounds out of range", "")
			o := e.newObj("deleted", "del", s.o.typ)
			p := s
			o.parent = &p
			o.items = []catItem{{val: i}, {val: j}}
			nl := e.A.sub(s.len, e.A.sub(j, i))
			return one(SliceV{o: o, off: e.c(0), len: nl, cap: s.cap})
		}
	case "slices.DeleteFunc":
		if s, ok := c.args[0].(SliceV); ok {
			o := e.newObj("filtered", "filter", s.o.typ)
			p := s
			o.parent = &p
			o.items = []catItem{{val: c.args[1]}}
			l := e.A.of(e.A.fresh("len(filtered)", 0, infNum))
			st.f.addGE(e.A, e.A.sub(s.len, l))
			return one(SliceV{o: o, off: e.c(0), len: l, cap: s.cap})
		}
	case "slices.Index", "slices.IndexFunc":
		if s, ok := c.args[0].(SliceV); ok {
			r := e.A.of(e.A.fresh("index", -1, infNum))
			st.f.addGE(e.A, e.A.addc(e.A.sub(s.len, r), -1))
			st.log(callEv{c.in, n, append(append([]Val{}, c.args...), r)})
			return one(r)
		}
	case "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse", "sort.Slice", "sort.Strings", "sort.Ints":
		v := c.args[0]
		if iv, ok := v.(IfaceV); ok {
			v = iv.v
		}
		if s, ok := v.(SliceV); ok && !s.isNil {
			st.log(callEv{c.in, n, c.args})
			if s.o.kind == "cat" || s.o.kind == "seq" || s.o.kind == "alt" {
				// contents permuted: reads must not look through the appends any more
				e.nver++
				reg := fmt.Sprintf("sorted~%d@%d", s.o.id, e.nver)
				if e.sorts == nil {
					e.sorts = map[string]*sortInfo{}
				}
				e.sorts[reg] = &sortInfo{name: n, args: c.args, slice: s, st: st.clone(), in: c.in}
				st.mem[memKey{s.o, s.skel + "[]"}] = &region{base: e.base(reg, e.newObj("sorted", "sym", s.o.typ), s.skel+"[]", s.o.typ, "sym")}
			} else {
				e.havocSlice(st, s, nil)
			}
		}
		return one(TupleV{})
	case "slices.Equal", "bytes.Equal":
		a, ok1 := c.args[0].(SliceV)
		b, ok2 := c.args[1].(SliceV)
		if ok1 && ok2 {
			return one(e.eqBytes(st, c, a, b))
		}
	case "fmt.Sprintf", "strconv.Itoa", "fmt.Sprint", "strconv.FormatInt":
		r := e.freshVal(types.Typ[types.String], n)
		return one(r)
	case "unicode/utf8.ValidString", "unicode/utf8.Valid", "unicode/utf8.ValidRune", "strings.HasPrefix", "strings.HasSuffix", "strings.Contains", "strings.ContainsRune":
		k := n
		for _, a := range c.args {
			k += "," + valKey(a)
		}
		return one(&Form{op: "atom", name: k, vals: c.args})
	case "math/bits.Len", "math/bits.Len8", "math/bits.Len16", "math/bits.Len32", "math/bits.Len64":
		if l, ok := c.args[0].(*Lin); ok {
			return one(e.fn("bitlen", 0, 64, l))
		}
	case "unicode/utf8.RuneLen":
		return one(e.A.of(e.A.fresh("runelen", -1, 4)))
	case "bytes.Compare", "strings.Compare", "cmp.Compare":
		k1, k2 := c.args[0], c.args[1]
		str := func(v Val) Val {
			if s, ok := v.(SliceV); ok {
				return e.bytesToStr(st, s)
			}
			return v
		}
		x, okx := str(k1).(StrV)
		y, oky := str(k2).(StrV)
		if okx && oky && e.StrCmp != nil {
			if l := e.StrCmp(e, st, x, y); l != nil {
				return one(l)
			}
		}
		return one(e.fnv("compare", -1, 1, k1, k2))
	case "sort.Search":
		// the result i satisfies: f(i) or i == n, and not f(i-1) or i == 0
		nn, ok1 := c.args[0].(*Lin)
		fv, ok2 := c.args[1].(FuncV)
		if ok1 && ok2 && fv.fn != nil && fv.fn.Blocks != nil {
			i := e.A.of(e.A.fresh("search", 0, infNum))
			st.f.addGE(e.A, e.A.sub(nn, i))
			try := func(sts []*State, at *Lin, cond *Form, want bool) []*State {
				var out []*State
				for _, s := range sts {
					s2 := s.clone()
					out = append(out, e.assume(s2, cond, true)...)
					for _, s3 := range e.assume(s, cond, false) {
						for _, o := range e.callFn(fv.fn, []Val{at}, fv.binds, s3) {
							f, ok := o.val.(*Form)
							if !ok {
								out = append(out, o.st)
								continue
							}
							sts := []*State{o.st}
							if e.OnCond != nil {
								sts = e.OnCond(e, o.st, f)
							}
							for _, s4 := range sts {
								out = append(out, e.assume(s4, f, want)...)
							}
						}
					}
				}
				return out
			}
			sts := try([]*State{st}, i, e.eq(e.A.sub(nn, i)), true)
			sts = try(sts, e.A.addc(i, -1), e.eq(i), false)
			var outs []callOut
			for _, s := range sts {
				outs = append(outs, callOut{st: s, val: i})
			}
			return outs, true
		}
	}
	return nil, false
}

func (e *Engine) fnv(name string, lo, hi int64, vals ...Val) *Lin {
	k := name
	for _, v := range vals {
		k += "," + valKey(v)
	}
	a := e.A.mk("var", k, lo, hi)
	return e.A.of(a)
}

func (e *Engine) eqBytes(st *State, c *callInfo, a, b SliceV) *Form {
	return e.eqForm(st, e.bytesToStr(st, a), e.bytesToStr(st, b))
}

// ---- loops ----

type loopT struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type fnLoops struct {
	rpo   []*ssa.BasicBlock
	heads map[*ssa.BasicBlock]*loopT
}

func (e *Engine) loops(fn *ssa.Function) *fnLoops {
	if l := e.loopInfos[fn]; l != nil {
		return l
	}
	li := &fnLoops{heads: map[*ssa.BasicBlock]*loopT{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		li.rpo = append(li.rpo, post[i])
	}
	for _, b := range li.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := li.heads[s]
				if l == nil {
					l = &loopT{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.heads[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							up(p)
						}
					}
				}
				up(b)
			}
		}
	}
	e.loopInfos[fn] = li
	return li
}

type lcomp struct {
	v       *lvar
	which   string // "", "off", "len", "cap"
	init    *Lin
	atom    *Atom
	closed  bool
	step    int64
	delayed bool
	lo, hi  int64
}

type lvar struct {
	phi   *ssa.Phi
	key   memKey
	ghost string
	typ   types.Type
	init  Val
	mode  string // "same", "int", "slice", "seq", "havoc", "array", "map"
	comps []*lcomp
	seq   *Obj
}

// storeEv is a write into a slice built by appends
type storeEv struct {
	in ssa.Instruction
	p  PtrV
	v  Val
}

type loopEv struct {
	head *ssa.BasicBlock
	k    *Atom
	alts [][]any
	sts  []*State
}

func (v *lvar) String() string {
	if v.phi != nil {
		return v.phi.Comment + "/" + v.phi.Name()
	}
	if v.ghost != "" {
		return "ghost " + v.ghost
	}
	return v.key.o.name + v.key.skel
}

func compOf(v Val, which string) *Lin {
	switch x := v.(type) {
	case *Lin:
		return x
	case SliceV:
		switch which {
		case "off":
			return x.off
		case "len":
			return x.len
		case "cap":
			return x.cap
		}
	}
	return nil
}

func (e *Engine) lvarBack(b *item, v *lvar) Val {
	if v.phi != nil {
		pi := predIndex(v.phi.Block(), b.pred)
		return e.val(b, v.phi.Edges[pi])
	}
	if v.ghost != "" {
		return b.st.ghosts[v.ghost]
	}
	r := b.st.mem[v.key]
	if r == nil || r.w == nil {
		if r == nil {
			return nil
		}
		return e.readRegion(b.st, r, v.key.o, v.key.skel, nil, v.typ)
	}
	return r.w.val
}

func (e *Engine) initMode(v *lvar) {
	switch x := v.init.(type) {
	case *Lin:
		v.mode = "int"
		lo, hi := -infNum, infNum
		if v.typ != nil {
			if a, b, ok := intRange(v.typ); ok {
				lo, hi = a, b
			}
		}
		v.comps = []*lcomp{{v: v, init: x, lo: lo, hi: hi}}
	default:
		v.mode = "same"
	}
}

func (e *Engine) setComps(v *lvar, mode string) {
	v.mode = mode
	v.comps = nil
	s, ok := v.init.(SliceV)
	if !ok {
		return
	}
	if mode == "slice" {
		for _, w := range []string{"off", "len", "cap"} {
			v.comps = append(v.comps, &lcomp{v: v, which: w, init: compOf(s, w), lo: 0, hi: infNum})
		}
	}
	if mode == "seq" {
		v.comps = append(v.comps, &lcomp{v: v, which: "len", init: s.len, lo: 0, hi: infNum})
	}
}

// headItem builds the state at the loop head for given values of the integer components.
func (e *Engine) headItem(it *item, head *ssa.BasicBlock, vars []*lvar, vals map[*lcomp]*Lin, li *loopInfo) *item {
	n := it.fork(it.st.clone())
	n.st.trace = nil
	n.pred = nil
	for _, v := range vars {
		var hv Val
		switch v.mode {
		case "same":
			hv = v.init
		case "int":
			hv = vals[v.comps[0]]
		case "slice":
			s := v.init.(SliceV)
			s.off, s.len, s.cap = vals[v.comps[0]], vals[v.comps[1]], vals[v.comps[2]]
			s.isNil = false
			hv = s
		case "seq":
			s := v.init.(SliceV)
			o := e.newObj("seq "+v.String(), "seq", s.o.typ)
			o.init = &s
			o.loop = li
			v.seq = o
			l := vals[v.comps[0]]
			o.full = l
			hv = SliceV{o: o, off: e.c(0), len: l, cap: e.A.add(l, e.A.of(e.A.mk("var", fmt.Sprintf("spare(%d)", o.id), 0, infNum)))}
		case "havoc":
			hv = e.freshVal(v.typ, "loop "+v.String())
		case "array":
			e.nver++
			b := e.base(fmt.Sprintf("%s~%d%s@%d", v.key.o.name, v.key.o.id, v.key.skel, e.nver), v.key.o, v.key.skel, v.typ, "sym")
			b.loop = li
			n.st.mem[v.key] = &region{base: b}
			continue
		}
		if v.phi != nil {
			n.env[v.phi] = hv
		} else if v.ghost != "" {
			if l, ok := hv.(*Lin); ok {
				n.st.setGhost(v.ghost, l)
			}
		} else {
			b := e.base(fmt.Sprintf("cell %s~%d%s", v.key.o.name, v.key.o.id, v.key.skel), v.key.o, v.key.skel, v.typ, "sym")
			n.st.mem[v.key] = &region{base: b, prev: &region{base: b}, w: &regWrite{val: hv}, depth: 1}
		}
	}
	if e.LoopInv != nil && e.LoopInv.holds(it.st) {
		e.LoopInv.assume(n.st)
	}
	return n
}

// unrollLoop interprets the iterations one by one (loops with a bound known from the facts).
func (e *Engine) unrollLoop(fn *ssa.Function, l *loopT, it *item, ret func(*item, ssa.Instruction, Val), n int) []*item {
	var out []*item
	items := []*item{it}
	for i := 0; len(items) > 0; i++ {
		if i > n {
			panic(undecided("unbounded loop in " + fn.String() + " at " + e.p.instrPos(l.head.Instrs[0])))
		}
		var next []*item
		for _, x := range items {
			exits, backs := e.runRegion(fn, l.blocks, l.head, []*item{x}, ret)
			out = append(out, exits...)
			for _, b := range backs {
				if !b.st.f.dead {
					e.phis(b, l.head)
					next = append(next, b)
				}
			}
		}
		items = next
	}
	return out
}

func (e *Engine) runLoop(fn *ssa.Function, l *loopT, it *item, ret func(*item, ssa.Instruction, Val)) []*item {
	if e.Unroll != nil {
		if n := e.Unroll(fn, l.head); n > 0 {
			return e.unrollLoop(fn, l, it, ret, n)
		}
	}
	startObj := e.nobj
	var vars []*lvar
	for _, in := range l.head.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		v := &lvar{phi: ph, typ: ph.Type(), init: it.env[ph]}
		e.initMode(v)
		vars = append(vars, v)
	}
	k := e.A.fresh("k", 0, infNum)
	li := &loopInfo{k: k, head: l.head, name: fn.Name()}
	freshVals := func() map[*lcomp]*Lin {
		m := map[*lcomp]*Lin{}
		for _, v := range vars {
			for _, c := range v.comps {
				c.atom = e.A.fresh("h:"+v.String()+c.which, c.lo, c.hi)
				m[c] = e.A.of(c.atom)
			}
		}
		return m
	}
	noRet := func(*item, ssa.Instruction, Val) {}
	run := func(h *item, quiet bool) (exits, backs []*item) {
		if quiet {
			e.quiet++
			defer func() { e.quiet-- }()
			return e.runRegion(fn, l.blocks, l.head, []*item{h}, noRet)
		}
		return e.runRegion(fn, l.blocks, l.head, []*item{h}, ret)
	}
	dropExits := func(xs []*item) {
		for _, x := range xs {
			delete(e.exitTo, x)
		}
	}
	var backs []*item
	// discovery of the modified cells and of the shape of the variables
	for round := 0; ; round++ {
		if round > 24 {
			d := ""
			for _, v := range vars {
				d += " " + v.String() + ":" + v.mode
			}
			panic(undecided("loop variables do not stabilise in " + fn.String() + " " + e.p.instrPos(firstPos(l.head)) + d))
		}
		h := e.headItem(it, l.head, vars, freshVals(), li)
		hm := map[memKey]*region{}
		for kk, r := range h.st.mem {
			hm[kk] = r
		}
		hg := h.st.ghosts
		var ex []*item
		headObj := map[*lvar]*Obj{}
		for _, v := range vars {
			headObj[v] = v.seq
		}
		ex, backs = run(h, true)
		dropExits(ex)
		changed := false
		known := map[memKey]bool{}
		knownG := map[string]bool{}
		for _, v := range vars {
			if v.phi == nil {
				known[v.key] = true
				knownG[v.ghost] = true
			}
		}
		type nk struct {
			k memKey
			r *region
		}
		var newKeys []nk
		for _, b := range backs {
			for kk, r := range b.st.mem {
				hr := hm[kk]
				if known[kk] || r == hr || (hr == nil && r.w == nil && r.base.loop == nil && !strings.Contains(r.base.name, "@")) {
					continue
				}
				if kk.o.id > startObj && kk.o.kind != "sym" && kk.o.kind != "global" {
					continue
				}
				known[kk] = true
				newKeys = append(newKeys, nk{kk, r})
			}
			for g := range b.st.ghosts {
				if b.st.ghosts[g] != hg[g] && !knownG[g] {
					knownG[g] = true
					in := it.st.ghosts[g]
					if in == nil {
						in = e.c(0)
					}
					v := &lvar{ghost: g, init: in}
					e.initMode(v)
					vars = append(vars, v)
					changed = true
				}
			}
		}
		sort.Slice(newKeys, func(i, j int) bool {
			a, b := newKeys[i].k, newKeys[j].k
			if a.o.id != b.o.id {
				return a.o.id < b.o.id
			}
			return a.skel < b.skel
		})
		for _, x := range newKeys {
			v := &lvar{key: x.k, typ: x.r.base.typ}
			switch {
			case strings.Contains(x.k.skel, "[]") || x.k.skel == "{}" || strings.HasSuffix(x.k.skel, "{}"):
				v.mode = "array"
			default:
				if x.k.skel == "{len}" {
					v.init = e.mapLen(it.st, MapV{o: x.k.o})
					v.typ = types.Typ[types.Int]
				} else {
					v.init = e.readCell(it.st, x.k.o, x.k.skel, nil, x.r.base.typ)
				}
				e.initMode(v)
				if x.k.skel == "{len}" {
					v.comps[0].lo = 0
				}
			}
			vars = append(vars, v)
			changed = true
		}
		for _, v := range vars {
			if v.mode == "int" || v.mode == "array" || v.mode == "havoc" || v.mode == "seq" {
				continue
			}
			var hv Val = v.init
			for _, b := range backs {
				bv := e.lvarBack(b, v)
				if bv == nil {
					continue
				}
				if v.mode == "same" {
					if valKey(bv) == valKey(hv) {
						continue
					}
					s, ok := v.init.(SliceV)
					if !ok {
						v.mode = "havoc"
						changed = true
						break
					}
					bs, ok := bv.(SliceV)
					if ok && !s.isNil && bs.o == s.o && bs.skel == s.skel && linsKey(bs.idx) == linsKey(s.idx) {
						e.setComps(v, "slice")
					} else {
						e.setComps(v, "seq")
					}
					changed = true
					break
				}
				if v.mode == "slice" {
					s := v.init.(SliceV)
					bs, ok := bv.(SliceV)
					if !ok || bs.o != s.o || bs.skel != s.skel || linsKey(bs.idx) != linsKey(s.idx) {
						e.setComps(v, "seq")
						changed = true
						break
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	var comps []*lcomp
	for _, v := range vars {
		comps = append(comps, v.comps...)
	}
	// closed forms
	backComp := func(b *item, c *lcomp) *Lin { return compOf(e.lvarBack(b, c.v), c.which) }
	for _, c := range comps {
		c.closed = true
		for i, b := range backs {
			bl := backComp(b, c)
			if bl == nil {
				c.closed = false
				break
			}
			d := e.A.sub(bl, e.A.of(c.atom))
			s, isC := d.isConst()
			if !isC || (i > 0 && s != c.step) {
				c.closed = false
				break
			}
			c.step = s
		}
		if len(backs) == 0 {
			c.step = 0
		}
	}
	mono := map[*lcomp]int{}
	for _, c := range comps {
		if c.closed {
			continue
		}
		up, down := true, true
		for _, b := range backs {
			bl := backComp(b, c)
			if bl == nil {
				up, down = false, false
				break
			}
			d := e.A.sub(bl, e.A.of(c.atom))
			if !b.st.f.proveGE(e.A, d) {
				up = false
			}
			if !b.st.f.proveGE(e.A, e.A.neg(d)) {
				down = false
			}
		}
		if up {
			mono[c] = 1
		} else if down {
			mono[c] = -1
		}
	}
	kl := e.A.of(k)
	headVals := func() map[*lcomp]*Lin {
		m := map[*lcomp]*Lin{}
		for _, c := range comps {
			if c.closed {
				m[c] = e.A.add(c.init, e.A.scale(kl, c.step))
			} else {
				c.atom = e.A.fresh("h:"+c.v.String()+c.which, c.lo, c.hi)
				m[c] = e.A.of(c.atom)
			}
		}
		return m
	}
	isHeadAtom := func(a *Atom) *lcomp {
		for _, c := range comps {
			if !c.closed && c.atom == a {
				return c
			}
		}
		return nil
	}
	addBasic := func(h *item, vals map[*lcomp]*Lin) {
		for _, c := range comps {
			lo, hi := c.lo, c.hi
			if c.closed && c.step != 0 {
				// the wrapped value would have been flagged; within the type range
				if lo > -infNum {
					h.st.f.addGE(e.A, e.A.addc(vals[c], -lo))
				}
				if hi < infNum {
					h.st.f.addGE(e.A, e.A.addc(e.A.neg(vals[c]), hi))
				}
			}
			if mono[c] == 1 {
				h.st.f.addGE(e.A, e.A.sub(vals[c], c.init))
			} else if mono[c] == -1 {
				h.st.f.addGE(e.A, e.A.sub(c.init, vals[c]))
			}
		}
	}
	// candidate invariants: functions from component values to a linear form
	type cand struct {
		name string
		f    func(map[*lcomp]*Lin) *Lin
	}
	var cands []cand
	seenC := map[string]bool{}
	addCand := func(name string, f func(map[*lcomp]*Lin) *Lin) {
		if seenC[name] {
			return
		}
		seenC[name] = true
		init := map[*lcomp]*Lin{}
		for _, c := range comps {
			init[c] = c.init
		}
		if x := f(init); x != nil && it.st.f.proveGE(e.A, x) {
			cands = append(cands, cand{name, f})
		}
	}
	// a bound for variables that grow by at most one in each iteration
	iterations := func(m map[*lcomp]*Lin, c *lcomp) *Lin {
		for _, d := range comps {
			if d.closed && (d.step == 1 || d.step == -1) {
				return e.A.sub(e.A.add(c.init, e.A.scale(e.A.sub(m[d], d.init), d.step)), m[c])
			}
		}
		return nil
	}
	// terms from outside the loop
	var outer []*Lin
	seenO := map[string]bool{}
	addOuter := func(x *Lin) {
		if x != nil && !seenO[x.key] && len(outer) < 12 {
			seenO[x.key] = true
			outer = append(outer, x)
		}
	}
	addOuter(e.c(0))
	for b := range l.blocks {
		_ = b
	}
	for _, b := range e.loops(fn).rpo {
		if !l.blocks[b] {
			continue
		}
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if vi, ok := (*op).(ssa.Instruction); ok && l.blocks[vi.Block()] {
					continue
				}
				switch (*op).(type) {
				case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
					continue
				}
				switch x := it.env[*op].(type) {
				case *Lin:
					addOuter(x)
				case SliceV:
					addOuter(x.len)
				case StrV:
					addOuter(x.len)
				}
			}
		}
	}
	interesting := false
	for _, c := range comps {
		if c.closed && c.step == 0 {
			continue
		}
		interesting = true
	}
	if interesting {
		vals := headVals()
		h := e.headItem(it, l.head, vars, vals, li)
		addBasic(h, vals)
		h.st.f.addGE(e.A, kl)
		ex, bk := run(h, true)
		// facts discovered on the edges of the loop
		rev := map[*Atom]*lcomp{}
		for _, c := range comps {
			if !c.closed {
				rev[c.atom] = c
			}
		}
		stepC := map[int64]*lcomp{}
		for _, c := range comps {
			if c.closed && c.step != 0 && stepC[c.step] == nil {
				stepC[c.step] = c
			}
		}
		fromFact := func(g *Lin) {
			// keep facts over head atoms, k and atoms known before
			ok, has := true, false
			for _, t := range g.t {
				if t.a == k || rev[t.a] != nil {
					has = true
				} else if t.a.id > k.id && t.a.op == "var" {
					ok = false
				} else if atomDepends(t.a, func(a *Atom) bool { return a == k || rev[a] != nil || (a.op == "var" && a.id > k.id) }) {
					ok = false
				}
			}
			if !ok || !has {
				return
			}
			// express k through a closed component with unit step if there is one
			mk := func(g *Lin) func(m map[*lcomp]*Lin) *Lin {
				return func(m map[*lcomp]*Lin) *Lin {
					sub := map[*Atom]*Lin{}
					for a, c := range rev {
						sub[a] = m[c]
					}
					out := e.substTop(g, sub)
					for _, t := range out.t {
						if t.a == k {
							// k = (value - init)/step for some closed component
							for _, c := range comps {
								if c.closed && (c.step == 1 || c.step == -1 || (c.step != 0 && t.c%c.step == 0)) {
									d := e.A.sub(m[c], c.init)
									return e.A.add(e.A.sub(out, e.A.canon(0, []lterm{t})), e.A.scale(d, t.c/c.step))
								}
							}
							return nil
						}
					}
					return out
				}
			}
			for _, slack := range []int64{0, 1, 2, 3, 4} {
				gg := e.A.addc(g, slack)
				addCand("F"+gg.key, mk(gg))
			}
		}
		for _, b := range append(append([]*item{}, bk...), ex...) {
			for _, g := range b.st.f.ge {
				if !it.st.f.has[g.key] {
					fromFact(g)
				}
			}
			for a, r := range b.st.f.rng {
				if rev[a] != nil || a == k {
					if r[0] > a.lo {
						fromFact(e.A.addc(e.A.canon(0, []lterm{{a, 1}}), -r[0]))
					}
					if r[1] < a.hi {
						fromFact(e.A.addc(e.A.canon(0, []lterm{{a, -1}}), r[1]))
					}
				}
			}
		}
		dropExits(ex)
		for i, c := range comps {
			c := c
			if c.closed && c.step == 0 {
				continue
			}
			if !c.closed {
				addCand(fmt.Sprintf("c%d>=init", i), func(m map[*lcomp]*Lin) *Lin { return e.A.sub(m[c], c.init) })
				addCand(fmt.Sprintf("c%d<=init+k", i), func(m map[*lcomp]*Lin) *Lin { return iterations(m, c) })
				addCand(fmt.Sprintf("c%d<=init", i), func(m map[*lcomp]*Lin) *Lin { return e.A.sub(c.init, m[c]) })
			}
			for j, d := range comps {
				d := d
				if i == j || (d.closed && d.step == 0) || (c.closed && d.closed) {
					continue
				}
				if !c.closed && !d.closed {
					addCand(fmt.Sprintf("d%d<=d%d", i, j), func(m map[*lcomp]*Lin) *Lin {
						return e.A.sub(e.A.sub(m[d], d.init), e.A.sub(m[c], c.init))
					})
				}
				addCand(fmt.Sprintf("c%d<=c%d", i, j), func(m map[*lcomp]*Lin) *Lin { return e.A.sub(m[d], m[c]) })
			}
			for _, o := range append(outer[:len(outer):len(outer)], e.Outer...) {
				o := o
				addCand(fmt.Sprintf("c%d<=%s", i, o.key), func(m map[*lcomp]*Lin) *Lin { return e.A.sub(o, m[c]) })
				addCand(fmt.Sprintf("c%d>=%s", i, o.key), func(m map[*lcomp]*Lin) *Lin { return e.A.sub(m[c], o) })
			}
		}
	}
	// keep the inductive ones
	for len(cands) > 0 {
		vals := headVals()
		h := e.headItem(it, l.head, vars, vals, li)
		addBasic(h, vals)
		for _, c := range cands {
			h.st.f.addGE(e.A, c.f(vals))
		}
		if h.st.f.dead {
			break
		}
		ex, bk := run(h, true)
		dropExits(ex)
		var keep []cand
		for _, c := range cands {
			ok := true
			for _, b := range bk {
				bm := map[*lcomp]*Lin{}
				missing := false
				for _, cc := range comps {
					bl := backComp(b, cc)
					if bl == nil {
						missing = true
						bl = e.A.of(e.A.fresh("lost", cc.lo, cc.hi))
					}
					bm[cc] = bl
				}
				_ = missing
				if !b.st.f.proveGE(e.A, c.f(bm)) {
					ok = false
					break
				}
			}
			if ok {
				keep = append(keep, c)
			}
		}
		if dbgFlag == "L" {
			for _, c := range cands {
				fmt.Println("CAND", c.name, c.f(vals))
			}
			fmt.Println("kept", len(keep), "of", len(cands))
		}
		if len(keep) == len(cands) {
			break
		}
		cands = keep
	}
	prepare := func(vals map[*lcomp]*Lin) *item {
		h := e.headItem(it, l.head, vars, vals, li)
		addBasic(h, vals)
		for _, c := range cands {
			h.st.f.addGE(e.A, c.f(vals))
		}
		return h
	}
	// delayed recurrences: the value is the one computed by the previous iteration
	type part struct {
		h    *item
		vals map[*lcomp]*Lin
	}
	var parts []part
	anyDelayed := false
	{
		vals := headVals()
		h := prepare(vals)
		if !h.st.f.dead {
			pending := false
			for _, c := range comps {
				if !c.closed && c.v.mode != "seq" {
					pending = true
				}
			}
			var bk []*item
			if pending {
				var ex []*item
				hf := h.st.f.clone()
				ex, bk = run(h, true)
				dropExits(ex)
				bad := func(a *Atom) bool {
					return isHeadAtom(a) != nil || (a.reg != nil && a.reg.loop == li)
				}
				for _, c := range comps {
					if c.closed || c.v.mode == "seq" || len(bk) == 0 {
						continue
					}
					c.delayed = true
					for _, b := range bk {
						bl := backComp(b, c)
						if bl == nil || dependsAtom(bl, bad) {
							c.delayed = false
						}
					}
					if c.delayed {
						anyDelayed = true
					}
				}
				if anyDelayed && len(bk) <= 8 {
					// first iteration
					v0 := map[*lcomp]*Lin{}
					for _, c := range comps {
						if c.closed || c.delayed {
							v0[c] = c.init
						} else {
							v0[c] = c.init
						}
					}
					h0 := e.headItem(it, l.head, vars, v0, li)
					h0.st.f.addEQ(e.A, kl)
					parts = append(parts, part{h0, v0})
					prev := map[*Atom]*Lin{k: e.A.addc(kl, -1)}
					for _, b := range bk {
						vj := headVals()
						for _, c := range comps {
							if c.delayed {
								vj[c] = e.subst(b.st, backComp(b, c), prev)
							}
						}
						hj := e.headItem(it, l.head, vars, vj, li)
						hj.st.f.addGE(e.A, e.A.addc(kl, -1))
						addBasic(hj, vj)
						for _, c := range cands {
							if x := c.f(vj); x != nil {
								hj.st.f.addGE(e.A, x)
							}
						}
						for _, g := range b.st.f.ge {
							if !hf.has[g.key] && !dependsAtom(g, bad) {
								hj.st.f.addGE(e.A, e.subst(hj.st, g, prev))
							}
						}
						for a, r := range b.st.f.rng {
							if h0r, ok := hf.rng[a]; ok && h0r == r {
								continue
							}
							al := e.A.canon(0, []lterm{{a, 1}})
							if atomDepends(a, bad) {
								continue
							}
							sl := e.subst(hj.st, al, prev)
							if r[0] > -infNum {
								hj.st.f.addGE(e.A, e.A.addc(sl, -r[0]))
							}
							if r[1] < infNum {
								hj.st.f.addGE(e.A, e.A.addc(e.A.neg(sl), r[1]))
							}
						}
						if !hj.st.f.dead {
							parts = append(parts, part{hj, vj})
						}
					}
				}
			}
			if len(parts) == 0 {
				vals := headVals()
				parts = append(parts, part{prepare(vals), vals})
			}
		}
	}
	// final pass
	var out []*item
	// ranked tells whether some linear measure of the variables decreases on every back edge while being
	// non negative at the start of the iteration
	ranked := func(bk []*item, vals map[*lcomp]*Lin) bool {
		try := func(f func(m map[*lcomp]*Lin) *Lin) bool {
			for _, b := range bk {
				bm := map[*lcomp]*Lin{}
				for _, cc := range comps {
					bl := backComp(b, cc)
					if bl == nil {
						return false
					}
					bm[cc] = bl
				}
				h := f(vals)
				if !b.st.f.proveGE(e.A, h) || !b.st.f.proveGE(e.A, e.A.addc(e.A.sub(h, f(bm)), -1)) {
					return false
				}
			}
			return true
		}
		if len(bk) == 0 {
			return true
		}
		// a condition of the iteration that weakens with each one
		for _, g := range bk[0].st.f.ge {
			dec, ok := false, true
			for _, t := range g.t {
				if t.a == k {
					dec = t.c < 0
				} else if atomDepends(t.a, func(a *Atom) bool {
					return a == k || isHeadAtom(a) != nil || (a.op == "var" && a.id > k.id) || (a.reg != nil && a.reg.loop == li)
				}) {
					ok = false
				}
			}
			if !dec || !ok {
				continue
			}
			for _, b := range bk {
				ok = ok && b.st.f.proveGE(e.A, g)
			}
			if ok {
				return true
			}
		}
		for _, c := range comps {
			for _, d := range comps {
				if c != d && try(func(m map[*lcomp]*Lin) *Lin { return e.A.sub(m[c], m[d]) }) {
					return true
				}
			}
			for _, o := range append(outer[:len(outer):len(outer)], e.Outer...) {
				if try(func(m map[*lcomp]*Lin) *Lin { return e.A.sub(m[c], o) }) || try(func(m map[*lcomp]*Lin) *Lin { return e.A.sub(o, m[c]) }) {
					return true
				}
			}
		}
		return false
	}
	lev := &loopEv{head: l.head, k: k}
	retW := ret
	retW = func(i *item, in ssa.Instruction, v Val) {
		e.fixTrace(i.st, it.st.trace, lev)
		ret(i, in, v)
	}
	var seqs []*Obj
	for _, p := range parts {
		var ps []*Obj
		for _, v := range vars {
			if v.mode == "seq" {
				// head objects were renewed by headItem; find them in the item
				var hv Val
				if v.phi != nil {
					hv = p.h.env[v.phi]
				} else if r := p.h.st.mem[v.key]; r != nil && r.w != nil {
					hv = r.w.val
				}
				if s, ok := hv.(SliceV); ok {
					ps = append(ps, s.o)
				} else {
					ps = append(ps, nil)
				}
			}
		}
		ex, bk := e.runRegion(fn, l.blocks, l.head, []*item{p.h}, retW)
		if e.LoopInv != nil && e.quiet == 0 && e.LoopInv.holds(it.st) {
			for _, b := range bk {
				if !e.impossible(b.st) && !e.LoopInv.holds(b.st) {
					e.LoopInv.broken(fn, l.head)
				}
			}
		}
		if e.OnLoop != nil && e.quiet == 0 {
			e.OnLoop(fn, l.head, ranked(bk, p.vals))
		}
		for _, b := range bk {
			lev.alts = append(lev.alts, b.st.trace.list(nil))
			lev.sts = append(lev.sts, b.st)
			i := 0
			for _, v := range vars {
				if v.mode != "seq" {
					continue
				}
				if bs, ok := e.lvarBack(b, v).(SliceV); ok && ps[i] != nil {
					al := seqAlt{end: bs, st: b.st}
					for _, c := range comps {
						al.vars = append(al.vars, loopVar{c.v.String() + c.which, c.init, p.vals[c], backComp(b, c)})
					}
					ps[i].alts = append(ps[i].alts, al)
				}
				i++
			}
		}
		for _, x := range ex {
			e.fixTrace(x.st, it.st.trace, lev)
			out = append(out, x)
		}
	}
	_ = seqs
	return out
}

func (e *Engine) fixTrace(st *State, before *traceNode, lev *loopEv) {
	evs := st.trace.list(nil)
	st.trace = before
	st.log(lev)
	for _, x := range evs {
		st.log(x)
	}
}

func (e *Engine) substTop(l *Lin, m map[*Atom]*Lin) *Lin {
	out := l
	for _, t := range l.t {
		if r, ok := m[t.a]; ok {
			out = e.A.add(out, e.A.scale(e.A.sub(r, e.A.canon(0, []lterm{{t.a, 1}})), t.c))
		}
	}
	return out
}
