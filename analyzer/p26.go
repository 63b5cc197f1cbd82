package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["P26"] = checkP26
	checks["P30"] = checkP30
}

type bworld struct {
	p     *Prog
	e     *Engine
	st    *State
	b     Val
	uids  []*Lin
	font  Val
	today Val

	script [][2]int
	at     int
	paths  int
	fail   func(rule, pos, d string)
	name   string
	words  map[int64]string
	enc    map[string]encByte

	reparse          bool // the font is exported and parsed before it's read
	rawData, zipData []Val
	src              *Obj
}

func newBWorld(p *Prog, name string, fail func(rule, pos, d string)) *bworld {
	e := newEngine(p)
	e.limit *= 40
	e.MergeLimit = 1 << 20
	e.ExactSlices = true
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int { return 300 }
	w := &bworld{p: p, e: e, fail: fail, name: name, enc: map[string]encByte{}}
	e.Override = w.override
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			w.fail("panic", p.instrPos(in), kind+" "+detail)
		}
	}
	e.StrCmp = w.strCmp
	w.st = e.newState()
	return w
}

// strCmp compares strings of known bytes
func (w *bworld) strCmp(e *Engine, st *State, a, b StrV) *Lin {
	text := func(s StrV) (string, bool) {
		if s.isConst {
			return s.s, true
		}
		n, ok := e.normLinTop(st, s.len).isConst()
		if !ok || n > 4096 {
			return "", false
		}
		var out []byte
		for i := int64(0); i < n; i++ {
			l, ok := e.strIndex(st, s, e.c(i)).(*Lin)
			if !ok {
				return "", false
			}
			k, ok := e.normLinTop(st, l).isConst()
			if !ok {
				return "", false
			}
			out = append(out, byte(k))
		}
		return string(out), true
	}
	x, ok1 := text(a)
	y, ok2 := text(b)
	if !ok1 || !ok2 {
		return nil
	}
	return e.c(int64(strings.Compare(x, y)))
}

// initialize interprets the initialization of the packages
func (w *bworld) initialize() {
	for _, rel := range []string{"", "internal", "mask", "builder"} {
		pk := w.p.pkg(rel)
		f := pk.Func("init")
		if f == nil {
			continue
		}
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() == "init$guard" {
				if p, ok := w.e.val(nil, g).(PtrV); ok {
					w.e.writeCell(w.st, p.o, p.skel, p.idx, types.Typ[types.Bool], formF)
				}
			}
		}
		outs := w.call(f)
		if len(outs) != 1 {
			panic(undecided("outcomes of the initialization"))
		}
		w.st = outs[0].st
	}
}

// predefined returns the predefined words: the constants stored in their table
func (w *bworld) predefined() map[int64]string {
	if w.words != nil {
		return w.words
	}
	w.words = map[int64]string{}
	bases := map[ssa.Value]bool{}
	for _, b := range w.p.fn("", "GetPredefinedWord").Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok {
					bases[g] = true
				}
			}
		}
	}
	f := w.p.pkg("").Func("init")
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && bases[s.Addr] {
				if u, ok := s.Val.(*ssa.UnOp); ok {
					bases[u.X] = true
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			ia, ok := s.Addr.(*ssa.IndexAddr)
			if !ok || !bases[ia.X] {
				continue
			}
			k, ok1 := ia.Index.(*ssa.Const)
			v, ok2 := s.Val.(*ssa.Const)
			if !ok1 || !ok2 || v.Value == nil || v.Value.Kind() != constant.String {
				panic(undecided("a predefined word isn't a constant"))
			}
			w.words[k.Int64()] = constant.StringVal(v.Value)
		}
	}
	return w.words
}

// packages of the standard library whose functions are interpreted
var bodies = map[string]bool{"image": true, "slices": true, "cmp": true, "math/bits": true, "unicode/utf8": true}

func (w *bworld) override(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	if out, ok := w.files(e, st, ci); ok {
		return out, true
	}
	if ci.fn == nil {
		st.log(cbEv{args: append([]Val{}, ci.args...)})
		var out Val = TupleV{}
		if t := ci.cc.Signature().Results(); t.Len() == 1 {
			out = NilV{}
		}
		return []callOut{{st: st, val: out}}, true
	}
	pkg := ci.fn.Pkg
	if pkg == nil && ci.fn.Origin() != nil {
		pkg = ci.fn.Origin().Pkg
	}
	if ci.fn.Name() == "init" && ci.fn.Signature.Params().Len() == 0 {
		return []callOut{{st: st, val: TupleV{}}}, true
	}
	if ci.fn.Name() == "ValidString" {
		if v, ok := ci.args[0].(StrV); ok && v.isConst {
			return []callOut{{st: st, val: fConst(utf8.ValidString(v.s))}}, true
		}
	}
	if pkg != nil && bodies[pkg.Pkg.Path()] && len(ci.fn.Blocks) > 0 {
		var out []callOut
		for _, o := range e.callFn(ci.fn, ci.args, nil, st) {
			out = append(out, callOut{st: o.st, val: o.val})
		}
		return out, true
	}
	if out, ok := w.encoding(e, st, ci); ok {
		return out, true
	}
	switch ci.fn.Name() {
	case "GetPredefinedWord":
		l, ok := ci.args[0].(*Lin)
		if !ok {
			break
		}
		if k, ok := e.normLinTop(st, l).isConst(); ok {
			return []callOut{{st: st, val: w.str(w.predefined()[k])}}, true
		}
	case "CryptoRandUint64":
		// identifiers are arbitrary, in no order
		k := int64(len(w.uids))
		l := e.c(0x1122334455667788 ^ (k*0x5a3c<<40 + (k*7919)<<16 + k*0x9d&0xff))
		w.uids = append(w.uids, l)
		return []callOut{{st: st, val: TupleV{l, NilV{}}}}, true
	case "AppendRasterOps":
		// the encoding of masks isn't a part of this: the first pixel stands for it
		data, ok := ci.args[1].(SliceV)
		n, known := int64(0), false
		if ok {
			n, known = e.normLinTop(st, data.len).isConst()
		}
		mp, ok2 := ci.args[2].(PtrV)
		if !ok || !known || !ok2 {
			panic(undecided("unknown mask or data"))
		}
		mt := ci.fn.Params[2].Type().Underlying().(*types.Pointer).Elem()
		pix, ok := e.readCell(st, mp.o, mp.skel+"."+fieldWhere(mt, func(v *types.Var) bool { return v.Name() == "Pix" }), mp.idx, types.NewSlice(types.Typ[types.Uint8])).(SliceV)
		if !ok {
			panic(undecided("unknown pixels"))
		}
		u8 := types.Typ[types.Uint8]
		o := e.newObj("data", "alloc", u8)
		for i := int64(0); i < n; i++ {
			e.writeCell(st, o, "[]", []*Lin{e.c(i)}, u8, e.readCell(st, data.o, data.skel+"[]", append(append([]*Lin{}, data.idx...), e.A.addc(data.off, i)), u8))
		}
		e.writeCell(st, o, "[]", []*Lin{e.c(n)}, u8, e.readCell(st, pix.o, pix.skel+"[]", append(append([]*Lin{}, pix.idx...), pix.off), u8))
		return []callOut{{st: st, val: SliceV{o: o, off: e.c(0), len: e.c(n + 1), cap: e.c(n + 1024)}}}, true
	case "LazyEntropyUint64":
		return []callOut{{st: st, val: OpaqueV{name: "1"}}}, true
	case "CurrentDate":
		w.today = w.strct(e.resType(ci), map[string]Val{"Year": w.v("this year", 2020, 3000), "Month": w.c(7), "Day": w.v("this day", 1, 31)})
		return []callOut{{st: st, val: w.today}}, true
	case "Rasterize":
		// the encoding of masks isn't a part of this
		sl, ok := ci.args[0].(SliceV)
		if !ok {
			panic(undecided("unknown encoding of a mask"))
		}
		n, ok := e.normLinTop(st, sl.len).isConst()
		if !ok || n > 64 {
			panic(undecided("unknown size of the encoding of a mask"))
		}
		var ev cbEv
		for i := int64(0); i < n; i++ {
			ev.args = append(ev.args, e.readCell(st, sl.o, sl.skel+"[]", append(append([]*Lin{}, sl.idx...), e.A.addc(sl.off, i)), types.Typ[types.Uint8]))
		}
		st.log(ev)
		t := ci.fn.Signature.Results().At(0).Type()
		return []callOut{{st: st, val: TupleV{PtrV{o: e.newObj("mask", "alloc", t.Underlying().(*types.Pointer).Elem())}, NilV{}}}}, true
	}
	return nil, false
}

// encoding follows the encoding and decoding of unknown integers in little endian
func (w *bworld) encoding(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	kind, width, ok := strings.Cut(ci.fn.Name(), "Uint")
	n := map[string]int64{"16LE": 2, "32LE": 4}[width]
	if !ok || n == 0 {
		return nil, false
	}
	u8 := types.Typ[types.Uint8]
	cell := func(s SliceV, i *Lin) []*Lin { return append(append([]*Lin{}, s.idx...), e.A.add(s.off, i)) }
	write := func(st *State, s SliceV, from *Lin, v *Lin) {
		for i := int64(0); i < n; i++ {
			b := e.fn("byte", 0, 255, v, e.c(i))
			w.enc[b.String()] = encByte{v, i, n}
			e.writeCell(st, s.o, s.skel+"[]", cell(s, e.A.addc(from, i)), u8, b)
		}
	}
	s, ok := ci.args[0].(SliceV)
	if !ok {
		return nil, false
	}
	switch kind {
	case "Decode":
		var l *Lin
		for i := int64(0); i < n; i++ {
			b, ok := e.readCell(st, s.o, s.skel+"[]", cell(s, e.c(i)), u8).(*Lin)
			if !ok {
				return nil, false
			}
			x, ok := w.enc[e.normLinTop(st, b).String()]
			if !ok || x.i != i || x.n != n || l != nil && l.String() != x.v.String() {
				return nil, false
			}
			l = x.v
		}
		return []callOut{{st: st, val: l}}, true
	case "Append", "Encode":
		v, ok := ci.args[1].(*Lin)
		if !ok {
			return nil, false
		}
		if v = e.normLinTop(st, v); v == nil {
			return nil, false
		}
		if _, known := v.isConst(); known {
			return nil, false
		}
		var out []callOut
		for _, o := range e.callFn(ci.fn, []Val{s, e.c(0)}, nil, st) {
			to, from := s, e.c(0)
			if kind == "Append" {
				if to, ok = o.val.(SliceV); !ok {
					return nil, false
				}
				from = e.A.addc(to.len, -n)
			}
			write(o.st, to, from, v)
			out = append(out, callOut{st: o.st, val: o.val})
		}
		return out, true
	}
	return nil, false
}

// encByte is a byte of an encoded integer
type encByte struct {
	v    *Lin
	i, n int64
}

func (w *bworld) call(f *ssa.Function, args ...Val) []outcome {
	var out []outcome
	for _, o := range w.e.callFn(f, args, nil, w.st) {
		if !w.e.impossible(o.st) {
			out = append(out, o)
		}
	}
	return out
}

// glyph adds a glyph with a mask of w×h pixels
func (w *bworld) mask(x, y, wd, ht int64, pix ...int64) Val {
	e := w.e
	add := w.p.method("builder", "Font", "AddGlyph")
	mt := add.Params[1].Type().Underlying().(*types.Pointer).Elem()
	o := e.newObj("mask", "alloc", mt)
	po := e.newObj("pixels", "alloc", types.Typ[types.Uint8])
	for i := int64(0); i < wd*ht; i++ {
		v := int64(255)
		if int(i) < len(pix) {
			v = pix[i]
		}
		e.writeCell(w.st, po, "[]", []*Lin{e.c(i)}, types.Typ[types.Uint8], e.c(v))
	}
	n := e.c(wd * ht)
	st := mt.Underlying().(*types.Struct)
	rt := st.Field(2).Type()
	pt := rt.Underlying().(*types.Struct).Field(0).Type()
	p := func(a, b int64) Val { return StructV{typ: pt, fields: []Val{e.c(a), e.c(b)}} }
	e.writeCell(w.st, o, ".Pix", nil, st.Field(0).Type(), SliceV{o: po, skel: "", off: e.c(0), len: n, cap: n})
	e.writeCell(w.st, o, ".Stride", nil, st.Field(1).Type(), e.c(wd))
	e.writeCell(w.st, o, ".Rect", nil, rt, StructV{typ: rt, fields: []Val{p(x, y), p(x+wd, y+ht)}})
	return PtrV{o: o}
}

// choose explores the outcomes of calls one after another: the scene runs again for each of them
func (w *bworld) choose(outs []outcome) outcome {
	if len(outs) == 0 {
		panic(pathEnd{})
	}
	if w.at == len(w.script) {
		w.script = append(w.script, [2]int{0, len(outs)})
	}
	c := w.script[w.at]
	w.at++
	if c[1] != len(outs) {
		panic(undecided("the outcomes differ between runs"))
	}
	return outs[c[0]]
}

type pathEnd struct{}

// op calls an operation of the builder
func (w *bworld) op(name string, args ...Val) Val {
	f := w.p.method("builder", "Font", name)
	if f == nil {
		panic(undecided("no operation " + name))
	}
	if f.Signature.Variadic() {
		n := f.Signature.Params().Len() - 1
		args = append(args[:n:n], w.slice(f.Signature.Params().At(n).Type(), args[n:]...))
	}
	o := w.choose(w.call(f, append([]Val{w.b}, args...)...))
	w.st = o.st
	v := o.val
	res := f.Signature.Results()
	if n := res.Len(); n > 0 && types.Identical(res.At(n-1).Type(), types.Universe.Lookup("error").Type()) {
		err := v
		if t, ok := v.(TupleV); ok {
			err, v = t[n-1], t[0]
		}
		isNil, known := w.e.decide(w.st, w.e.isNilForm(err))
		if !known || !isNil {
			w.fail("refused", w.p.pos(f.Pos()), name+" refuses valid arguments")
			panic(pathEnd{})
		}
	}
	return v
}

// refuses demands that an operation fails
func (w *bworld) refuses(name string, args ...Val) {
	f := w.p.method("builder", "Font", name)
	if f == nil {
		panic(undecided("no operation " + name))
	}
	if f.Signature.Variadic() {
		n := f.Signature.Params().Len() - 1
		args = append(args[:n:n], w.slice(f.Signature.Params().At(n).Type(), args[n:]...))
	}
	st := w.st
	base := st.clone()
	w.st = base
	for _, o := range w.call(f, append([]Val{w.b}, args...)...) {
		err := o.val
		if t, ok := err.(TupleV); ok {
			err = t[len(t)-1]
		}
		if isNil, known := w.e.decide(o.st, w.e.isNilForm(err)); !known || isNil {
			w.fail("accepted", w.p.pos(f.Pos()), name+" accepts arguments that a font can't hold")
		}
	}
	w.st = st
}

func (w *bworld) slice(t types.Type, vals ...Val) Val {
	el := t.Underlying().(*types.Slice).Elem()
	o := w.e.newObj("arguments", "alloc", el)
	for i, v := range vals {
		w.e.writeCell(w.st, o, "[]", []*Lin{w.e.c(int64(i))}, el, v)
	}
	n := w.e.c(int64(len(vals)))
	return SliceV{o: o, off: w.e.c(0), len: n, cap: n}
}

func (w *bworld) str(s string) Val { return StrV{isConst: true, s: s, len: w.e.c(int64(len(s)))} }
func (w *bworld) c(k int64) *Lin   { return w.e.c(k) }

// v is a symbolic value
func (w *bworld) v(name string, lo, hi int64) *Lin { return w.e.A.of(w.e.A.mk("var", name, lo, hi)) }

// param returns the type of a parameter of an operation
func (w *bworld) param(name string, i int) types.Type {
	f := w.p.method("builder", "Font", name)
	if f == nil {
		panic(undecided("no operation " + name))
	}
	return f.Signature.Params().At(i).Type()
}

func (w *bworld) strct(t types.Type, fields map[string]Val) Val {
	s := t.Underlying().(*types.Struct)
	out := StructV{typ: t}
	for i := 0; i < s.NumFields(); i++ {
		v, ok := fields[s.Field(i).Name()]
		if !ok {
			panic(undecided("unknown field " + s.Field(i).Name()))
		}
		out.fields = append(out.fields, v)
	}
	return out
}

func (w *bworld) date(y, m, d int64) Val {
	return w.strct(w.param("SetFirstVerDate", 0), map[string]Val{"Year": w.c(y), "Month": w.c(m), "Day": w.c(d)})
}

func (w *bworld) build() {
	o := w.choose(w.call(w.p.method("builder", "Font", "Build"), w.b))
	w.st = o.st
	t := o.val.(TupleV)
	isNil, known := w.e.decide(w.st, w.e.isNilForm(t[1]))
	if !known || !isNil {
		w.fail("refused", "builder/font_builder.go", "Build fails for valid contents")
		panic(pathEnd{})
	}
	w.font = t[0]
	if w.reparse {
		w.parseBack()
	}
}

// ioEv is data written to the underlying writer or to the compressor
type ioEv struct {
	zip  bool
	data []Val
}

// parseBack exports the font and parses what was written
func (w *bworld) parseBack() {
	f := w.p.method("", "Font", "Export")
	w.st.trace = nil
	o := w.choose(w.call(f, w.font, FuncV{}))
	if isNil, known := w.e.decide(o.st, w.e.isNilForm(o.val)); !known || !isNil {
		w.fail("refused", w.p.pos(f.Pos()), "Export fails for a built font")
		panic(pathEnd{})
	}
	w.st = o.st
	var raw, zip []Val
	for _, x := range w.st.trace.list(nil) {
		if ev, ok := x.(ioEv); ok {
			if ev.zip {
				zip = append(zip, ev.data...)
			} else {
				if len(zip) > 0 {
					w.fail("contents", w.p.pos(f.Pos()), "Export writes to the underlying writer after the compressed data")
				}
				raw = append(raw, ev.data...)
			}
		}
	}
	w.st.trace = nil
	w.rawData, w.zipData = raw, zip
	w.src = w.e.newObj("reader", "alloc", types.Typ[types.Int])
	w.e.writeCell(w.st, w.src, ".raw", nil, types.Typ[types.Int], w.c(0))
	w.e.writeCell(w.st, w.src, ".zip", nil, types.Typ[types.Int], w.c(0))
	f = w.p.fn("", "Parse")
	outs := w.call(f, FuncV{})
	o = w.choose(outs)
	t := o.val.(TupleV)
	if isNil, known := w.e.decide(o.st, w.e.isNilForm(t[1])); !known || !isNil {
		w.fail("refused", w.p.pos(f.Pos()), "Parse refuses an exported font")
		panic(pathEnd{})
	}
	w.st, w.font = o.st, t[0]
}

// input and output of bytes
func (w *bworld) files(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	u8 := types.Typ[types.Uint8]
	name := ""
	if ci.fn != nil {
		name = ci.fn.String()
	} else if ci.cc.IsInvoke() {
		name = "invoke " + ci.cc.Method.Name()
	}
	slice := func(i int) SliceV {
		s, ok := ci.args[i].(SliceV)
		if !ok {
			panic(undecided("unknown buffer"))
		}
		return s
	}
	cell := func(s SliceV, i int64) []*Lin { return append(append([]*Lin{}, s.idx...), e.A.addc(s.off, i)) }
	size := func(s SliceV) int64 {
		n, ok := e.normLinTop(st, s.len).isConst()
		if !ok || n > 1<<16 {
			panic(undecided("unknown size of a buffer"))
		}
		return n
	}
	write := func(s SliceV, zip bool) []callOut {
		n := size(s)
		ev := ioEv{zip: zip}
		for i := int64(0); i < n; i++ {
			ev.data = append(ev.data, e.readCell(st, s.o, s.skel+"[]", cell(s, i), u8))
		}
		st.log(ev)
		return []callOut{{st: st, val: TupleV{e.c(n), NilV{}}}}
	}
	read := func(s SliceV, part string, data []Val, full bool) []callOut {
		n := size(s)
		l, _ := e.readCell(st, w.src, part, nil, types.Typ[types.Int]).(*Lin)
		if l == nil {
			panic(undecided("unknown position"))
		}
		pos, ok := e.normLinTop(st, l).isConst()
		if !ok {
			panic(undecided("unknown position"))
		}
		k := int64(0)
		for ; k < n && pos < int64(len(data)); k++ {
			e.writeCell(st, s.o, s.skel+"[]", cell(s, k), u8, data[pos])
			pos++
		}
		e.writeCell(st, w.src, part, nil, types.Typ[types.Int], e.c(pos))
		var err Val = NilV{}
		if k < n && full || k == 0 {
			pk := w.p.SSA.ImportedPackage("io")
			if pk == nil {
				panic(undecided("no package io"))
			}
			g := e.val(nil, pk.Var("EOF")).(PtrV)
			err = e.readCell(st, g.o, g.skel, g.idx, types.Universe.Lookup("error").Type())
		}
		return []callOut{{st: st, val: TupleV{e.c(k), err}}}
	}
	switch name {
	case "invoke Write":
		return write(slice(len(ci.args)-1), false), true
	case "compress/gzip.NewWriter":
		return []callOut{{st: st, val: PtrV{o: e.newObj("gzip", "alloc", types.Typ[types.Int])}}}, true
	case "(*compress/gzip.Writer).Write":
		return write(slice(1), true), true
	case "(*compress/gzip.Writer).Close", "(*compress/gzip.Reader).Close":
		return []callOut{{st: st, val: NilV{}}}, true
	case "io.ReadFull":
		return read(slice(1), ".raw", w.rawData, true), true
	case "compress/gzip.NewReader":
		return []callOut{{st: st, val: TupleV{PtrV{o: e.newObj("gzip", "alloc", types.Typ[types.Int])}, NilV{}}}}, true
	case "(*compress/gzip.Reader).Read":
		return read(slice(1), ".zip", w.zipData, false), true
	}
	return nil, false
}

// method of the pointer to the type of a value
func (w *bworld) methodOf(t types.Type, name string) *ssa.Function {
	n, ok := t.(*types.Named)
	if pt, isPtr := t.(*types.Pointer); isPtr {
		n, ok = pt.Elem().(*types.Named)
	}
	if !ok {
		panic(undecided("no named type"))
	}
	f := w.p.SSA.LookupMethod(types.NewPointer(n), n.Obj().Pkg(), name)
	if f == nil {
		panic(undecided("no method " + name))
	}
	return f
}

type cbEv struct{ args []Val }

// read calls a method and checks each outcome
func (w *bworld) read(f *ssa.Function, args []Val, check func(o outcome, cbs []cbEv)) {
	st := w.st
	base := st.clone()
	base.trace = nil
	w.st = base
	for _, o := range w.call(f, args...) {
		var cbs []cbEv
		for _, x := range o.st.trace.list(nil) {
			if c, ok := x.(cbEv); ok {
				cbs = append(cbs, c)
			}
		}
		w.st = o.st
		w.paths++
		check(o, cbs)
	}
	w.st = st
}

func (w *bworld) section(name string) (Val, *ssa.Function) {
	f := w.p.method("", "Font", name)
	if f == nil {
		panic(undecided("no section " + name))
	}
	outs := w.call(f, w.font)
	if len(outs) != 1 {
		panic(undecided("outcomes of section " + name))
	}
	return outs[0].val, f
}

// acc is the accessor of a section of the font: "Header.Name"
func (w *bworld) acc(name string) (*ssa.Function, Val) {
	sec, m, _ := strings.Cut(name, ".")
	v, f := w.section(sec)
	return w.methodOf(f.Signature.Results().At(0).Type(), m), v
}

func (w *bworld) bytes(v Val) ([]Val, bool) {
	s, ok := v.(StrV)
	if !ok {
		return nil, false
	}
	var out []Val
	if s.isConst {
		for i := 0; i < len(s.s); i++ {
			out = append(out, w.e.c(int64(s.s[i])))
		}
		return out, true
	}
	n, known := w.e.normLinTop(w.st, s.len).isConst()
	if !known || n > 4096 {
		return nil, false
	}
	for i := int64(0); i < n; i++ {
		out = append(out, w.e.strIndex(w.st, s, w.e.c(i)))
	}
	return out, true
}

func (w *bworld) same(got, want Val) bool {
	e, st := w.e, w.st
	if _, ok := want.(StrV); ok {
		a, ok1 := w.bytes(got)
		b, ok2 := w.bytes(want)
		if !ok1 || !ok2 || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !w.same(a[i], b[i]) {
				return false
			}
		}
		return true
	}
	switch x := want.(type) {
	case *Lin:
		y, ok := got.(*Lin)
		return ok && st.f.proveEQ(e.A, e.A.sub(x, y))
	case *Form:
		y, ok := got.(*Form)
		if !ok {
			return false
		}
		a, k1 := e.decide(st, x)
		b, k2 := e.decide(st, y)
		return k1 && k2 && a == b
	case StructV:
		y, ok := got.(StructV)
		if !ok || len(x.fields) != len(y.fields) {
			return false
		}
		for i := range x.fields {
			if !w.same(y.fields[i], x.fields[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (w *bworld) bad(f *ssa.Function, what string, args []Val, d string) {
	var s []string
	for _, a := range args {
		switch x := a.(type) {
		case StrV:
			s = append(s, strconv.Quote(x.s))
		case *Lin:
			s = append(s, x.String())
		}
	}
	if os.Getenv("DBG") != "" {
		fmt.Fprintln(os.Stderr, w.name, what, s, d)
	}
	w.fail("contents", w.p.pos(f.Pos()), what+"("+strings.Join(s, ", ")+") "+d)
}

// is demands that an accessor returns a value
func (w *bworld) is(name string, want Val, args ...Val) {
	f, recv := w.acc(name)
	w.read(f, append([]Val{recv}, args...), func(o outcome, _ []cbEv) {
		if !w.same(o.val, want) {
			w.bad(f, name, args, "doesn't return what was given to the builder")
			if os.Getenv("DBG") != "" {
				fmt.Fprintf(os.Stderr, "  got %.200v want %.200v\n", o.val, want)
			}
		}
	})
}

// each demands that an accessor reports values in this order
func (w *bworld) each(name string, args []Val, want ...[]Val) {
	f, recv := w.acc(name)
	all := append([]Val{recv}, args...)
	all = append(all, FuncV{})
	w.reports(f, name, all, want...)
}

func (w *bworld) reports(f *ssa.Function, name string, all []Val, want ...[]Val) {
	w.read(f, all, func(o outcome, cbs []cbEv) {
		ok := len(cbs) == len(want)
		for i := 0; ok && i < len(want); i++ {
			ok = len(cbs[i].args) == len(want[i])
			for k := 0; ok && k < len(want[i]); k++ {
				ok = w.same(cbs[i].args[k], want[i][k])
			}
		}
		if !ok {
			w.bad(f, name, all[1:], "doesn't report what was given to the builder")
			if os.Getenv("DBG") != "" {
				fmt.Fprintf(os.Stderr, "  got %.300v want %.300v\n", cbs, want)
			}
		}
	})
}

// get demands that a getter of the builder returns a value
func (w *bworld) get(name string, want Val, args ...Val) {
	f := w.p.method("builder", "Font", name)
	if f == nil {
		panic(undecided("no getter " + name))
	}
	w.read(f, append([]Val{w.b}, args...), func(o outcome, _ []cbEv) {
		if !w.same(o.val, want) {
			w.bad(f, name, args, "doesn't return what was given to the builder")
		}
	})
}

type bscene struct {
	name string
	run  func(w *bworld)
	// the font takes more than one read of the parser, which isn't followed
	large bool
}

func checkP26(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of sequences of builder operations, builds and reads with symbolic arguments"
	checkScenes(p, r, false)
}

func checkP30(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of sequences of builder operations, builds, exports, parses and reads with symbolic arguments"
	checkScenes(p, r, true)
}

// checkScenes checks the accessors of the built fonts, or those of what's parsed from exported fonts
func checkScenes(p *Prog, r *Report, reparse bool) {
	for _, s := range bscenes {
		if reparse && s.large {
			continue
		}
		if f := os.Getenv("P26"); f != "" && !strings.Contains(s.name, f) {
			continue
		}
		(*acc)(nil).guardRun(r, "contents", s.name, func(fail func(rule, pos, d string)) {
			seen := map[string]bool{}
			once := func(rule, pos, d string) {
				if k := rule + pos + d; !seen[k] {
					seen[k] = true
					fail(rule, pos, d)
				}
			}
			var script [][2]int
			runs, paths := 0, 0
			for {
				w := newBWorld(p, s.name, nil)
				w.script = script
				w.reparse = reparse
				func() {
					defer func() {
						if x := recover(); x != nil {
							if _, ok := x.(pathEnd); !ok {
								panic(x)
							}
						}
					}()
					w.fail = func(rule, pos, d string) {}
					w.initialize()
					outs := w.call(p.fn("builder", "New"))
					if len(outs) == 0 {
						panic(undecided("no outcome of New"))
					}
					w.fail = once
					w.st, w.b = outs[0].st, outs[0].val
					s.run(w)
				}()
				paths += w.paths
				if runs++; runs > 400 {
					panic(undecided("too many cases"))
				}
				script = w.script[:w.at]
				for len(script) > 0 && script[len(script)-1][0]+1 >= script[len(script)-1][1] {
					script = script[:len(script)-1]
				}
				if len(script) == 0 {
					break
				}
				script[len(script)-1][0]++
			}
			if paths == 0 {
				once("undecided", "-", "nothing was analysed")
			}
			if os.Getenv("DBG") != "" {
				fmt.Fprintln(os.Stderr, s.name, runs, "cases", paths, "reads")
			}
		})
	}
}

var bscenes = []bscene{
	{name: "header", run: func(w *bworld) {
		w.op("AddGlyph", w.mask(0, -1, 1, 1))
		w.op("SetName", w.str("My Font-1"))
		w.op("SetFamily", w.str("Fam"))
		w.op("SetAuthor", w.str("Au Thor"))
		w.op("SetAbout", w.str("About \u00e9 this"))
		maj, mnr := w.v("major", 0, 65535), w.v("minor", 0, 65535)
		w.op("SetVersion", maj, mnr)
		w.op("SetFirstVerDate", w.date(2001, 2, 3))
		w.op("SetMajorVerDate", w.date(2004, 5, 6))
		w.op("SetMinorVerDate", w.date(2007, 8, 9))
		w.get("GetName", w.str("My Font-1"))
		w.get("GetFamily", w.str("Fam"))
		w.get("GetAuthor", w.str("Au Thor"))
		w.get("GetAbout", w.str("About \u00e9 this"))
		w.get("GetVersionMajor", maj)
		w.get("GetVersionMinor", mnr)
		w.get("GetFirstVerDate", w.date(2001, 2, 3))
		w.get("GetMajorVerDate", w.date(2004, 5, 6))
		w.get("GetMinorVerDate", w.date(2007, 8, 9))
		id := w.op("GetFontID")
		w.build()
		w.is("Header.ID", id)
		w.is("Header.Name", w.str("My Font-1"))
		w.is("Header.Family", w.str("Fam"))
		w.is("Header.Author", w.str("Au Thor"))
		w.is("Header.About", w.str("About \u00e9 this"))
		w.is("Header.VersionMajor", maj)
		w.is("Header.VersionMinor", mnr)
		w.is("Header.FirstVersionDate", w.date(2001, 2, 3))
		w.is("Header.MajorVersionDate", w.date(2004, 5, 6))
		w.is("Header.MinorVersionDate", w.date(2007, 8, 9))
	}},
	{name: "raised versions", run: func(w *bworld) {
		w.op("AddGlyph", w.mask(0, -1, 1, 1))
		w.op("SetFirstVerDate", w.date(2001, 2, 3))
		w.op("SetMinorVerDate", w.date(2007, 8, 9))
		maj, mnr := w.v("major", 0, 65534), w.v("minor", 0, 65534)
		w.op("SetVersion", maj, mnr)
		w.op("SetMajorVerDate", w.date(2004, 5, 6))
		w.op("RaiseMinorVersion")
		w.get("GetVersionMajor", maj)
		w.get("GetVersionMinor", w.e.A.addc(mnr, 1))
		w.get("GetFirstVerDate", w.date(2001, 2, 3))
		w.get("GetMajorVerDate", w.date(2004, 5, 6))
		w.get("GetMinorVerDate", w.today)
		w.op("SetMinorVerDate", w.date(2007, 8, 9))
		w.op("RaiseMajorVersion")
		w.get("GetVersionMajor", w.e.A.addc(maj, 1))
		w.get("GetVersionMinor", w.c(0))
		w.get("GetFirstVerDate", w.date(2001, 2, 3))
		w.get("GetMajorVerDate", w.today)
		w.get("GetMinorVerDate", w.today)
		w.op("SetMajorVerDate", w.date(2007, 8, 9))
		w.op("SetMinorVerDate", w.date(2007, 8, 9))
		w.op("SetVersion", maj, mnr)
		w.get("GetMajorVerDate", w.today)
		w.get("GetMinorVerDate", w.today)
		w.build()
		w.is("Header.MajorVersionDate", w.today)
		w.is("Header.FirstVersionDate", w.date(2001, 2, 3))
	}},
	{name: "metrics", run: func(w *bworld) { metricsScene(w, true) }},
	{name: "metrics without vertical layout", run: func(w *bworld) { metricsScene(w, false) }},
	{name: "glyphs", run: func(w *bworld) {
		a := w.op("AddGlyph", w.mask(0, -2, 2, 2, 11))
		b := w.op("AddGlyph", w.mask(1, -3, 3, 4, 22))
		c := w.op("AddGlyph", w.mask(0, -1, 1, 1, 33))
		w.op("SetGlyphName", c, w.str("beta"))
		w.op("SetGlyphName", a, w.str("old"))
		w.op("SetGlyphName", a, w.str("gamma"))
		w.op("SetGlyphName", b, w.str("alpha"))
		pt := w.param("SetGlyphPlacement", 1)
		place := func(n string) (Val, Val) {
			adv := w.v("advance "+n, 0, 255)
			f := map[string]Val{"Advance": adv, "TopAdvance": w.v("top "+n, 0, 255), "BottomAdvance": w.v("bottom "+n, 0, 255), "HorzCenter": w.v("center "+n, 0, 255)}
			return w.strct(pt, f), adv
		}
		p, _ := place("x")
		pa, adva := place("a")
		pc, advc := place("c")
		w.op("SetGlyphPlacement", a, p)
		w.op("SetGlyphPlacement", c, pc)
		w.op("SetGlyphPlacement", a, pa)
		w.op("SetVertLayoutUsed", formT)
		w.op("SetVertLineWidth", w.c(5))
		w.get("GetNumGlyphs", w.c(3))
		w.build()
		w.is("Metrics.NumGlyphs", w.c(3))
		w.is("Glyphs.Count", w.c(3))
		w.is("Glyphs.NamedCount", w.c(3))
		w.is("Glyphs.FindIndexByName", w.c(0), w.str("gamma"))
		w.is("Glyphs.FindIndexByName", w.c(1), w.str("alpha"))
		w.is("Glyphs.FindIndexByName", w.c(2), w.str("beta"))
		w.is("Glyphs.FindIndexByName", w.c(56789), w.str("old"))
		w.is("Glyphs.FindIndexByName", w.c(56789), w.str("alphabet"))
		w.is("Glyphs.Placement", pa, w.c(0))
		w.is("Glyphs.Placement", pc, w.c(2))
		w.is("Glyphs.Advance", adva, w.c(0))
		w.is("Glyphs.Advance", w.c(3), w.c(1))
		w.is("Glyphs.Advance", advc, w.c(2))
		for i, x := range []int64{11, 22, 33} {
			f, recv := w.acc("Glyphs.RasterizeMask")
			w.reports(f, "RasterizeMask", []Val{recv, w.c(int64(i))}, []Val{w.c(x)})
		}
	}},
	{name: "glyphs without vertical layout", run: func(w *bworld) {
		a := w.op("AddGlyph", w.mask(0, -2, 2, 2, 11))
		b := w.op("AddGlyph", w.mask(1, -3, 3, 4, 22))
		w.op("SetGlyphName", b, w.str("only"))
		pt := w.param("SetGlyphPlacement", 1)
		adv := w.v("advance", 0, 255)
		w.op("SetGlyphPlacement", a, w.strct(pt, map[string]Val{"Advance": adv, "TopAdvance": w.c(1), "BottomAdvance": w.c(2), "HorzCenter": w.c(3)}))
		w.build()
		w.is("Glyphs.NamedCount", w.c(1))
		w.is("Glyphs.FindIndexByName", w.c(1), w.str("only"))
		w.is("Glyphs.Advance", adv, w.c(0))
		w.is("Glyphs.Advance", w.c(3), w.c(1))
		for i, x := range []int64{11, 22} {
			f, recv := w.acc("Glyphs.RasterizeMask")
			w.reports(f, "RasterizeMask", []Val{recv, w.c(int64(i))}, []Val{w.c(x)})
		}
	}},
	{name: "kerning", run: func(w *bworld) {
		a := w.op("AddGlyph", w.mask(0, -2, 2, 2, 11))
		b := w.op("AddGlyph", w.mask(1, -3, 3, 4, 22))
		c := w.op("AddGlyph", w.mask(0, -1, 1, 1, 33))
		ks := map[[2]int]*Lin{}
		set := func(i, j int, l *Lin) {
			g := []Val{a, b, c}
			w.op("SetKerningPair", g[i], g[j], l)
			ks[[2]int{i, j}] = l
		}
		set(2, 0, w.v("kern0", 1, 127))
		set(0, 1, w.v("kern1", 1, 127))
		set(1, 1, w.v("kern2", -128, -1))
		set(1, 0, w.v("kern3", -128, -1))
		set(0, 1, w.v("kern4", -128, -1))
		set(2, 2, w.c(5))
		set(2, 2, w.c(0))
		set(0, 2, w.c(0))
		w.build()
		w.is("Kerning.NumPairs", w.c(4))
		w.is("Kerning.NumVertPairs", w.c(0))
		for i := 0; i < 3; i++ {
			for j := 0; j < 3; j++ {
				k := ks[[2]int{i, j}]
				if k == nil {
					k = w.c(0)
				}
				w.is("Kerning.Get", k, w.c(int64(i)), w.c(int64(j)))
				w.is("Kerning.GetVert", w.c(0), w.c(int64(i)), w.c(int64(j)))
			}
		}
	}},
	{name: "colors", run: func(w *bworld) {
		w.op("AddGlyph", w.mask(0, -2, 2, 2, 11))
		al := []Val{w.v("alpha0", 0, 255), w.v("alpha1", 0, 255), w.v("alpha2", 0, 255)}
		w.op("AddDye", w.str("main"), al[0], al[1])
		ct := w.param("AddPalette", 1).Underlying().(*types.Slice).Elem()
		col := func(n string) Val {
			return w.strct(ct, map[string]Val{"R": w.v("red "+n, 0, 255), "G": w.v("green "+n, 0, 255), "B": w.v("blue "+n, 0, 255), "A": w.v("alpha "+n, 0, 255)})
		}
		cs := []Val{col("0"), col("1"), col("2"), col("3")}
		w.op("AddPalette", w.str("reds"), cs[0], cs[1], cs[2])
		w.op("AddDye", w.str("out"), al[2])
		w.op("AddPalette", w.str("blues"), cs[3])
		own := func(name, section string, vals [][]Val) {
			f := w.p.method("builder", "Font", name)
			w.reports(f, name, []Val{w.b, w.str(section), FuncV{}}, vals...)
		}
		own("EachDyeAlpha", "main", [][]Val{{al[0], w.c(255)}, {al[1], w.c(254)}})
		own("EachDyeAlpha", "out", [][]Val{{al[2], w.c(253)}})
		own("EachPaletteColor", "reds", [][]Val{{cs[0], w.c(252)}, {cs[1], w.c(251)}, {cs[2], w.c(250)}})
		own("EachPaletteColor", "blues", [][]Val{{cs[3], w.c(249)}})
		w.build()
		w.is("Color.NumDyes", w.c(2))
		w.is("Color.NumPalettes", w.c(2))
		w.is("Color.NumDyeIndices", w.c(3))
		w.is("Color.NumPaletteIndices", w.c(4))
		w.is("Color.Count", w.c(7))
		w.each("Color.EachDye", nil, []Val{w.c(0), w.str("main")}, []Val{w.c(1), w.str("out")})
		w.each("Color.EachPalette", nil, []Val{w.c(0), w.str("reds")}, []Val{w.c(1), w.str("blues")})
		w.is("Color.NumDyeAlphas", w.c(2), w.c(0))
		w.is("Color.NumDyeAlphas", w.c(1), w.c(1))
		w.is("Color.NumPaletteColors", w.c(3), w.c(0))
		w.is("Color.NumPaletteColors", w.c(1), w.c(1))
		w.each("Color.EachDyeAlpha", []Val{w.c(0)}, []Val{al[0]}, []Val{al[1]})
		w.each("Color.EachDyeAlpha", []Val{w.c(1)}, []Val{al[2]})
		w.each("Color.EachPaletteColor", []Val{w.c(0)}, []Val{cs[0]}, []Val{cs[1]}, []Val{cs[2]})
		w.each("Color.EachPaletteColor", []Val{w.c(1)}, []Val{cs[3]})
	}},
	{name: "settings", run: func(w *bworld) {
		w.op("AddGlyph", w.mask(0, -2, 2, 2, 11))
		w.same(w.op("AddSetting", w.str("one"), w.str("big"), w.str("small"), w.str("mid")), w.c(0))
		w.op("AddSetting", w.str("two-x"), w.str("on"), w.str("off"))
		w.op("AddSetting", w.str("three"), w.str("big"), w.str("fall"), w.str("ggfnt"))
		w.build()
		w.is("Settings.Count", w.c(3))
		w.each("Settings.Each", nil, []Val{w.c(0), w.str("one")}, []Val{w.c(1), w.str("two-x")}, []Val{w.c(2), w.str("three")})
		for i, opts := range [][]string{{"big", "small", "mid"}, {"on", "off"}, {"big", "fall", "ggfnt"}} {
			w.is("Settings.GetNumOptions", w.c(int64(len(opts))), w.c(int64(i)))
			for k, o := range opts {
				w.is("Settings.GetOptionName", w.str(o), w.c(int64(i)), w.c(int64(k)))
			}
		}
	}},
	{name: "mapping", run: func(w *bworld) {
		gs := w.marked(6)
		w.op("AddSetting", w.str("one"), w.str("a"), w.str("b"))
		w.op("AddSetting", w.str("two"), w.str("a"), w.str("b"), w.str("c"))
		w.op("AddSetting", w.str("three"), w.str("c"), w.str("b"))
		sw0 := w.op("AddSwitch", w.c(2))
		sw1 := w.op("AddSwitch", w.c(1), w.c(0))
		rt := func(i int64) Val { return w.c(i) }
		w.op("Map", rt('b'), gs[3])
		w.op("MapGroup", rt(0x1F600), w.c(0x23), gs[0], gs[1], gs[2])
		w.op("MapGroup", rt('c'), w.c(0x15), gs[4], gs[1])
		w.op("MapWithSwitchSingles", rt('a'), sw0, gs[5], gs[2])
		ut := w.param("MapWithSwitch", 2)
		inner := ut.Underlying().(*types.Slice).Elem()
		grp := func(is ...int) Val {
			var v []Val
			for _, i := range is {
				v = append(v, gs[i])
			}
			return w.slice(inner, v...)
		}
		w.op("MapWithSwitch", rt(0x3b1), sw1, w.slice(ut, grp(0), grp(1, 2), grp(2), grp(5, 3, 1), grp(4), grp(3, 4)), w.slice(w.param("MapWithSwitch", 3), w.c(1), w.c(2), w.c(7)))
		// again: only the last mapping counts
		w.op("Map", rt(0x20), gs[1])
		w.op("MapGroup", rt('d'), w.c(3), gs[1], gs[2])
		w.op("Map", rt('d'), gs[5])
		w.op("Map", rt(0x20), gs[2])
		w.build()
		w.is("Mapping.NumEntries", w.c(7))
		w.is("Mapping.NumSwitchTypes", w.c(2))
		opts := []int64{2, 3, 2}
		for k := int64(0); k < 12; k++ {
			o := []int64{k % opts[0], k / 2 % opts[1], k / 6}
			sw := [][]int{{5}, {2}}
			w.mapped(w.c('a'), o, 0, sw[o[2]]...)
			cases := [][]int{{0}, {1, 2}, {2}, {5, 3, 1}, {4}, {3, 4}}
			flags := []int64{0, 1, 0, 2, 0, 7}
			c := o[1]*2 + o[0]
			w.mapped(w.c(0x3b1), o, flags[c], cases[c]...)
		}
		o := []int64{0, 1, 1}
		w.mapped(w.c('b'), o, 0, 3)
		w.mapped(w.c(0x1F600), o, 0x23, 0, 1, 2)
		w.mapped(w.c('c'), o, 0x15, 4, 1)
		w.mapped(w.c('d'), o, 0, 5)
		w.mapped(w.c(0x20), o, 0, 2)
		for _, r := range []int64{0x21, 'e', 0, 0x3b0, 0x1F601, 0x10FFFF} {
			w.mapped(w.c(r), o, 0)
		}
	}},
	{name: "rewrite rules", run: func(w *bworld) {
		gs := w.marked(6)
		s0, s1, s2 := w.op("CreateGlyphSet"), w.op("CreateGlyphSet"), w.op("CreateGlyphSet")
		w.op("AddGlyphSetRange", s1, gs[1], gs[4])
		w.op("AddGlyphSetListGlyph", s1, gs[5])
		w.op("AddGlyphSetListGlyph", s1, gs[0])
		w.op("AddGlyphSetRange", s0, gs[2], gs[2])
		w.op("AddGlyphSetRange", s0, gs[4], gs[5])
		w.op("AddGlyphSetListGlyph", s2, gs[3])
		sets := map[Val]string{s0: "2-2 4-5", s1: "1-4 5 0", s2: "3"}
		names := map[Val]string{}
		for i, g := range gs {
			names[g] = fmt.Sprint("glyph ", i)
		}
		for s, c := range sets {
			names[s] = "set " + c
		}
		// the setter's checks and getters of sets
		f := w.p.method("builder", "Font", "EachGlyphSetRange")
		w.reports(f, "EachGlyphSetRange", []Val{w.b, s0, FuncV{}}, []Val{gs[2], gs[2]}, []Val{gs[4], gs[5]})
		f = w.p.method("builder", "Font", "EachGlyphSetListGlyph")
		w.reports(f, "EachGlyphSetListGlyph", []Val{w.b, s1, FuncV{}}, []Val{gs[5]}, []Val{gs[0]})
		rules := []brule{
			{0, 1, 0, []Val{gs[1]}, []int{2}},
			{1, 2, 1, []Val{s1, gs[0], s0, gs[3]}, []int{4, 1}},
			{2, 3, 0, []Val{gs[5], s2, s1, s2, gs[1]}, []int{0}},
			{0, 3, 3, []Val{gs[1], gs[2], s1, gs[2], s0, s0}, []int{5, 5, 3}},
		}
		var long, many, mixed, both []Val
		for i := 0; i < 17; i++ {
			long = append(long, gs[i%6])
			many = append(many, []Val{s0, s1, s2}[i%3])
			mixed = append(mixed, []Val{s2, []Val{s0, s1}[i/4%2], gs[i%6], gs[i/6]}[i%4])
			both = append(both, []Val{gs[i%6], s1}[i/16])
		}
		rules = append(rules, brule{0, 17, 0, long, []int{1}}, brule{1, 1, 15, long, []int{1}}, brule{0, 17, 0, many, []int{2}}, brule{5, 7, 5, mixed, []int{1, 2}}, brule{16, 1, 0, many, []int{3}}, brule{0, 15, 2, long, []int{3}}, brule{0, 15, 2, many, []int{3}}, brule{1, 19, 2, append([]Val{s1, s2, s0, s1, s2}, both...), []int{3}})
		it := w.param("AddGlyphRewriteRule", 3)
		for _, r := range rules {
			args := []Val{w.c(r.head), w.c(r.body), w.c(r.tail), w.slice(it, r.in...)}
			for _, g := range r.out {
				args = append(args, gs[g])
			}
			w.op("AddGlyphRewriteRule", args...)
		}
		w.build()
		w.is("Rewrites.NumGlyphRules", w.c(int64(len(rules))))
		w.is("Rewrites.NumGlyphSets", w.c(3))
		w.is("Rewrites.NumUTF8Rules", w.c(0))
		w.is("Rewrites.NumConditions", w.c(0))
		for i, r := range rules {
			var want []string
			for _, v := range r.in {
				want = append(want, names[v])
			}
			var out [][]Val
			for _, g := range r.out {
				out = append(out, []Val{w.c(int64(g))})
			}
			w.rule("GetGlyphRule", i, r, out, want, 2, func(bytes []Val) string {
				k, ok := w.e.normLinTop(w.st, w.e.A.add(bytes[0].(*Lin), w.e.A.scale(bytes[1].(*Lin), 256))).isConst()
				if !ok {
					return "unknown"
				}
				return fmt.Sprint("glyph ", k)
			})
		}
	}},
	{name: "rewrites of runes", run: func(w *bworld) {
		w.marked(1)
		var rs []Val
		for i := 0; i < 4; i++ {
			rs = append(rs, w.v(fmt.Sprint("rune", i), 32, 0x10FFFF))
		}
		rules := []brule{
			{0, 2, 0, []Val{rs[0], rs[1]}, []int{2}},
			{0, 1, 0, []Val{rs[3]}, []int{0}},
			{0, 3, 0, []Val{rs[1], rs[1], rs[0]}, []int{1}},
		}
		var long []Val
		for i := 0; i < 33; i++ {
			long = append(long, rs[i%4])
		}
		rules = append(rules, brule{0, 15, 0, long[:15], []int{3}}, brule{0, 16, 0, long[:16], []int{2}}, brule{0, 33, 0, long, []int{1}})
		for _, r := range rules {
			w.op("AddSimpleUtf8RewriteRule", append([]Val{rs[r.out[0]]}, r.in...)...)
		}
		w.build()
		w.is("Rewrites.NumGlyphRules", w.c(0))
		w.is("Rewrites.NumGlyphSets", w.c(0))
		w.is("Rewrites.NumUTF8Sets", w.c(0))
		w.is("Rewrites.NumUTF8Rules", w.c(int64(len(rules))))
		for i, r := range rules {
			var want []string
			for _, v := range r.in {
				want = append(want, v.(*Lin).String())
			}
			w.rule("GetUtf8Rule", i, r, [][]Val{{rs[r.out[0]]}}, want, 4, func(bytes []Val) string {
				for k, b := range bytes {
					x, ok := w.enc[b.(*Lin).String()]
					if !ok || x.i != int64(k) || x.n != 4 || x.v.String() != w.enc[bytes[0].(*Lin).String()].v.String() {
						return "unknown"
					}
				}
				return w.enc[bytes[0].(*Lin).String()].v.String()
			})
		}
	}},
	{name: "edited sets", run: func(w *bworld) {
		gs := w.marked(6)
		s0, s1, s2 := w.op("CreateGlyphSet"), w.op("CreateGlyphSet"), w.op("CreateGlyphSet")
		for _, s := range []Val{s0, s1, s2} {
			w.op("AddGlyphSetRange", s, gs[0], gs[1])
			w.op("AddGlyphSetRange", s, gs[0], gs[2])
			w.op("AddGlyphSetRange", s, gs[3], gs[2+1])
			w.op("AddGlyphSetListGlyph", s, gs[5])
			w.op("AddGlyphSetListGlyph", s, gs[4])
		}
		w.refuses("AddGlyphSetRange", s1, gs[0], gs[2])
		w.refuses("AddGlyphSetListGlyph", s1, gs[4])
		w.op("RemoveGlyphSet", s0)
		w.op("RemoveGlyphSetRange", s2, gs[0], gs[2])
		w.op("RemoveGlyphSetListGlyph", s2, gs[5])
		w.refuses("AddGlyphSetRange", s0, gs[0], gs[2])
		w.refuses("AddGlyphRewriteRule", w.c(0), w.c(1), w.c(0), w.slice(w.param("AddGlyphRewriteRule", 3), s0), gs[1])
		it := w.param("AddGlyphRewriteRule", 3)
		w.op("AddGlyphRewriteRule", w.c(0), w.c(2), w.c(0), w.slice(it, s2, s1), gs[1])
		w.build()
		w.is("Rewrites.NumGlyphSets", w.c(2))
		w.rule("GetGlyphRule", 0, brule{0, 2, 0, nil, []int{1}}, [][]Val{{w.c(1)}}, []string{"set 0-1 3-3 4", "set 0-1 0-2 3-3 5 4"}, 2, func([]Val) string { return "unknown" })
	}},
	{name: "all color indices", run: func(w *bworld) {
		w.marked(1)
		al := []Val{w.str("main")}
		for i := int64(0); i < 200; i++ {
			al = append(al, w.c(255-i))
		}
		w.op("AddDye", al...)
		ct := w.param("AddPalette", 1).Underlying().(*types.Slice).Elem()
		color := func(i int64) Val {
			return w.strct(ct, map[string]Val{"R": w.c(i), "G": w.c(i + 1), "B": w.c(i + 2), "A": w.c(i + 3)})
		}
		cs := []Val{w.str("other")}
		for i := int64(0); i < 56; i++ {
			cs = append(cs, color(i))
		}
		w.refuses("AddPalette", cs...)
		w.op("AddPalette", cs[:56]...)
		w.refuses("AddDye", w.str("more"), w.c(1))
		w.refuses("AddPalette", w.str("more"), color(1))
		w.build()
		w.is("Color.Count", w.c(255))
		w.is("Color.NumDyeAlphas", w.c(200), w.c(0))
		w.is("Color.NumPaletteColors", w.c(55), w.c(0))
		rows := func(vals []Val) (out [][]Val) {
			for _, v := range vals {
				out = append(out, []Val{v})
			}
			return
		}
		w.each("Color.EachDyeAlpha", []Val{w.c(0)}, rows(al[1:])...)
		w.each("Color.EachPaletteColor", []Val{w.c(0)}, rows(cs[1:56])...)
	}},
	{name: "largest switch", large: true, run: func(w *bworld) {
		gs := w.marked(3)
		opts := func(n int) (out []Val) {
			for i := 0; i < n; i++ {
				out = append(out, w.str(fmt.Sprintf("w%c%c", 'a'+i/26, 'a'+i%26)))
			}
			return
		}
		w.op("AddSetting", append([]Val{w.str("many")}, opts(127)...)...)
		w.op("AddSetting", append([]Val{w.str("two")}, opts(2)...)...)
		w.op("AddSetting", append([]Val{w.str("more")}, opts(85)...)...)
		w.op("AddSetting", append([]Val{w.str("three")}, opts(3)...)...)
		w.refuses("AddSetting", append([]Val{w.str("three")}, opts(2)...)...)
		w.refuses("AddSetting", w.str("none"))
		w.refuses("AddSwitch", w.c(2), w.c(3))
		w.refuses("AddSwitch", w.c(4))
		w.refuses("AddSwitch", w.c(1), w.c(1))
		w.refuses("AddSwitch")
		sw := w.op("AddSwitch", w.c(0), w.c(1))
		args := []Val{w.c('x'), sw}
		for i := 0; i < 254; i++ {
			args = append(args, gs[i%3])
		}
		w.refuses("MapWithSwitchSingles", args[:255]...)
		w.op("MapWithSwitchSingles", args...)
		w.build()
		for _, o := range [][]int64{{0, 0, 5, 1}, {0, 1, 0, 0}, {126, 1, 3, 2}, {126, 0, 80, 2}, {77, 1, 3, 2}} {
			w.mapped(w.c('x'), o, 0, int(o[0]*2+o[1])%3)
		}
		for i, n := range []int64{127, 2, 85, 3} {
			w.is("Settings.GetNumOptions", w.c(n), w.c(int64(i)))
		}
		w.is("Settings.GetOptionName", w.str("wew"), w.c(0), w.c(126))
	}},
	{name: "many words", run: func(w *bworld) {
		w.marked(1)
		names := strings.Fields("aa fall bb cc dd ee ff gg hh ii jj kk")
		args := []Val{w.str("all")}
		for _, n := range names {
			args = append(args, w.str(n))
		}
		w.op("AddSetting", args...)
		w.op("AddSetting", w.str("some"), w.str("kk"), w.str("aa"), w.str("fall"))
		w.build()
		for i, n := range names {
			w.is("Settings.GetOptionName", w.str(n), w.c(0), w.c(int64(i)))
		}
		for i, n := range []string{"kk", "aa", "fall"} {
			w.is("Settings.GetOptionName", w.str(n), w.c(1), w.c(int64(i)))
		}
	}},
	{name: "largest groups", run: func(w *bworld) {
		gs := w.marked(4)
		seq := []int{}
		var vals []Val
		for i := 0; i < 128; i++ {
			k := (i*i + i/7) % 4
			seq, vals = append(seq, k), append(vals, gs[k])
		}
		w.refuses("MapGroup", append([]Val{w.c('a'), w.c(1)}, vals...)...)
		w.refuses("MapGroup", w.c('a'), w.c(1), gs[0])
		w.op("MapGroup", append([]Val{w.c('a'), w.c(1)}, vals[:127]...)...)
		w.op("AddSetting", w.str("two"), w.str("a"), w.str("b"))
		sw := w.op("AddSwitch", w.c(0))
		ut := w.param("MapWithSwitch", 2)
		inner := ut.Underlying().(*types.Slice).Elem()
		ft := w.param("MapWithSwitch", 3)
		w.refuses("MapWithSwitch", w.c('b'), sw, w.slice(ut, w.slice(inner, vals...), w.slice(inner, gs[1])), w.slice(ft, w.c(4)))
		w.refuses("MapWithSwitch", w.c('b'), sw, w.slice(ut, w.slice(inner, vals[:9]...), w.slice(inner, gs[1])), w.slice(ft))
		w.refuses("MapWithSwitch", w.c('b'), sw, w.slice(ut, w.slice(inner, gs[2]), w.slice(inner, gs[1])), w.slice(ft, w.c(4)))
		w.op("MapWithSwitch", w.c('b'), sw, w.slice(ut, w.slice(inner, vals[:127]...), w.slice(inner, gs[1])), w.slice(ft, w.c(4)))
		w.refuses("Map", w.c(31), gs[0])
		w.refuses("Map", w.c('c'), w.c(12345))
		w.refuses("MapGroup", w.c('c'), w.c(1), gs[0], w.c(12345))
		w.refuses("MapWithSwitchSingles", w.c('c'), sw, gs[0], w.c(12345))
		w.build()
		w.is("Mapping.NumEntries", w.c(2))
		w.mapped(w.c('a'), []int64{0}, 1, seq[:127]...)
		w.mapped(w.c('b'), []int64{0}, 4, seq[:127]...)
		w.mapped(w.c('b'), []int64{1}, 0, 1)
	}},
	{name: "bounds of glyphs and names", large: true, run: func(w *bworld) {
		w.op("SetMonoWidth", w.c(5))
		w.op("SetAscent", w.c(6))
		w.op("SetExtraAscent", w.c(2))
		w.op("SetUppercaseAscent", w.c(6))
		w.op("SetMidlineAscent", w.c(3))
		w.op("SetDescent", w.c(3))
		w.op("SetExtraDescent", w.c(1))
		w.op("AddGlyph", w.mask(0, -8, 5, 12))
		w.refuses("AddGlyph", w.mask(0, -9, 5, 12))
		w.refuses("AddGlyph", w.mask(0, -8, 5, 13))
		w.refuses("AddGlyph", w.mask(0, -8, 6, 12))
		w.refuses("AddGlyph", w.mask(-1, -8, 3, 3))
		long := strings.Repeat("name ", 51)
		for _, n := range []string{"Name", "Family", "Author"} {
			w.refuses("Set"+n, w.str(long+"x"))
			w.refuses("Set"+n, w.str("ab\x1fc"))
			w.refuses("Set"+n, w.str("ab\xffc"))
			w.op("Set"+n, w.str(long))
			w.get("Get"+n, w.str(long))
		}
		w.refuses("SetName", w.str(""))
		w.refuses("SetAbout", w.str("ab\x1fc"))
		w.op("SetAbout", w.str(long+"y"))
		w.build()
		for _, n := range []string{"Name", "Family", "Author"} {
			w.is("Header."+n, w.str(long))
		}
		w.is("Header.About", w.str(long+"y"))
		w.is("Metrics.NumGlyphs", w.c(1))
	}},
}

type brule struct {
	head, body, tail int64
	in               []Val
	out              []int
}

// rule checks a rewrite rule of the font
func (w *bworld) rule(name string, i int, r brule, out [][]Val, want []string, size int, elem func(bytes []Val) string) {
	f, recv := w.acc("Rewrites." + name)
	w.read(f, []Val{recv, w.c(int64(i))}, func(o outcome, _ []cbEv) {
		rt := f.Signature.Results().At(0).Type()
		obj := w.e.newObj("rule", "alloc", rt)
		w.e.writeCell(w.st, obj, "", nil, rt, o.val)
		ptr := PtrV{o: obj}
		for n, v := range map[string]int64{"Condition": 255, "HeadLen": r.head, "BodyLen": r.body, "TailLen": r.tail, "OutLen": int64(len(r.out))} {
			m := w.methodOf(rt, n)
			w.read(m, []Val{ptr}, func(o outcome, _ []cbEv) {
				if !w.same(o.val, w.c(v)) {
					w.bad(m, fmt.Sprintf("rule %d: %s", i, n), nil, "doesn't report what was given to the builder")
				}
			})
		}
		w.reports(w.methodOf(rt, "EachOut"), fmt.Sprintf("rule %d: EachOut", i), []Val{ptr, FuncV{}}, out...)
		data := w.data(o.val)
		at := 5 + size*len(r.out)
		take := func() Val {
			if at >= len(data) {
				return nil
			}
			at++
			return data[at-1]
		}
		num := func(v Val) int {
			l, ok := v.(*Lin)
			if !ok {
				return -1
			}
			k, ok := w.e.normLinTop(w.st, l).isConst()
			if !ok {
				return -1
			}
			return int(k)
		}
		var got []string
		for b, n := range []int64{r.head, r.body, r.tail} {
			todo := int(n)
			for first := true; todo > 0 || first; first = false {
				c := num(take())
				if c < 0 || n > 0 && c == 0 || c>>4+c&15 > todo {
					w.bad(f, fmt.Sprintf("rule %d", i), nil, fmt.Sprintf("has a malformed block %d", b))
					return
				}
				todo -= c>>4 + c&15
				for k := 0; k < c>>4; k++ {
					got = append(got, "set "+w.set(num(take())))
				}
				for k := 0; k < c&15; k++ {
					var bytes []Val
					for j := 0; j < size; j++ {
						bytes = append(bytes, take())
					}
					for _, x := range bytes {
						if x == nil {
							w.bad(f, fmt.Sprintf("rule %d", i), nil, "is cut short")
							return
						}
					}
					got = append(got, elem(bytes))
				}
			}
		}
		if at != len(data) || strings.Join(got, ", ") != strings.Join(want, ", ") {
			w.bad(f, fmt.Sprintf("rule %d", i), nil, fmt.Sprintf("matches %s, not what was given to the builder: %s", strings.Join(got, ", "), strings.Join(want, ", ")))
		}
	})
}

// data are the bytes of a raw block
func (w *bworld) data(v Val) []Val {
	sv, ok := v.(StructV)
	if !ok || len(sv.fields) != 1 {
		panic(undecided("unknown block of data"))
	}
	s, ok := sv.fields[0].(SliceV)
	if !ok {
		panic(undecided("unknown block of data"))
	}
	n, known := w.e.normLinTop(w.st, s.len).isConst()
	if !known || n > 4096 {
		panic(undecided("unknown size of a block of data"))
	}
	var out []Val
	for i := int64(0); i < n; i++ {
		out = append(out, w.e.readCell(w.st, s.o, s.skel+"[]", append(append([]*Lin{}, s.idx...), w.e.A.addc(s.off, i)), types.Typ[types.Uint8]))
	}
	return out
}

// set is the contents of a glyph set of the font, as "first-last … glyph …"
func (w *bworld) set(i int) string {
	res := "missing"
	f, recv := w.acc("Rewrites.GetGlyphSet")
	if i < 0 || i > 2 {
		return res
	}
	w.read(f, []Val{recv, w.c(int64(i))}, func(o outcome, _ []cbEv) {
		t := f.Signature.Results().At(0).Type()
		obj := w.e.newObj("set", "alloc", t)
		w.e.writeCell(w.st, obj, "", nil, t, o.val)
		var all []string
		for _, n := range []string{"EachRange", "EachListGlyph"} {
			w.read(w.methodOf(t, n), []Val{PtrV{o: obj}, FuncV{}}, func(_ outcome, cbs []cbEv) {
				for _, c := range cbs {
					var part []string
					v := c.args[0]
					fields := []Val{v}
					if s, ok := v.(StructV); ok {
						fields = s.fields
					}
					for _, x := range fields {
						k := "unknown"
						if l, ok := x.(*Lin); ok {
							if c, ok := w.e.normLinTop(w.st, l).isConst(); ok {
								k = fmt.Sprint(c)
							}
						}
						part = append(part, k)
					}
					all = append(all, strings.Join(part, "-"))
				}
			})
		}
		res = strings.Join(all, " ")
	})
	return res
}

// runeOrders are the ways in which three runes are ordered
var runeOrders = [][3]int{{0, 0, 0}, {0, 0, 1}, {0, 1, 0}, {1, 0, 0}, {0, 1, 1}, {1, 0, 1}, {1, 1, 0}, {0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

func init() {
	for _, o := range runeOrders {
		o := o
		bscenes = append(bscenes, bscene{name: fmt.Sprintf("mapping of any runes ordered as %v", o), run: func(w *bworld) { runesScene(w, o) }})
	}
}

// runesScene maps three runes of any values in the given order
func runesScene(w *bworld, ranks [3]int) {
	gs := w.marked(3)
	sym := []*Lin{w.v("rune0", 32, 0x10FFFF), w.v("rune1", 32, 0x10FFFF), w.v("rune2", 32, 0x10FFFF)}
	for i := 0; i < 2; i++ {
		w.st.f.addGE(w.e.A, w.e.A.addc(w.e.A.sub(sym[i+1], sym[i]), -1))
	}
	last := map[int]int{}
	for i, k := range ranks {
		w.op("Map", sym[k], gs[i])
		last[k] = i
	}
	w.build()
	w.is("Mapping.NumEntries", w.c(int64(len(last))))
	for k, i := range last {
		w.mapped(sym[k], []int64{}, 0, i)
	}
	// a rune between two of them isn't mapped
	if len(last) > 1 {
		x := w.v("unmapped rune", 32, 0x10FFFF)
		w.st.f.addGE(w.e.A, w.e.A.addc(w.e.A.sub(x, sym[0]), -1))
		w.st.f.addGE(w.e.A, w.e.A.addc(w.e.A.sub(sym[1], x), -1))
		w.mapped(x, []int64{}, 0)
	}
}

// marked adds glyphs of one pixel
func (w *bworld) marked(n int) []Val {
	var gs []Val
	for i := 0; i < n; i++ {
		gs = append(gs, w.op("AddGlyph", w.mask(0, -1, 1, 1, int64(i+1))))
	}
	return gs
}

// mapped checks the glyphs of a rune for the given settings
func (w *bworld) mapped(r *Lin, settings []int64, flags int64, glyphs ...int) {
	f, recv := w.acc("Mapping.Utf8")
	var set []Val
	for _, s := range settings {
		set = append(set, w.c(s))
	}
	args := []Val{recv, r, w.slice(f.Signature.Params().At(1).Type(), set...)}
	w.read(f, args, func(o outcome, _ []cbEv) {
		t, ok := o.val.(TupleV)
		if !ok || !w.same(t[1], fConst(len(glyphs) > 0)) {
			w.bad(f, "Utf8", args[1:], fmt.Sprintf("with settings %v: reported as mapped or not, against what was added", settings))
			return
		}
		if len(glyphs) == 0 {
			return
		}
		gt := f.Signature.Results().At(0).Type()
		obj := w.e.newObj("group", "alloc", gt)
		w.e.writeCell(w.st, obj, "", nil, gt, t[0])
		group := PtrV{o: obj}
		check := func(name string, want Val, args ...Val) {
			m := w.methodOf(gt, name)
			w.read(m, append([]Val{group}, args...), func(o outcome, _ []cbEv) {
				if !w.same(o.val, want) {
					w.bad(m, fmt.Sprintf("rune %s with settings %v: %s", r.String(), settings, name), args, fmt.Sprintf("reports %v, not the value given to the builder (%v)", o.val, want))
				}
			})
		}
		check("Size", w.c(int64(len(glyphs))))
		check("AnimationFlags", w.c(flags))
		for i, g := range glyphs {
			check("Select", w.c(int64(g)), w.c(int64(i)))
		}
	})
}

func metricsScene(w *bworld, vert bool) {
	w.op("AddGlyph", w.mask(0, -1, 1, 1))
	m := map[string]*Lin{}
	set := func(n string, lo, hi int64) {
		m[n] = w.v(n, lo, hi)
		w.op("Set"+n, m[n])
	}
	set("MonoWidth", 1, 255)
	set("Ascent", 20, 255)
	set("ExtraAscent", 0, 19)
	set("Descent", 0, 255)
	set("ExtraDescent", 0, 10)
	set("UppercaseAscent", 10, 20)
	set("MidlineAscent", 1, 10)
	set("HorzInterspacing", 0, 255)
	set("LineGap", 0, 255)
	w.op("SetVertLayoutUsed", fConst(vert))
	if vert {
		set("VertInterspacing", 1, 255)
		set("VertLineWidth", 1, 255)
		set("VertLineGap", 0, 255)
	} else {
		for _, n := range []string{"VertInterspacing", "VertLineWidth", "VertLineGap"} {
			m[n] = w.c(0)
		}
	}
	for n, v := range m {
		w.get("Get"+n, v)
	}
	w.build()
	for n, v := range m {
		w.is("Metrics."+n, v)
	}
	w.is("Metrics.NumGlyphs", w.c(1))
	w.is("Metrics.HasVertLayout", fConst(vert))
	w.is("Metrics.Monospaced", formT)
}
