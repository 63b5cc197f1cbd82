package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The contract of the parsing buffer: the bytes it holds are always the first bytes of the decompressed stream, and
// its operations report success only with the data they promise. The decompressor is interpreted by the contract of
// io.Reader: any number of bytes up to the size of the target, with no error, with the end of the stream, or with
// another error.

type pbuf struct {
	p      *Prog
	typ    *types.Named
	reader *ssa.Function // the function that reads from the decompressor
	eof    string        // the field that tells the end of the stream
}

// isGzipRead tells the calls that read from the decompressor, and their target argument
func gzipTarget(cc *ssa.CallCommon) (int, bool) {
	f := cc.StaticCallee()
	if f == nil || f.Pkg == nil && f.Signature.Recv() == nil {
		return 0, false
	}
	if f.Name() == "Read" && f.Signature.Recv() != nil && strings.HasSuffix(f.Signature.Recv().Type().String(), "compress/gzip.Reader") {
		return 1, true
	}
	return 0, false
}

func findPbuf(p *Prog) *pbuf {
	t := p.pkg("internal").Type("ParsingBuffer")
	if t == nil {
		panic(undecided("no type ParsingBuffer"))
	}
	b := &pbuf{p: p, typ: t.Type().(*types.Named)}
	var fns []*ssa.Function
	for _, fn := range p.Funcs {
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if _, is := gzipTarget(c.Common()); is {
						fns = append(fns, fn)
					}
				}
			}
		}
	}
	if len(fns) == 0 {
		panic(undecided("no read of the decompressor was found"))
	}
	for _, fn := range fns {
		if fn != fns[0] {
			panic(undecided("several functions read from the decompressor"))
		}
	}
	b.reader = fns[0]
	if b.reader.Signature.Recv() == nil || typeName(b.reader.Signature.Recv().Type()) != "ParsingBuffer" {
		panic(undecided("the decompressor is not read by a method of the parsing buffer"))
	}
	s := b.typ.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if bt, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			if b.eof != "" {
				panic(undecided("several flags in the parsing buffer"))
			}
			b.eof = s.Field(i).Name()
		}
	}
	if b.eof == "" {
		panic(undecided("no end of stream flag in the parsing buffer"))
	}
	return b
}

var byteSlice = types.NewSlice(types.Typ[types.Uint8])

type pbufState struct {
	e      *Engine
	st     *State
	self   PtrV
	stream *Obj
	ghost  *Obj
	D, I   *Lin // bytes held, position
	eof0   *Form
	temp   SliceV
}

func (b *pbuf) start() *pbufState {
	e := newEngine(b.p)
	st := e.newState()
	s := &pbufState{e: e, st: st}
	s.self = e.symVal(types.NewPointer(b.typ), "parser", nil, nil).(PtrV)
	s.stream = e.symObj("stream", types.Typ[types.Uint8])
	s.ghost = e.symObj("ghost", types.Typ[types.Int])
	s.D = e.A.of(e.A.mk("var", "bytes held", 0, maxFontData))
	s.I = e.A.of(e.A.mk("var", "position", 0, maxFontData))
	st.f.addGE(e.A, e.A.sub(s.D, s.I))
	s.set("Index", types.Typ[types.Int], s.I)
	s.ghostSet(st, "D", s.D)
	t, ok := e.readCell(st, s.self.o, s.self.skel+".TempBuff", s.self.idx, byteSlice).(SliceV)
	if !ok {
		panic(undecided("no TempBuff in the parsing buffer"))
	}
	s.temp = t
	st.f.addGE(e.A, e.A.addc(t.len, -1))
	st.f.addGE(e.A, e.A.sub(e.c(1<<20), t.len))
	s.eof0, ok = e.readCell(st, s.self.o, s.self.skel+"."+b.eof, s.self.idx, types.Typ[types.Bool]).(*Form)
	if !ok {
		panic(undecided("end of stream flag"))
	}
	return s
}

func (s *pbufState) set(f string, t types.Type, v Val) {
	s.e.writeCell(s.st, s.self.o, s.self.skel+"."+f, s.self.idx, t, v)
}

func (s *pbufState) ghostSet(st *State, f string, v *Lin) {
	s.e.writeCell(st, s.ghost, "."+f, nil, types.Typ[types.Int], v)
}

func (s *pbufState) ghostGet(st *State, f string) *Lin {
	l, _ := s.e.readCell(st, s.ghost, "."+f, nil, types.Typ[types.Int]).(*Lin)
	return l
}

func (s *pbufState) get(st *State, f string, t types.Type) Val {
	return s.e.readCell(st, s.self.o, s.self.skel+"."+f, s.self.idx, t)
}

// checkReader checks the function that reads from the decompressor
func (b *pbuf) checkReader(fail func(rule, pos, d string)) {
	s := b.start()
	e, st := s.e, s.st
	p := b.p
	e.MergeLimit = 1 << 20
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int {
		if fn == b.reader {
			return 6
		}
		return 0
	}
	// the bytes held: a copy of the first bytes of the stream
	held := e.symObj("held bytes", types.Typ[types.Uint8])
	bs := SliceV{o: held, off: e.c(0), len: s.D, cap: e.A.of(e.A.mk("var", "capacity", 0, infNum))}
	st.f.addGE(e.A, e.A.sub(bs.cap, s.D))
	sreg := e.regionOf(st, s.stream, "[]", types.Typ[types.Uint8])
	hreg := e.regionOf(st, held, "[]", types.Typ[types.Uint8])
	st.mem[memKey{held, "[]"}] = &region{base: hreg.base, prev: hreg, w: &regWrite{bulk: true, lo: e.c(0), n: s.D, sreg: sreg, soff: e.c(0)}, depth: hreg.depth + 1}
	s.set("Bytes", byteSlice, bs)
	s.ghostSet(st, "reads", e.c(0))
	s.ghostSet(st, "empty", e.c(0))
	s.ghostSet(st, "last", e.c(0)) // 0: nil, 1: end of the stream, 2: error
	io := p.SSA.ImportedPackage("io")
	if io == nil || io.Var("EOF") == nil {
		panic(undecided("no io.EOF"))
	}
	gl := e.symObj("global "+io.Var("EOF").String(), io.Var("EOF").Type().Underlying().(*types.Pointer).Elem())
	gl.kind = "global"
	eof := e.readCell(st, gl, "", nil, gl.typ)
	bad := e.errVal("failed read")
	st = one1(e.assume(st, e.isNilForm(eof), false))
	st = one1(e.assume(st, e.eqForm(st, eof, bad), false))
	for i := 0; i <= 6; i++ {
		s.ghostSet(st, fmt.Sprint("n", i), e.c(0))
	}
	e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.name == "errors.Is" && len(ci.args) == 2 {
			return []callOut{{st: st, val: e.eqForm(st, ci.args[0], ci.args[1])}}, true
		}
		ti, is := gzipTarget(ci.cc)
		if !is {
			return nil, false
		}
		t, ok := ci.args[ti].(SliceV)
		if !ok {
			panic(undecided("unknown target of a read"))
		}
		if !st.f.proveGE(e.A, e.A.addc(t.len, -1)) {
			fail("read", p.instrPos(ci.in), "the target of the read can be empty")
		}
		rd := s.ghostGet(st, "reads")
		ri, _ := rd.isConst()
		if k, _ := s.ghostGet(st, "last").isConst(); k != 0 {
			fail("read", p.instrPos(ci.in), "the stream is read again after its end or after an error")
		}
		var outs []callOut
		for _, empty := range []bool{true, false} {
			for last := int64(0); last < 3; last++ {
				ns := st.clone()
				n := e.c(0)
				if !empty {
					n = e.A.of(e.A.mk("var", fmt.Sprint("bytes of read ", ri+1), 1, infNum))
					ns.f.addGE(e.A, e.A.sub(t.len, n))
					D := s.ghostGet(ns, "D")
					treg := e.regionOf(ns, t.o, t.skel+"[]", types.Typ[types.Uint8])
					ns.mem[memKey{t.o, t.skel + "[]"}] = &region{base: treg.base, prev: treg, w: &regWrite{bulk: true, lo: t.off, n: n, sreg: e.regionOf(ns, s.stream, "[]", types.Typ[types.Uint8]), soff: D}, depth: treg.depth + 1}
					s.ghostSet(ns, "D", e.A.add(D, n))
					s.ghostSet(ns, "empty", e.c(0))
				} else {
					s.ghostSet(ns, "empty", e.A.addc(s.ghostGet(ns, "empty"), 1))
				}
				s.ghostSet(ns, fmt.Sprint("n", ri), n)
				s.ghostSet(ns, "reads", e.c(ri+1))
				s.ghostSet(ns, "last", e.c(last))
				var ev Val = NilV{}
				switch last {
				case 0:
					ev = IfaceV{isNil: true}
				case 1:
					ev = eof
				case 2:
					ev = bad
				}
				outs = append(outs, callOut{st: ns, val: TupleV{n, ev}})
			}
		}
		return outs, true
	}
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			fail("panic", p.instrPos(in), kind+" "+detail)
		}
	}
	args := []Val{s.self}
	for _, pa := range b.reader.Params[1:] {
		args = append(args, e.symVal(pa.Type(), pa.Name(), nil, nil))
	}
	nok := 0
	for _, o := range e.callFn(b.reader, args, nil, st) {
		if e.impossible(o.st) {
			continue
		}
		pos := p.instrPos(o.in)
		D := s.ghostGet(o.st, "D")
		last, _ := s.ghostGet(o.st, "last").isConst()
		reads, _ := s.ghostGet(o.st, "reads").isConst()
		empty, _ := s.ghostGet(o.st, "empty").isConst()
		ev := o.val
		if t, ok := ev.(TupleV); ok {
			ev = t[len(t)-1]
		}
		isNil, known := e.decide(o.st, e.isNilForm(ev))
		if !known {
			fail("read", pos, "unknown result of a read")
			continue
		}
		big := o.st.f.proveGE(e.A, e.A.addc(D, -maxFontData-1))
		if !isNil {
			wasEOF, k := e.decide(o.st, s.eof0)
			switch {
			case last == 2 || big:
			case k && wasEOF && reads == 0:
			case last == 0 && empty >= 2:
			default:
				fail("chunks", pos, fmt.Sprintf("a read of %s bytes (%s) fails, without a read error and within the size limit: the result depends on how the source splits the data", e.A.sub(D, s.D), []string{"no error", "end of the stream", "error"}[last]))
			}
			continue
		}
		nok++
		if last == 2 {
			fail("read", pos, "a read error is lost")
			continue
		}
		if !o.st.f.proveGE(e.A, e.A.sub(e.c(maxFontData), D)) {
			fail("limit", pos, "reading can succeed with more data than the maximum size")
		}
		bs, ok := s.get(o.st, "Bytes", byteSlice).(SliceV)
		if !ok {
			fail("append", pos, "the bytes held are lost")
			continue
		}
		if !o.st.f.proveEQ(e.A, e.A.sub(bs.len, D)) {
			fail("append", pos, fmt.Sprintf("after reading, %s bytes are held and not the %s bytes read so far", bs.len, D))
			continue
		}
		// contents
		k := e.A.of(e.A.mk("var", "k", 0, infNum))
		os1 := o.st.clone()
		os1.f.addGE(e.A, e.A.sub(D, e.A.addc(k, 1)))
		forms := []*Form{}
		sum := s.D
		for i := int64(0); i <= reads; i++ {
			forms = append(forms, e.ge(e.A.sub(k, sum)))
			if n := s.ghostGet(o.st, fmt.Sprint("n", i)); n != nil {
				sum = e.A.add(sum, n)
			}
		}
		c := &acc{e: e, p: p, st: os1}
		for _, fs := range c.fork(os1, forms...) {
			got := e.readCell(fs, bs.o, bs.skel+"[]", append(append([]*Lin{}, bs.idx...), e.A.add(bs.off, k)), types.Typ[types.Uint8])
			want := e.readCell(fs, s.stream, "[]", []*Lin{k}, types.Typ[types.Uint8])
			if g, ok := got.(*Lin); !ok || !fs.f.proveEQ(e.A, e.A.sub(g, want.(*Lin))) {
				fail("append", pos, fmt.Sprintf("the byte held at position k is %s and not byte k of the stream", valKey(got)))
				break
			}
		}
		// the position must not move, unless this function also advances
		if l, ok := s.get(o.st, "Index", types.Typ[types.Int]).(*Lin); !ok || !o.st.f.proveEQ(e.A, e.A.sub(l, s.I)) {
			fail("position", pos, "the position in the data changes when more data is read")
		}
		f, ok := s.get(o.st, b.eof, types.Typ[types.Bool]).(*Form)
		if !ok {
			fail("end", pos, "unknown end of stream flag")
			continue
		}
		if last == 1 {
			if v, k := e.decide(o.st, f); !k || !v {
				fail("end", pos, "the end of the stream is not recorded")
			}
		} else if f.String() != s.eof0.String() {
			if v, k := e.decide(o.st, f); !k || v {
				fail("end", pos, "the end of the stream is recorded although the stream has not ended")
			}
		}
		if last == 0 && st.f.proveEQ(e.A, e.A.sub(D, s.D)) && reads > 0 {
			fail("progress", pos, "a read reports success without any data")
		}
		if t, ok := s.get(o.st, "TempBuff", byteSlice).(SliceV); !ok || !o.st.f.proveGE(e.A, e.A.addc(t.len, -1)) {
			fail("position", pos, "the read buffer can become empty")
		}
	}
	if nok == 0 {
		fail("read", "-", "no read can succeed")
	}
}

func one1(s []*State) *State {
	if len(s) != 1 {
		panic(undecided("ambiguous assumption"))
	}
	return s[0]
}

// checkOp checks one operation of the parsing buffer against the contract that the analysis of Parse uses
func (b *pbuf) checkOp(fn *ssa.Function, fail func(rule, pos, d string)) {
	s := b.start()
	e, st := s.e, s.st
	p := b.p
	name := fn.Name()
	e.MergeLimit = 64
	bs := SliceV{o: s.stream, off: e.c(0), len: s.D, cap: e.c(maxFontData)}
	s.set("Bytes", byteSlice, bs)
	s.ghostSet(st, "failed", e.c(0))
	nread := 0
	e.Override = func(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
		if ci.fn != b.reader {
			return nil, false
		}
		if self, ok := ci.args[0].(PtrV); !ok || self.o != s.self.o {
			panic(undecided("another parsing buffer"))
		}
		old, ok := s.get(st, "Bytes", byteSlice).(SliceV)
		if !ok || old.o != s.stream {
			fail("contract", p.instrPos(ci.in), "the bytes held are replaced")
			return nil, false
		}
		nread++
		var outs []callOut
		for i := 0; i < 3; i++ {
			ns := st.clone()
			l := e.A.of(e.A.fresh("bytes held", 0, maxFontData))
			nb := bs
			nb.len = l
			ns.f.addGE(e.A, e.A.sub(l, old.len))
			f := formF
			switch i {
			case 0:
				ns.f.addGE(e.A, e.A.addc(e.A.sub(l, old.len), -1))
			case 1:
				f = formT
			}
			if i == 2 {
				e.writeCell(ns, s.self.o, s.self.skel+"."+b.eof, s.self.idx, types.Typ[types.Bool], e.freshVal(types.Typ[types.Bool], "eof"))
				s.ghostSet(ns, "failed", e.c(1))
			} else {
				e.writeCell(ns, s.self.o, s.self.skel+"."+b.eof, s.self.idx, types.Typ[types.Bool], f)
			}
			e.writeCell(ns, s.self.o, s.self.skel+".Bytes", s.self.idx, byteSlice, nb)
			v := Val(IfaceV{isNil: true})
			if i == 2 {
				v = e.errVal("failed read")
			}
			outs = append(outs, callOut{st: ns, val: v})
		}
		return outs, true
	}
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			fail("panic", p.instrPos(in), kind+" "+detail)
		}
	}
	c := &acc{e: e, p: p, st: st, data: bs}
	args := []Val{s.self}
	var n *Lin
	for _, pa := range fn.Params[1:] {
		v := e.symVal(pa.Type(), pa.Name(), nil, nil)
		if l, ok := v.(*Lin); ok && name == "AdvanceBytes" {
			n = l
			st.f.addGE(e.A, l)
			st.f.addGE(e.A, e.A.sub(e.c(1<<31), l))
		}
		args = append(args, v)
	}
	w, isRead := readWidths[name]
	want := e.c(0) // bytes consumed, once they are available
	switch {
	case name == "InitBuffers":
	case name == "EnsureEOF":
	case isRead:
		want = e.c(int64(w))
	case name == "AdvanceBytes":
		want = n
	case name == "AdvanceShortSlice", name == "ReadShortStr":
		want = c.add(c.k(1), c.u8(s.I))
	case name == "ReadString":
		want = c.add(c.k(2), c.u16(s.I))
	}
	e.Outer = append(e.Outer, s.I, want)
	for _, o := range e.callFn(fn, args, nil, st) {
		if e.impossible(o.st) {
			continue
		}
		pos := p.instrPos(o.in)
		c.st = o.st
		I, ok1 := s.get(o.st, "Index", types.Typ[types.Int]).(*Lin)
		nb, ok2 := s.get(o.st, "Bytes", byteSlice).(SliceV)
		f, ok3 := s.get(o.st, b.eof, types.Typ[types.Bool]).(*Form)
		if !ok1 || !ok2 || !ok3 {
			fail("contract", pos, "the state of the parsing buffer is lost")
			continue
		}
		if name == "InitBuffers" {
			if k, ok := nb.len.isConst(); !ok || k != 0 {
				fail("contract", pos, "the buffer does not start empty")
			}
			if k, ok := I.isConst(); !ok || k != 0 {
				fail("contract", pos, "the position does not start at 0")
			}
			if v, k := e.decide(o.st, f); !k || v {
				fail("contract", pos, "the end of the stream is set at the start")
			}
			if t, ok := s.get(o.st, "TempBuff", byteSlice).(SliceV); !ok || !o.st.f.proveGE(e.A, e.A.addc(t.len, -6)) {
				fail("contract", pos, "the read buffer is too small")
			}
			continue
		}
		var ev, rv Val = o.val, nil
		if t, ok := ev.(TupleV); ok {
			ev = t[len(t)-1]
			rv = t[0]
		}
		if nb.o != s.stream || !o.st.f.proveEQ(e.A, nb.off) {
			fail("contract", pos, "the bytes held are replaced")
			continue
		}
		isNil, known := e.decide(o.st, e.isNilForm(ev))
		if !known {
			fail("contract", pos, "unknown result")
			continue
		}
		eof, keof := e.decide(o.st, f)
		if !isNil {
			failed := false
			if l := s.ghostGet(o.st, "failed"); l != nil {
				k, isC := l.isConst()
				failed = isC && k == 1
			}
			short := keof && eof && o.st.f.proveGE(e.A, e.A.sub(e.A.addc(c.add(s.I, want), -1), nb.len))
			if !short && (name == "AdvanceShortSlice" || name == "ReadShortStr" || name == "ReadString") {
				w := int64(1)
				if name == "ReadString" {
					w = 2
				}
				short = keof && eof && o.st.f.proveGE(e.A, e.A.sub(e.A.addc(s.I, w-1), nb.len))
			}
			switch {
			case failed || short:
			case name == "EnsureEOF":
				if !o.st.f.proveGE(e.A, e.A.addc(e.A.sub(nb.len, s.I), -1)) {
					fail("spurious", pos, "the end of the data is refused although no data remains")
				}
			case name == "ReadBool":
				if v, k := e.decide(o.st, e.ge(e.A.addc(c.u8(s.I), -2))); !k || !v {
					fail("spurious", pos, "a valid boolean is refused")
				}
			default:
				fail("spurious", pos, "the operation fails although the data is available or the stream has not ended: the result depends on how the source splits the data")
			}
			continue
		}
		if name == "EnsureEOF" {
			if !keof || !eof {
				fail("end", pos, "the end of the data is accepted although the stream has not ended")
			}
			if !o.st.f.proveGE(e.A, e.A.sub(s.I, nb.len)) {
				fail("end", pos, "the end of the data is accepted although unprocessed bytes remain")
			}
			continue
		}
		if !o.st.f.proveEQ(e.A, e.A.sub(I, c.add(s.I, want))) {
			fail("contract", pos, fmt.Sprintf("the position becomes %s and not %s", I, c.add(s.I, want)))
		}
		if !o.st.f.proveGE(e.A, e.A.sub(nb.len, c.add(s.I, want))) {
			fail("contract", pos, "the operation succeeds although its bytes were not read")
		}
		switch {
		case name == "ReadBool":
			fv, ok := rv.(*Form)
			if !ok {
				fail("value", pos, "unknown value")
				break
			}
			for _, q := range c.fork(o.st, e.eq(c.u8(s.I))) {
				v, k := e.decide(q, fv)
				c.st = q
				z, kz := e.decide(q, e.eq(c.u8(s.I)))
				one, ko := e.decide(q, e.eq(e.A.addc(c.u8(s.I), -1)))
				if !k || !kz || !(z && !v || ko && one && v) {
					fail("value", pos, "the boolean is not the one stored (0 false, 1 true, others are refused)")
				}
			}
		case isRead:
			got, ok := rv.(*Lin)
			t := fn.Signature.Results().At(0).Type()
			exp := e.fit(o.st, c.uN(s.I, w), t, o.in, "conversion")
			if !ok || exp == nil || !o.st.f.proveEQ(e.A, e.A.sub(got, exp)) {
				fail("value", pos, fmt.Sprintf("the value read is %s and not %s", valKey(rv), valKey(exp)))
			}
		case rv != nil && strings.HasPrefix(name, "Read"):
			sv, ok := rv.(StrV)
			hw := int64(1)
			if name == "ReadString" {
				hw = 2
			}
			switch {
			case !ok:
				fail("value", pos, "unknown value")
			case !o.st.f.proveEQ(e.A, e.A.sub(sv.len, e.A.addc(want, -hw))):
				fail("value", pos, "the length of the string is not the one stored")
			case o.st.f.proveEQ(e.A, sv.len):
			case sv.sl == nil || sv.sl.o != s.stream || !o.st.f.proveEQ(e.A, e.A.sub(sv.sl.off, e.A.addc(s.I, hw))):
				fail("value", pos, "the string is not made of the bytes that follow its length")
			}
		}
	}
}

// ops lists the operations of the parsing buffer that the contract covers
func (b *pbuf) ops() []*ssa.Function {
	var out []*ssa.Function
	for _, n := range append([]string{"InitBuffers", "EnsureEOF", "AdvanceBytes", "AdvanceShortSlice", "ReadShortStr", "ReadString"}, sortedKeys(readWidths)...) {
		if f := b.p.method("internal", "ParsingBuffer", n); f != nil {
			out = append(out, f)
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// checkBuffer runs the contract checks; only the rules of the property are reported
func checkBuffer(p *Prog, r *Report, rules map[string]bool) {
	var nilAcc *acc
	var b *pbuf
	nilAcc.guardRun(r, "buffer", "ParsingBuffer", func(fail func(rule, pos, d string)) { b = findPbuf(p) })
	if b == nil {
		return
	}
	sel := func(fail func(rule, pos, d string)) func(rule, pos, d string) {
		return func(rule, pos, d string) {
			if rules == nil || rules[rule] {
				fail(rule, pos, d)
			}
		}
	}
	nilAcc.guardRun(r, "buffer", "ParsingBuffer read step", func(fail func(rule, pos, d string)) { b.checkReader(sel(fail)) })
	for _, f := range b.ops() {
		nilAcc.guardRun(r, "buffer", "ParsingBuffer."+f.Name(), func(fail func(rule, pos, d string)) { b.checkOp(f, sel(fail)) })
	}
	r.atLeast("buffer", 8)
}

func init() {
	debugCmds["pbuf"] = func(p *Prog, args []string) {
		b := findPbuf(p)
		run := func(n string, f func(fail func(rule, pos, d string))) {
			if len(args) > 0 && args[0] != n {
				return
			}
			defer func() {
				if x := recover(); x != nil {
					if u, ok := x.(undecided); ok {
						fmt.Println(n, "UNDECIDED", string(u))
						return
					}
					panic(x)
				}
			}()
			f(func(rule, pos, d string) { fmt.Println(n, "FAIL", rule, pos, d) })
			fmt.Println(n, "done")
		}
		run("step", b.checkReader)
		for _, f := range b.ops() {
			run(f.Name(), func(fail func(rule, pos, d string)) { b.checkOp(f, fail) })
		}
		_ = os.Args
	}
}
