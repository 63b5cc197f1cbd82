package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Parsing as a typestate over the position in the data: the operations of the parsing buffer are interpreted by
// their contract (checked separately, see pbuf.go) on a symbolic data sequence, and every offset that the parser
// records must be the start of its section for every content of the data.

type parseRun struct {
	p      *Prog
	c      *acc
	e      *Engine
	fn     *ssa.Function
	S      []*Lin // starts of the sections, and the end
	sub    map[int]*Lin
	bytes  SliceV
	font   *Obj
	parser *Obj
	fail   func(rule, key, pos, d string)
	ends   int
	vals   map[string]int
	limits bool // decide the structural limits
	ghost  *Obj
	forked map[string]int
	inVal  int
}

// validators: last section that each section validation needs
var validatorNeeds = map[string]string{"FontHeader": "", "FontMetrics": "OffsetToMetrics", "FontColor": "OffsetToPalettes", "FontGlyphs": "OffsetToGlyphMasks",
	"FontSettings": "OffsetToSettingNames", "FontMapping": "OffsetToMapping", "FontRewrites": "OffsetToGlyphRewrites", "FontKerning": "OffsetToVertKernings"}

func secIndex(field string) int {
	for i, g := range grammar {
		if g.field == field {
			return i
		}
	}
	return -1
}

func newParseRun(p *Prog, fail func(rule, key, pos, d string)) *parseRun {
	c := newAcc(p)
	e := c.e
	r := &parseRun{p: p, c: c, e: e, fn: p.fn("", "Parse"), fail: fail, sub: map[int]*Lin{}, vals: map[string]int{}}
	if r.fn == nil {
		panic(undecided("no function Parse"))
	}
	o := e.symObj("file", types.Typ[types.Uint8])
	r.bytes = SliceV{o: o, off: e.c(0), len: e.c(0), cap: e.c(maxFontData)}
	c.data = r.bytes
	for i, g := range grammar {
		if i == 0 {
			r.S = append(r.S, e.c(0))
			continue
		}
		r.S = append(r.S, e.A.of(e.A.mk("var", "start of "+strings.TrimPrefix(g.field, "OffsetTo"), 0, maxFontData)))
		if g.sub != "" {
			r.sub[i] = e.A.of(e.A.mk("var", "start of "+strings.TrimPrefix(g.sub, "OffsetTo"), 0, maxFontData))
		}
	}
	r.S = append(r.S, e.A.of(e.A.mk("var", "end of the font", 0, maxFontData)))
	c.metrics = r.S[1]
	c.secStart = func(f string) *Lin { return r.S[secIndex(f)] }
	r.ghost = e.symObj("parse ghost", types.Typ[types.Int])
	r.forked = map[string]int{}
	e.Override = r.override
	e.OnStore = r.store
	e.MergeLimit = 1 // by part
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int {
		if fn == r.fn {
			return 4 // the short strings of the header
		}
		return 0
	}
	return r
}

// section finds the section that a position is in
func (r *parseRun) section(pos *Lin) int {
	for i := len(r.S) - 1; i > 0; i-- {
		for _, t := range pos.t {
			if len(r.S[i].t) == 1 && t.a == r.S[i].t[0].a && t.c == 1 {
				return i
			}
		}
	}
	return 0
}

func (r *parseRun) pos(st *State, self PtrV) *Lin {
	l, ok := r.e.readCell(st, self.o, self.skel+".Index", self.idx, types.Typ[types.Int]).(*Lin)
	if !ok {
		panic(undecided("unknown parser position"))
	}
	return l
}

// at runs f with the reads of the specification in the given state
func (r *parseRun) at(st *State, f func(c *acc) *Lin) *Lin {
	old := r.c.st
	r.c.st = st
	defer func() { r.c.st = old }()
	return f(r.c)
}

func (r *parseRun) count(st *State, i int) *Lin {
	if i >= len(grammar) || grammar[i].count == 0 {
		return nil
	}
	return r.at(st, func(c *acc) *Lin { return c.uN(r.S[i], grammar[i].count) })
}

// settle renames the position when it has reached the end of its section
func (r *parseRun) settle(st *State, self PtrV, pos *Lin) *Lin {
	e := r.e
	{
		i := r.section(pos)
		if i >= len(grammar) {
			return pos
		}
		g := grammar[i]
		n := r.count(st, i)
		var end, sub *Lin
		switch {
		case n != nil && st.f.proveEQ(e.A, n):
			end = e.A.addc(r.S[i], int64(g.count))
			sub = end
		case n == nil || st.f.proveGE(e.A, e.A.addc(n, -1)):
			if n == nil {
				n = e.c(0)
			}
			end = r.at(st, func(c *acc) *Lin { return g.end(c, r.S[i], n) })
			if g.sub != "" {
				sub = r.at(st, func(c *acc) *Lin { return g.subEnd(c, r.S[i], n) })
			}
		}
		if end == nil || !st.f.proveEQ(e.A, e.A.sub(pos, end)) {
			return pos
		}
		st.f.addEQ(e.A, e.A.sub(r.S[i+1], end))
		if g.sub != "" {
			st.f.addEQ(e.A, e.A.sub(r.sub[i], sub))
			if r.font != nil {
				v, ok := e.readCell(st, r.font, "."+g.sub, nil, types.Typ[types.Uint32]).(*Lin)
				if ok && st.f.proveEQ(e.A, e.A.sub(stripWrap(e, v, 32), r.sub[i])) {
					e.writeCell(st, r.font, "."+g.sub, nil, types.Typ[types.Uint32], r.sub[i])
				}
			}
		}
		pos = r.S[i+1]
		e.writeCell(st, self.o, self.skel+".Index", self.idx, types.Typ[types.Int], pos)
		// name the number of bytes read at this point
		if b, ok := e.readCell(st, self.o, self.skel+".Bytes", self.idx, types.NewSlice(types.Typ[types.Uint8])).(SliceV); ok && b.o == r.bytes.o {
			l := e.A.of(e.A.mk("var", fmt.Sprint("bytes read at ", i+1), 0, maxFontData))
			st.f.addEQ(e.A, e.A.sub(l, b.len))
			st.f.addGE(e.A, e.A.sub(l, pos))
			b.len = l
			e.writeCell(st, self.o, self.skel+".Bytes", self.idx, types.NewSlice(types.Typ[types.Uint8]), b)
		}
		return pos
	}
}

// advance moves the position by n bytes and returns the states: with the bytes available, and with an error
func (r *parseRun) advance(st *State, self PtrV, n *Lin, in ssa.Instruction) (ok []*State, bad *State) {
	e := r.e
	bad = st.clone()
	pos := r.pos(st, self)
	i := r.section(pos)
	if cw := r.count(st, i); cw != nil && pos == r.S[i] {
		if k, isC := n.isConst(); isC && int(k) == grammar[i].count {
			for _, s := range r.c.fork(st, e.eq(cw)) {
				if grammar[i].field == "OffsetToDyes" && r.limits && !s.f.proveEQ(e.A, cw) {
					r.mark(s, "dyes")
				}
				ok = append(ok, s)
			}
		}
	}
	if os.Getenv("DBGP") != "" {
		fmt.Println("adv", r.p.instrPos(in), pos, "+", n, "forks", len(ok))
	}
	if ok == nil {
		ok = []*State{st}
	}
	r.mark(bad, "failed")
	var done []*State
	for _, s := range ok {
		np := e.A.add(pos, n)
		e.writeCell(s, self.o, self.skel+".Index", self.idx, types.Typ[types.Int], np)
		l := e.A.of(e.A.fresh("bytes read", 0, maxFontData))
		if old, isS := e.readCell(s, self.o, self.skel+".Bytes", self.idx, types.NewSlice(types.Typ[types.Uint8])).(SliceV); isS && old.o == r.bytes.o {
			s.f.addGE(e.A, e.A.sub(l, old.len))
		}
		s.f.addGE(e.A, e.A.sub(l, np))
		b := r.bytes
		b.len = l
		e.writeCell(s, self.o, self.skel+".Bytes", self.idx, types.NewSlice(types.Typ[types.Uint8]), b)
		for _, s := range r.limit(s, np) {
			q := r.settle(s, self, np)
			j := r.section(q)
			s.part = fmt.Sprint("section ", j)
			if q != r.S[j] && j < len(grammar) && grammar[j].count > 0 {
				s.part += "+" // in its middle, with entries
			}
			for _, t := range []string{"invalid", "dyes", "vert"} {
				if m := r.marked(s, t); m != "" && (t != "dyes" || j <= secIndex("OffsetToPalettes")) && (t != "vert" || j <= secIndex("OffsetToGlyphMasks")) {
					s.part += " " + m
				}
			}
			done = append(done, s)
		}
	}
	return done, bad
}

// mark records a fact about the execution in the state
func (r *parseRun) mark(st *State, f string) { r.markAs(st, f, 1) }

func (r *parseRun) markAs(st *State, f string, k int64) {
	r.e.writeCell(st, r.ghost, "."+f, nil, types.Typ[types.Int], r.e.c(k))
	st.part += " " + f
}

func (r *parseRun) marked(st *State, f string) string {
	l, _ := r.e.readCell(st, r.ghost, "."+f, nil, types.Typ[types.Int]).(*Lin)
	if l == nil {
		return ""
	}
	k, ok := l.isConst()
	switch {
	case !ok || k == 0:
		return ""
	case f == "invalid":
		return "invalid: " + limits[k-1].name
	}
	return f
}

// limit splits the state by the structural limits that can be decided at the position
func (r *parseRun) limit(st *State, np *Lin) []*State {
	if !r.limits || r.marked(st, "invalid") != "" {
		return []*State{st}
	}
	e := r.e
	i := r.section(np)
	if i >= len(grammar) {
		return []*State{st}
	}
	n := r.count(st, i)
	if n != nil && st.f.proveEQ(e.A, n) {
		return []*State{st}
	}
	out := []*State{st}
	for k, l := range limits {
		if l.field != grammar[i].field {
			continue
		}
		at := r.at(st, func(c *acc) *Lin { return l.at(c, r.S[i], n) })
		if !st.f.proveEQ(e.A, e.A.sub(at, np)) {
			continue
		}
		r.forked[l.field+" "+l.name]++
		var next []*State
		for _, s := range out {
			if r.marked(s, "invalid") != "" {
				next = append(next, s)
				continue
			}
			var f *Form
			r.at(s, func(c *acc) *Lin { f = l.cond(c, r.S[i], n); return nil })
			if f == nil {
				next = append(next, s)
				continue
			}
			for _, q := range e.assume(s.clone(), f, true) {
				if !e.impossible(q) {
					r.markAs(q, "invalid", int64(k+1))
					next = append(next, q)
				}
			}
			for _, q := range e.assume(s, f, false) {
				if !e.impossible(q) {
					next = append(next, q)
				}
			}
		}
		out = next
	}
	return out
}

var readWidths = map[string]int{"ReadUint8": 1, "ReadInt8": 1, "ReadUint16": 2, "ReadInt16": 2, "ReadUint24": 3, "ReadUint32": 4, "ReadInt32": 4, "ReadUint64": 8, "ReadInt64": 8, "ReadBool": 1}

func (r *parseRun) override(e *Engine, st *State, ci *callInfo) ([]callOut, bool) {
	if ci.fn == nil || ci.fn.Signature.Recv() == nil || len(ci.args) == 0 {
		return nil, false
	}
	self, isP := ci.args[0].(PtrV)
	if !isP {
		return nil, false
	}
	rt := ci.fn.Signature.Recv().Type()
	name := ci.fn.Name()
	if r.inVal > 0 {
		return nil, false
	}
	if name == "Validate" && strings.HasPrefix(typeName(rt), "Font") {
		return r.validate(st, ci, self, typeName(rt))
	}
	if typeName(rt) != "ParsingBuffer" {
		return nil, false
	}
	r.parser = self.o
	errT := func(v ...Val) Val {
		if len(v) == 1 {
			return v[0]
		}
		return TupleV(v)
	}
	read := func(n *Lin, f func(s *State, at *Lin) Val) []callOut {
		at := r.pos(st, self)
		oks, bad := r.advance(st, self, n, ci.in)
		var outs []callOut
		for _, s := range oks {
			if f == nil {
				outs = append(outs, callOut{st: s, val: errT(NilV{})})
			} else {
				outs = append(outs, callOut{st: s, val: errT(f(s, at), NilV{})})
			}
		}
		if f == nil {
			return append(outs, callOut{st: bad, val: e.errVal("read error")})
		}
		res := ci.fn.Signature.Results()
		return append(outs, callOut{st: bad, val: errT(e.freshVal(res.At(0).Type(), "unread"), e.errVal("read error"))})
	}
	switch name {
	case "InitGzipReader":
		bad := st.clone()
		r.mark(bad, "failed")
		return []callOut{{st: st, val: NilV{}}, {st: bad, val: e.errVal("gzip")}}, true
	case "AdvanceBytes":
		n, ok := ci.args[1].(*Lin)
		if !ok {
			return nil, false
		}
		if !st.f.proveGE(e.A, n) {
			e.raise(st, ci.in, "negative advance", n.String())
		}
		return read(n, nil), true
	case "AdvanceShortSlice":
		n := r.at(st, func(c *acc) *Lin { return c.u8(r.pos(st, self)) })
		return read(e.A.addc(n, 1), nil), true
	case "ReadShortStr", "ReadString":
		w := 1
		if name == "ReadString" {
			w = 2
		}
		n := r.at(st, func(c *acc) *Lin { return c.uN(r.pos(st, self), w) })
		return read(e.A.addc(n, int64(w)), func(s *State, at *Lin) Val {
			v := r.bytes
			v.off, v.len = e.A.addc(at, int64(w)), n
			return e.bytesToStr(s, v)
		}), true
	case "EnsureEOF":
		pos := r.pos(st, self)
		bad := st.clone()
		if !st.f.proveEQ(e.A, e.A.sub(pos, r.S[len(r.S)-1])) {
			r.fail("order", "EnsureEOF", r.p.instrPos(ci.in), "the end of the data is required at "+pos.String()+", which is not the end of the last section")
		}
		if b, ok := e.readCell(st, self.o, self.skel+".Bytes", self.idx, types.NewSlice(types.Typ[types.Uint8])).(SliceV); ok {
			st.f.addEQ(e.A, e.A.sub(b.len, pos))
		}
		r.ends++
		r.mark(bad, "failed")
		return []callOut{{st: st, val: NilV{}}, {st: bad, val: e.errVal("trailing data")}}, true
	}
	if w, ok := readWidths[name]; ok {
		return read(e.c(int64(w)), func(s *State, at *Lin) Val {
			v := r.at(s, func(c *acc) *Lin { return c.uN(at, w) })
			t := ci.fn.Signature.Results().At(0).Type()
			if name == "ReadBool" {
				s.f.addGE(e.A, e.A.sub(e.c(1), v))
				return e.eq(e.A.addc(v, -1))
			}
			return e.fit(s, v, t, ci.in, "conversion")
		}), true
	}
	return nil, false
}

// validate interprets a section validation: the data it needs must have been read and assigned
func (r *parseRun) validate(st *State, ci *callInfo, self PtrV, typ string) ([]callOut, bool) {
	e := r.e
	need, ok := validatorNeeds[typ]
	if !ok || r.parser == nil {
		return nil, false
	}
	r.vals[typ]++
	key := typ + ".Validate"
	pos := r.pos(st, PtrV{o: r.parser})
	i := 0
	if need != "" {
		i = secIndex(need)
	}
	d := e.readCell(st, self.o, self.skel+".Data", self.idx, types.NewSlice(types.Typ[types.Uint8]))
	s, isS := d.(SliceV)
	switch {
	case e.impossible(st):
	case !isS || s.o != r.bytes.o:
		r.fail("stale", key, r.p.instrPos(ci.in), "the section is validated on data that was not read")
	case !st.f.proveGE(e.A, e.A.sub(s.len, r.S[i+1])) || !(r.section(pos) > i):
		r.fail("stale", key, r.p.instrPos(ci.in), "the section is validated before its data was read completely and assigned")
	}
	if k, ok := r.p.pkg("").Members["FmtDefault"].(*ssa.NamedConst); ok && len(ci.args) > 1 {
		if valKey(ci.args[1]) != valKey(e.constVal(k.Value)) {
			r.fail("mode", key, r.p.instrPos(ci.in), "the parser does not validate in the default mode")
		}
	}
	e.writeCell(st, r.ghost, ".validated "+typ, nil, types.Typ[types.Int], e.c(1))
	if typ == "FontMetrics" {
		r.inVal++
		defer func() { r.inVal-- }()
		var outs []callOut
		for _, o := range e.callFn(ci.fn, ci.args, nil, st) {
			if v, k := e.decide(o.st, e.isNilForm(o.val)); !k || !v {
				r.mark(o.st, "failed")
			} else if r.limits {
				v := r.at(o.st, func(c *acc) *Lin { return c.u8(c.add(c.metrics, c.k(2))) })
				for _, s := range r.c.fork(o.st, e.eq(v)) {
					if !s.f.proveEQ(e.A, v) {
						r.mark(s, "vert")
					}
					outs = append(outs, callOut{st: s, val: o.val})
				}
				continue
			}
			outs = append(outs, callOut{st: o.st, val: o.val})
		}
		return outs, true
	}
	bad := st.clone()
	r.mark(bad, "failed")
	return []callOut{{st: st, val: NilV{}}, {st: bad, val: e.errVal("validation")}}, true
}

func typeName(t types.Type) string {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

// store checks the recorded section offsets
func (r *parseRun) store(e *Engine, st *State, x ssa.Instruction, p PtrV, v Val) {
	i := strings.LastIndex(p.skel, ".OffsetTo")
	if i < 0 {
		return
	}
	r.font = p.o
}

// run interprets Parse and checks the results
func (r *parseRun) run() int {
	e := r.e
	if e.OnPanic == nil {
		e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {}
	}
	n := 0
	st := e.newState()
	st.f.addGE(e.A, r.S[len(r.S)-1])
	for _, f := range append([]string{"failed", "invalid", "dyes", "vert"}, prefixed("validated ", sortedKeys(validatorNeeds))...) {
		e.writeCell(st, r.ghost, "."+f, nil, types.Typ[types.Int], e.c(0))
	}
	var args []Val
	for _, pa := range r.fn.Params {
		args = append(args, e.symVal(pa.Type(), pa.Name(), nil, nil))
	}
	for _, o := range e.callFn(r.fn, args, nil, st) {
		if e.impossible(o.st) {
			continue
		}
		t, ok := o.val.(TupleV)
		if !ok || len(t) != 2 {
			panic(undecided("unrecognised result of Parse"))
		}
		iv, ok := t[1].(IfaceV)
		val, k := e.decide(o.st, e.isNilForm(t[1]))
		if ok && iv.typ != nil || k && !val {
			if r.limits && r.marked(o.st, "failed") == "" && r.marked(o.st, "invalid") == "" && r.parser != nil {
				pos := r.pos(o.st, PtrV{o: r.parser})
				if k, ok := pos.isConst(); !ok || k != 0 { // after the signature
					r.fail("refused", r.secName(pos), r.p.instrPos(o.in), "a font that violates no documented limit is refused")
					if os.Getenv("DBGP") != "" {
						fmt.Println("part", o.st.part)
						for _, l := range o.st.f.ge {
							fmt.Println("   ", l)
						}
					}
				}
			}
			continue
		}
		if m := r.marked(o.st, "invalid"); m != "" {
			r.fail("accepted", strings.TrimPrefix(m, "invalid: "), r.p.instrPos(o.in), "a font that violates a documented limit is accepted")
		}
		n++
		for _, v := range sortedKeys(validatorNeeds) {
			if r.marked(o.st, "validated "+v) == "" {
				r.fail("validated", v, r.p.instrPos(o.in), "a font is accepted without the validation of the section")
			}
		}
		r.success(o, t[0])
	}
	return n
}

func (r *parseRun) secName(pos *Lin) string {
	i := r.section(pos)
	if i >= len(grammar) {
		return "end"
	}
	if i == 0 {
		return "Header"
	}
	return strings.TrimPrefix(grammar[i].field, "OffsetTo")
}

func (r *parseRun) success(o outcome, f Val) {
	e, st := r.e, o.st
	pos := r.p.instrPos(o.in)
	fp, ok := f.(PtrV)
	if !ok {
		r.fail("font", "result", pos, "no font is returned without an error")
		return
	}
	for i, g := range grammar {
		for j, fld := range []string{g.field, g.sub} {
			if fld == "" {
				continue
			}
			want := r.S[i]
			if j == 1 {
				want = r.sub[i]
			}
			v, ok := e.readCell(st, fp.o, fp.skel+"."+fld, fp.idx, types.Typ[types.Uint32]).(*Lin)
			if !ok || !st.f.proveEQ(e.A, e.A.sub(stripWrap(e, v, 32), want)) {
				r.fail("offset", fld, pos, fmt.Sprintf("the recorded offset is %s and not the start of its section (%s)", valKey(v), want))
			}
		}
	}
	d, ok := e.readCell(st, fp.o, fp.skel+".Data", fp.idx, types.NewSlice(types.Typ[types.Uint8])).(SliceV)
	if !ok || d.o != r.bytes.o || !st.f.proveEQ(e.A, d.off) || !st.f.proveEQ(e.A, e.A.sub(d.len, r.S[len(r.S)-1])) {
		r.fail("data", "Data", pos, "the data of the font is not the whole data that was read, up to the end of the last section")
		return
	}
	ng := r.at(st, func(c *acc) *Lin { return c.numGlyphs() })
	if !st.f.proveGE(e.A, e.A.addc(ng, -1)) {
		r.fail("glyphs", "NumGlyphs", pos, "a font without glyphs can be accepted")
	}
	if !st.f.proveGE(e.A, e.A.sub(e.c(maxGlyphs), ng)) {
		r.fail("glyphs", "NumGlyphs", pos, "a font with more than the maximum number of glyphs can be accepted")
	}
}

const maxGlyphs = 56789

func init() {
	debugCmds["parse"] = func(p *Prog, args []string) {
		pr := newParseRun(p, func(rule, key, pos, d string) { fmt.Println("FAIL", rule, key, pos, d) })
		pr.limits = len(args) > 0
		defer func() { fmt.Println(len(limits), len(pr.forked), pr.forked) }()
		pr.e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
			if !e.impossible(st) {
				fmt.Println("PANIC", p.instrPos(in), kind, detail)
				if os.Getenv("DBG") != "" {
					for _, l := range st.f.ge {
						fmt.Println("   ", l)
					}
				}
			}
		}
		fmt.Println("successes:", pr.run(), "ends", pr.ends, pr.vals)
	}
}
