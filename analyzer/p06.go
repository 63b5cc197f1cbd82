package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P06: the data that Build appends has the layout of the format. Build is interpreted with loops as summaries;
// the result is the log of everything appended, which is matched with the sections of the format.

func init() {
	checks["P06"] = checkP06
	debugCmds["p06"] = func(p *Prog, args []string) {
		r := newReport("P06")
		checkP06(p, r)
		for _, o := range r.obls {
			fmt.Println(o.OK, o.Rule, o.Key, o.Pos, o.Detail)
		}
	}
	debugCmds["build"] = func(p *Prog, args []string) {
		b := runBuild(p, nil)
		for _, x := range b.outs {
			fmt.Println(valKey(x.val), p.instrPos(x.in))
		}
		for _, s := range b.ok {
			fmt.Println(logString(s.items, ""))
		}
	}
}

type builtFont struct {
	out   outcome
	font  PtrV
	data  SliceV
	items []logItem
}

type buildRun struct {
	e    *Engine
	fn   *ssa.Function
	self PtrV
	st0  *State
	outs []outcome
	ok   []builtFont
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem().Underlying(), types.Typ[types.Uint8])
}

// appender recognises functions that take and return a byte slice
func appender(fn *ssa.Function) bool {
	in, out := false, false
	for _, p := range fn.Params {
		in = in || isByteSlice(p.Type())
	}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		out = out || isByteSlice(fn.Signature.Results().At(i).Type())
	}
	return in && out
}

// opaqueAppend interprets a call of a function that appends unknown bytes to the slice it is given
func opaqueAppend(e *Engine, st *State, c *callInfo) []callOut {
	arg := -1
	for i, p := range c.fn.Params {
		if isByteSlice(p.Type()) && arg < 0 {
			arg = i
		}
	}
	res := c.fn.Signature.Results()
	// the values that the arguments point to
	args := append([]Val{}, c.args...)
	for i, a := range args {
		if pt, ok := a.(PtrV); ok && i < len(c.fn.Params) {
			if t, ok := c.fn.Params[i].Type().Underlying().(*types.Pointer); ok {
				if _, isStruct := t.Elem().Underlying().(*types.Struct); isStruct {
					args[i] = e.load(st, pt, t.Elem(), c.in)
				}
			}
		}
	}
	var out TupleV
	done := false
	for i := 0; i < res.Len(); i++ {
		if isByteSlice(res.At(i).Type()) && !done && arg >= 0 {
			done = true
			e.nver++
			n := e.A.of(e.A.fresh("size:"+c.fn.Name(), 0, maxFontData))
			o := e.newObj("contents of "+c.fn.String(), "blob", types.Typ[types.Uint8])
			o.site = c.in
			o.args, o.fn = args, c.fn
			sl := SliceV{o: o, off: e.c(0), len: n, cap: n}
			out = append(out, e.appendTo(st, c.args[arg].(SliceV), []catItem{{sl: &sl}}, types.Typ[types.Uint8]))
			continue
		}
		out = append(out, e.freshVal(res.At(i).Type(), c.fn.Name()))
	}
	if len(out) == 1 {
		return []callOut{{st: st, val: out[0]}}
	}
	return []callOut{{st: st, val: out}}
}

func originName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.Name()
	}
	return fn.Name()
}

// appendModel interprets the appends of the builder
func appendModel(p *Prog, e *Engine, opaque func(fn *ssa.Function) bool) func(e *Engine, st *State, c *callInfo) ([]callOut, bool) {
	return func(e *Engine, st *State, c *callInfo) ([]callOut, bool) {
		if c.fn == nil || !p.inModule(c.fn) {
			return nil, false
		}
		rel := strings.TrimPrefix(fnPkg(c.fn).Path(), p.ModPath+"/")
		switch originName(c.fn) {
		case "AppendUint64LE":
			if s, ok := c.args[0].(SliceV); ok && rel == "internal" {
				var items []catItem
				for i := int64(0); i < 8; i++ {
					items = append(items, catItem{val: e.fn("byte", 0, 255, c.args[1].(*Lin), e.c(i))})
				}
				return []callOut{{st: st, val: e.appendTo(st, s, items, types.Typ[types.Uint8])}}, true
			}
		case "GrowSliceByN":
			if s, ok := c.args[0].(SliceV); ok && rel == "internal" {
				n := c.args[1].(*Lin)
				o := e.newObj("reserved", "blob", types.Typ[types.Uint8])
				o.site = c.in
				sl := SliceV{o: o, off: e.c(0), len: n, cap: n}
				return []callOut{{st: st, val: e.appendTo(st, s, []catItem{{sl: &sl}}, types.Typ[types.Uint8])}}, true
			}
		}
		if opaque(c.fn) {
			if appender(c.fn) {
				return opaqueAppend(e, st, c), true
			}
			return e.opaqueCall(st, c), true
		}
		return nil, false
	}
}

func runBuild(p *Prog, prep func(b *buildRun)) *buildRun {
	fn := p.method("builder", "Font", "Build")
	if fn == nil {
		panic(undecided("there is no builder.Font.Build"))
	}
	e := newEngine(p)
	e.MergeLimit = 1
	e.LogStores = true
	b := &buildRun{e: e, fn: fn}
	e.Override = appendModel(p, e, func(fn *ssa.Function) bool {
		rel := strings.TrimPrefix(fnPkg(fn).Path(), p.ModPath+"/")
		switch {
		case rel == "mask":
			return true // the encoder of the masks
		case rel == "builder" && fn.Signature.Recv() != nil && appender(fn) && !p.isNamed(recvElem(fn), "builder", "Font"):
			n, nested := loopCount(p, fn, map[*ssa.Function]bool{})
			return n > 2 || nested // the encoders of the larger parts
		case rel == "builder" && fn.Signature.Recv() == nil && fn.Signature.Results().Len() == 1 && !appender(fn) && onlyMaps(fn):
			return true // the choice of the words
		}
		return false
	})
	st := e.newState()
	b.self = PtrV{o: e.symObj("font", fn.Params[0].Type().(*types.Pointer).Elem())}
	b.st0 = st.clone()
	b.invariants(st)
	b.st0 = st.clone()
	if prep != nil {
		prep(b)
	}
	b.outs = e.callFn(fn, []Val{b.self}, nil, b.st0.clone())
	for _, x := range b.outs {
		t, ok := x.val.(TupleV)
		if !ok || len(t) != 2 || e.impossible(x.st) {
			continue
		}
		if v, known := e.decide(x.st, e.isNilForm(t[1])); known && !v {
			continue
		}
		pt, ok := t[0].(PtrV)
		if !ok {
			continue
		}
		d, ok := e.readCell(x.st, pt.o, pt.skel+".Data", pt.idx, types.NewSlice(types.Typ[types.Uint8])).(SliceV)
		if !ok {
			continue
		}
		b.ok = append(b.ok, builtFont{x, pt, d, e.appended(d, nil)})
	}
	return b
}

// invariants states what holds of a builder between calls of its methods: every list that determines an order has
// the same elements as its map.
func (b *buildRun) invariants(st *State) {
	e := b.e
	t := b.fn.Params[0].Type().(*types.Pointer).Elem()
	field := func(name string) Val {
		su := t.Underlying().(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == name {
				return e.readCell(st, b.self.o, b.self.skel+"."+name, nil, su.Field(i).Type())
			}
		}
		return nil
	}
	size := func(v Val) *Lin {
		switch x := v.(type) {
		case SliceV:
			return x.len
		case MapV:
			return e.mapLen(st, x)
		}
		return nil
	}
	order := map[*Obj]string{}
	e.Present = func(m MapV, key Val) bool {
		l, ok := key.(*Lin)
		if !ok || order[m.o] == "" || len(l.t) != 1 || l.k != 0 || l.t[0].c != 1 {
			return false
		}
		a := l.t[0].a
		return a.op == "sel" && a.reg != nil && a.reg.name == order[m.o]
	}
	for _, pair := range [][2]string{{"glyphOrder", "glyphData"}, {"glyphSetsOrder", "rewriteGlyphSets"}, {"runeSetsOrder", "rewriteRuneSets"}} {
		x, y := size(field(pair[0])), size(field(pair[1]))
		if s, ok := field(pair[0]).(SliceV); ok {
			if m, ok := field(pair[1]).(MapV); ok {
				order[m.o] = e.regionOf(st, s.o, s.skel+"[]", types.Typ[types.Uint64]).base.name
			}
		}
		if x != nil && y != nil {
			st.f.addEQ(e.A, e.A.sub(x, y))
		}
	}
}

// loopCount counts the loops in the call tree of the function
func loopCount(p *Prog, fn *ssa.Function, seen map[*ssa.Function]bool) (int, bool) {
	if fn == nil || seen[fn] || !p.inModule(fn) {
		return 0, false
	}
	seen[fn] = true
	n, nested := 0, false
	heads := map[*ssa.BasicBlock]bool{}
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	depth := map[*ssa.BasicBlock]int{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // a back edge
				if !heads[s] {
					heads[s] = true
					n++
					loops[s] = map[*ssa.BasicBlock]bool{}
				}
				in := map[*ssa.BasicBlock]bool{s: true}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if in[x] {
						continue
					}
					in[x] = true
					work = append(work, x.Preds...)
				}
				for x := range in {
					if loops[s][x] {
						continue
					}
					loops[s][x] = true
					depth[x]++
					if depth[x] > 1 {
						nested = true
					}
				}
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			c, ok := i.(ssa.CallInstruction)
			if !ok {
				continue
			}
			m, nest := loopCount(p, c.Common().StaticCallee(), seen)
			n += m
			nested = nested || nest || m > 0 && depth[b] > 0
		}
	}
	return n, nested
}

func recvElem(fn *ssa.Function) types.Type {
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func onlyMaps(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Map); !ok {
			return false
		}
	}
	return len(fn.Params) > 0
}

func checkP06(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the build with loop summaries; the append log is matched with the declared layout"
	matchBuild(p, r, "P06")
	parseObligations(p, r, ruleSet("offset undecided"))
}

var sectionOrder = []string{"OffsetToMetrics", "OffsetToDyes", "OffsetToPalettes", "OffsetToGlyphNames", "OffsetToGlyphMasks", "OffsetToWords",
	"OffsetToSettingNames", "OffsetToMappingSwitches", "OffsetToMapping", "OffsetToRewriteConditions", "OffsetToRewriteUtf8Sets",
	"OffsetToRewriteGlyphSets", "OffsetToUtf8Rewrites", "OffsetToGlyphRewrites", "OffsetToHorzKernings", "OffsetToVertKernings"}

func matchBuild(p *Prog, r *Report, prop string) {
	var b *buildRun
	func() {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(undecided); ok {
					r.fail("undecided", "Build", "-", string(u))
					return
				}
				panic(x)
			}
		}()
		b = runBuild(p, nil)
	}()
	if b == nil {
		return
	}
	if len(b.ok) == 0 {
		r.fail("layout", "Build", p.pos(b.fn.Pos()), "no successful outcome of the build was recognised")
		return
	}
	for _, bf := range b.ok {
		matchFont(p, r, prop, b, bf)
	}
	r.atLeast("section", 10)
}

func matchFont(p *Prog, r *Report, prop string, b *buildRun, bf builtFont) {
	e := b.e
	pos := p.instrPos(bf.out.in)
	only := os.Getenv("P06")
	var failed bool
	key := ""
	m0 := &lm{e: e, final: bf.out.st, pos: pos, events: map[*Atom]*loopEv{}}
	m0.fail = func(rule, ps, d string) {
		failed = true
		r.fail(rule, key, ps, d)
	}
	var collect func(evs []any)
	collect = func(evs []any) {
		for _, ev := range evs {
			switch x := ev.(type) {
			case *loopEv:
				m0.events[x.k] = x
				for _, a := range x.alts {
					collect(a)
				}
			case altEv:
				collect(x.a)
				collect(x.b)
			}
		}
	}
	collect(bf.out.st.trace.list(nil))
	// stores into the data other than those that fill in the reserved tables
	m0.patched = map[*State]bool{}
	defer func() {
		if only != "" {
			return
		}
		key = "stores"
		in := map[*Obj]bool{}
		if bf.data.o != nil {
			for _, o := range allObjs(bf.data.o) {
				in[o] = true
			}
		}
		bad := func(x ssa.Instruction, what string) {
			pp := pos
			if x != nil {
				pp = p.instrPos(x)
			}
			m0.fail("value", pp, what+" the data changes bytes that were already emitted")
		}
		var walk func(evs []any)
		walk = func(evs []any) {
			for _, ev := range evs {
				switch x := ev.(type) {
				case storeEv:
					if in[x.p.o] {
						bad(x.in, "a store to")
					}
				case copyEv:
					if in[x.dst.o] {
						bad(x.in, "a copy to")
					}
				case callEv:
					if len(x.args) > 0 {
						if s, ok := x.args[0].(SliceV); ok && in[s.o] {
							bad(x.in, "a reordering of")
						}
					}
				case *loopEv:
					for i, a := range x.alts {
						if i < len(x.sts) && m0.patched[x.sts[i]] {
							continue
						}
						walk(a)
					}
				case altEv:
					walk(x.a)
					walk(x.b)
				}
			}
		}
		failed = false
		walk(bf.out.st.trace.list(nil))
		if !failed {
			r.ok("stores", "data", pos, "only the reserved tables are filled in afterwards")
		}
	}()
	sectionRun := func(name string, items []logItem, f func(m *lm)) {
		if only != "" && only != name {
			return
		}
		key, failed = name, false
		m0.run(name, items, []*State{bf.out.st}, f)
		if !failed {
			r.ok("section", name, pos, "the appended data has the layout of the format")
		}
	}
	// cut the log at the recorded offsets
	off := func(field string) *Lin {
		l, _ := e.readCell(bf.out.st, bf.font.o, bf.font.skel+"."+field, bf.font.idx, types.Typ[types.Uint32]).(*Lin)
		if l == nil {
			return nil
		}
		return stripWrap(e, l, 32)
	}
	parts := map[string][]logItem{}
	cur, from := "header", 0
	next := 0
	for i := range bf.items {
		for next < len(sectionOrder) {
			o := off(sectionOrder[next])
			if o == nil || bf.items[i].at == nil || !(o == bf.items[i].at || bf.out.st.f.proveEQ(e.A, e.A.sub(o, bf.items[i].at))) {
				break
			}
			parts[cur] = bf.items[from:i]
			cur, from = sectionOrder[next], i
			next++
		}
	}
	parts[cur] = bf.items[from:]
	for _, n := range sectionOrder[next:] {
		key = n
		d := "no position of the built data is at the recorded offset"
		if o := off(n); o != nil {
			d += " " + o.String()
		}
		m0.fail("offset", pos, d+", or the sections are not in the order of the format")
	}
	sec := func(name string, f func(m *lm)) {
		if items, ok := parts[name]; ok {
			sectionRun(strings.TrimPrefix(name, "OffsetTo"), items, f)
		}
	}
	getter := func(m *lm, name string) Val {
		fn := p.method("builder", "Font", name)
		if fn == nil {
			m.stop("undecided", "the builder has no "+name)
		}
		outs := e.callFn(fn, []Val{b.self}, nil, b.st0.clone())
		if len(outs) != 1 {
			m.stop("undecided", name+" is not a plain getter")
		}
		return outs[0].val
	}
	getLin := func(m *lm, name string) *Lin {
		l, ok := getter(m, name).(*Lin)
		if !ok {
			m.stop("undecided", name+" is not a number")
		}
		return l
	}
	str := func(m *lm, w int, name string) {
		v, ok := getter(m, name).(StrV)
		if !ok {
			m.stop("undecided", name+" is not a string")
		}
		m.field(w, v.len, "length of "+name)
		if m.proveEQ(v.len) && !m.more() {
			return
		}
		it := m.next("str")
		if valKey(*it.str) != valKey(v) {
			m.stop("value", "writes "+valKey(*it.str)+" where "+name+" is expected")
		}
	}
	// --- header ---
	sec("header", func(m *lm) {
		m.field(4, e.c(2), "format version")
		id := getLin(m, "GetFontID")
		for i := int64(0); i < 8; i++ {
			if v := m.byteVal(); v != e.fn("byte", 0, 255, id, e.c(i)) {
				m.stop("value", fmt.Sprintf("byte %d of the font id is %s", i, v))
			}
		}
		m.field(2, getLin(m, "GetVersionMajor"), "major version")
		m.field(2, getLin(m, "GetVersionMinor"), "minor version")
		for _, d := range []string{"GetFirstVerDate", "GetMajorVerDate", "GetMinorVerDate"} {
			v, ok := getter(m, d).(StructV)
			if !ok {
				m.stop("undecided", d+" is not a date")
			}
			su := v.typ.Underlying().(*types.Struct)
			for i := 0; i < su.NumFields(); i++ {
				w := 1
				if su.Field(i).Name() == "Year" {
					w = 2
				}
				if l, ok := v.fields[i].(*Lin); ok {
					m.field(w, l, d+"."+su.Field(i).Name())
				}
			}
		}
		str(m, 1, "GetName")
		str(m, 1, "GetFamily")
		str(m, 1, "GetAuthor")
		str(m, 2, "GetAbout")
		m.end()
	})
	// --- metrics ---
	vertSeen, vertNames := map[string]bool{}, map[string]bool{}
	sec("OffsetToMetrics", func(m *lm) {
		m.field(2, getLin(m, "GetNumGlyphs"), "number of glyphs")
		vert := m.u(1)
		if !m.proveGE(vert) || !m.proveGE(e.A.addc(e.A.neg(vert), 1)) {
			m.stop("value", "the vertical layout flag is "+vert.String())
		}
		if c, ok := vert.isConst(); ok {
			for name, v := range m.sts[0].bools {
				if old, seen := vertSeen[name]; (!seen || old) && v == (c == 1) {
					vertSeen[name] = true
				} else {
					vertSeen[name] = false
				}
			}
		}
		for _, g := range []string{"GetMonoWidth", "GetAscent", "GetExtraAscent", "GetDescent", "GetExtraDescent", "GetUppercaseAscent", "GetMidlineAscent",
			"GetHorzInterspacing", "GetVertInterspacing", "GetLineGap", "GetVertLineWidth", "GetVertLineGap"} {
			m.field(1, getLin(m, g), g)
		}
		m.end()
	})
	for name, ok := range vertSeen {
		if ok {
			vertNames[name] = true
		}
	}
	// --- colors ---
	own := func(m *lm, t string) {
		if !strings.Contains(t, "<K>") && !strings.Contains(t, "[1*K+0]") {
			m.stop("value", "the entry is not the one of its position: "+t)
		}
	}
	// entries of spread contents whose sizes a table of end offsets has
	entries := func(m *lm, n *Lin, r *endsRes, what, kind string) string {
		return m.each(n, what, func(s *lm, a *logAlt, k *Lin, cn *canoner) string {
			size := e.c(0)
			if s.more() {
				size = e.A.sub(a.end.len, s.items[0].at)
			}
			s.grows(r, size, cn, what)
			t := cn.lin(size)
			if kind != "" && s.more() {
				t, _ = s.spread(cn, kind)
			}
			if kind != "" {
				own(s, t)
			}
			s.items = nil
			return t
		})
	}
	sec("OffsetToDyes", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 1, "dye end indices", false)
		entries(m, n, r, "dye alphas", "slice")
		r = m.ends(n, 2, "dye name end offsets", false)
		entries(m, n, r, "dye names", "str")
		m.end()
	})
	sec("OffsetToPalettes", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 1, "palette end indices", false)
		m.each(n, "palette colors", func(s *lm, a *logAlt, k *Lin, cn *canoner) string {
			if !s.more() {
				s.grows(r, e.c(0), cn, "palette colors")
				return ""
			}
			l := s.next("loop")
			s.body(l, "colors", func(s *lm, a *logAlt, k *Lin, _ *canoner) string {
				for i, f := range []string{".R", ".G", ".B", ".A"} {
					v := s.byteVal().String()
					if !strings.Contains(v, f+"[") {
						s.stop("value", fmt.Sprintf("byte %d of a color is %s", i, v))
					}
				}
				return ""
			})
			s.grows(r, e.A.of(l.obj.loop.k), cn, "palette colors")
			return ""
		})
		r = m.ends(n, 2, "palette name end offsets", false)
		entries(m, n, r, "palette names", "str")
		m.end()
	})
	// --- glyphs ---
	sec("OffsetToGlyphNames", func(m *lm) {
		n := m.u(2)
		if _, ok := n.isConst(); ok {
			m.stop("value", "the number of named glyphs does not depend on the glyphs")
		}
		id := m.each(n, "named glyph ids", func(s *lm, a *logAlt, k *Lin, cn *canoner) string { return cn.lin(s.u(2)) })
		r := m.ends(n, 3, "glyph name end offsets", true)
		name := entries(m, n, r, "glyph names", "str")
		m.end()
		if id == "" || name == "" {
			return
		}
		si, sel := m.sortedIn(name, "glyph names")
		if !strings.Contains(id, sel) {
			m.stop("value", "the glyph ids and the names are not of the same glyphs: "+id+" and "+name)
		}
		m.indexOf(id, sel, "glyphOrder", "named glyph ids")
		m.ascendingBy(si, name, sel, "glyph names")
		m.source(si, "named glyphs", func(s *lm, a *logAlt, cn *canoner, v Val) {
			el := "sel:font.glyphOrder[]([1*K+0])"
			if v != nil {
				if t := plainText(cn.val(v)); t != "[1*"+el+"+0]" {
					s.stop("value", "the list of named glyphs has "+t)
				}
				return
			}
			size := plainText(strings.ReplaceAll(strings.TrimSuffix(strings.TrimPrefix(sizeText(name), "[1*"), "+0]"), sel, el))
			for _, x := range s.atomsLike(size, cn) {
				if s.proveEQ(e.A.of(x)) {
					return
				}
			}
			s.stop("value", "a glyph is left out of the list though its name is not known to be empty")
		})
	})
	order := "font.glyphOrder[]"
	num := func(m *lm) *Lin { return getLin(m, "GetNumGlyphs") }
	sec("OffsetToGlyphMasks", func(m *lm) {
		n := num(m)
		rs := m.next("slice")
		m.is(rs.sl.len, e.A.scale(n, 3), "size of the table of glyph mask end offsets")
		if !m.more() && m.proveEQ(n) {
			return
		}
		l := m.next("loop")
		m.trips(l, n, "glyph masks")
		m.body(l, "glyph mask", func(s *lm, a *logAlt, k *Lin, cn *canoner) string {
			var f []string
			for len(s.items) > 0 {
				s.open()
				if s.items[0].kind != "val" {
					break
				}
				f = append(f, cn.lin(s.byteVal()))
			}
			g := reSel.FindString(f[0])
			if g == "" {
				s.stop("value", "the glyph at a position is not the one of the glyph order: "+f[0])
			}
			names := []string{".Advance", ".TopAdvance", ".BottomAdvance", ".HorzCenter"}
			if len(f) != 1 && len(f) != 4 {
				s.stop("layout", fmt.Sprintf("a glyph placement has %d bytes", len(f)))
			}
			for i, x := range f {
				if !strings.HasSuffix(x, names[i]+"+0]") || !strings.Contains(x, g) {
					s.stop("value", fmt.Sprintf("byte %d of a glyph placement is %s", i, x))
				}
			}
			if len(vertNames) > 0 {
				agree := false
				for _, st := range s.sts {
					for name := range vertNames {
						if v, known := st.bools[name]; known && v == (len(f) == 4) {
							agree = true
						}
					}
				}
				if !agree {
					s.stop("value", fmt.Sprintf("a placement of %d bytes does not depend on the vertical layout flag of the metrics", len(f)))
				}
			}
			blob := s.next("slice")
			drawn := false
			for _, x := range blob.sl.o.args {
				if t := cn.val(x); strings.Contains(t, g) && strings.Contains(t, ".Mask") {
					drawn = true
				}
			}
			if !drawn {
				s.stop("value", "the mask of the glyph is not the one that is encoded")
			}
			s.patches(a, rs.at, k, 3, e.A.sub(a.end.len, l.at), "glyph mask end offsets")
			return ""
		})
		m.end()
	})
	// --- settings ---
	sec("OffsetToWords", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 2, "word end offsets", true)
		word := entries(m, n, r, "words", "str")
		m.end()
		if word == "" {
			return
		}
		si, _ := m.sortedIn(word, "words")
		ordered := ""
		for _, o := range m.allObjs() {
			for _, w := range m.mapWrites(o) {
				if w.loop != nil && strings.Contains(e.canonOf(w.loop.k).val(w.ev.key), "sorted~") {
					ordered = m.indexMapLast(o, w.loop, "words")
				}
			}
		}
		if ordered == "" || reSorted.FindString(ordered) == "" {
			m.stop("value", "the words do not get the indices of their positions")
		}
		m.source(si, "words", func(s *lm, a *logAlt, cn *canoner, v Val) { s.keyOf(v) })
	})
	sec("OffsetToSettingNames", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 2, "setting name end offsets", true)
		entries(m, n, r, "setting names", "str")
		r = m.ends(n, 2, "setting option end offsets", true)
		entries(m, n, r, "setting options", "")
		m.end()
	})
	// --- mapping ---
	sec("OffsetToMappingSwitches", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 2, "mapping switch end offsets", true)
		entries(m, n, r, "mapping switches", "slice")
		m.end()
	})
	// entries of unknown contents whose end offsets are written into the reserved space as they are added
	patched := func(m *lm, n *Lin, what string) string {
		if !m.more() && m.proveEQ(n) {
			return ""
		}
		rs := m.next("slice")
		m.is(rs.sl.len, e.A.scale(n, 3), "size of the table of "+what+" end offsets")
		if !m.more() && m.proveEQ(n) {
			return ""
		}
		l := m.next("loop")
		m.trips(l, n, what)
		return m.body(l, what, func(s *lm, a *logAlt, k *Lin, cn *canoner) string {
			text := ""
			if s.e.isBlob(s.items) {
				text = cn.val(s.items[0].sl.o.args[0])
			}
			s.items = nil
			s.patches(a, rs.at, k, 3, e.A.sub(a.end.len, l.at), what+" end offsets")
			return text
		})
	}
	sec("OffsetToMapping", func(m *lm) {
		n := m.u(2)
		point := m.each(n, "code points", func(s *lm, a *logAlt, k *Lin, cn *canoner) string { return cn.lin(s.u(4)) })
		entry := patched(m, n, "mapping")
		if point != "" && entry != "" {
			si, sel := m.sortedIn(point, "code points")
			m.ascending(si, "code points")
			if !strings.Contains(plainText(entry), "{<"+sel+">") {
				m.stop("value", "the mapping at a position is not the one of the code point: "+entry)
			}
			m.source(si, "code points", func(s *lm, a *logAlt, cn *canoner, v Val) { s.keyOf(v) })
		}
		m.end()
	})
	// --- rewrites ---
	sec("OffsetToRewriteConditions", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 2, "condition end offsets", true)
		entries(m, n, r, "conditions", "slice")
		m.end()
	})
	sec("OffsetToRewriteUtf8Sets", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 2, "utf8 set end offsets", true)
		entries(m, n, r, "utf8 sets", "")
		m.end()
	})
	sec("OffsetToRewriteGlyphSets", func(m *lm) {
		n := m.u(1)
		r := m.ends(n, 2, "glyph set end offsets", true)
		entries(m, n, r, "glyph sets", "")
		m.end()
	})
	sec("OffsetToUtf8Rewrites", func(m *lm) {
		n := m.u(2)
		patched(m, n, "utf8 rule")
		m.end()
	})
	sec("OffsetToGlyphRewrites", func(m *lm) {
		n := m.u(2)
		patched(m, n, "glyph rule")
		m.end()
	})
	// --- kernings ---
	kern := func(m *lm) {
		n := m.u(3)
		var pairL *Lin
		var pairK *Atom
		pair := m.each(n, "kerning pairs", func(s *lm, a *logAlt, k *Lin, cn *canoner) string {
			pairL, pairK = s.u(4), cn.k
			return cn.lin(pairL)
		})
		if pair == "" {
			return
		}
		si, _ := m.sortedIn(pair, "kerning pairs")
		m.ascending(si, "kerning pairs")
		m.source(si, "kerning pairs", func(s *lm, a *logAlt, cn *canoner, v Val) { s.pairOf(v, cn) })
		m.each(n, "kerning values", func(s *lm, a *logAlt, k *Lin, cn *canoner) string {
			v := s.byteVal()
			s.kernValue(v, cn, pairL, pairK, order)
			return ""
		})
		m.end()
	}
	sec("OffsetToHorzKernings", kern)
	sec("OffsetToVertKernings", kern)
	_ = p
}

// isBlob: is the next item the contents that another function appended
func (e *Engine) isBlob(items []logItem) bool {
	return len(items) > 0 && items[0].kind == "slice" && items[0].sl.o.kind == "blob"
}
