package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P14: the decoding of mask raster operations. Each of the 256 control bytes is analysed alone, between a first
// pixel at an arbitrary position and a last one that shows where the cursor was left, with symbolic operands of
// either sign, complete and cut at each byte. The bounds pass, the drawing pass alone (with arbitrary bounds) and
// the whole decoding are compared with the documented meaning of the operations. The absence of accesses outside
// the data is decided for data of any length.

func init() {
	checks["P14"] = checkP14
}

const (
	opPalette, opHorz, opVert, opRow, opDiag, opLen, opVertLen, opPixel = 1, 2, 4, 8, 16, 32, 64, 128
)

type rasterOp struct {
	ctrl  int
	signs int     // 1: horizontal move negative, 2: vertical move negative
	lens  []int64 // draw lengths minus one, nil: symbolic
	far   bool    // moves as far as possible
}

type pixEv struct {
	pos   string
	x, y  *Lin
	index *Lin // palette index
}

type badPixEv struct{ pos string }

type drawn struct { // of the specification
	kind string // "rect", "asc", "desc"
	x, y *Lin
	w, h *Lin
	// palette index
	index *Lin
}

func opInvalid(c int) bool {
	if c&opVert != 0 && c&opRow != 0 {
		return true
	}
	if c&opDiag != 0 {
		return c&opPixel != 0 || c&opLen == 0
	}
	return c&opPixel != 0 && c&(opLen|opVertLen) != 0
}

type maskWorld struct {
	p            *Prog
	raster, rect *ssa.Function
	fail         func(rule, pos, d string)
}

// run is one analysed sequence
type maskRun struct {
	*maskWorld
	e     *Engine
	st    *State
	name  string
	data  []*Lin
	draws []drawn
	bad   bool // invalid or truncated
	exact bool
	ctrls []int
	// unbound: positions are taken to be inside of the bounds
	unbound bool
	offsets map[*Atom]pixEv
	npix    *Lin
}

func (w *maskWorld) build(ops []rasterOp, cut int) *maskRun {
	r := &maskRun{maskWorld: w, e: newEngine(w.p), exact: true}
	e := r.e
	e.MergeLimit = 1 << 20
	e.SplitMinMax = true
	e.JoinLens = true
	r.st = e.newState()
	x, y, index := e.c(0), e.c(0), e.c(255)
	nv := 0
	sym := func(lo, hi int64) *Lin {
		nv++
		v := e.A.of(e.A.mk("var", fmt.Sprintf("operand%d", nv), lo, hi))
		r.data = append(r.data, v)
		return v
	}
	move := func(neg, far bool) *Lin {
		if far {
			n, v := int64(127), int64(128)
			if neg {
				n, v = 128, -128
			}
			r.data = append(r.data, e.c(n))
			return e.c(v)
		}
		if neg {
			return e.A.addc(sym(128, 255), -256)
		}
		return e.A.addc(sym(0, 127), 1)
	}
	for _, op := range ops {
		c := op.ctrl
		r.name += fmt.Sprintf(" %02x", c)
		r.ctrls = append(r.ctrls, c)
		r.data = append(r.data, e.c(int64(c)))
		nl := 0
		length := func() *Lin {
			if op.lens == nil {
				r.exact = false
				return e.A.addc(sym(0, 255), 1)
			}
			v := op.lens[nl%len(op.lens)]
			nl++
			r.data = append(r.data, e.c(v))
			return e.c(v + 1)
		}
		if c&opPalette != 0 {
			index = sym(0, 255)
		}
		if c&opHorz != 0 {
			x = e.A.add(x, move(op.signs&1 != 0, op.far))
		}
		if c&opVert != 0 {
			y = e.A.add(y, move(op.signs&2 != 0, op.far))
		}
		if c&opRow != 0 {
			y = e.A.addc(y, 1)
		}
		if opInvalid(c) {
			// what follows is not specified, but the data may contain operands
			for i := 0; i < 2; i++ {
				if c&(opLen<<i) != 0 {
					sym(0, 255)
				}
			}
			r.bad = true
			break
		}
		if c&opDiag != 0 {
			n := length()
			k := "desc"
			if c&opVertLen != 0 {
				k = "asc"
			}
			r.draws = append(r.draws, drawn{k, x, y, n, n, index})
			x = e.A.add(x, n)
			continue
		}
		var dw, dh *Lin
		if c&opLen != 0 {
			dw, dh = length(), e.c(1)
		}
		if c&opVertLen != 0 {
			if dw == nil {
				dw = e.c(1)
			}
			dh = length()
		}
		if c&opPixel != 0 {
			dw, dh = e.c(1), e.c(1)
		}
		if dw != nil {
			r.draws = append(r.draws, drawn{"rect", x, y, dw, dh, index})
			x = e.A.add(x, dw)
		}
	}
	if cut > 0 {
		r.name += fmt.Sprintf(" without the last %d bytes", cut)
		r.data = r.data[:len(r.data)-cut]
		r.bad = true
	}
	r.hooks()
	return r
}

// opLoop tells whether a loop reads the raster data (and isn't one that draws)
func opLoop(e *Engine, fn *ssa.Function, head *ssa.BasicBlock) bool {
	bytes := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		if !ok {
			return false
		}
		b, ok := s.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	for b := range e.loops(fn).heads[head].blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.IndexAddr:
				if !bytes(x.X.Type()) || x.Referrers() == nil {
					continue
				}
				for _, u := range *x.Referrers() {
					if _, ok := u.(*ssa.UnOp); ok {
						return true
					}
				}
			case *ssa.Call:
				for _, a := range x.Call.Args {
					if bytes(a.Type()) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (r *maskRun) hooks() {
	e := r.e
	e.Unroll = func(fn *ssa.Function, head *ssa.BasicBlock) int {
		if r.exact {
			return 300
		}
		if opLoop(e, fn, head) {
			return 8
		}
		return 0
	}
	e.OnPanic = func(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
		if !e.impossible(st) {
			r.fail("safety", r.p.instrPos(in), fmt.Sprintf("decoding%s can panic: %s %s", r.name, kind, detail))
		}
	}
	e.OnStore = func(e *Engine, st *State, in ssa.Instruction, ptr PtrV, v Val) {
		if strings.HasPrefix(ptr.o.name, "maskpix") {
			if len(ptr.idx) == 1 && len(ptr.idx[0].t) == 1 && ptr.idx[0].k == 0 {
				if ev, ok := r.offsets[ptr.idx[0].t[0].a]; ok {
					ev.index = alphaOf(v)
					st.log(ev)
					return
				}
			}
			st.log(badPixEv{r.p.instrPos(in)})
		}
	}
	e.Override = r.over
}

func (r *maskRun) over(e *Engine, st *State, c *callInfo) ([]callOut, bool) {
	if c.fn == nil || fnPkg(c.fn) == nil || fnPkg(c.fn).Path() != "image" {
		return nil, false
	}
	switch c.fn.Name() {
	case "NewAlpha":
		t := c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := e.newObj("mask", "alloc", t)
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			var v Val
			switch f.Name() {
			case "Rect":
				v = c.args[0]
			case "Pix":
				n := e.A.of(e.A.mk("var", "pixels", 0, 1<<40))
				r.npix = n
				v = SliceV{o: e.newObj("maskpix", "sym", types.Typ[types.Uint8]), off: e.c(0), len: n, cap: n}
			default:
				v = e.freshVal(f.Type(), f.Name())
			}
			e.writeCell(st, o, "."+f.Name(), nil, f.Type(), v)
		}
		return []callOut{{st: st, val: PtrV{o: o}}}, true
	case "PixOffset":
		x, ok1 := c.args[1].(*Lin)
		y, ok2 := c.args[2].(*Lin)
		if ok1 && ok2 && r.npix != nil {
			ev := pixEv{r.p.instrPos(c.in), x, y, nil}
			r.inBounds(st, c.args[0], ev)
			l := e.A.of(e.A.fresh("pixel offset", 0, 1<<40))
			st.f.addGE(e.A, e.A.addc(e.A.sub(r.npix, l), -1))
			if r.offsets == nil {
				r.offsets = map[*Atom]pixEv{}
			}
			r.offsets[l.t[0].a] = ev
			return []callOut{{st: st, val: l}}, true
		}
	case "SetAlpha", "Set":
		x, ok1 := c.args[1].(*Lin)
		y, ok2 := c.args[2].(*Lin)
		if ok1 && ok2 {
			ev := pixEv{r.p.instrPos(c.in), x, y, alphaOf(c.args[3])}
			st.log(ev)
			r.inBounds(st, c.args[0], ev)
			return []callOut{{st: st}}, true
		}
	default:
		if c.fn.Blocks == nil {
			panic(undecided("no body of " + c.fn.String()))
		}
		if strings.HasPrefix(c.fn.String(), "(image.Rectangle)") || strings.HasPrefix(c.fn.String(), "(image.Point)") || c.fn.Signature.Recv() == nil {
			var out []callOut
			for _, o := range e.callFn(c.fn, c.args, nil, st) {
				out = append(out, callOut{st: o.st, val: o.val})
			}
			return out, true
		}
	}
	return nil, false
}

// rectOf reads the four coordinates of a rectangle.
func rectCoords(v Val) []*Lin {
	s, ok := v.(StructV)
	if !ok || len(s.fields) != 2 {
		return nil
	}
	var out []*Lin
	for _, f := range s.fields {
		pt, ok := f.(StructV)
		if !ok || len(pt.fields) != 2 {
			return nil
		}
		for _, c := range pt.fields {
			l, ok := c.(*Lin)
			if !ok {
				return nil
			}
			out = append(out, l)
		}
	}
	return out
}

func (r *maskRun) maskRect(st *State, v Val) []*Lin {
	p, ok := v.(PtrV)
	if !ok || p.o == nil {
		return nil
	}
	s := structOf(p.o.typ)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Rect" {
			return rectCoords(r.e.readCell(st, p.o, p.skel+".Rect", p.idx, s.Field(i).Type()))
		}
	}
	return nil
}

func (r *maskRun) inBounds(st *State, mask Val, ev pixEv) {
	e := r.e
	if r.unbound {
		return
	}
	if e.quiet != 0 || e.impossible(st) {
		return
	}
	c := r.maskRect(st, mask)
	if c == nil {
		panic(undecided("the bounds of the mask aren't known"))
	}
	for i, l := range []*Lin{e.A.sub(ev.x, c[0]), e.A.sub(ev.y, c[1]), e.A.addc(e.A.sub(c[2], ev.x), -1), e.A.addc(e.A.sub(c[3], ev.y), -1)} {
		if !st.f.proveGE(e.A, l) {
			r.fail("bounds", ev.pos, fmt.Sprintf("decoding%s draws a pixel beyond the %s of the computed bounds", r.name, []string{"left", "top", "right", "bottom"}[i]))
		}
	}
}

func (r *maskRun) slice(st *State) SliceV {
	e := r.e
	o := e.newObj("ops", "alloc", types.Typ[types.Uint8])
	for i, b := range r.data {
		e.writeCell(st, o, "[]", []*Lin{e.c(int64(i))}, types.Typ[types.Uint8], b)
	}
	n := e.c(int64(len(r.data)))
	return SliceV{o: o, off: e.c(0), len: n, cap: n}
}

func errName(v Val) string {
	iv, ok := v.(IfaceV)
	if !ok {
		return ""
	}
	if s, ok := iv.v.(StrV); ok {
		if s.isConst {
			return s.s
		}
		return s.key
	}
	return ""
}

type maskOut struct {
	st    *State
	first Val
	err   Val
	isErr bool
}

func (r *maskRun) outs(fn *ssa.Function, st *State) []maskOut {
	e := r.e
	var out []maskOut
	for _, o := range e.callFn(fn, []Val{r.slice(st)}, nil, st) {
		if e.impossible(o.st) {
			continue
		}
		t, ok := o.val.(TupleV)
		if !ok || len(t) != 2 {
			panic(undecided("unexpected results of " + fn.Name()))
		}
		isNil, known := e.decide(o.st, e.isNilForm(t[1]))
		if !known {
			panic(undecided("unknown error of " + fn.Name()))
		}
		out = append(out, maskOut{o.st, t[0], t[1], !isNil})
	}
	if len(out) == 0 {
		r.fail("outcome", r.p.pos(fn.Pos()), "decoding"+r.name+" doesn't return")
	}
	return out
}

// expectRect checks that bounds are exactly those of what is drawn.
func (r *maskRun) expectRect(rule, pos string, st *State, c []*Lin) {
	e := r.e
	if c == nil {
		panic(undecided("the bounds aren't known"))
	}
	for side := 0; side < 4; side++ {
		exact := false
		for _, d := range r.draws {
			want := []*Lin{d.x, d.y, e.A.add(d.x, d.w), e.A.add(d.y, d.h)}[side]
			diff := e.A.sub(want, c[side])
			if side >= 2 {
				diff = e.A.neg(diff)
			}
			if !st.f.proveGE(e.A, diff) {
				r.fail(rule, pos, fmt.Sprintf("the bounds of%s don't include the %s of what the operations draw", r.name, []string{"left", "top", "right", "bottom"}[side]))
				return
			}
			exact = exact || st.f.proveGE(e.A, e.A.neg(diff))
		}
		if !exact {
			r.fail(rule, pos, fmt.Sprintf("the bounds of%s extend beyond the %s of what the operations draw", r.name, []string{"left", "top", "right", "bottom"}[side]))
			return
		}
	}
}

func (r *maskRun) check() {
	e := r.e
	if os.Getenv("DBG") != "" {
		fmt.Fprintln(os.Stderr, r.name, "bad", r.bad, "exact", r.exact)
	}
	posR, posD := r.p.pos(r.rect.Pos()), r.p.pos(r.raster.Pos())
	errs := map[string]bool{}
	for _, o := range r.outs(r.rect, r.st.clone()) {
		if o.isErr != r.bad {
			r.fail("errors", posR, fmt.Sprintf("the bounds of%s: error %v, expected %v", r.name, o.isErr, r.bad))
			continue
		}
		if r.bad {
			errs[errName(o.err)] = true
			continue
		}
		c := rectCoords(o.first)
		if os.Getenv("DBG") != "" {
			fmt.Fprintln(os.Stderr, "rect", c, valKey(o.first))
			for _, l := range c {
				lo, hi := o.st.f.linRange(l)
				fmt.Fprintln(os.Stderr, lo, hi)
			}
		}
		if len(r.draws) > 0 {
			r.expectRect("extent", posR, o.st, c)
		} else if c == nil || !(o.st.f.proveGE(e.A, e.A.sub(c[0], c[2])) || o.st.f.proveGE(e.A, e.A.sub(c[1], c[3]))) {
			r.fail("extent", posR, "the bounds of"+r.name+" aren't empty, but nothing is drawn")
		}
	}
	// the decoding as a whole
	for _, o := range r.outs(r.raster, r.st.clone()) {
		if o.isErr != r.bad {
			r.fail("errors", posD, fmt.Sprintf("decoding%s: error %v, expected %v", r.name, o.isErr, r.bad))
			continue
		}
		if r.bad {
			continue
		}
		isNil, known := e.decide(o.st, e.isNilForm(o.first))
		if !known || isNil != (len(r.draws) == 0) {
			r.fail("mask", posD, "decoding"+r.name+" doesn't return a mask exactly if something is drawn")
			continue
		}
		if !isNil {
			r.expectRect("mask", posD, o.st, r.maskRect(o.st, o.first))
		}
	}
	if len(r.ctrls) == 0 {
		return
	}
	// the drawing pass alone
	over := e.Override
	e.Override = func(e *Engine, st *State, c *callInfo) ([]callOut, bool) {
		if c.fn == r.rect {
			t := c.fn.Signature.Results()
			v := e.symVal(t.At(0).Type(), "bounds", nil, nil)
			if cs := rectCoords(v); cs != nil {
				st.f.addGE(e.A, e.A.addc(cs[0], 1<<20))
				st.f.addGE(e.A, e.A.addc(cs[1], 1<<20))
				st.f.addGE(e.A, e.A.addc(e.A.neg(cs[0]), -(1<<19)))
				st.f.addGE(e.A, e.A.addc(e.A.neg(cs[1]), -(1<<19)))
				st.f.addGE(e.A, e.A.addc(cs[2], -(1<<19)))
				st.f.addGE(e.A, e.A.addc(cs[3], -(1<<19)))
				st.f.addGE(e.A, e.A.addc(e.A.neg(cs[2]), 1<<20))
				st.f.addGE(e.A, e.A.addc(e.A.neg(cs[3]), 1<<20))
			}
			return []callOut{{st: st, val: TupleV{v, e.nilErr(t.At(1).Type())}}}, true
		}
		return over(e, st, c)
	}
	for _, o := range r.outs(r.raster, r.st.clone()) {
		if o.isErr != r.bad {
			r.fail("errors", posD, fmt.Sprintf("the drawing pass of%s: error %v, expected %v", r.name, o.isErr, r.bad))
			continue
		}
		if r.bad {
			if n := errName(o.err); n != "" && len(errs) == 1 && !errs[""] && !errs[n] {
				r.fail("errors", posD, fmt.Sprintf("the two passes fail with different errors for%s", r.name))
			}
			continue
		}
		if r.exact {
			r.pixels(o.st, posD)
		}
	}
	e.Override = over
}

func (r *maskRun) pixels(st *State, pos string) {
	e := r.e
	type pt struct {
		x, y, index, got *Lin
		hit              bool
	}
	var want []*pt
	for _, d := range r.draws {
		n, _ := d.w.isConst()
		h, _ := d.h.isConst()
		for i := int64(0); i < n; i++ {
			switch d.kind {
			case "rect":
				for j := int64(0); j < h; j++ {
					want = append(want, &pt{x: e.A.addc(d.x, i), y: e.A.addc(d.y, j), index: d.index})
				}
			case "desc":
				want = append(want, &pt{x: e.A.addc(d.x, i), y: e.A.addc(d.y, i), index: d.index})
			case "asc":
				want = append(want, &pt{x: e.A.addc(d.x, i), y: e.A.addc(d.y, n-1-i), index: d.index})
			}
		}
	}
	for _, ev := range st.trace.list(nil) {
		switch q := ev.(type) {
		case badPixEv:
			return // drawn in a way that isn't followed here
		case pixEv:
			found := false
			for _, p := range want {
				if st.f.proveEQ(e.A, e.A.sub(p.x, q.x)) && st.f.proveEQ(e.A, e.A.sub(p.y, q.y)) {
					// later operations draw over earlier ones
					p.hit, p.got, found = true, q.index, true
				}
			}
			if !found {
				r.fail("pixels", q.pos, "the drawing pass of"+r.name+" draws a pixel that isn't part of the operations")
				return
			}
		}
	}
	for i, p := range want {
		if !p.hit {
			r.fail("pixels", pos, "the drawing pass of"+r.name+" leaves out a pixel of the operations")
			return
		}
		over := p.got == nil || st.f.proveEQ(e.A, e.A.sub(p.index, p.got))
		for _, q := range want[i+1:] {
			if over {
				break
			}
			over = st.f.proveEQ(e.A, e.A.sub(p.x, q.x)) && st.f.proveEQ(e.A, e.A.sub(p.y, q.y))
		}
		if !over {
			r.fail("pixels", pos, "the drawing pass of"+r.name+" doesn't use the palette index in force for a pixel")
			return
		}
	}
}

// alphaOf returns the value of an alpha color
func alphaOf(v Val) *Lin {
	switch x := v.(type) {
	case *Lin:
		return x
	case StructV:
		if len(x.fields) == 1 {
			return alphaOf(x.fields[0])
		}
	case IfaceV:
		return alphaOf(x.v)
	}
	return nil
}

func (e *Engine) nilErr(t types.Type) Val { return e.zeroVal(t) }

func checkP14(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the two decoding passes for each control byte with symbolic operands, against the documented operations"
	raster := p.fn("mask", "Rasterize")
	var rect *ssa.Function
	if raster != nil {
		for _, b := range raster.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					f := c.Call.StaticCallee()
					if f != nil && p.inModule(f) && f.Signature.Results().Len() == 2 && isErrorType(f.Signature.Results().At(1).Type()) && strings.HasSuffix(f.Signature.Results().At(0).Type().String(), "image.Rectangle") {
						rect = f
					}
				}
			}
		}
	}
	run := func(key string, f func(w *maskWorld)) {
		if s := os.Getenv("P14"); s != "" && !strings.Contains(key, s) {
			return
		}
		seen := map[string]bool{}
		(*acc)(nil).guardRun(r, "decoding", key, func(fail func(rule, pos, d string)) {
			if raster == nil || rect == nil {
				panic(undecided("the passes of the decoding weren't found"))
			}
			f(&maskWorld{p, raster, rect, func(rule, pos, d string) {
				if k := rule + pos + d; !seen[k] {
					seen[k] = true
					fail(rule, pos, d)
				}
			}})
		})
	}
	first := []rasterOp{{ctrl: opPalette | opHorz | opVert | opPixel, signs: 2}, {ctrl: opHorz | opVert | opPixel, signs: 1}}
	last := rasterOp{ctrl: opPixel}
	for c := 0; c < 256; c++ {
		c := c
		run(fmt.Sprintf("control %02x", c), func(w *maskWorld) {
			for signs := 0; signs < 4; signs++ {
				if signs&1 != 0 && c&opHorz == 0 || signs&2 != 0 && c&opVert == 0 {
					continue
				}
				op := rasterOp{ctrl: c, signs: signs}
				w.build([]rasterOp{op}, 0).check()
				if opInvalid(c) {
					w.build([]rasterOp{first[0], op}, 0).check()
					continue
				}
				lens := [][]int64{{0}, {1, 2}, {2, 1}, {9, 12}}
				if c&^(opLen|opVertLen|opDiag) == 0 {
					lens = append(lens, []int64{255, 1}, []int64{1, 255})
				}
				if c&(opLen|opVertLen) == 0 || c&opPixel != 0 {
					lens = lens[:1]
				}
				for _, f := range first {
					full := w.build([]rasterOp{f, op, last}, 0)
					if !full.exact {
						full.check()
					}
					for _, l := range lens {
						o := op
						o.lens = l
						w.build([]rasterOp{f, o, last}, 0).check()
					}
				}
				// a last pixel beyond all that was drawn shows the cursor for any draw length: if the bounds hold it
				// in both directions, both passes agree on the cursor
				for far := 0; far < 4; far += 3 {
					m := rasterOp{ctrl: opHorz | opVert, signs: far, far: true}
					l := rasterOp{ctrl: opHorz | opVert | opPixel, signs: far}
					w.build([]rasterOp{op, m, m, m, l}, 0).check()
				}
				n := len(w.build([]rasterOp{op}, 0).data)
				for cut := 1; cut < n; cut++ {
					w.build([]rasterOp{op}, cut).check()
					w.build([]rasterOp{first[0], op}, cut).check()
				}
			}
		})
	}
	run("empty", func(w *maskWorld) { w.build(nil, 0).check() })
	run("any length", func(w *maskWorld) {
		for _, fn := range []*ssa.Function{rect, raster} {
			if os.Getenv("DBG") != "" {
				fmt.Fprintln(os.Stderr, fn)
			}
			m := w.build(nil, 0)
			m.name = " data of any length"
			e := m.e
			e.Unroll = nil
			e.MergeLimit = 1
			over := e.Override
			e.Override = func(e *Engine, st *State, c *callInfo) ([]callOut, bool) {
				if c.fn != nil && fnPkg(c.fn) != nil && fnPkg(c.fn).Path() == "image" && (c.fn.Name() == "SetAlpha" || c.fn.Name() == "Set" || c.fn.Name() == "PixOffset") {
					m.unbound = true // decided by the sequences
				}
				if c.fn == rect && fn == raster {
					// analysed on its own; for no operations its result is needed exactly
					var out []callOut
					n, ok := c.args[0].(SliceV)
					if !ok {
						panic(undecided("unknown operations"))
					}
					for _, z := range e.assume(st.clone(), e.eq(n.len), true) {
						for _, o := range e.callFn(c.fn, c.args, nil, z) {
							out = append(out, callOut{st: o.st, val: o.val})
						}
					}
					t := rect.Signature.Results()
					for _, z := range e.assume(st, e.eq(n.len), false) {
						z.f.addGE(e.A, e.A.addc(n.len, -1))
						z.part = "operations"
						out = append(out, callOut{st: z, val: TupleV{e.symVal(t.At(0).Type(), "bounds", nil, nil), e.freshVal(t.At(1).Type(), "bounds error")}})
					}
					return out, true
				}
				return over(e, st, c)
			}
			ops := e.symVal(fn.Params[0].Type(), "ops", nil, nil)
			if s, ok := ops.(SliceV); ok {
				e.Outer = []*Lin{s.len, e.A.addc(s.len, -1)}
			}
			e.callFn(fn, []Val{ops}, nil, e.newState())
		}
	})
}
