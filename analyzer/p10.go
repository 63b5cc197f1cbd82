package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// P10: no count, length, index or offset is truncated when it is encoded.
//
// The encoders are analysed with the sizes that the operations of the builder enforce (at most 255 elements in the
// parts of an entry, with the exceptions below), each conversion or sum that yields 8 or 16 bits of what ends up in
// memory has to fit, as has each value that is split into bytes. The operations of the builder are then analysed for
// what they store in the fields whose sizes were relied on.

func init() {
	checks["P10"] = checkP10
	debugCmds["wraps"] = func(p *Prog, args []string) {
		seen := map[string]bool{}
		runBuild(p, func(b *buildRun) {
			b.e.OnWrap = func(e *Engine, st *State, in ssa.Instruction, l *Lin, t types.Type, what string) {
				if e.impossible(st) {
					return
				}
				lo, hi := st.f.linRange(l)
				k := fmt.Sprint(p.instrPos(in), " ", what, " ", t, " ", valKey(l), " [", lo, ",", hi, "]")
				if !seen[k] {
					seen[k] = true
					fmt.Println(k)
				}
			}
		})
	}
}

type fieldKey struct{ typ, field string }

// Sizes other than 255 that the parts of the builder may have.
var sizeLimits = map[fieldKey]int64{
	{"mappingGroup", "Glyphs"}:         128,
	{"rewriteCondition", "data"}:       65535,
	{"mappingEntry", "SwitchCases"}:    0, // determined by the switch
	{"dyeSection", "name"}:             0, // the total is limited by Build
	{"paletteSection", "name"}:         0,
	{"rewriteCondition", "EditorName"}: 0,
	{"Font", "glyphOrder"}:             56789,
	{"Font", "settings"}:               255,
	{"Font", "mappingSwitches"}:        255,
	{"Font", "rewriteConditions"}:      254,
	{"Font", "glyphSetsOrder"}:         255,
	{"Font", "runeSetsOrder"}:          255,
	{"Font", "fontName"}:               255,
	{"Font", "fontFamily"}:             255,
	{"Font", "fontAuthor"}:             255,
	{"Font", "fontAbout"}:              65535,
}

const partLimit = 255

// limitOf gives the size that a field of the builder is assumed to respect, 0 for none.
func (p *Prog) limitOf(owner types.Type, f *types.Var) (fieldKey, int64) {
	if pt, ok := owner.Underlying().(*types.Pointer); ok {
		owner = pt.Elem()
	}
	n, ok := owner.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != p.ModPath+"/builder" {
		return fieldKey{}, 0
	}
	k := fieldKey{n.Obj().Name(), f.Name()}
	switch t := f.Type().Underlying().(type) {
	case *types.Slice:
	case *types.Basic:
		if t.Kind() != types.String {
			return k, 0
		}
	default:
		return k, 0
	}
	if l, ok := sizeLimits[k]; ok {
		return k, l
	}
	if k.typ == "Font" {
		return k, 0
	}
	return k, partLimit
}

func structOf(t types.Type) *types.Struct {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

type wrapCheck struct {
	p        *Prog
	e        *Engine
	used     map[fieldKey]bool
	fail     func(rule, pos, d string)
	pend     []*pendingWrap
	sites    map[ssa.Instruction]bool
	stores   map[fieldKey]bool // demanded sizes
	flow     map[ssa.Value]bool
	encoding bool
	n        int // elements of the lists of lists among the parameters
}

type pendingWrap struct {
	in     ssa.Instruction
	l      *Lin
	bits   int
	lo     int64
	hi     int64
	what   string
	ok     bool
	bad    bool
	soft   bool
	blocks map[*ssa.BasicBlock]bool // where it is known to fit
}

func sizeOfVal(e *Engine, st *State, v Val) *Lin {
	switch x := v.(type) {
	case SliceV:
		return x.len
	case StrV:
		return x.len
	case MapV:
		return e.mapLen(st, x)
	}
	return nil
}

// ub gives the smallest constant that a term is known not to exceed.
func (w *wrapCheck) ub(st *State, l *Lin) int64 {
	if l == nil {
		return infNum
	}
	_, hi := st.f.linRange(l)
	le := func(n int64) bool { return st.f.proveGE(w.e.A, w.e.A.addc(w.e.A.neg(l), n)) }
	top := int64(1) << 30
	if hi < top {
		top = hi
	} else if !le(top) {
		return infNum
	}
	lo := int64(-1)
	if !le(top) {
		return infNum
	}
	for lo+1 < top {
		m := lo + (top-lo)/2
		if le(m) {
			top = m
		} else {
			lo = m
		}
	}
	return top
}

func (w *wrapCheck) attach() {
	e := w.e
	w.sites = map[ssa.Instruction]bool{}
	w.flow = map[ssa.Value]bool{}
	e.OnVal = w.value
	e.OnWrap = w.wrap
	e.OnPanic = w.panicked
	e.OnInstr = func(in ssa.Instruction) {
		if b, ok := in.(*ssa.BinOp); ok && e.cur != nil && (b.Op == token.OR || b.Op == token.ADD) {
			w.packed(b)
			return
		}
		x, ok := in.(*ssa.MapUpdate)
		if !ok || e.cur == nil || !w.inBuilder(x.Parent()) || e.impossible(e.cur.st) {
			return
		}
		m, ok := x.Map.Type().Underlying().(*types.Map)
		if !ok || !isString(m.Key()) {
			return
		}
		if _, _, ok := intBitsOf(m.Elem()); !ok {
			return
		}
		st := e.cur.st
		if l := sizeOfVal(e, st, e.val(e.cur, x.Key)); l != nil && !e.inRange(st, l, 0, partLimit) {
			w.fail("words", w.p.instrPos(in), "a word may have more than 255 bytes")
		}
		if l, ok := e.val(e.cur, x.Value).(*Lin); ok && !e.inRange(st, l, 0, 255) {
			w.fail("words", w.p.instrPos(in), "the position of a word may not fit in 8 bits")
		}
	}
}

// panicked reports encoders that give up on a size that the operations of the builder allow: it has to be an error.
func (w *wrapCheck) panicked(e *Engine, st *State, in ssa.Instruction, kind, detail string) {
	x, ok := in.(*ssa.Panic)
	if !ok || !w.encoding || !w.p.inModule(x.Parent()) || e.impossible(st) {
		return
	}
	for _, pr := range x.Block().Preds {
		f, ok := pr.Instrs[len(pr.Instrs)-1].(*ssa.If)
		if !ok || (e.cur != nil && e.cur.pred != nil && e.cur.pred != pr) {
			continue
		}
		b, ok := f.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		for _, side := range [2][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
			c, ok := side[0].(*ssa.Const)
			if !ok || c.Value == nil {
				continue
			}
			if _, _, isInt := intRange(c.Type()); !isInt || c.Int64() < 100 {
				continue
			}
			call, ok := side[1].(*ssa.Call)
			if !ok {
				continue
			}
			bi, ok := call.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				continue
			}
			what := ""
			switch a := call.Call.Args[0].(type) {
			case *ssa.UnOp:
				if fa, ok := a.X.(*ssa.FieldAddr); ok {
					what = structOf(fa.X.Type()).Field(fa.Field).Name()
				}
			case *ssa.Field:
				what = structOf(a.X.Type()).Field(a.Field).Name()
			case *ssa.Parameter:
				what = a.Name()
			}
			if what != "" {
				w.fail("refusal", w.p.instrPos(x), fmt.Sprintf("a build with more than %d elements of %s panics instead of returning an error", c.Int64(), what))
			}
		}
	}
}

// packed checks that the lower part of a combination such as a<<4 | b fits below the upper part.
func (w *wrapCheck) packed(b *ssa.BinOp) {
	e, st := w.e, w.e.cur.st
	bits, _, ok := intBitsOf(b.Type())
	if !ok || bits > 16 || !w.p.inModule(b.Parent()) || e.impossible(st) {
		return
	}
	for _, side := range [2][2]ssa.Value{{b.X, b.Y}, {b.Y, b.X}} {
		cv, ok := side[1].(*ssa.Convert)
		if !ok {
			continue
		}
		if n, _, ok := intBitsOf(cv.X.Type()); !ok || n <= bits {
			continue
		}
		room := int64(0)
		switch hi := side[0].(type) {
		case *ssa.Const:
			if n := hi.Int64(); b.Op == token.OR && n > 0 {
				room = n & -n
			}
		case *ssa.BinOp:
			if c, ok := hi.Y.(*ssa.Const); ok && hi.Op == token.SHL && c.Int64() < 32 {
				room = 1 << c.Int64()
				if l, ok := e.val(e.cur, hi.X).(*Lin); ok && !e.inRange(st, l, 0, 1<<(int64(bits)-c.Int64())-1) && w.stored(b) {
					w.fail("truncated", w.p.instrPos(hi), "the upper part of a packed value loses bits")
				}
			}
		}
		if room <= 1 || !w.stored(b) {
			continue
		}
		w.sites[b] = true
		if l, ok := e.val(e.cur, cv).(*Lin); ok && !e.inRange(st, l, 0, room-1) {
			w.fail("truncated", w.p.instrPos(b), "the lower part of a packed value can spill into the upper part")
		}
	}
}

// value states the sizes of what is loaded from the parts of the builder.
func (w *wrapCheck) value(e *Engine, st *State, in ssa.Value, v Val) {
	size := func(n int64) {
		if l := sizeOfVal(e, st, v); l != nil {
			if !e.inRange(st, l, 0, n) {
				st.f.addGE(e.A, e.A.addc(e.A.neg(l), n))
			}
		}
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return
		}
		switch a := x.X.(type) {
		case *ssa.FieldAddr:
			if s := structOf(a.X.Type()); s != nil {
				if k, n := w.p.limitOf(a.X.Type(), s.Field(a.Field)); n > 0 {
					if e.quiet == 0 {
						w.used[k] = true
					}
					size(n)
				}
			}
		case *ssa.IndexAddr:
			if isString(x.Type()) { // options, words
				size(partLimit)
			}
		}
	case *ssa.Lookup:
		// positions of words; what Build stores there is checked
		if m, ok := x.X.Type().Underlying().(*types.Map); ok && isString(m.Key()) {
			if b, signed, ok := intBitsOf(m.Elem()); ok && signed && b < 64 {
				l, _ := v.(*Lin)
				if tv, ok := v.(TupleV); ok {
					l, _ = tv[0].(*Lin)
				}
				if l != nil {
					st.f.addGE(e.A, l)
				}
			}
		}
	case *ssa.Field:
		if s := structOf(x.X.Type()); s != nil {
			if k, n := w.p.limitOf(x.X.Type(), s.Field(x.Field)); n > 0 {
				if e.quiet == 0 {
					w.used[k] = true
				}
				size(n)
			}
		}
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok && isString(x.Type()) && w.inBuilder(x.Parent()) {
			size(partLimit)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD {
			if l, ok := v.(*Lin); ok {
				if b, ok := w.total(st, x); ok {
					if t, _, ok := intBitsOf(x.Type()); ok && t >= 32 && b < 1<<31 && !e.inRange(st, l, 0, b) {
						st.f.addGE(e.A, e.A.addc(e.A.neg(l), b))
					}
				}
			}
		}
	}
}

func intBitsOf(t types.Type) (int, bool, bool) {
	if _, _, ok := intRange(t); !ok {
		return 0, false, false
	}
	b, s := intBits(t)
	return int(b), s, true
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

func (w *wrapCheck) inBuilder(fn *ssa.Function) bool {
	pk := fnPkg(fn)
	return pk != nil && pk.Path() == w.p.ModPath+"/builder"
}

// total bounds a sum that accumulates in a loop: the number of iterations times the largest addend.
func (w *wrapCheck) total(st *State, x *ssa.BinOp) (int64, bool) {
	e := w.e
	if e.cur == nil {
		return 0, false
	}
	env := e.cur.env
	for _, side := range [2][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
		ph, ok := side[0].(*ssa.Phi)
		if !ok {
			continue
		}
		lp := e.loops(x.Parent()).heads[ph.Block()]
		if lp == nil || !lp.blocks[x.Block()] {
			continue
		}
		// x must not be in a loop within
		inner := false
		for h, o := range e.loops(x.Parent()).heads {
			if h != lp.head && lp.blocks[h] && o.blocks[x.Block()] {
				inner = true
			}
		}
		if inner {
			continue
		}
		// the phi changes by x alone
		base := int64(0)
		good := true
		var fromX func(v ssa.Value, depth int) bool
		fromX = func(v ssa.Value, depth int) bool {
			if v == ssa.Value(x) || v == ssa.Value(ph) {
				return true
			}
			if q, ok := v.(*ssa.Phi); ok && depth < 8 && e.loops(x.Parent()).heads[q.Block()] == nil {
				for _, ed := range q.Edges {
					if !fromX(ed, depth+1) {
						return false
					}
				}
				return true
			}
			return false
		}
		for i, ed := range ph.Edges {
			if lp.blocks[ph.Block().Preds[i]] {
				good = good && fromX(ed, 0)
				continue
			}
			if c, ok := ed.(*ssa.Const); ok && c.Value != nil {
				if c.Int64() > base {
					base = c.Int64()
				}
			} else {
				good = false
			}
		}
		if !good {
			continue
		}
		d, ok := env[side[1]].(*Lin)
		if !ok {
			if c, isC := side[1].(*ssa.Const); isC {
				d = e.c(c.Int64())
			} else {
				continue
			}
		}
		delta := w.ub(st, d)
		n := w.iterations(st, lp, env)
		if os.Getenv("DBG") != "" {
			fmt.Println("total", w.p.instrPos(x), "delta", delta, "n", n)
		}
		if delta >= infNum || n >= infNum || (delta > 0 && n > (1<<40)/delta) {
			continue
		}
		return base + delta*n, true
	}
	return 0, false
}

// iterations bounds how often a loop started an iteration.
func (w *wrapCheck) iterations(st *State, lp *loopT, env map[ssa.Value]Val) int64 {
	best := int64(infNum)
	for _, in := range lp.head.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			if _, _, ok := intRange(x.Type()); !ok {
				continue
			}
			start, ok := int64(0), true
			for i, ed := range x.Edges {
				if lp.blocks[x.Block().Preds[i]] {
					b, isB := ed.(*ssa.BinOp)
					one := false
					if isB && b.Op == token.ADD && b.X == ssa.Value(x) {
						if c, isC := b.Y.(*ssa.Const); isC && c.Value != nil && c.Int64() == 1 {
							one = true
						}
					}
					ok = ok && one
				} else if c, isC := ed.(*ssa.Const); isC && c.Value != nil {
					start = c.Int64()
				} else {
					ok = false
				}
			}
			if l, isL := env[x].(*Lin); ok && isL {
				if u := w.ub(st, l); u < infNum && u-start+1 < best {
					best = u - start + 1
				}
			}
		case *ssa.Next:
			if r, ok := x.Iter.(*ssa.Range); ok {
				if m, ok := env[r.X].(MapV); ok {
					if u := w.ub(st, w.e.mapLen(st, m)); u < best {
						best = u
					}
				}
			}
		}
	}
	return best
}

// stored tells whether a value ends up in memory (rather than only selecting or comparing).
func (w *wrapCheck) stored(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		if v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.MapUpdate:
				if x.Value == v {
					return true
				}
			case *ssa.Return, *ssa.MakeClosure, *ssa.Send:
				return true
			case *ssa.BinOp:
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					if rec(x) {
						return true
					}
				}
			case *ssa.Convert:
				if rec(x) {
					return true
				}
			case *ssa.ChangeType:
				if rec(x) {
					return true
				}
			case *ssa.Phi:
				if rec(x) {
					return true
				}
			case ssa.CallInstruction:
				cc := x.Common()
				if f := cc.StaticCallee(); f != nil && w.p.inModule(f) && len(f.Params) == len(cc.Args) {
					for i, a := range cc.Args {
						if a == v && rec(f.Params[i]) {
							return true
						}
					}
				} else if b, ok := cc.Value.(*ssa.Builtin); ok {
					if b.Name() == "append" {
						return true
					}
				} else if f == nil || !w.p.inModule(f) {
					continue
				} else {
					return true
				}
			}
		}
		return false
	}
	if r, ok := w.flow[v]; ok {
		return r
	}
	r := rec(v)
	w.flow[v] = r
	return r
}

// split gives the number of bits that the pieces taken out of a value have together, and whether x is the lowest
// piece.
func (w *wrapCheck) split(x *ssa.Convert) (total int, lowest bool) {
	bits, _, ok := intBitsOf(x.Type())
	if !ok {
		return 0, false
	}
	shift := func(v ssa.Value) (ssa.Value, int64) {
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.SHR {
			y := b.Y
			for {
				if c, ok := y.(*ssa.Convert); ok {
					y = c.X
					continue
				}
				break
			}
			if c, ok := y.(*ssa.Const); ok && c.Value != nil {
				return b.X, c.Int64()
			}
		}
		return v, 0
	}
	base, own := shift(x.X)
	total = bits
	if base.Referrers() != nil {
		for _, r := range *base.Referrers() {
			if b, ok := r.(*ssa.BinOp); ok && b.Op == token.SHR && b.X == base {
				if _, n := shift(b); n > 0 && b.Referrers() != nil {
					for _, q := range *b.Referrers() {
						if c, ok := q.(*ssa.Convert); ok {
							if cb, _, ok := intBitsOf(c.Type()); ok && cb == bits && int(n)+bits > total {
								total = int(n) + bits
							}
						}
					}
				}
			}
		}
	}
	if own > 0 && total == bits {
		return bits, false // a lone upper piece
	}
	return total, own == 0
}

func (w *wrapCheck) wrap(e *Engine, st *State, in ssa.Instruction, l *Lin, t types.Type, what string) {
	if e.impossible(st) {
		return
	}
	bits, signed, ok := intBitsOf(t)
	if !ok || !w.p.inModule(in.Parent()) {
		return
	}
	v, ok := in.(ssa.Value)
	if !ok {
		return
	}
	if c, ok := in.(*ssa.Convert); ok {
		src, _, isInt := intBitsOf(c.X.Type())
		if isInt && src == bits {
			return // the same bits
		}
		if n, low := w.split(c); n > bits {
			if !low {
				return
			}
			w.pieces(e, st, in, l, n)
			return
		}
	}
	soft := false
	if bits >= 32 {
		return
	}
	if !w.stored(v) {
		// only compared: it counts when the operation goes on to store something
		if _, ok := in.(*ssa.BinOp); !ok || w.encoding || !w.inBuilder(in.Parent()) {
			return
		}
		soft = true
	}
	lo, hi := int64(0), int64(1)<<bits-1
	if signed {
		lo, hi = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
	}
	if b, ok := in.(*ssa.BinOp); ok && b.Op == token.ADD {
		if n, ok := w.total(st, b); ok && n <= hi {
			return
		}
	}
	w.pend = append(w.pend, &pendingWrap{in: in, l: l, bits: bits, lo: lo, hi: hi, what: what, soft: soft})
}

// fits tells whether a sum is known not to have wrapped around.
func (w *wrapCheck) fits(st *State, q *pendingWrap) bool {
	e := w.e
	if e.inRange(st, q.l, q.lo, q.hi) {
		return true
	}
	// the number of times that a value wrapped around may follow from the tests
	seen := map[*Atom]bool{}
	for _, t := range q.l.t {
		seen[t.a] = true
	}
	var c *State
	for _, g := range append([]*Lin{}, st.f.ge...) {
		for _, t := range g.t {
			if (t.c == 1<<q.bits || t.c == -(1<<q.bits)) && !seen[t.a] {
				seen[t.a] = true
				k := e.A.of(t.a)
				if st.f.proveGE(e.A, k) && st.f.proveGE(e.A, e.A.neg(k)) {
					if c == nil {
						c = st.clone()
					}
					c.f.addEQ(e.A, k)
				}
			}
		}
	}
	return c != nil && e.inRange(c, q.l, q.lo, q.hi)
}

// pieces checks a value that is split into bytes.
func (w *wrapCheck) pieces(e *Engine, st *State, in ssa.Instruction, l *Lin, bits int) {
	for _, q := range w.pend {
		if d := e.A.sub(l, q.l); d.k == 0 && len(d.t) == 1 && (d.t[0].c == 1<<q.bits || d.t[0].c == -(1<<q.bits)) {
			if w.fits(st, q) {
				q.ok = true
			} else {
				q.bad = true
			}
		}
	}
	if bits >= 32 {
		return
	}
	w.sites[in] = true
	if !e.inRange(st, l, 0, 1<<bits-1) {
		_, hi := st.f.linRange(l)
		w.fail("truncated", w.p.instrPos(in), fmt.Sprintf("a value of up to %d is encoded with %d bits (called from %s)", hi, bits, "the encoder"))
	}
}

func (w *wrapCheck) finish() {
	for _, q := range w.pend {
		if (q.ok || q.soft) && !q.bad {
			continue
		}
		w.fail("truncated", w.p.instrPos(q.in), fmt.Sprintf("the %s to %d bits can lose the upper bits of the value", q.what, q.bits))
	}
}

func checkP10(p *Prog, r *Report) {
	r.Technique = "abstract interpretation of the encoders and of the operations of the builder: narrowing conversions and sums proved in range"
	used := map[fieldKey]bool{}
	run := func(key string, f func(fail func(rule, pos, d string))) {
		if s := os.Getenv("P10"); s != "" && !strings.Contains(key, s) && key != "Font.Build" {
			return
		}
		if os.Getenv("DBG") != "" {
			t0 := time.Now()
			defer func() { fmt.Fprintln(os.Stderr, key, time.Since(t0)) }()
		}
		seen := map[string]bool{}
		(*acc)(nil).guardRun(r, "truncation", key, func(fail func(rule, pos, d string)) {
			f(func(rule, pos, d string) {
				if k := rule + pos + d; !seen[k] {
					seen[k] = true
					if os.Getenv("DBG") != "" {
						fmt.Fprintln(os.Stderr, "  fail", rule, pos, d)
					}
					fail(rule, pos, d)
				}
			})
		})
	}
	var opaque []*ssa.Function
	run("Font.Build", func(fail func(rule, pos, d string)) {
		w := &wrapCheck{p: p, used: used, fail: fail, encoding: true}
		runBuild(p, func(b *buildRun) {
			w.e = b.e
			w.attach()
			w.fontLimits(b.st0, b.self)
			old := b.e.Override
			b.e.Override = func(e *Engine, st *State, c *callInfo) ([]callOut, bool) {
				out, done := old(e, st, c)
				if done && c.fn != nil && w.inBuilder(c.fn) {
					known := false
					for _, f := range opaque {
						known = known || f == c.fn
					}
					if !known {
						opaque = append(opaque, c.fn)
					}
				}
				return out, done
			}
		})
		w.finish()
	})
	for _, fn := range opaque {
		fn := fn
		if !appender(fn) {
			continue // the choice of the words stores no data
		}
		run(p.fname(fn), func(fail func(rule, pos, d string)) {
			e := newEngine(p)
			e.MergeLimit = 1
			e.LogStores = true
			e.Override = appendModel(p, e, func(*ssa.Function) bool { return false })
			w := &wrapCheck{p: p, e: e, used: used, fail: fail, encoding: true}
			w.attach()
			e.Outer = comparedConsts(e, fn)
			w.run(fn)
			w.finish()
		})
	}
	// what the operations store
	for _, fn := range p.exportedAPI("builder") {
		fn := fn
		switch fn.Name() {
		case "Build", "Export", "ParseEditionData", "New":
			continue // the encoders, which are analysed above, edition data, and an empty builder
		}
		if !w10stores(p, fn, used) {
			continue
		}
		run(p.fname(fn), func(fail func(rule, pos, d string)) {
			for n := 0; n <= 2; n++ {
				e := newEngine(p)
				e.MergeLimit = 1
				w := &wrapCheck{p: p, e: e, used: map[fieldKey]bool{}, fail: fail, n: -1}
				nested := false
				for _, pa := range fn.Params {
					nested = nested || nestedSlice(pa.Type())
				}
				if nested {
					// facts about every element are lost in loops: up to two elements, one by one
					w.n = n
					e.MergeLimit = 1 << 20
					e.Unroll = func(f *ssa.Function, _ *ssa.BasicBlock) int {
						if f == fn {
							return 4
						}
						return 0
					}
				}
				w.attach()
				w.demand(used)
				w.run(fn)
				w.finish()
				if !nested {
					break
				}
			}
		})
	}
}

// comparedConsts lists the constants that a function compares with, as candidates for bounds.
func comparedConsts(e *Engine, fn *ssa.Function) []*Lin {
	seen := map[int64]bool{}
	var out []*Lin
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if x, ok := in.(*ssa.BinOp); ok {
				switch x.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				default:
					continue
				}
				for _, v := range []ssa.Value{x.X, x.Y} {
					if c, ok := v.(*ssa.Const); ok && c.Value != nil {
						if _, _, isInt := intRange(c.Type()); isInt {
							if n := c.Int64(); n > 0 && n < 1<<16 && !seen[n] {
								seen[n] = true
								out = append(out, e.c(n))
							}
						}
					}
				}
			}
		}
	}
	return out
}

// fontLimits states the sizes of the lists of a builder.
func (w *wrapCheck) fontLimits(st *State, self PtrV) {
	t := self.o.typ
	s := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if _, n := w.p.limitOf(t, s.Field(i)); n > 0 {
			v := w.e.readCell(st, self.o, self.skel+"."+s.Field(i).Name(), nil, s.Field(i).Type())
			if l := sizeOfVal(w.e, st, v); l != nil {
				st.f.addGE(w.e.A, w.e.A.addc(w.e.A.neg(l), n))
			}
		}
	}
}

func nestedSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	_, ok = s.Elem().Underlying().(*types.Slice)
	return ok
}

func (w *wrapCheck) run(fn *ssa.Function) {
	e := w.e
	old := e.Override
	st := e.newState()
	var args []Val
	for i, pa := range fn.Params {
		if pt, ok := pa.Type().Underlying().(*types.Pointer); ok && i == 0 && fn.Signature.Recv() != nil {
			args = append(args, PtrV{o: e.symObj("recv", pt.Elem())})
			continue
		}
		v := e.symVal(pa.Type(), fmt.Sprint("arg", i), nil, nil)
		if sl, ok := v.(SliceV); ok && nestedSlice(pa.Type()) && w.n >= 0 {
			sl.len = e.c(int64(w.n))
			v = sl
		}
		args = append(args, v)
	}
	e.Override = func(e *Engine, st *State, c *callInfo) ([]callOut, bool) {
		if c.fn != nil && fnPkg(c.fn) != nil && fnPkg(c.fn).Path() == "image" && (c.fn.Name() == "Dx" || c.fn.Name() == "Dy") {
			return []callOut{{st: st, val: e.A.of(e.A.mk("var", "extent", 0, 1<<40))}}, true // well-formed rectangles
		}
		if old != nil {
			return old(e, st, c)
		}
		return nil, false
	}
	if len(args) > 0 && fn.Signature.Recv() != nil && w.p.isNamed(recvElem(fn), "builder", "Font") {
		(&buildRun{e: e, fn: fn, self: args[0].(PtrV)}).invariants(st)
	}
	e.callFn(fn, args, nil, st)
}

// w10stores tells whether a function can reach a store into a part of the builder with a limited size.
func w10stores(p *Prog, fn *ssa.Function, used map[fieldKey]bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function) bool
	rec = func(fn *ssa.Function) bool {
		if fn == nil || seen[fn] || !p.inModule(fn) {
			return false
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if a, ok := st.Addr.(*ssa.FieldAddr); ok {
						if s := structOf(a.X.Type()); s != nil {
							if k, n := p.limitOf(a.X.Type(), s.Field(a.Field)); n > 0 && used[k] {
								return true
							}
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if rec(c.Common().StaticCallee()) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// demand checks what is stored into the parts whose sizes the encoders rely on.
func (w *wrapCheck) demand(used map[fieldKey]bool) {
	w.e.OnBlock = func(e *Engine, st *State, b *ssa.BasicBlock, env map[ssa.Value]Val) {
		for _, q := range w.pend {
			if !q.soft || b.Parent() != q.in.Parent() || e.impossible(st) {
				continue
			}
			if q.blocks == nil {
				q.blocks = map[*ssa.BasicBlock]bool{}
			}
			yes := w.fits(st, q)
			if old, seen := q.blocks[b]; seen {
				yes = yes && old
			}
			q.blocks[b] = yes
		}
	}
	w.e.OnStore = func(e *Engine, st *State, in ssa.Instruction, ptr PtrV, v Val) {
		s, ok := in.(*ssa.Store)
		if !ok || e.impossible(st) {
			return
		}
		a, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return
		}
		stt := structOf(a.X.Type())
		if stt == nil {
			return
		}
		k, n := w.p.limitOf(a.X.Type(), stt.Field(a.Field))
		if n == 0 || !used[k] {
			return
		}
		for _, q := range w.pend {
			if !q.soft || w.fits(st, q) {
				continue
			}
			// loops forget what was tested before them
			known := false
			for b, yes := range q.blocks {
				known = known || yes && b.Parent() == in.Parent() && b.Dominates(in.Block())
			}
			if !known {
				q.bad = true
			}
		}
		l := sizeOfVal(e, st, v)
		if l == nil {
			return
		}
		if !e.inRange(st, l, 0, n) {
			w.fail("limit", w.p.instrPos(in), fmt.Sprintf("%s.%s can exceed %d elements, which its encoding relies on", k.typ, k.field, n))
		}
	}
}
