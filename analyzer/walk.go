package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path-sensitive abstract interpretation with a finite disjunctive domain:
// error values are {nil, eof, nonnil, unknown}, booleans are {false, true, unknown},
// tracked resources are {none, open, closed}. Every call that can fail is
// interpreted once for each of its outcomes; states are joined only when equal.

type avKind uint8

const (
	avUnk avKind = iota
	avNil
	avEOF
	avNonNil
	avFalse
	avTrue
	avRes  // a tracked resource handle
	avAddr // address of a tracked cell
	avFunc // known closure
)

type av struct {
	k   avKind
	id  string // resource / cell identity
	neg bool
	fn  *ssa.MakeClosure
}

func (a av) String() string { return fmt.Sprintf("%d%s", a.k, a.id) }

type avKey struct {
	v   ssa.Value
	idx int
}

type wstate struct {
	env      map[avKey]av
	cells    map[string]av
	res      map[string]string // resource id -> open/closed/escaped
	mustFail string            // key of the failed operation that has to be reported
	failPos  string
	miles    map[string]bool
	defers   []wdefer
	ret      []av
	dirty    string // first write to the protected memory on this path
}

type wdefer struct {
	in  *ssa.Defer
	key string
}

func (s *wstate) clone() *wstate {
	n := &wstate{env: make(map[avKey]av, len(s.env)), cells: make(map[string]av, len(s.cells)), res: make(map[string]string, len(s.res)), miles: make(map[string]bool, len(s.miles)), mustFail: s.mustFail, failPos: s.failPos, dirty: s.dirty}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.res {
		n.res[k] = v
	}
	for k := range s.miles {
		n.miles[k] = true
	}
	n.defers = append([]wdefer(nil), s.defers...)
	return n
}

// walker options and results
type walker struct {
	p        *Prog
	opener   func(c *ssa.CallCommon) bool              // call that opens a tracked resource as result 0
	closer   func(c *ssa.CallCommon) (ssa.Value, bool) // call that closes its resource
	mile     func(c *ssa.CallCommon) string            // milestone established when the call succeeds
	exempt   func(c *ssa.CallCommon) bool              // calls whose errors need no handling
	onDrop   func(fn *ssa.Function, siteKey, sitePos, exitPos string)
	onLeak   func(fn *ssa.Function, res, exitPos string)
	onExit   func(fn *ssa.Function, s *wstate, exit ssa.Instruction)
	sums     map[*ssa.Function]*wsum
	busy     map[*ssa.Function]bool
	mayClose map[*ssa.Function]int
	sites    int
	paths    int
	steps    int
	siteKeys map[string]string
	effect   func(pc *pctx, in ssa.Instruction) string // write effect of an instruction on protected memory
	hasEff   func(pc *pctx) bool                       // whether a call context (callees included) has such effects
	rootCtx  *pctx
	kidOf    func(pc *pctx, in ssa.Instruction, f *ssa.Function) *pctx
}

type wsum struct {
	nilOut, eofOut, nonOut bool
	miles                  map[string]bool // guaranteed on nil outcome
	always                 bool            // computed
}

func newWalker(p *Prog) *walker {
	return &walker{p: p, sums: map[*ssa.Function]*wsum{}, busy: map[*ssa.Function]bool{}, mayClose: map[*ssa.Function]int{}, siteKeys: map[string]string{}}
}

func errResultIdx(sig *types.Signature) int {
	n := sig.Results().Len()
	for i := n - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func extName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return c.Value.Type().String() + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		if o := f.Origin(); o != nil {
			return o.String()
		}
		return f.String()
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return "builtin." + b.Name()
	}
	return "dynamic"
}

func (w *walker) callKey(fn *ssa.Function, c *ssa.CallCommon) string {
	name := extName(c)
	name = strings.ReplaceAll(name, w.p.ModPath+"/", "")
	name = strings.ReplaceAll(name, w.p.ModPath, "ggfnt")
	if name == "dynamic" {
		name = "dynamic call of " + c.Value.Name()
		if u, ok := c.Value.(*ssa.Parameter); ok {
			name = "callback " + u.Name()
		}
	}
	return w.p.fname(fn) + " -> " + name
}

// summary of the error outcomes of a module function
func (w *walker) summary(fn *ssa.Function) *wsum {
	if s, ok := w.sums[fn]; ok {
		return s
	}
	if w.busy[fn] || fn.Blocks == nil {
		return &wsum{nilOut: true, eofOut: false, nonOut: true}
	}
	w.busy[fn] = true
	s := &wsum{}
	first := true
	ei := errResultIdx(fn.Signature)
	sub := *w
	sub.onDrop, sub.onLeak, sub.onExit = nil, nil, nil
	init := &wstate{env: map[avKey]av{}, cells: map[string]av{}, res: map[string]string{}, miles: map[string]bool{}}
	sub.run(fn, init, "", nil, func(st *wstate, exit ssa.Instruction) {
		isNil := func() {
			s.nilOut = true
			if first {
				first = false
				s.miles = map[string]bool{}
				for k := range st.miles {
					s.miles[k] = true
				}
			} else {
				for k := range s.miles {
					if !st.miles[k] {
						delete(s.miles, k)
					}
				}
			}
		}
		if ei < 0 {
			isNil()
			return
		}
		switch st.ret[ei].k {
		case avNil:
			isNil()
		case avEOF:
			s.eofOut = true
		case avNonNil:
			s.nonOut = true
		default:
			isNil()
			s.nonOut = true
		}
	})
	w.steps, w.paths = sub.steps, sub.paths
	delete(w.busy, fn)
	w.sums[fn] = s
	return s
}

// reachesClose reports whether fn may close a resource passed to it.
func (w *walker) reachesClose(fn *ssa.Function) bool {
	switch w.mayClose[fn] {
	case 1:
		return false // in progress
	case 2:
		return false
	case 3:
		return true
	}
	w.mayClose[fn] = 1
	r := false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if w.closer != nil {
				if _, is := w.closer(c.Common()); is {
					r = true
				}
			}
			if f := c.Common().StaticCallee(); f != nil && f.Blocks != nil && w.p.inModule(f) && w.reachesClose(f) {
				r = true
			}
		}
	}
	w.mayClose[fn] = 2
	if r {
		w.mayClose[fn] = 3
	}
	return r
}

// analyze runs fn as an entry point.
func (w *walker) analyze(fn *ssa.Function) {
	init := &wstate{env: map[avKey]av{}, cells: map[string]av{}, res: map[string]string{}, miles: map[string]bool{}}
	ei := errResultIdx(fn.Signature)
	w.run(fn, init, "", w.rootCtx, func(st *wstate, exit ssa.Instruction) {
		w.paths++
		if st.mustFail != "" && w.onDrop != nil {
			if ei < 0 || (st.ret[ei].k != avNonNil && st.ret[ei].k != avEOF) {
				w.onDrop(fn, st.mustFail, st.failPos, w.p.instrPos(exit))
			}
		}
		if w.onLeak != nil {
			for id, s := range st.res {
				if s == "open" {
					w.onLeak(fn, id, w.p.instrPos(exit))
				}
			}
		}
		if w.onExit != nil {
			w.onExit(fn, st, exit)
		}
	})
}

type workItem struct {
	b    *ssa.BasicBlock
	pred *ssa.BasicBlock
	st   *wstate
}

// liveness of tracked (error, bool, interface, pointer-to-cell) values
func blockLive(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range live[s] {
					cur[v] = true
				}
				pi := predIndex(s, b)
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					cur[ph.Edges[pi]] = true
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				in := b.Instrs[j]
				if v, ok := in.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			for v := range cur {
				if !live[b][v] {
					live[b][v] = true
					changed = true
				}
			}
		}
	}
	return live
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, q := range b.Preds {
		if q == pred {
			return i
		}
	}
	return 0
}

func (w *walker) key(b, pred *ssa.BasicBlock, s *wstate) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d", b.Index)
	if len(b.Instrs) > 0 {
		if _, ok := b.Instrs[0].(*ssa.Phi); ok && pred != nil {
			fmt.Fprintf(&sb, "<%d", pred.Index)
		}
	}
	var ks []string
	for k, v := range s.env {
		if v.k != avUnk {
			ks = append(ks, fmt.Sprintf("%s.%s.%d=%s", k.v.Parent().Name(), k.v.Name(), k.idx, v))
		}
	}
	sort.Strings(ks)
	sb.WriteString(strings.Join(ks, ","))
	ks = ks[:0]
	for k, v := range s.cells {
		if v.k != avUnk {
			ks = append(ks, k+"="+v.String())
		}
	}
	sort.Strings(ks)
	sb.WriteString("|" + strings.Join(ks, ","))
	ks = ks[:0]
	for k, v := range s.res {
		ks = append(ks, k+"="+v)
	}
	sort.Strings(ks)
	sb.WriteString("|" + strings.Join(ks, ","))
	ks = ks[:0]
	for k := range s.miles {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sb.WriteString("|" + strings.Join(ks, ",") + "|" + s.mustFail + s.failPos + "|" + s.dirty)
	for _, d := range s.defers {
		fmt.Fprintf(&sb, ";%p", d.in)
	}
	return sb.String()
}

// run interprets fn from the given state, calling exit at each return.
func (w *walker) run(fn *ssa.Function, init *wstate, ctx string, pc *pctx, exit func(*wstate, ssa.Instruction)) {
	live := blockLive(fn)
	seen := map[string]bool{}
	outerDefers := init.defers
	init = init.clone()
	init.defers = nil
	work := []workItem{{fn.Blocks[0], nil, init}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		st := it.st
		for k := range st.env {
			if k.v.Parent() == fn && !live[it.b][k.v] {
				if ph, ok := k.v.(*ssa.Phi); ok && ph.Block() == it.b {
					continue
				}
				// phi operands are read before the block body
				used := false
				for _, in := range it.b.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for _, e := range ph.Edges {
						if e == k.v {
							used = true
						}
					}
				}
				if ex := extractLive(k.v, live[it.b]); ex {
					used = true
				}
				if !used {
					delete(st.env, k)
				}
			}
		}
		key := w.key(it.b, it.pred, st)
		if seen[key] {
			continue
		}
		seen[key] = true
		w.steps++
		if w.steps > 4000000 {
			panic("error-flow analysis: state limit exceeded in " + fn.String())
		}
		// phis
		if it.pred != nil {
			pi := predIndex(it.b, it.pred)
			type upd struct {
				k avKey
				v av
			}
			var ups []upd
			for _, in := range it.b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				ups = append(ups, upd{avKey{ph, 0}, w.eval(st, ph.Edges[pi])})
			}
			for _, u := range ups {
				st.env[u.k] = u.v
			}
		}
		w.block(fn, it.b, 0, st, ctx, pc, func(b *ssa.BasicBlock, s *wstate) {
			work = append(work, workItem{b, it.b, s})
		}, func(s *wstate, in ssa.Instruction) {
			s.defers = outerDefers
			exit(s, in)
		})
	}
}

func extractLive(v ssa.Value, live map[ssa.Value]bool) bool { return live[v] }

func (w *walker) eval(st *wstate, v ssa.Value) av {
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return av{k: avNil}
		}
		if v.Value != nil && v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return av{k: avTrue}
			}
			return av{k: avFalse}
		}
		return av{}
	case *ssa.Alloc, *ssa.Global:
		return av{k: avAddr, id: w.addrID(st, v)}
	}
	if a, ok := st.env[avKey{v, 0}]; ok {
		return a
	}
	switch v := v.(type) {
	case *ssa.FreeVar, *ssa.Parameter:
		_ = v
	}
	return av{}
}

func (w *walker) addrID(st *wstate, v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.Alloc:
		return "a:" + v.Parent().String() + ":" + v.Name()
	case *ssa.Global:
		return "g:" + v.String()
	case *ssa.FieldAddr:
		if b := w.addrID(st, v.X); b != "" {
			return fmt.Sprintf("%s.%d", b, v.Field)
		}
		return ""
	case *ssa.FreeVar, *ssa.Parameter:
		if a, ok := st.env[avKey{v, 0}]; ok && a.k == avAddr {
			return a.id
		}
		return "p:" + v.Parent().String() + ":" + v.Name()
	}
	if a, ok := st.env[avKey{v, 0}]; ok && a.k == avAddr {
		return a.id
	}
	return ""
}

func (w *walker) setBool(v bool) av {
	if v {
		return av{k: avTrue}
	}
	return av{k: avFalse}
}

func (w *walker) globalNonNil(g *ssa.Global) bool { return w.p.globalNonNil(g) }

var globalNonNilCache = map[*ssa.Global]bool{}

func (p *Prog) globalNonNil(g *ssa.Global) bool {
	v, ok := globalNonNilCache[g]
	if !ok {
		v = p.globalNonNil1(g)
		globalNonNilCache[g] = v
	}
	return v
}

func (p *Prog) globalNonNil1(g *ssa.Global) bool {
	// package level error variables that are only ever assigned fresh errors, in init
	for _, fn := range p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok || s.Addr != g {
					continue
				}
				if fn.Name() != "init" {
					return false
				}
				c, ok := s.Val.(*ssa.Call)
				if !ok {
					if _, isMk := s.Val.(*ssa.MakeInterface); isMk {
						continue
					}
					return false
				}
				switch extName(&c.Call) {
				case "errors.New", "fmt.Errorf":
				default:
					return false
				}
			}
		}
	}
	return p.inModPkg(g.Pkg.Pkg)
}

var allFuncsCache = map[*Prog][]*ssa.Function{}

func (p *Prog) allFuncs() []*ssa.Function {
	if c, ok := allFuncsCache[p]; ok {
		return c
	}
	out := append([]*ssa.Function(nil), p.Funcs...)
	for _, sp := range p.SPkgs {
		if f := sp.Func("init"); f != nil {
			out = append(out, f)
		}
	}
	allFuncsCache[p] = out
	return out
}

func isEOFGlobal(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.String() == "io.EOF"
}

func (w *walker) block(fn *ssa.Function, b *ssa.BasicBlock, start int, st *wstate, ctx string, pc *pctx, next func(*ssa.BasicBlock, *wstate), exit func(*wstate, ssa.Instruction)) {
	for i := start; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		if pc != nil && w.effect != nil && st.dirty == "" {
			if _, isDefer := in.(*ssa.Defer); !isDefer {
				st.dirty = w.effect(pc, in)
			}
		}
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.Store:
			if id := w.addrID(st, x.Addr); id != "" {
				st.cells[id] = w.eval(st, x.Val)
			}
			if a := w.eval(st, x.Val); a.k == avRes {
				if id := w.addrID(st, x.Addr); id == "" || !strings.HasPrefix(id, "a:") {
					st.res[a.id] = "escaped"
				}
			}
		case *ssa.UnOp:
			switch x.Op {
			case token.MUL:
				if g, ok := x.X.(*ssa.Global); ok && isErrorType(x.Type()) {
					if g.String() == "io.EOF" {
						st.env[avKey{x, 0}] = av{k: avEOF}
					} else if w.globalNonNil(g) || !w.p.inModPkg(g.Pkg.Pkg) {
						st.env[avKey{x, 0}] = av{k: avNonNil}
					}
					break
				}
				if id := w.addrID(st, x.X); id != "" {
					if c, ok := st.cells[id]; ok {
						st.env[avKey{x, 0}] = c
					} else {
						delete(st.env, avKey{x, 0})
						// zero value of a local error variable
						if al, ok := x.X.(*ssa.Alloc); ok && isErrorType(al.Type().Underlying().(*types.Pointer).Elem()) {
							st.env[avKey{x, 0}] = av{k: avNil}
						}
					}
				} else {
					delete(st.env, avKey{x, 0})
				}
			case token.NOT:
				switch w.eval(st, x.X).k {
				case avTrue:
					st.env[avKey{x, 0}] = av{k: avFalse}
				case avFalse:
					st.env[avKey{x, 0}] = av{k: avTrue}
				default:
					delete(st.env, avKey{x, 0})
				}
			}
		case *ssa.BinOp:
			delete(st.env, avKey{x, 0})
			if x.Op == token.EQL || x.Op == token.NEQ {
				l, r := w.eval(st, x.X), w.eval(st, x.Y)
				if isErrorType(x.X.Type()) || isErrorType(x.Y.Type()) || isNilConst(x.X) || isNilConst(x.Y) {
					res, known := false, false
					if isNilConst(x.X) {
						l, r = r, l
					}
					if r.k == avNil {
						switch l.k {
						case avNil:
							res, known = true, true
						case avEOF, avNonNil:
							res, known = false, true
						case avRes:
							res, known = false, true
						}
					} else if isEOFGlobal(x.Y) || isEOFGlobal(x.X) {
						o := l
						if isEOFGlobal(x.X) {
							o = r
						}
						switch o.k {
						case avEOF:
							res, known = true, true
						case avNil, avNonNil:
							res, known = false, true
						}
					}
					if known {
						st.env[avKey{x, 0}] = w.setBool(res == (x.Op == token.EQL))
					}
				} else if (l.k == avTrue || l.k == avFalse) && (r.k == avTrue || r.k == avFalse) {
					st.env[avKey{x, 0}] = w.setBool((l.k == r.k) == (x.Op == token.EQL))
				}
			}
		case *ssa.ChangeInterface:
			st.env[avKey{x, 0}] = w.eval(st, x.X)
		case *ssa.ChangeType:
			st.env[avKey{x, 0}] = w.eval(st, x.X)
		case *ssa.TypeAssert:
			a := w.eval(st, x.X)
			if x.CommaOk {
				st.env[avKey{x, 1}] = a
			} else {
				st.env[avKey{x, 0}] = a
			}
		case *ssa.MakeInterface:
			a := w.eval(st, x.X)
			if a.k == avRes {
				st.env[avKey{x, 0}] = a
			} else {
				st.env[avKey{x, 0}] = av{k: avNonNil}
			}
		case *ssa.MakeClosure:
			st.env[avKey{x, 0}] = av{k: avFunc, fn: x, id: fmt.Sprintf("%p", x)}
		case *ssa.Extract:
			if a, ok := st.env[avKey{x.Tuple, x.Index + 1}]; ok {
				st.env[avKey{x, 0}] = a
			} else {
				delete(st.env, avKey{x, 0})
			}
		case *ssa.Defer:
			st.defers = append(st.defers, wdefer{in: x})
		case *ssa.RunDefers:
			ds := st.defers
			st.defers = nil
			w.runDefers(fn, ds, st, ctx, pc, func(s *wstate) {
				w.block(fn, b, i+1, s, ctx, pc, next, exit)
			})
			return
		case *ssa.Call:
			w.call(fn, x, &x.Call, x, st, ctx, pc, func(s *wstate) {
				w.block(fn, b, i+1, s, ctx, pc, next, exit)
			})
			return
		case *ssa.Go:
		case *ssa.If:
			c := w.eval(st, x.Cond)
			switch c.k {
			case avTrue:
				next(b.Succs[0], st)
			case avFalse:
				next(b.Succs[1], st)
			default:
				s2 := st.clone()
				w.refine(st, x.Cond, true)
				w.refine(s2, x.Cond, false)
				next(b.Succs[0], st)
				next(b.Succs[1], s2)
			}
			return
		case *ssa.Jump:
			next(b.Succs[0], st)
			return
		case *ssa.Return:
			st.ret = nil
			for _, r := range x.Results {
				a := w.eval(st, r)
				if a.k == avRes {
					st.res[a.id] = "escaped"
				}
				st.ret = append(st.ret, a)
			}
			exit(st, x)
			return
		case *ssa.Panic:
			return
		}
	}
}

// refine an unknown error compared with nil
func (w *walker) refine(st *wstate, cond ssa.Value, outcome bool) {
	st.env[avKey{cond, 0}] = w.setBool(outcome)
	switch c := cond.(type) {
	case *ssa.UnOp:
		if c.Op == token.NOT {
			w.refine(st, c.X, !outcome)
		}
	case *ssa.BinOp:
		if c.Op != token.EQL && c.Op != token.NEQ {
			return
		}
		x, y := c.X, c.Y
		if isNilConst(x) {
			x, y = y, x
		}
		if !isErrorType(x.Type()) {
			return
		}
		eq := outcome == (c.Op == token.EQL)
		if isNilConst(y) {
			if eq {
				st.env[avKey{x, 0}] = av{k: avNil}
			} else {
				st.env[avKey{x, 0}] = av{k: avNonNil}
			}
			// keep the loaded cell in step
			if u, ok := x.(*ssa.UnOp); ok && u.Op == token.MUL {
				if id := w.addrID(st, u.X); id != "" {
					st.cells[id] = st.env[avKey{x, 0}]
				}
			}
		}
	}
}

func (w *walker) runDefers(fn *ssa.Function, ds []wdefer, st *wstate, ctx string, pc *pctx, cont func(*wstate)) {
	if len(ds) == 0 {
		cont(st)
		return
	}
	d := ds[len(ds)-1]
	w.call(fn, d.in, &d.in.Call, nil, st, ctx, pc, func(s *wstate) {
		w.runDefers(fn, ds[:len(ds)-1], s, ctx, pc, cont)
	})
}

func (w *walker) call(fn *ssa.Function, in ssa.Instruction, c *ssa.CallCommon, val ssa.Value, st *wstate, ctx string, pc *pctx, cont func(*wstate)) {
	name := extName(c)
	setRes := func(s *wstate, i int, a av) {
		if val == nil {
			return
		}
		if c.Signature().Results().Len() > 1 {
			s.env[avKey{val, i + 1}] = a
		} else {
			s.env[avKey{val, 0}] = a
		}
	}
	clearRes := func(s *wstate) {
		if val != nil {
			for i := 0; i <= c.Signature().Results().Len(); i++ {
				delete(s.env, avKey{val, i})
			}
		}
	}
	if val != nil {
		clearRes(st)
	}
	ei := errResultIdx(c.Signature())
	callee := c.StaticCallee()
	if a := w.eval(st, c.Value); a.k == avFunc && callee == nil {
		callee = a.fn.Fn.(*ssa.Function)
	}
	mk, _ := c.Value.(*ssa.MakeClosure)
	if mk == nil {
		if a := w.eval(st, c.Value); a.k == avFunc {
			mk = a.fn
		}
	}

	// closing
	if w.closer != nil {
		if rv, ok := w.closer(c); ok {
			if a := w.eval(st, rv); a.k == avRes {
				st.res[a.id] = "closed"
			}
		}
	}

	// inline closures, and callees that receive errors or handle resources
	inline := false
	var kpc *pctx
	if pc != nil && callee != nil && w.kidOf != nil {
		kpc = w.kidOf(pc, in, callee)
	}
	if callee != nil && callee.Blocks != nil && w.p.inModule(callee) && len(ctx) < 64 {
		if mk != nil {
			inline = true
		}
		for _, a := range c.Args {
			e := w.eval(st, a)
			if (e.k == avNil || e.k == avNonNil || e.k == avEOF) && isErrorType(a.Type()) {
				inline = true
			}
			if e.k == avRes && w.reachesClose(callee) {
				inline = true
			}
			if e.k == avFunc {
				inline = true
			}
			if e.k == avAddr && strings.HasPrefix(e.id, "a:") && isErrPtr(a.Type()) {
				inline = true
			}
		}
		if w.opener != nil && w.opensResource(callee, map[*ssa.Function]bool{}) {
			inline = true
		}
		if kpc != nil && w.hasEff(kpc) {
			inline = true
		}
		if strings.Contains(ctx, callee.Name()+">") {
			inline = false
		}
	}
	if inline {
		s := st.clone()
		for i, prm := range callee.Params {
			if i < len(c.Args) {
				s.env[avKey{prm, 0}] = w.eval(st, c.Args[i])
			}
		}
		if mk != nil {
			for i, fv := range callee.FreeVars {
				s.env[avKey{fv, 0}] = w.eval(st, mk.Bindings[i])
			}
		}
		w.run(callee, s, ctx+callee.Name()+">", kpc, func(r *wstate, _ ssa.Instruction) {
			r = r.clone2(r)
			for k := range r.env {
				if k.v.Parent() == callee {
					delete(r.env, k)
				}
			}
			for i, a := range r.ret {
				if a.k == avRes && r.res[a.id] == "escaped" {
					r.res[a.id] = "open"
				}
				setRes(r, i, a)
			}
			// errors that the callee dropped are reported when it is analysed on its own
			if r.mustFail != "" && st.mustFail == "" && mk == nil {
				if ei >= 0 && r.ret[ei].k == avNil {
					r.mustFail = ""
				}
			}
			cont(r)
		})
		return
	}

	// opening
	if w.opener != nil && w.opener(c) {
		id := fmt.Sprintf("%s#%s", ctx, w.callKey(fn, c))
		s2 := st.clone()
		st.res[id] = "open"
		setRes(st, 0, av{k: avRes, id: id})
		setRes(st, ei, av{k: avNil})
		cont(st)
		setRes(s2, 0, av{k: avNil})
		setRes(s2, ei, av{k: avNonNil})
		if s2.mustFail == "" {
			s2.mustFail, s2.failPos = w.callKey(fn, c), w.p.instrPos(in)
		}
		cont(s2)
		return
	}

	switch name {
	case "errors.New", "fmt.Errorf":
		setRes(st, 0, av{k: avNonNil})
		cont(st)
		return
	case "errors.Join":
		any := false
		// variadic slice: be conservative, an error exists if a failure is pending
		if st.mustFail != "" {
			any = true
		}
		if any {
			setRes(st, 0, av{k: avNonNil})
		}
		cont(st)
		return
	case "errors.Is":
		if len(c.Args) == 2 && isEOFGlobal(c.Args[1]) {
			switch w.eval(st, c.Args[0]).k {
			case avEOF:
				setRes(st, 0, av{k: avTrue})
			case avNil, avNonNil:
				setRes(st, 0, av{k: avFalse})
			}
		}
		cont(st)
		return
	}

	if ei < 0 || (w.exempt != nil && w.exempt(c)) {
		// calls without error results; module callees may still matter for milestones
		if callee != nil && callee.Blocks != nil && w.p.inModule(callee) && w.mile != nil {
			for m := range w.summary(callee).miles {
				st.miles[m] = true
			}
		}
		if ei >= 0 && callee != nil {
			// exempted: unknown outcome, no obligation
			delete(st.env, avKey{val, ei + 1})
		}
		cont(st)
		return
	}

	outNil, outEOF, outNon := true, false, true
	var miles map[string]bool
	isCtor := false
	if callee != nil && callee.Blocks != nil && w.p.inModule(callee) {
		sm := w.summary(callee)
		outNil, outEOF, outNon = sm.nilOut, sm.eofOut, sm.nonOut
		miles = sm.miles
		isCtor = !sm.nilOut
		if !outNil && !outEOF && !outNon {
			return // never returns
		}
	} else if c.IsInvoke() && c.Method.Name() == "Read" || name == "io.ReadFull" || strings.HasSuffix(name, ").Read") || name == "io.ReadAtLeast" {
		outEOF = true
	}
	w.siteKeys[w.callKey(fn, c)] = w.p.instrPos(in)
	w.sites++
	if outEOF {
		s := st.clone()
		setRes(s, ei, av{k: avEOF})
		cont(s)
	}
	if outNon {
		s := st.clone()
		setRes(s, ei, av{k: avNonNil})
		if s.mustFail == "" && !isCtor {
			s.mustFail, s.failPos = w.callKey(fn, c), w.p.instrPos(in)
		}
		cont(s)
	}
	if outNil {
		setRes(st, ei, av{k: avNil})
		for m := range miles {
			st.miles[m] = true
		}
		if w.mile != nil {
			if m := w.mile(c); m != "" {
				st.miles[m] = true
			}
		}
		cont(st)
	}
}

func (s *wstate) clone2(o *wstate) *wstate {
	n := o.clone()
	n.ret = o.ret
	return n
}

func isErrPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isErrorType(p.Elem())
}

func (w *walker) opensResource(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if w.opener(c.Common()) {
					return true
				}
				if f := c.Common().StaticCallee(); f != nil && f.Blocks != nil && w.p.inModule(f) && w.opensResource(f, seen) {
					return true
				}
			}
		}
	}
	return false
}
