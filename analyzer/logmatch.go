package main

import (
	"fmt"
	"go/types"
	"os"
	"slices"
	"strings"
)

// lm matches the append log of a built section with the layout that the format specifies for it. A match is
// repeated for every choice at the places where the log has two alternatives.

type lm struct {
	e       *Engine
	c       *acc
	final   *State
	sts     []*State
	items   []logItem
	choice  []int
	at      int // next choice
	fail    func(rule, pos, d string)
	where   string
	pos     string
	events  map[*Atom]*loopEv
	altVals map[string]bool
	patched map[*State]bool // iterations whose stores were matched
}

type lmStop struct{}

func (m *lm) stop(rule, d string) {
	m.fail(rule, m.pos, m.where+": "+d)
	panic(lmStop{})
}

// run executes the matcher for each combination of alternatives
func (m *lm) run(where string, items []logItem, sts []*State, f func(m *lm)) {
	choice := []int{}
	for n := 0; ; n++ {
		if n > 4096 {
			m.fail("undecided", m.pos, where+": too many alternatives")
			return
		}
		s := *m
		s.where, s.items, s.sts, s.choice, s.at = where, items, sts, choice, 0
		func() {
			defer func() {
				if x := recover(); x != nil {
					if _, ok := x.(lmStop); !ok {
						panic(x)
					}
				}
			}()
			f(&s)
		}()
		choice = s.choice[:s.at]
		for len(choice) > 0 && choice[len(choice)-1] == 1 {
			choice = choice[:len(choice)-1]
		}
		if len(choice) == 0 {
			return
		}
		choice[len(choice)-1] = 1
	}
}

// open resolves an alternative at the head of the items
func (m *lm) open() {
	for len(m.items) > 0 && m.items[0].kind == "alt" {
		if m.at == len(m.choice) {
			m.choice = append(m.choice, 0)
		}
		a := m.items[0].alts[m.choice[m.at]]
		m.at++
		if a.st != nil {
			m.sts = append([]*State{a.st}, m.sts...)
		}
		m.items = append(append([]logItem{}, a.items...), m.items[1:]...)
	}
	// an empty spread is no item
	for len(m.items) > 0 && m.items[0].kind == "loop" && len(m.items[0].alts) == 0 {
		m.items = m.items[1:]
		m.open()
	}
}

func (m *lm) proveEQ(l *Lin) bool {
	for _, s := range m.sts {
		if s.f.proveEQ(m.e.A, l) || s.f.proveEQ(m.e.A, m.e.normLin(s, l)) {
			return true
		}
	}
	return false
}

func (m *lm) proveGE(l *Lin) bool {
	for _, s := range m.sts {
		if s.f.proveGE(m.e.A, l) {
			return true
		}
	}
	return false
}

func (m *lm) dead() bool {
	for _, s := range m.sts {
		if s.f.dead {
			return true
		}
	}
	return false
}

func (m *lm) byteVal() *Lin {
	m.open()
	if len(m.items) == 0 {
		m.stop("layout", "the section ends where the format has another field")
	}
	it := m.items[0]
	if it.kind != "val" {
		m.stop("layout", "expected a fixed field and found "+it.kind)
	}
	m.items = m.items[1:]
	l, ok := it.val.(*Lin)
	if !ok {
		m.stop("undecided", "unrecognised field value "+valKey(it.val))
	}
	return l
}

// u reads a little endian field of n bytes
func (m *lm) u(n int) *Lin {
	v := m.e.c(0)
	w := int64(1)
	for i := 0; i < n; i++ {
		v = m.e.A.add(v, m.e.A.scale(m.byteVal(), w))
		w *= 256
	}
	return v
}

func (m *lm) next(kind string) *logItem {
	m.open()
	if len(m.items) == 0 {
		m.stop("layout", "the section ends where the format has "+kind)
	}
	it := m.items[0]
	if it.kind != kind {
		m.stop("layout", "expected "+kind+" and found "+it.kind)
	}
	m.items = m.items[1:]
	return &it
}

func (m *lm) more() bool {
	m.open()
	return len(m.items) > 0
}

func (m *lm) end() {
	m.open()
	if len(m.items) > 0 {
		m.stop("layout", "more data than the format has: "+strings.TrimSpace(logString(m.items[:1], "")))
	}
}

// field checks that the next n bytes are the value
func (m *lm) field(n int, want *Lin, what string) {
	got := m.u(n)
	m.is(got, want, what)
}

func (m *lm) is(got, want *Lin, what string) {
	if !m.proveEQ(m.e.A.sub(got, want)) {
		m.stop("value", fmt.Sprintf("%s: writes %s where %s is expected", what, got, want))
	}
}

// counted: is the trip count of the loop equal to n
func (m *lm) trips(l *logItem, n *Lin, what string) {
	k := m.e.A.of(l.obj.loop.k)
	if !m.proveEQ(m.e.A.sub(k, n)) {
		if os.Getenv("DBG") != "" {
			for i, s := range m.sts {
				for _, g := range s.f.relevant(m.e.A, m.e.A.sub(k, n)) {
					fmt.Println("   fact", i, g, ">= 0")
				}
			}
		}
		m.stop("value", fmt.Sprintf("%s: the number of entries is not the count %s that was written", what, n))
	}
}

type entryFn func(m *lm, a *logAlt, k *Lin, cn *canoner) string

// each matches a loop with n iterations; f matches an iteration and returns the text of what it depends on.
func (m *lm) each(n *Lin, what string, f entryFn) string {
	if !m.more() && m.proveEQ(n) {
		return "" // nothing to iterate
	}
	l := m.next("loop")
	m.trips(l, n, what)
	return m.body(l, what, f)
}

func (m *lm) body(l *logItem, what string, f entryFn) string {
	text := ""
	k := l.obj.loop.k
	for i := range l.alts {
		a := &l.alts[i]
		cn := m.e.canonOf(k)
		first := false
		for _, s := range []*State{a.st} {
			if s.f.proveEQ(m.e.A, m.e.A.of(k)) {
				first = true // the case of the first iteration alone
			}
		}
		_ = first
		m.run(m.where+", "+what, a.items, append([]*State{a.st}, m.sts...), func(s *lm) {
			t := f(s, a, m.e.A.of(k), cn)
			s.end()
			if first && len(l.alts) > 1 {
				return
			}
			if text == "" {
				text = t
			} else if t != text && t != "" {
				s.stop("value", "entries of different kinds: "+t+" and "+text)
			}
		})
	}
	return text
}

// spread matches a string or slice and returns its text
func (m *lm) spread(cn *canoner, kind string) (string, *Lin) {
	it := m.next(kind)
	if it.str != nil {
		return cn.lin(it.str.len) + " " + cn.val(*it.str), it.str.len
	}
	return cn.lin(it.sl.len) + " " + cn.val(*it.sl), it.sl.len
}

// cumulative finds the loop variable that accumulates from zero and has the given value at the end of the
// iteration; it returns the increment.
func (m *lm) cumulative(a *logAlt, v *Lin) *Lin {
	A := m.e.A
	for _, lv := range a.vars {
		if lv.init == nil || lv.head == nil || lv.back == nil {
			continue
		}
		if k, ok := lv.init.isConst(); !ok || k != 0 {
			continue
		}
		back := stripWraps(m.e, lv.back, 32)
		if v == lv.back || v == back || m.proveEQ(A.sub(v, lv.back)) || m.proveEQ(A.sub(v, back)) {
			d := A.sub(lv.back, lv.head)
			if a.st != nil {
				d = m.e.normLin(a.st, d)
			}
			return d
		}
	}
	return nil
}

// sizeText is the part of an entry text that stands for its size
func sizeText(s string) string {
	if i := strings.IndexByte(s, ' '); i >= 0 && strings.HasPrefix(s, "[") {
		return s[:i]
	}
	return s
}

// stripWrap removes the terms c*(x/2^bits) with c a multiple of 2^bits: x is known to be smaller.
func stripWrap(e *Engine, l *Lin, bits uint) *Lin {
	m := int64(1) << bits
	out := l
	for _, t := range l.t {
		if t.a.op == "div" && t.c%m == 0 {
			if k, ok := t.a.args[1].isConst(); ok && k >= m && k%m == 0 && t.c%k == 0 {
				out = e.A.sub(out, e.A.scale(e.A.of(t.a), t.c))
			}
		}
	}
	return out
}

// endsRes is what a table of end offsets grows by in each iteration
type endsRes struct {
	step *Lin
	k    *Atom
	bits uint
}

// ends matches a loop that emits w byte end offsets
func (m *lm) ends(n *Lin, w int, what string, noWrap bool) *endsRes {
	res := &endsRes{bits: uint(8 * w)}
	m.each(n, what, func(s *lm, a *logAlt, k *Lin, cn *canoner) string {
		v := s.u(w)
		step := s.cumulative(a, v)
		if step == nil && noWrap {
			step = s.cumulative(a, stripWraps(s.e, v, res.bits))
		}
		if step == nil {
			s.stop("value", "the end offset "+v.String()+" is not the sum of the sizes so far, or does not fit its field")
		}
		if noWrap {
			step = stripWraps(s.e, step, res.bits)
		}
		res.step, res.k = step, cn.k
		return cn.lin(step)
	})
	return res
}

// grows checks that the size of the entry is what the table of end offsets grew by
func (m *lm) grows(r *endsRes, size *Lin, cn *canoner, what string) {
	if r == nil || r.step == nil {
		return // no entries
	}
	for _, w := range m.transfer(r.step, r.k, cn) {
		if m.proveEQ(m.e.A.sub(size, w)) {
			return
		}
	}
	m.stop("value", fmt.Sprintf("%s: the end offsets grow by %s and the entries have size %s", what, m.e.canonOf(r.k).lin(r.step), cn.lin(size)))
}

// transfer restates a value of one loop for the same iteration of another loop
func (m *lm) transfer(l *Lin, k *Atom, to *canoner) []*Lin {
	from := m.e.canonOf(k)
	A := m.e.A
	outs := []*Lin{A.canon(l.k, nil)}
	for _, t := range l.t {
		want := from.atom(t.a)
		var next []*Lin
		for _, b := range A.list {
			if b == t.a && !strings.Contains(want, "K") || b.op == t.a.op && to.atom(b) == want {
				for _, o := range outs {
					next = append(next, A.add(o, A.canon(0, []lterm{{b, t.c}})))
				}
			}
		}
		outs = next
		if len(outs) > 64 {
			outs = outs[:64]
		}
	}
	return outs
}

func stripWraps(e *Engine, l *Lin, bits uint) *Lin {
	for {
		t := stripWrap(e, l, bits)
		if t == l {
			return l
		}
		l = t
	}
}

// running restates the loop variables that grow by a constant in each iteration, up to wraps, by the number of
// the iteration
func (m *lm) running(a *logAlt, k *Lin, l *Lin) *Lin {
	A := m.e.A
	for _, lv := range a.vars {
		if lv.init == nil || lv.head == nil || lv.back == nil || len(lv.head.t) != 1 || lv.head.k != 0 || lv.head.t[0].c != 1 {
			continue
		}
		h := lv.head.t[0].a
		s, ok := A.sub(stripWraps(m.e, lv.back, 32), lv.head).isConst()
		if !ok {
			continue
		}
		for _, t := range l.t {
			if t.a == h {
				l = A.add(A.sub(l, A.scale(lv.head, t.c)), A.scale(A.add(stripWraps(m.e, lv.init, 32), A.scale(k, s)), t.c))
			}
		}
	}
	return l
}

// patches checks that an iteration writes the w byte value into the reserved table at its position and nothing
// else
func (m *lm) patches(a *logAlt, table *Lin, k *Lin, w int, want *Lin, what string) {
	A := m.e.A
	got := map[int][]*Lin{} // the possible values of each byte
	var walk func(evs []any)
	walk = func(evs []any) {
		for _, ev := range evs {
			switch x := ev.(type) {
			case storeEv:
				if len(x.p.idx) == 0 {
					m.stop("undecided", what+": unrecognised store")
				}
				at := A.sub(m.running(a, k, stripWraps(m.e, x.p.idx[len(x.p.idx)-1], 32)), A.add(table, A.scale(k, int64(w))))
				v, ok := x.v.(*Lin)
				if !ok {
					m.stop("undecided", what+": unrecognised stored value")
				}
				j := -1
				for i := 0; i < w; i++ {
					if m.proveEQ(A.addc(at, int64(-i))) {
						j = i
					}
				}
				if j < 0 {
					m.stop("value", fmt.Sprintf("%s: a store at %s is not in the entry %s of the reserved table", what, x.p.idx[len(x.p.idx)-1], k))
				}
				got[j] = []*Lin{v}
			case altEv:
				before := got
				side := func(evs []any) map[int][]*Lin {
					got = map[int][]*Lin{}
					for j, v := range before {
						got[j] = v
					}
					walk(evs)
					return got
				}
				one, two := side(x.a), side(x.b)
				got = map[int][]*Lin{}
				for j := 0; j < w; j++ {
					if len(one[j]) == 0 || len(two[j]) == 0 {
						if len(one[j])+len(two[j]) > 0 {
							m.stop("value", fmt.Sprintf("%s: byte %d of the entry is not always written", what, j))
						}
						continue
					}
					got[j] = append([]*Lin{}, one[j]...)
					for _, v := range two[j] {
						if !slices.Contains(got[j], v) {
							got[j] = append(got[j], v)
						}
					}
				}
			case *loopEv:
				for _, b := range x.alts {
					if hasStores(b) {
						m.stop("undecided", what+": stores in a loop")
					}
				}
			}
		}
	}
	m.patched[a.st] = true
	walk(a.st.trace.list(nil))
	vals := []*Lin{m.e.c(0)}
	for i := 0; i < w; i++ {
		if got[i] == nil {
			m.stop("value", fmt.Sprintf("%s: byte %d of the entry is not written", what, i))
		}
		var next []*Lin
		for _, v := range vals {
			for _, g := range got[i] {
				next = append(next, A.add(v, A.scale(g, int64(1)<<(8*i))))
			}
		}
		vals = next
		if len(vals) > 64 {
			m.stop("undecided", what+": too many alternatives")
		}
	}
	for _, v := range vals {
		d := stripWraps(m.e, A.sub(v, want), 32) // the data is smaller than 4GiB
		if k, ok := d.isConst(); ok && k%(1<<32) == 0 {
			continue
		}
		if !m.proveEQ(d) {
			m.stop("value", fmt.Sprintf("%s: the end offset %s is not %s", what, v, want))
		}
	}
}

func hasStores(evs []any) bool {
	for _, ev := range evs {
		switch x := ev.(type) {
		case storeEv:
			return true
		case altEv:
			if hasStores(x.a) || hasStores(x.b) {
				return true
			}
		case *loopEv:
			for _, b := range x.alts {
				if hasStores(b) {
					return true
				}
			}
		}
	}
	return false
}

func isStrT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
