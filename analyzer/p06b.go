package main

import (
	"fmt"
	"regexp"
	"strings"
)

// contents of the sections of a built font: which element is emitted at each position

var reSorted = regexp.MustCompile(`sel:(sorted~\d+@\d+)\(\[1\*K\+0\]\)|(sorted~\d+@\d+)\[0\+1\*<K>\]`)

// sortedIn finds the sorted list whose K-th element the text refers to
func (m *lm) sortedIn(text, what string) (*sortInfo, string) {
	g := reSorted.FindStringSubmatch(text)
	if g == nil {
		m.stop("order", what+": the entry is not the one at its position of a sorted list: "+text)
	}
	reg := g[1] + g[2]
	si := m.e.sorts[reg]
	if si == nil {
		m.stop("order", what+": the entries come from a list that is not sorted")
	}
	return si, g[0]
}

func plainText(t string) string {
	return strings.NewReplacer("orzero:", "", "&", "", "0+1*<", "<").Replace(t)
}

// ascending checks that the call sorts plain numbers or strings in ascending order
func (m *lm) ascending(si *sortInfo, what string) {
	switch si.name {
	case "slices.Sort", "sort.Strings", "sort.Ints":
		return
	}
	m.stop("order", what+": the list is permuted by "+si.name+", not sorted in ascending order")
}

// ascendingBy checks that the comparison function orders two elements like the strings that are emitted for them
func (m *lm) ascendingBy(si *sortInfo, emitted, sel, what string) {
	e := m.e
	if si.name != "slices.SortFunc" && si.name != "slices.SortStableFunc" {
		m.stop("order", what+": the list is permuted by "+si.name+", not sorted by name")
	}
	cmp, ok := si.args[1].(FuncV)
	if !ok || cmp.fn == nil || len(cmp.fn.Params) != 2 {
		m.stop("undecided", what+": unknown comparison function")
	}
	a := e.symVal(cmp.fn.Params[0].Type(), "cmpA", nil, nil)
	b := e.symVal(cmp.fn.Params[1].Type(), "cmpB", nil, nil)
	cn := e.canonOf(nil)
	sign := e.A.of(e.A.mk("var", "sign(cmp)", -1, 1))
	want := plainText(emitted)
	form := func(v StrV, x Val) bool {
		t := plainText(cn.lin(v.len) + " " + cn.val(v))
		sub := plainText(cn.val(x))
		var xt string
		if l, isLin := x.(*Lin); isLin && len(l.t) == 1 {
			xt = cn.atom(l.t[0].a)
		} else {
			xt = sub
		}
		return strings.ReplaceAll(t, "<"+xt+">", "<"+sel+">") == want
	}
	oldCmp := e.StrCmp
	defer func() { e.StrCmp = oldCmp }()
	seen := false
	e.StrCmp = func(e *Engine, st *State, x, y StrV) *Lin {
		if form(x, a) && form(y, b) {
			seen = true
			return sign
		}
		if form(x, b) && form(y, a) {
			seen = true
			return e.A.neg(sign)
		}
		return nil
	}
	for _, o := range e.callFn(cmp.fn, []Val{a, b}, cmp.binds, si.st.clone()) {
		if e.impossible(o.st) {
			continue
		}
		r, ok := o.val.(*Lin)
		if !ok {
			m.stop("undecided", what+": unknown result of the comparison")
		}
		for s := int64(-1); s <= 1; s++ {
			f := o.st.f.clone()
			f.addEQ(e.A, e.A.addc(sign, -s))
			if f.dead || f.infeasible(e.A) {
				continue
			}
			good := false
			switch s {
			case 0:
				good = f.proveEQ(e.A, r)
			case 1:
				good = f.proveGE(e.A, e.A.addc(r, -1))
			default:
				good = f.proveGE(e.A, e.A.addc(e.A.neg(r), -1))
			}
			if !good {
				m.stop("order", fmt.Sprintf("%s: the comparison function returns %s when the emitted strings compare as %d", what, r, s))
			}
		}
	}
	if !seen {
		m.stop("order", what+": the comparison function does not compare the emitted strings")
	}
}

// source lists what the elements of a sorted list were, as texts of a loop index
func (m *lm) source(si *sortInfo, what string, f func(s *lm, a *logAlt, cn *canoner, v Val)) {
	items := m.e.appended(si.slice, nil)
	s := *m
	s.run(m.where+", "+what, items, m.sts, func(s *lm) {
		l := s.next("loop")
		for i := range l.alts {
			a := &l.alts[i]
			cn := m.e.canonOf(l.obj.loop.k)
			s.run(s.where, a.items, append([]*State{a.st}, s.sts...), func(s *lm) {
				if !s.more() {
					f(s, a, cn, nil)
					return
				}
				it := s.next("val")
				f(s, a, cn, it.val)
				s.end()
			})
		}
		s.end()
	})
}

func (m *lm) atomsLike(text string, cn *canoner) []*Atom {
	var out []*Atom
	for _, b := range m.e.A.list {
		if plainText(cn.atom(b)) == text {
			out = append(out, b)
		}
	}
	return out
}

type mapWrite struct {
	ev   mapEv
	loop *loopEv
	st   *State
}

// mapWrites are the writes into the map of the given object
func (m *lm) mapWrites(o *Obj) []mapWrite {
	var out []mapWrite
	var walk func(evs []any, l *loopEv, st *State)
	walk = func(evs []any, l *loopEv, st *State) {
		for _, ev := range evs {
			switch x := ev.(type) {
			case mapEv:
				if x.m.o == o {
					out = append(out, mapWrite{x, l, st})
				}
			case *loopEv:
				for i, a := range x.alts {
					walk(a, x, x.sts[i])
				}
			case altEv:
				walk(x.a, l, st)
				walk(x.b, l, st)
			}
		}
	}
	walk(m.final.trace.list(nil), nil, m.final)
	return out
}

// indexMap checks that the map takes the K-th element of a list to K, and returns the text of the element
func (m *lm) indexMap(o *Obj, what string) string {
	ws := m.mapWrites(o)
	if len(ws) == 0 {
		m.stop("value", what+": the indices are never assigned")
	}
	text := ""
	for _, w := range ws {
		if w.ev.del || w.loop == nil {
			m.stop("value", what+": an index is assigned outside of the numbering of the elements")
		}
		k := m.e.A.of(w.loop.k)
		v, ok := w.ev.val.(*Lin)
		if !ok || !(w.st.f.proveEQ(m.e.A, m.e.A.sub(stripWraps(m.e, v, 16), k)) || w.st.f.proveEQ(m.e.A, m.e.A.sub(stripWraps(m.e, v, 8), k))) {
			m.stop("value", fmt.Sprintf("%s: the element at position %s gets index %s", what, k, valKey(w.ev.val)))
		}
		cn := m.e.canonOf(w.loop.k)
		t := plainText(cn.val(w.ev.key))
		t = strings.ReplaceAll(t, "([+0])", "([1*K+0])")
		if text != "" && t != text {
			m.stop("value", what+": the elements are numbered in two orders")
		}
		text = t
	}
	return text
}

// mapNamed finds the map whose contents the text reads
func (m *lm) mapNamed(text string) []*Obj {
	var out []*Obj
	for _, o := range m.e.allObjs {
		if o.name == "" || o.typ == nil {
			continue
		}
		if len(m.mapWrites(o)) > 0 && (strings.Contains(text, o.name+"{}") || strings.Contains(text, fmt.Sprintf("%s~%d{}", o.name, o.id))) {
			out = append(out, o)
		}
	}
	return out
}

// indexOf checks that the text is the index that some numbering assigned to the element el of the list
func (m *lm) indexOf(text, el, list, what string) {
	t := plainText(text)
	for _, o := range m.mapNamed(t) {
		n := m.indexMap(o, what)
		if !strings.Contains(n, list) {
			m.stop("value", what+": the indices are positions of "+n+", not of "+list)
		}
		if strings.HasSuffix(t, "{<"+plainText(el)+">}>") || strings.HasSuffix(t, "{<"+plainText(el)+">}>+0]") || strings.HasSuffix(t, "{<"+plainText(el)+">}+0]") {
			return
		}
	}
	m.stop("value", what+": "+text+" is not the index of the element")
}

func (m *lm) allObjs() []*Obj { return m.e.allObjs }

// indexMapLast checks the writes of one loop into the map
func (m *lm) indexMapLast(o *Obj, l *loopEv, what string) string {
	text := ""
	for _, w := range m.mapWrites(o) {
		if w.loop != l {
			continue
		}
		k := m.e.A.of(l.k)
		v, ok := w.ev.val.(*Lin)
		if !ok || !w.st.f.proveEQ(m.e.A, m.e.A.sub(stripWraps(m.e, v, 16), k)) {
			m.stop("value", fmt.Sprintf("%s: the element at position %s gets index %s", what, k, valKey(w.ev.val)))
		}
		text = m.e.canonOf(l.k).val(w.ev.key)
		text = strings.ReplaceAll(text, "([+0])", "([1*K+0])")
	}
	return text
}

var reSel = regexp.MustCompile(`sel:[\w.]+\[\]\(\[1\*K\+0\]\)`)
var reKey = regexp.MustCompile(`^key#\d+(\.\d+)?$`)
var reLookup = regexp.MustCompile(`\{<key#(\d+)\.([01])>\}$`)

// keyOf checks that the value is a key of a map that is iterated over
func (m *lm) keyOf(v Val) {
	if v == nil {
		m.stop("value", "a key of the map is left out of the list")
	}
	switch x := v.(type) {
	case StrV:
		if reKey.MatchString(x.key) {
			return
		}
	case *Lin:
		l := stripWraps(m.e, x, 32)
		if len(l.t) == 1 && l.k == 0 && l.t[0].c == 1 {
			if reKey.MatchString(strings.TrimPrefix(l.t[0].a.key, l.t[0].a.op+":")) {
				return
			}
		}
	}
	m.stop("value", "the list has "+valKey(v)+" instead of the keys of the map")
}

// pairOf checks that the value is made of the indices of the two glyphs of the pair: first<<16 | second
func (m *lm) pairOf(v Val, cn *canoner) {
	l, ok := v.(*Lin)
	if !ok || len(l.t) != 2 || l.k != 0 {
		m.stop("value", "the list of pairs has "+cn.val(v))
	}
	seen := map[string]string{}
	for _, t := range l.t {
		g := reLookup.FindStringSubmatch(plainText(cn.atom(t.a)) + "")
		if g == nil {
			g = reLookup.FindStringSubmatch(strings.TrimSuffix(plainText(cn.atom(t.a)), ">"))
		}
		want := map[string]int64{"0": 1 << 16, "1": 1}
		if g == nil || want[g[2]] != t.c {
			m.stop("value", "the list of pairs has "+cn.val(v))
		}
		seen[g[2]] = g[1]
		for _, o := range m.mapNamed(plainText(cn.atom(t.a))) {
			m.indexMap(o, "glyph indices")
		}
	}
	if len(seen) != 2 || seen["0"] != seen["1"] {
		m.stop("value", "the list of pairs has "+cn.val(v))
	}
}

var rePair = regexp.MustCompile(`\{\{0\+1\*(\d+);0\+1\*(\d+);\}\}`)

// kernValue checks that the value is the one of the pair at the same position
func (m *lm) kernValue(v *Lin, cn *canoner, pair *Lin, pairK *Atom, order string) {
	e := m.e
	for _, t := range v.t {
		j, ok := e.joins[t.a]
		inner := t.a
		if !ok && t.a.op == "div" && len(t.a.args[0].t) == 1 {
			inner = t.a.args[0].t[0].a
			j, ok = e.joins[inner]
		}
		if ok {
			for i := range j.vals {
				s := *m
				s.sts = append([]*State{j.sts[i]}, m.sts...)
				s.kernValue(e.subst(j.sts[i], v, map[*Atom]*Lin{inner: j.vals[i]}), cn, pair, pairK, order)
			}
			return
		}
	}
	text := cn.lin(v)
	if !strings.Contains(text, ".Value") {
		m.stop("value", "the kerning value is "+text)
	}
	g := rePair.FindStringSubmatch(v.String())
	if g == nil {
		m.stop("value", "the kerning value is not looked up by its pair: "+text)
	}
	var idx [2]*Lin
	for i := 0; i < 2; i++ {
		var id int
		fmt.Sscan(g[i+1], &id)
		if id >= len(e.A.list) {
			m.stop("undecided", "unknown pair")
		}
		a := e.A.list[id]
		if a.op != "sel" || a.reg == nil || a.reg.name != order || len(a.args) != 1 {
			m.stop("value", "the kerning value is not looked up by the glyphs of the pair: "+cn.atom(a))
		}
		idx[i] = a.args[0]
	}
	m.kernClass(v, g[0], text)
	for _, q := range m.transfer(pair, pairK, cn) {
		q = m.smallDivs(stripWraps(e, q, 32))
		st := m.sts[0]
		hi := e.div(st, q, 1<<16)
		lo := e.A.sub(q, e.A.scale(hi, 1<<16))
		if m.smallDivs(e.A.sub(idx[0], hi)) == e.c(0) && m.smallDivs(e.A.sub(idx[1], lo)) == e.c(0) {
			return
		}
	}
	m.stop("value", "the kerning value is not the one of the pair at its position: "+text)
}

// kernClass checks that the value is the pair's own if it has no class and the one of its class otherwise
func (m *lm) kernClass(v *Lin, pair, text string) {
	e := m.e
	v = stripWraps(e, v, 8)
	if len(v.t) != 1 || v.t[0].c != 1 || v.k != 0 {
		m.stop("value", "the kerning value is "+text)
	}
	val := v.t[0].a
	if val.reg == nil {
		m.stop("undecided", "unrecognised kerning value "+text)
	}
	own := strings.Contains(val.reg.name, pair)
	var class *Atom
	for _, a := range e.A.list {
		if a.op == "sel" && a.reg != nil && strings.Contains(a.reg.name, pair) && strings.Contains(a.String(), ".Class") {
			class = a
		}
	}
	if class == nil {
		m.stop("value", "the kerning value ignores the class of the pair")
	}
	cl := e.A.of(class)
	if own {
		if !m.proveEQ(cl) {
			m.stop("value", "the kerning value is the pair's own although the pair may have a class")
		}
		return
	}
	if len(val.args) != 1 || !m.proveEQ(e.A.addc(e.A.sub(val.args[0], cl), 1)) {
		m.stop("value", "the kerning value is not the one of the class of the pair: "+text)
	}
	if m.proveGE(e.A.addc(cl, -1)) {
		return
	}
	m.stop("value", "the kerning value is the one of a class although the pair may have none")
}

// smallDivs drops the quotients x/2^32 of elements of pair lists, which are smaller
func (m *lm) smallDivs(l *Lin) *Lin {
	out := l
	for _, t := range l.t {
		if t.a.op == "div" {
			if k, ok := t.a.args[1].isConst(); ok && k == 1<<32 && strings.HasPrefix(t.a.args[0].String(), "sorted~") {
				out = m.e.A.sub(out, m.e.A.canon(0, []lterm{t}))
			}
		}
	}
	return out
}
