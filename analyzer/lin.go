package main

// Linear forms over hash-consed atoms: the numeric part of the abstract domain.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

const infNum = int64(1) << 62

func satAdd(a, b int64) int64 {
	if a >= infNum || b >= infNum {
		return infNum
	}
	if a <= -infNum || b <= -infNum {
		return -infNum
	}
	s := a + b
	if s >= infNum {
		return infNum
	}
	if s <= -infNum {
		return -infNum
	}
	return s
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	neg := (a < 0) != (b < 0)
	x, y := a, b
	if x < 0 {
		x = -x
	}
	if y < 0 {
		y = -y
	}
	if x >= infNum || y >= infNum || x > infNum/y {
		if neg {
			return -infNum
		}
		return infNum
	}
	r := x * y
	if neg {
		return -r
	}
	return r
}

// Atom is an indivisible unknown: an input, a loaded cell, a quotient...
type Atom struct {
	id     int
	key    string
	op     string // "var", "sel", "div", "mul", "fn"
	args   []*Lin
	reg    *regBase // for sel
	lo, hi int64
	depth  int
}

type lterm struct {
	a *Atom
	c int64
}

type Lin struct {
	k   int64
	t   []lterm
	key string
}

type atoms struct {
	tab  map[string]*Atom
	list []*Atom
	lins map[string]*Lin
	n    int
}

func newAtoms() *atoms { return &atoms{tab: map[string]*Atom{}, lins: map[string]*Lin{}} }

func (A *atoms) mk(op, name string, lo, hi int64, args ...*Lin) *Atom {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(':')
	b.WriteString(name)
	d := 0
	for _, l := range args {
		b.WriteByte('(')
		b.WriteString(l.key)
		b.WriteByte(')')
		for _, t := range l.t {
			if t.a.depth >= d {
				d = t.a.depth + 1
			}
		}
	}
	k := b.String()
	if a := A.tab[k]; a != nil {
		return a
	}
	a := &Atom{id: len(A.list), key: k, op: op, args: args, lo: lo, hi: hi, depth: d}
	A.tab[k] = a
	A.list = append(A.list, a)
	return a
}

func (A *atoms) fresh(name string, lo, hi int64) *Atom {
	A.n++
	return A.mk("var", fmt.Sprintf("%s#%d", name, A.n), lo, hi)
}

func (A *atoms) canon(k int64, t []lterm) *Lin {
	var b strings.Builder
	fmt.Fprintf(&b, "%d", k)
	for _, x := range t {
		fmt.Fprintf(&b, "+%d*%d", x.c, x.a.id)
	}
	key := b.String()
	if l := A.lins[key]; l != nil {
		return l
	}
	l := &Lin{k: k, t: t, key: key}
	A.lins[key] = l
	return l
}

func (A *atoms) c(k int64) *Lin { return A.canon(k, nil) }
func (A *atoms) of(a *Atom) *Lin {
	if a.lo == a.hi {
		return A.c(a.lo)
	}
	return A.canon(0, []lterm{{a, 1}})
}

func (A *atoms) comb(a *Lin, ca int64, b *Lin, cb int64) *Lin {
	out := make([]lterm, 0, len(a.t)+len(b.t))
	i, j := 0, 0
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i].a.id < b.t[j].a.id):
			if c := a.t[i].c * ca; c != 0 {
				out = append(out, lterm{a.t[i].a, c})
			}
			i++
		case i >= len(a.t) || b.t[j].a.id < a.t[i].a.id:
			if c := b.t[j].c * cb; c != 0 {
				out = append(out, lterm{b.t[j].a, c})
			}
			j++
		default:
			if c := a.t[i].c*ca + b.t[j].c*cb; c != 0 {
				out = append(out, lterm{a.t[i].a, c})
			}
			i++
			j++
		}
	}
	return A.canon(a.k*ca+b.k*cb, out)
}

func (A *atoms) add(a, b *Lin) *Lin         { return A.comb(a, 1, b, 1) }
func (A *atoms) sub(a, b *Lin) *Lin         { return A.comb(a, 1, b, -1) }
func (A *atoms) addc(a *Lin, k int64) *Lin  { return A.canon(a.k+k, a.t) }
func (A *atoms) scale(a *Lin, c int64) *Lin { return A.comb(a, c, A.c(0), 0) }
func (A *atoms) neg(a *Lin) *Lin            { return A.scale(a, -1) }

func (l *Lin) isConst() (int64, bool) { return l.k, len(l.t) == 0 }

func (l *Lin) String() string {
	if len(l.t) == 0 {
		return fmt.Sprint(l.k)
	}
	var ps []string
	for _, t := range l.t {
		switch t.c {
		case 1:
			ps = append(ps, t.a.String())
		case -1:
			ps = append(ps, "-"+t.a.String())
		default:
			ps = append(ps, fmt.Sprintf("%d*%s", t.c, t.a))
		}
	}
	if l.k != 0 {
		ps = append(ps, fmt.Sprint(l.k))
	}
	return strings.Join(ps, " + ")
}

func (a *Atom) String() string {
	switch a.op {
	case "var":
		s := strings.TrimPrefix(a.key, "var:")
		return s
	case "sel":
		var ix []string
		for _, x := range a.args {
			ix = append(ix, x.String())
		}
		return fmt.Sprintf("%s[%s]", a.reg.name, strings.Join(ix, ","))
	case "div":
		return fmt.Sprintf("(%s)/%s", a.args[0], a.args[1])
	case "mul":
		return fmt.Sprintf("(%s)*(%s)", a.args[0], a.args[1])
	}
	var ix []string
	for _, x := range a.args {
		ix = append(ix, x.String())
	}
	n := strings.TrimPrefix(a.key, a.op+":")
	if i := strings.IndexByte(n, '('); i >= 0 && len(a.args) > 0 {
		n = n[:i]
	}
	return n + "(" + strings.Join(ix, ",") + ")"
}

// ---- facts ----

// facts is an immutable conjunction of constraints (persistent list) plus refined ranges.
type facts struct {
	ge   []*Lin // each >= 0
	ne   []*Lin // each != 0
	rng  map[*Atom][2]int64
	has  map[string]bool
	memo map[string]bool
	dead bool
}

func newFacts() *facts {
	return &facts{rng: map[*Atom][2]int64{}, has: map[string]bool{}}
}

func (f *facts) clone() *facts {
	n := &facts{ge: f.ge[:len(f.ge):len(f.ge)], ne: f.ne[:len(f.ne):len(f.ne)], rng: make(map[*Atom][2]int64, len(f.rng)), has: make(map[string]bool, len(f.has)), dead: f.dead}
	for k, v := range f.rng {
		n.rng[k] = v
	}
	for k := range f.has {
		n.has[k] = true
	}
	return n
}

func (f *facts) arange(a *Atom) (int64, int64) {
	if r, ok := f.rng[a]; ok {
		return r[0], r[1]
	}
	return a.lo, a.hi
}

func (f *facts) linRange(l *Lin) (int64, int64) {
	lo, hi := l.k, l.k
	for _, t := range l.t {
		al, ah := f.arange(t.a)
		if t.c > 0 {
			lo = satAdd(lo, satMul(al, t.c))
			hi = satAdd(hi, satMul(ah, t.c))
		} else {
			lo = satAdd(lo, satMul(ah, t.c))
			hi = satAdd(hi, satMul(al, t.c))
		}
	}
	return lo, hi
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// tighten divides by the gcd of the coefficients (integer rounding)
func (A *atoms) tighten(l *Lin) *Lin {
	var g int64
	for _, t := range l.t {
		g = gcd64(g, t.c)
	}
	if g > 1 {
		nt := make([]lterm, len(l.t))
		for i, t := range l.t {
			nt[i] = lterm{t.a, t.c / g}
		}
		return A.canon(floorDiv(l.k, g), nt)
	}
	return l
}

// addGE records l >= 0.
func (f *facts) addGE(A *atoms, l *Lin) {
	l = A.tighten(l)
	if len(l.t) == 0 {
		if l.k < 0 {
			f.dead = true
		}
		return
	}
	if len(l.t) == 1 {
		t := l.t[0]
		lo, hi := f.arange(t.a)
		if t.c == 1 {
			if v := -l.k; v > lo {
				lo = v
			} else {
				return
			}
		} else {
			if v := l.k; v < hi {
				hi = v
			} else {
				return
			}
		}
		f.rng[t.a] = [2]int64{lo, hi}
		f.memo = nil
		if lo > hi {
			f.dead = true
		}
		f.recheckNE(A)
		return
	}
	if f.has[l.key] {
		return
	}
	lo, hi := f.linRange(l)
	if lo >= 0 {
		return
	}
	if hi < 0 {
		f.dead = true
		return
	}
	f.has[l.key] = true
	f.ge = append(f.ge[:len(f.ge):len(f.ge)], l)
	f.memo = nil
	// range propagation on the constraint
	for _, t := range l.t {
		al, ah := f.arange(t.a)
		// t.c*a >= -(rest) ; rest max = hi - contribution max
		var contribHi int64
		if t.c > 0 {
			contribHi = satMul(ah, t.c)
		} else {
			contribHi = satMul(al, t.c)
		}
		if hi >= infNum || contribHi >= infNum {
			continue
		}
		restHi := hi - contribHi
		if t.c > 0 {
			v := -floorDiv(restHi, t.c)
			if v > al {
				f.rng[t.a] = [2]int64{v, ah}
				if v > ah {
					f.dead = true
				}
			}
		} else {
			v := floorDiv(restHi, -t.c)
			if v < ah {
				f.rng[t.a] = [2]int64{al, v}
				if al > v {
					f.dead = true
				}
			}
		}
	}
	f.recheckNE(A)
}

func (f *facts) recheckNE(A *atoms) {
	for _, l := range f.ne {
		if len(l.t) == 0 {
			continue
		}
		lo, hi := f.linRange(l)
		if lo == 0 && hi == 0 {
			f.dead = true
			return
		}
		if len(l.t) == 1 && (lo == 0 || hi == 0) {
			a, c := l.t[0].a, l.t[0].c
			al, ah := f.arange(a)
			// the excluded value of a
			if l.k%c == 0 {
				v := -l.k / c
				if v == al {
					f.rng[a] = [2]int64{al + 1, ah}
				} else if v == ah {
					f.rng[a] = [2]int64{al, ah - 1}
				}
				f.memo = nil
				if f.rng[a][0] > f.rng[a][1] {
					f.dead = true
				}
			}
		}
	}
}

func (f *facts) addEQ(A *atoms, l *Lin) {
	f.addGE(A, l)
	f.addGE(A, A.neg(l))
}

func (f *facts) addNE(A *atoms, l *Lin) {
	if len(l.t) == 0 {
		if l.k == 0 {
			f.dead = true
		}
		return
	}
	if l.t[0].c < 0 {
		l = A.neg(l)
	}
	if f.has["!"+l.key] {
		return
	}
	f.has["!"+l.key] = true
	f.ne = append(f.ne[:len(f.ne):len(f.ne)], l)
	if len(l.t) > 1 {
		if f.proveGE(A, l) {
			f.addGE(A, A.addc(l, -1))
		} else if f.proveGE(A, A.neg(l)) {
			f.addGE(A, A.addc(A.neg(l), -1))
		}
	}
	f.recheckNE(A)
}

// proveGE decides (soundly, incompletely) whether l >= 0 is implied.
func (f *facts) proveGE(A *atoms, l *Lin) bool {
	lo, hi := f.linRange(l)
	if lo >= 0 {
		return true
	}
	if hi < 0 && !f.dead {
		// only provable if the facts are contradictory
		if len(f.ge) == 0 {
			return false
		}
	}
	if r, ok := f.memo[l.key]; ok {
		return r
	}
	r := f.infeasibleWith(A, A.addc(A.neg(l), -1))
	if f.memo == nil {
		f.memo = map[string]bool{}
	}
	f.memo[l.key] = r
	return r
}

func (f *facts) proveEQ(A *atoms, l *Lin) bool {
	if len(l.t) == 0 {
		return l.k == 0
	}
	return f.proveGE(A, l) && f.proveGE(A, A.neg(l))
}

func (f *facts) proveNE(A *atoms, l *Lin) bool {
	if len(l.t) == 0 {
		return l.k != 0
	}
	n := l
	if l.t[0].c < 0 {
		n = A.neg(l)
	}
	if f.has["!"+n.key] {
		return true
	}
	if f.proveGE(A, A.addc(l, -1)) || f.proveGE(A, A.addc(A.neg(l), -1)) {
		return true
	}
	// divisibility: g | coefficients but not the constant
	var g int64
	for _, t := range l.t {
		g = gcd64(g, t.c)
	}
	if g > 1 && l.k%g != 0 {
		return true
	}
	for _, x := range f.ne {
		if f.has["~"+x.key] {
			continue
		}
		d := A.sub(x, n)
		if len(d.t) <= 3 && len(d.t) > 0 && shareAtoms(x, n) && f.proveEQ(A, d) {
			return true
		}
	}
	return false
}

func shareAtoms(a, b *Lin) bool {
	for _, x := range a.t {
		for _, y := range b.t {
			if x.a == y.a {
				return true
			}
		}
	}
	return false
}

// axioms of a structured atom
func (A *atoms) axioms(a *Atom) []*Lin {
	if a.op == "div" {
		m := a.args[1].k
		// 0 <= x - m*q <= m-1
		d := A.sub(a.args[0], A.canon(0, []lterm{{a, m}}))
		return []*Lin{d, A.addc(A.neg(d), m-1)}
	}
	return nil
}

func (f *facts) relevant(A *atoms, q *Lin) []*Lin {
	seenA := map[*Atom]bool{}
	var frontier []*Atom
	addAtom := func(a *Atom) {
		if !seenA[a] {
			seenA[a] = true
			frontier = append(frontier, a)
		}
	}
	out := []*Lin{}
	for _, t := range q.t {
		addAtom(t.a)
	}
	used := make([]bool, len(f.ge))
	for len(frontier) > 0 && len(out) < 160 {
		fr := frontier
		frontier = nil
		for _, a := range fr {
			for _, x := range A.axioms(a) {
				out = append(out, x)
				for _, t := range x.t {
					addAtom(t.a)
				}
			}
		}
		for i, l := range f.ge {
			if used[i] {
				continue
			}
			hit := false
			for _, t := range l.t {
				if seenA[t.a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, l)
				for _, t := range l.t {
					addAtom(t.a)
				}
			}
		}
	}
	return out
}

func (f *facts) infeasibleWith(A *atoms, q *Lin) bool {
	if f.dead {
		return true
	}
	cons := f.relevant(A, q)
	cons = append(cons, q)
	return f.lpInfeasible(cons)
}

// infeasible: whether the facts are contradictory
func (f *facts) infeasible(A *atoms) bool {
	if f.dead {
		return true
	}
	for len(f.ge) == 0 {
		return false
	}
	cons := append([]*Lin{}, f.ge...)
	seen := map[*Atom]bool{}
	for i := 0; i < len(cons) && len(cons) < 400; i++ {
		for _, t := range cons[i].t {
			if !seen[t.a] {
				seen[t.a] = true
				cons = append(cons, A.axioms(t.a)...)
			}
		}
	}
	if f.lpInfeasible(cons) {
		f.dead = true
		return true
	}
	for _, l := range f.ne {
		if len(l.t) > 1 && f.proveEQ(A, l) {
			f.dead = true
			return true
		}
	}
	return false
}

// lpInfeasible: Farkas style refutation of the conjunction (l >= 0) over the rationals, with the atom ranges.
func (f *facts) lpInfeasible(cons []*Lin) bool {
	idx := map[*Atom]int{}
	var as []*Atom
	for _, l := range cons {
		for _, t := range l.t {
			if _, ok := idx[t.a]; !ok {
				idx[t.a] = len(as)
				as = append(as, t.a)
			}
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	// columns: each atom -> one or two nonnegative variables
	type col struct {
		atom int
		sign int64
	}
	var cols []col
	shift := make([]int64, len(as)) // atom = shift + sum sign*y
	var rows []map[int]int64
	var rhs []int64 // row: sum coef*y >= rhs
	first := make([]int, len(as))
	for i, a := range as {
		idx[a] = i
		lo, hi := f.arange(a)
		first[i] = len(cols)
		switch {
		case lo > -infNum:
			shift[i] = lo
			cols = append(cols, col{i, 1})
		case hi < infNum:
			shift[i] = hi
			cols = append(cols, col{i, -1})
		default:
			cols = append(cols, col{i, 1}, col{i, -1})
		}
		if lo > -infNum && hi < infNum {
			rows = append(rows, map[int]int64{first[i]: -1})
			rhs = append(rhs, -(hi - lo))
		}
	}
	for _, l := range cons {
		r := map[int]int64{}
		k := l.k
		for _, t := range l.t {
			i := idx[t.a]
			k += t.c * shift[i]
			lo, hi := f.arange(t.a)
			switch {
			case lo > -infNum:
				r[first[i]] += t.c
			case hi < infNum:
				r[first[i]] -= t.c
			default:
				r[first[i]] += t.c
				r[first[i]+1] -= t.c
			}
		}
		rows = append(rows, r)
		rhs = append(rhs, -k)
	}
	return !lpFeasible(rows, rhs, len(cols))
}

// lpFeasible: exists y >= 0 with rows*y >= rhs. Dual-style simplex on the slack form using exact rationals.
func lpFeasible(rows []map[int]int64, rhs []int64, n int) bool {
	m := len(rows)
	// slack form: s_i = -rhs_i + rows_i*y >= 0 ; basic = slacks. Bland's rule on infeasible rows.
	T := make([][]big.Rat, m)
	b := make([]big.Rat, m)
	basis := make([]int, m) // variable ids: 0..n-1 = y, n..n+m-1 = slacks
	nonb := make([]int, n)
	for j := range nonb {
		nonb[j] = j
	}
	for i := range rows {
		T[i] = make([]big.Rat, n)
		for j, c := range rows[i] {
			T[i][j].SetInt64(c)
		}
		b[i].SetInt64(-rhs[i])
		basis[i] = n + i
	}
	var tmp, inv big.Rat
	for iter := 0; iter < 400; iter++ {
		// choose infeasible basic variable with smallest id
		r := -1
		for i := range b {
			if b[i].Sign() < 0 && (r < 0 || basis[i] < basis[r]) {
				r = i
			}
		}
		if r < 0 {
			return true
		}
		// entering: coefficient > 0, smallest id
		c := -1
		for j := 0; j < n; j++ {
			if T[r][j].Sign() > 0 && (c < 0 || nonb[j] < nonb[c]) {
				c = j
			}
		}
		if c < 0 {
			return false
		}
		// pivot: x_basis[r] = b_r + sum T_rj x_j  => x_c = (x_r - b_r - sum_{j!=c} T_rj x_j)/T_rc
		inv.Inv(&T[r][c])
		for j := 0; j < n; j++ {
			if j == c {
				T[r][j].Set(&inv)
			} else if T[r][j].Sign() != 0 {
				T[r][j].Mul(&T[r][j], &inv)
				T[r][j].Neg(&T[r][j])
			}
		}
		b[r].Mul(&b[r], &inv)
		b[r].Neg(&b[r])
		basis[r], nonb[c] = nonb[c], basis[r]
		for i := 0; i < m; i++ {
			if i == r || T[i][c].Sign() == 0 {
				continue
			}
			var f big.Rat
			f.Set(&T[i][c])
			for j := 0; j < n; j++ {
				if j == c {
					T[i][j].Mul(&f, &T[r][j])
				} else if T[r][j].Sign() != 0 {
					tmp.Mul(&f, &T[r][j])
					T[i][j].Add(&T[i][j], &tmp)
				}
			}
			tmp.Mul(&f, &b[r])
			b[i].Add(&b[i], &tmp)
		}
	}
	return true // undecided: treat as feasible
}
