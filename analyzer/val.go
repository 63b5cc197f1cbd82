package main

// Abstract values and the abstract memory of the interpreter (ai.go).

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// *Lin is an integer value.

// Form is a boolean value.
type Form struct {
	op   string // "const", "atom", "ge" (l>=0), "eq" (l==0), "not", "and", "or"
	b    bool
	name string
	l    *Lin
	x, y *Form
	vals []Val // for atoms: the values it talks about (used by the checks)
}

var formT, formF = &Form{op: "const", b: true}, &Form{op: "const"}

func fConst(b bool) *Form {
	if b {
		return formT
	}
	return formF
}
func fNot(f *Form) *Form {
	switch f.op {
	case "const":
		return fConst(!f.b)
	case "not":
		return f.x
	}
	return &Form{op: "not", x: f}
}

func (f *Form) String() string {
	switch f.op {
	case "const":
		return fmt.Sprint(f.b)
	case "atom":
		return f.name
	case "ge":
		return "(" + f.l.String() + " >= 0)"
	case "eq":
		return "(" + f.l.String() + " == 0)"
	case "not":
		return "!" + f.x.String()
	}
	return "(" + f.x.String() + " " + f.op + " " + f.y.String() + ")"
}

type Obj struct {
	id   int
	name string
	kind string // "sym", "alloc", "global", "cat", "seq"
	typ  types.Type
	site ssa.Instruction
	args []Val // blob: arguments of the call that appended it
	fn   *ssa.Function
	// alt: the states of the two sides
	sides [2]*State
	// cat: an append result
	parent *SliceV
	full   *Lin // cat, seq and alt: length of the whole
	items  []catItem
	// seq: the value of a slice variable at the head of a loop: init followed by the segments of previous iterations
	init *SliceV
	loop *loopInfo
	alts []seqAlt
}

// seqAlt is what one kind of iteration appends: the slice at its end, its state, and the values of the loop
// variables at the head and at the end of the iteration
type seqAlt struct {
	end  SliceV
	st   *State
	vars []loopVar
}

type loopVar struct {
	name             string
	init, head, back *Lin
}

type catItem struct {
	val Val     // single element, or
	sl  *SliceV // spread slice
	str *StrV
	reg *region // contents of the spread slice at the time
}

type loopInfo struct {
	k    *Atom
	head *ssa.BasicBlock
	name string
}

type PtrV struct {
	o    *Obj
	skel string
	idx  []*Lin
}

type SliceV struct {
	o             *Obj
	skel          string // skeleton of the array holding the elements, the element itself is skel+"[]"
	idx           []*Lin
	off, len, cap *Lin
	isNil         bool
}

type StrV struct {
	isConst bool
	s       string
	key     string // identity otherwise
	len     *Lin
	// optional view of bytes
	sl  *SliceV
	reg *region
}

type StructV struct {
	typ    types.Type
	fields []Val
}

type FuncV struct {
	fn    *ssa.Function
	binds []Val
	name  string // opaque function
	isNil bool
}

type IfaceV struct {
	isNil bool
	typ   types.Type
	v     Val
	name  string // opaque
}

type MapV struct {
	o     *Obj
	isNil bool
}

type TupleV []Val

type NilV struct{}

type OpaqueV struct{ name string }

// ---- memory ----

type memKey struct {
	o    *Obj
	skel string
}

type regBase struct {
	name string
	o    *Obj
	skel string
	typ  types.Type
	kind string // "sym", "zero", "undef"
	loop *loopInfo
}

type regWrite struct {
	idx []*Lin
	val Val
	// range write: elements [lo, lo+n) of the last index take the elements src[soff...] of region sreg
	bulk        bool
	lo, n, soff *Lin
	sreg        *region
	spre        []*Lin
}

type region struct {
	base  *regBase
	prev  *region
	w     *regWrite
	depth int
}

type State struct {
	mem    map[memKey]*region
	ver    map[*Obj]string
	f      *facts
	bools  map[string]bool
	trace  *traceNode
	part   string
	ghosts map[string]*Lin
}

type traceNode struct {
	prev *traceNode
	ev   any
	n    int
}

func (s *State) clone() *State {
	n := &State{mem: make(map[memKey]*region, len(s.mem)), ver: s.ver, f: s.f.clone(), bools: make(map[string]bool, len(s.bools)), trace: s.trace, part: s.part, ghosts: s.ghosts}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k, v := range s.bools {
		n.bools[k] = v
	}
	return n
}

func (s *State) setGhost(name string, l *Lin) {
	g := make(map[string]*Lin, len(s.ghosts)+1)
	for k, v := range s.ghosts {
		g[k] = v
	}
	g[name] = l
	s.ghosts = g
}

func (s *State) log(ev any) {
	n := 1
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{s.trace, ev, n}
}

func (t *traceNode) list(stop *traceNode) []any {
	var out []any
	for x := t; x != nil && x != stop; x = x.prev {
		out = append(out, x.ev)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// intRange: representable range of an integer type
func intRange(t types.Type) (lo, hi int64, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return 0, 0, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 0, 255, true
	case types.Uint16:
		return 0, 65535, true
	case types.Uint32:
		return 0, 1<<32 - 1, true
	case types.Int8:
		return -128, 127, true
	case types.Int16:
		return -32768, 32767, true
	case types.Int32:
		return -(1 << 31), 1<<31 - 1, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 0, infNum, true
	}
	return -infNum, infNum, true
}

func intBits(t types.Type) (bits uint, signed bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func isStructT(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}

func isArrayT(t types.Type) (*types.Array, bool) {
	s, ok := t.Underlying().(*types.Array)
	return s, ok
}

func valKey(v Val) string {
	switch x := v.(type) {
	case nil:
		return "?"
	case *Lin:
		return x.key
	case *Form:
		return x.String()
	case PtrV:
		return fmt.Sprintf("p%d%s%s", x.o.id, x.skel, linsKey(x.idx))
	case SliceV:
		if x.isNil {
			return "snil"
		}
		return fmt.Sprintf("s%d%s%s:%s:%s", x.o.id, x.skel, linsKey(x.idx), x.off.key, x.len.key)
	case StrV:
		if x.isConst {
			return fmt.Sprintf("%q", x.s)
		}
		return "str(" + x.key + ")"
	case StructV:
		var b strings.Builder
		b.WriteString("{")
		for _, f := range x.fields {
			b.WriteString(valKey(f))
			b.WriteString(";")
		}
		b.WriteString("}")
		return b.String()
	case FuncV:
		if x.isNil {
			return "fnil"
		}
		if x.fn == nil {
			return "f:" + x.name
		}
		s := "f:" + x.fn.String()
		for _, b := range x.binds {
			s += "," + valKey(b)
		}
		return s
	case IfaceV:
		if x.isNil {
			return "inil"
		}
		if x.typ != nil {
			return "i(" + x.typ.String() + ":" + valKey(x.v) + ")"
		}
		return "i:" + x.name
	case MapV:
		if x.isNil {
			return "mnil"
		}
		return fmt.Sprintf("m%d", x.o.id)
	case TupleV:
		s := "("
		for _, f := range x {
			s += valKey(f) + ","
		}
		return s + ")"
	case NilV:
		return "nil"
	case OpaqueV:
		return "o:" + x.name
	}
	return fmt.Sprintf("%T", v)
}

func linsKey(ls []*Lin) string {
	if len(ls) == 0 {
		return ""
	}
	var b strings.Builder
	for _, l := range ls {
		b.WriteString("[")
		b.WriteString(l.key)
		b.WriteString("]")
	}
	return b.String()
}
