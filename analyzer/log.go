package main

import (
	"fmt"
	"os"
	"strings"
)

// The append log: the contents of a slice built by appends as a sequence of items.

type logItem struct {
	kind string // "val", "slice", "str", "loop", "alt", "lost"
	at   *Lin   // length of the slice before the item
	val  Val
	sl   *SliceV
	str  *StrV
	obj  *Obj // loop: its sequence object
	alts []logAlt
}

type logAlt struct {
	seqAlt
	items []logItem
}

func (o *Obj) ancestors() []*Obj {
	var out []*Obj
	for o != nil {
		out = append(out, o)
		switch o.kind {
		case "cat":
			o = o.parent.o
		case "seq":
			o = o.init.o
		case "alt":
			o = commonObj(o.parent.o, o.init.o)
		default:
			o = nil
		}
	}
	return out
}

func commonObj(a, b *Obj) *Obj {
	in := map[*Obj]bool{}
	for _, o := range a.ancestors() {
		in[o] = true
	}
	for _, o := range b.ancestors() {
		if in[o] {
			return o
		}
	}
	return nil
}

// appended lists what was appended to the slice since the object from (nil: since its creation)
func (e *Engine) appended(s SliceV, from *Obj) []logItem {
	if s.isNil || s.o == from {
		return nil
	}
	if k, ok := s.len.isConst(); ok && k == 0 {
		return nil
	}
	o := s.o
	if o.full != nil && o.full != s.len {
		if k, ok := e.A.sub(o.full, s.len).isConst(); !ok || k != 0 {
			return []logItem{{kind: "lost"}} // a part of it
		}
	}
	switch o.kind {
	case "cat":
		out := e.appended(*o.parent, from)
		n := o.parent.len
		for i := range o.items {
			it := o.items[i]
			l := logItem{at: n}
			switch {
			case it.sl != nil && it.sl.o.kind == "cat" && it.sl.o.name == "bytes" && it.sl.o.parent.isNil && len(it.sl.o.items) == 1 && it.sl.o.items[0].str != nil && it.sl.len == it.sl.o.items[0].str.len:
				// a converted string
				l.kind, l.str = "str", it.sl.o.items[0].str
				n = e.A.add(n, it.sl.len)
			case it.sl != nil:
				l.kind, l.sl = "slice", it.sl
				n = e.A.add(n, it.sl.len)
			case it.str != nil:
				l.kind, l.str = "str", it.str
				n = e.A.add(n, it.str.len)
			default:
				l.kind, l.val = "val", it.val
				n = e.A.addc(n, 1)
			}
			out = append(out, l)
		}
		return out
	case "seq":
		out := e.appended(*o.init, from)
		l := logItem{kind: "loop", at: o.init.len, obj: o}
		for _, a := range o.alts {
			l.alts = append(l.alts, logAlt{seqAlt: a, items: e.appended(a.end, o)})
		}
		return append(out, l)
	case "alt":
		c := commonObj(o.parent.o, o.init.o)
		if c == nil {
			if os.Getenv("DBG") != "" {
				var dump func(o *Obj, d int)
				seen := map[*Obj]bool{}
				dump = func(o *Obj, d int) {
					fmt.Printf("%*s < %s %d %s\n", d, "", o.kind, o.id, o.name)
					if seen[o] {
						return
					}
					seen[o] = true
					if o.parent != nil {
						dump(o.parent.o, d+1)
					}
					if o.init != nil {
						dump(o.init.o, d+1)
					}
				}
				dump(o, 0)
			}
			return []logItem{{kind: "lost"}}
		}
		at := func(s *SliceV) *Lin {
			for _, x := range []*SliceV{s} {
				for x.o != c {
					switch x.o.kind {
					case "cat":
						x = x.o.parent
					default:
						x = x.o.init
					}
				}
				return x.len
			}
			return nil
		}(o.parent)
		out := e.appended(SliceV{o: c, len: at}, from)
		return append(out, logItem{kind: "alt", at: at, alts: []logAlt{{seqAlt: seqAlt{st: o.sides[0]}, items: e.appended(*o.parent, c)}, {seqAlt: seqAlt{st: o.sides[1]}, items: e.appended(*o.init, c)}}})
	}
	if from == nil {
		return nil
	}
	return []logItem{{kind: "lost"}}
}

func logString(items []logItem, ind string) string {
	var b strings.Builder
	for _, it := range items {
		switch it.kind {
		case "val":
			fmt.Fprintf(&b, "%s@%s byte %s\n", ind, it.at, it.val)
		case "slice":
			fmt.Fprintf(&b, "%s@%s slice %s%s%v +%s len %s\n", ind, it.at, it.sl.o.name, it.sl.skel, it.sl.idx, it.sl.off, it.sl.len)
		case "str":
			fmt.Fprintf(&b, "%s@%s string %s len %s\n", ind, it.at, it.str.key, it.str.len)
		case "loop":
			fmt.Fprintf(&b, "%s@%s loop %s %s\n", ind, it.at, it.obj.name, it.obj.loop.k)
			for _, a := range it.alts {
				fmt.Fprintf(&b, "%s iteration\n", ind)
				for _, v := range a.vars {
					fmt.Fprintf(&b, "%s   %s: %s .. %s -> %s\n", ind, v.name, v.init, v.head, v.back)
				}
				b.WriteString(logString(a.items, ind+"    "))
			}
		case "alt":
			fmt.Fprintf(&b, "%s@%s either\n%s%s or\n%s", ind, it.at, logString(it.alts[0].items, ind+"    "), ind, logString(it.alts[1].items, ind+"    "))
		default:
			fmt.Fprintf(&b, "%s@%s %s\n", ind, it.at, it.kind)
		}
	}
	return b.String()
}

// allObjs lists the objects that make up the contents of an object built by appends
func allObjs(o *Obj) []*Obj {
	seen := map[*Obj]bool{}
	var out []*Obj
	var walk func(o *Obj)
	walk = func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		out = append(out, o)
		if o.parent != nil {
			walk(o.parent.o)
		}
		if o.init != nil {
			walk(o.init.o)
		}
		for _, a := range o.alts {
			walk(a.end.o)
		}
	}
	walk(o)
	return out
}
