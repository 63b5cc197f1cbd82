package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// canonical texts: the same function of a loop index in two loops has the same text

type canoner struct {
	e    *Engine
	k    *Atom // loop counter, printed as K
	memo map[*Atom]string
}

var reAtomRef = regexp.MustCompile(`\+(-?\d+)\*(\d+)`)
var reObjRef = regexp.MustCompile(`(^|[:{;,(])([ps])(\d+)(\b)`)

func (e *Engine) canonOf(k *Atom) *canoner { return &canoner{e, k, map[*Atom]string{}} }

func (c *canoner) lin(l *Lin) string {
	if l == nil {
		return "?"
	}
	var ts []string
	for _, t := range l.t {
		ts = append(ts, fmt.Sprintf("%d*%s", t.c, c.atom(t.a)))
	}
	sort.Strings(ts)
	return fmt.Sprintf("[%s%+d]", strings.Join(ts, "+"), l.k)
}

func (c *canoner) atom(a *Atom) string {
	if a == c.k {
		return "K"
	}
	if s, ok := c.memo[a]; ok {
		return s
	}
	c.memo[a] = a.key
	var s string
	if len(a.args) == 0 {
		s = c.text(strings.TrimPrefix(a.key, a.op+":"))
	} else {
		name := a.op
		if a.reg != nil {
			name += ":" + c.text(a.reg.name)
		} else if i := strings.IndexByte(a.key, '('); i >= 0 {
			name = a.key[:i]
		}
		var as []string
		for _, l := range a.args {
			as = append(as, c.lin(l))
		}
		s = name + "(" + strings.Join(as, ",") + ")"
	}
	c.memo[a] = s
	return s
}

// text replaces references to atoms and objects inside a name
func (c *canoner) text(s string) string {
	s = reAtomRef.ReplaceAllStringFunc(s, func(m string) string {
		g := reAtomRef.FindStringSubmatch(m)
		id, _ := strconv.Atoi(g[2])
		if id < 0 || id >= len(c.e.A.list) {
			return m
		}
		return "+" + g[1] + "*<" + c.atom(c.e.A.list[id]) + ">"
	})
	s = reObjRef.ReplaceAllStringFunc(s, func(m string) string {
		g := reObjRef.FindStringSubmatch(m)
		id, _ := strconv.Atoi(g[3])
		if id < 1 || id > len(c.e.allObjs) {
			return m
		}
		o := c.e.allObjs[id-1]
		if o.kind != "sym" && o.kind != "global" {
			return m
		}
		return g[1] + "&" + c.text(o.name)
	})
	return s
}

func (c *canoner) val(v Val) string {
	switch x := v.(type) {
	case *Lin:
		return c.lin(x)
	case StrV:
		if x.isConst {
			return strconv.Quote(x.s)
		}
		return "str(" + c.text(x.key) + ")"
	case SliceV:
		return "slice(" + c.text(x.o.name+x.skel+linsKey(x.idx)) + ":" + c.lin(x.off) + ":" + c.lin(x.len) + ")"
	case PtrV:
		return "ptr(" + c.text(x.o.name+x.skel+linsKey(x.idx)) + ")"
	case StructV:
		var fs []string
		for _, f := range x.fields {
			fs = append(fs, c.val(f))
		}
		return "{" + strings.Join(fs, ";") + "}"
	}
	return c.text(valKey(v))
}
