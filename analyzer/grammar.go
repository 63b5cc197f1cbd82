package main

// The layout of the font data, as the format specifies it: consecutive sections, each with a start and an end
// that depends on the counts and the end offsets stored in it.

type gsec struct {
	field string // offset field of the section ("" for the header)
	count int    // width of the entry count at its start (0: no count)
	// end of the section when it has entries (or no count); s: its start, n: its count
	end func(c *acc, s, n *Lin) *Lin
	// start of the part that another offset field points to
	sub    string
	subEnd func(c *acc, s, n *Lin) *Lin
}

// table: count, n ids of w0 bytes, n end offsets of w bytes, data of unit bytes per element
func gTable(field string, count, w0, w int, unit int64) gsec {
	return gsec{field: field, count: count, end: func(c *acc, s, n *Lin) *Lin {
		base := c.add(s, c.k(int64(count)), c.mul(n, int64(w0+w)))
		return c.add(base, c.mul(c.uN(c.add(base, c.k(int64(-w))), w), unit))
	}}
}

// colors: a table followed by a table of names
func gColors(field string, unit int64) gsec {
	return gsec{field: field, count: 1, end: func(c *acc, s, n *Lin) *Lin {
		base := c.add(s, c.k(1), n)
		base = c.add(base, c.mul(c.u8(c.add(base, c.k(-1))), unit), c.mul(n, 2))
		return c.add(base, c.u16(c.add(base, c.k(-2))))
	}}
}

func gKern(field string) gsec {
	return gsec{field: field, count: 3, end: func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(3), c.mul(n, 5)) }}
}

var grammar = []gsec{
	{end: func(c *acc, s, n *Lin) *Lin {
		p := c.add(s, c.k(28))
		for i := 0; i < 3; i++ {
			p = c.add(p, c.k(1), c.u8(p))
		}
		return c.add(p, c.k(2), c.u16(p))
	}},
	{field: "OffsetToMetrics", end: func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(15)) }},
	gColors("OffsetToDyes", 1),
	gColors("OffsetToPalettes", 4),
	gTable("OffsetToGlyphNames", 2, 2, 3, 1),
	{field: "OffsetToGlyphMasks", end: func(c *acc, s, n *Lin) *Lin {
		base := c.add(s, c.mul(c.numGlyphs(), 3))
		return c.add(base, c.uN(c.add(base, c.k(-3)), 3))
	}},
	gTable("OffsetToWords", 1, 0, 2, 1),
	{field: "OffsetToSettingNames", count: 1, sub: "OffsetToSettingDefinitions",
		subEnd: func(c *acc, s, n *Lin) *Lin {
			base := c.add(s, c.k(1), c.mul(n, 2))
			return c.add(base, c.u16(c.add(base, c.k(-2))))
		},
		end: func(c *acc, s, n *Lin) *Lin {
			base := c.add(s, c.k(1), c.mul(n, 2))
			base = c.add(base, c.u16(c.add(base, c.k(-2))), c.mul(n, 2))
			return c.add(base, c.u16(c.add(base, c.k(-2))))
		}},
	gTable("OffsetToMappingSwitches", 1, 0, 2, 1),
	gTable("OffsetToMapping", 2, 4, 3, 1),
	gTable("OffsetToRewriteConditions", 1, 0, 2, 1),
	gTable("OffsetToRewriteUtf8Sets", 1, 0, 2, 1),
	gTable("OffsetToRewriteGlyphSets", 1, 0, 2, 1),
	gTable("OffsetToUtf8Rewrites", 2, 0, 3, 1),
	gTable("OffsetToGlyphRewrites", 2, 0, 3, 1),
	gKern("OffsetToHorzKernings"),
	gKern("OffsetToVertKernings"),
}

// numGlyphs is the number of glyphs stored in the metrics
func (c *acc) numGlyphs() *Lin {
	if c.metrics != nil {
		return c.u16(c.metrics)
	}
	return c.u16(c.off("OffsetToMetrics"))
}

// glimit is a documented structural limit: a font for which cond holds is rejected. It can be decided once the data
// up to the position at has been read.
type glimit struct {
	field string
	name  string
	at    func(c *acc, s, n *Lin) *Lin
	cond  func(c *acc, s, n *Lin) *Form
}

// starts of the sections, by field (set by the analysis that uses the limits)
func (c *acc) sec(field string) *Lin {
	if c.secStart == nil {
		return c.off(field)
	}
	return c.secStart(field)
}

// gt: a > b
func (c *acc) gtF(a, b *Lin) *Form { return c.e.ge(c.e.A.addc(c.sub(a, b), -1)) }

// tableLimits limits the total size of the data of a table (its last end offset) to [lo*n, hi*n]
func tableLimits(field string, count, w0, w int, lo, hi int64) []glimit {
	base := func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(int64(count)), c.mul(n, int64(w0+w))) }
	last := func(c *acc, s, n *Lin) *Lin { return c.uN(c.add(base(c, s, n), c.k(int64(-w))), w) }
	var out []glimit
	if lo > 0 {
		out = append(out, glimit{field, "too little data", base, func(c *acc, s, n *Lin) *Form { return c.gtF(c.mul(n, lo), last(c, s, n)) }})
	}
	if hi > 0 {
		out = append(out, glimit{field, "too much data", base, func(c *acc, s, n *Lin) *Form { return c.gtF(last(c, s, n), c.mul(n, hi)) }})
	}
	return out
}

// lastColor is the number of colors of a color section, 0 without entries
func colorLast(c *acc, s, n *Lin) *Lin { return c.u8(c.add(s, n)) }

func colorLimits(field string, unit int64) []glimit {
	base := func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(1), n) }
	nbase := func(c *acc, s, n *Lin) *Lin {
		return c.add(base(c, s, n), c.mul(colorLast(c, s, n), unit), c.mul(n, 2))
	}
	return []glimit{
		{field, "fewer colors than entries", base, func(c *acc, s, n *Lin) *Form { return c.gtF(n, colorLast(c, s, n)) }},
		{field, "empty names", nbase, func(c *acc, s, n *Lin) *Form {
			return c.gtF(n, c.u16(c.add(nbase(c, s, n), c.k(-2))))
		}},
	}
}

func (c *acc) placementSize() *Lin {
	v := c.u8(c.add(c.metricsAt(), c.k(2)))
	switch {
	case c.is(c.eqF(v, c.k(0))):
		return c.k(1)
	case c.is(c.eqF(v, c.k(1))):
		return c.k(4)
	}
	return c.add(c.k(1), c.mul(v, 3))
}

func (c *acc) metricsAt() *Lin {
	if c.metrics != nil {
		return c.metrics
	}
	return c.off("OffsetToMetrics")
}

// square of a number, as the engine represents products
func (c *acc) square(l *Lin) *Lin { return c.e.mul(c.st, l, l) }

func kernLimits(field string) []glimit {
	at := func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(3)) }
	return []glimit{{field, "more pairs than pairs of glyphs", at, func(c *acc, s, n *Lin) *Form { return c.gtF(n, c.square(c.numGlyphs())) }}}
}

var limits = func() []glimit {
	var out []glimit
	out = append(out, colorLimits("OffsetToDyes", 1)...)
	out = append(out, glimit{"OffsetToPalettes", "more than 255 colors", func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(1), n) }, func(c *acc, s, n *Lin) *Form {
		dyes := c.sec("OffsetToDyes")
		nd := c.u8(dyes)
		if c.is(c.eqF(nd, c.k(0))) {
			return nil // not more than 255
		}
		return c.gtF(c.add(colorLast(c, dyes, nd), colorLast(c, s, n)), c.k(255))
	}})
	out = append(out, colorLimits("OffsetToPalettes", 4)...)
	out = append(out, glimit{"OffsetToGlyphNames", "more names than glyphs", func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(2)) }, func(c *acc, s, n *Lin) *Form { return c.gtF(n, c.numGlyphs()) }})
	out = append(out, tableLimits("OffsetToGlyphNames", 2, 2, 3, 0, 32)...)
	out = append(out, glimit{"OffsetToGlyphMasks", "too little data", func(c *acc, s, n *Lin) *Lin { return c.add(s, c.mul(c.numGlyphs(), 3)) }, func(c *acc, s, n *Lin) *Form {
		last := c.uN(c.add(s, c.mul(c.numGlyphs(), 3), c.k(-3)), 3)
		return c.gtF(c.e.mul(c.st, c.placementSize(), c.numGlyphs()), last)
	}})
	out = append(out, tableLimits("OffsetToWords", 1, 0, 2, 1, 32)...)
	out = append(out, tableLimits("OffsetToSettingNames", 1, 0, 2, 1, 32)...)
	defs := func(c *acc, s, n *Lin) *Lin {
		base := c.add(s, c.k(1), c.mul(n, 2))
		return c.add(base, c.u16(c.add(base, c.k(-2))), c.mul(n, 2))
	}
	out = append(out, glimit{"OffsetToSettingNames", "settings without options", defs, func(c *acc, s, n *Lin) *Form { return c.gtF(n, c.u16(c.add(defs(c, s, n), c.k(-2)))) }})
	out = append(out, glimit{"OffsetToMappingSwitches", "too many switches", func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(1)) }, func(c *acc, s, n *Lin) *Form { return c.gtF(n, c.k(254)) }})
	out = append(out, tableLimits("OffsetToMappingSwitches", 1, 0, 2, 1, 0)...)
	sw := func(c *acc, s, n *Lin) *Lin { return c.add(s, c.k(1), c.mul(n, 2)) }
	out = append(out, glimit{"OffsetToMappingSwitches", "more settings than possible", sw, func(c *acc, s, n *Lin) *Form {
		return c.gtF(c.u16(c.add(sw(c, s, n), c.k(-2))), c.e.mul(c.st, n, c.u8(c.sec("OffsetToSettingNames"))))
	}})
	out = append(out, tableLimits("OffsetToMapping", 2, 4, 3, 3, 0)...)
	for _, f := range []string{"OffsetToRewriteConditions", "OffsetToRewriteUtf8Sets", "OffsetToRewriteGlyphSets"} {
		out = append(out, tableLimits(f, 1, 0, 2, 2, 0)...)
	}
	out = append(out, tableLimits("OffsetToUtf8Rewrites", 2, 0, 3, 8, 8+255*4+255*5)...)
	out = append(out, tableLimits("OffsetToGlyphRewrites", 2, 0, 3, 8, 8+255*2+255*3)...)
	out = append(out, kernLimits("OffsetToHorzKernings")...)
	out = append(out, kernLimits("OffsetToVertKernings")...)
	return out
}()
