package main

import "go/types"

// The layout of the format, as the specification document describes it.

func accSpecs() []*accSpec {
	var out []*accSpec
	add := func(s *accSpec) { out = append(out, s) }

	// ---- header ----
	hdr := func(name string, at int64, n int) {
		add(&accSpec{typ: "FontHeader", name: name,
			wf:   func(c *acc) { c.fits(c.k(36)) },
			want: func(c *acc, _ []Val) []Val { return []Val{c.uN(c.k(at), n)} }})
	}
	hdr("FormatVersion", 0, 4)
	hdr("VersionMajor", 12, 2)
	hdr("VersionMinor", 14, 2)
	date := func(name string, at int64) {
		add(&accSpec{typ: "FontHeader", name: name,
			wf: func(c *acc) { c.fits(c.k(36)) },
			want: func(c *acc, _ []Val) []Val {
				return []Val{c.stc(c.typ("Date"), map[string]Val{"Year": c.u16(c.k(at)), "Month": c.u8(c.k(at + 2)), "Day": c.u8(c.k(at + 3))})}
			}})
	}
	add(&accSpec{typ: "FontHeader", name: "ID", wf: func(c *acc) { c.fits(c.k(36)) },
		want: func(c *acc, _ []Val) []Val { return []Val{c.uN(c.k(4), 8)} }})
	date("FirstVersionDate", 16)
	date("MajorVersionDate", 20)
	date("MinorVersionDate", 24)
	hstr := func(c *acc, nth int) (at, n *Lin) {
		at = c.k(28)
		for i := 0; ; i++ {
			w := 1
			if i == 3 {
				w = 2
			}
			n = c.uN(at, w)
			at = c.add(at, c.k(int64(w)))
			if i == nth {
				return at, n
			}
			at = c.add(at, n)
		}
	}
	for i, name := range []string{"Name", "Family", "Author", "About"} {
		i := i
		add(&accSpec{typ: "FontHeader", name: name,
			wf: func(c *acc) {
				at, n := hstr(c, 3)
				c.fits(c.add(at, n, c.k(15)))
			},
			want: func(c *acc, _ []Val) []Val { return []Val{c.str(hstr(c, i))} }})
	}

	// ---- metrics ----
	met := func(c *acc) *Lin { return c.off("OffsetToMetrics") }
	mwf := func(c *acc) { c.fits(c.add(met(c), c.k(15))) }
	m8 := func(c *acc, i int64) *Lin { return c.u8(c.add(met(c), c.k(i))) }
	nGlyphs := func(c *acc) *Lin { return c.u16(met(c)) }
	mf := func(name string, f func(c *acc) Val) {
		add(&accSpec{typ: "FontMetrics", name: name, wf: mwf, want: func(c *acc, _ []Val) []Val { return []Val{f(c)} }})
	}
	mf("NumGlyphs", func(c *acc) Val { return nGlyphs(c) })
	mf("HasVertLayout", func(c *acc) Val { return c.eqF(m8(c, 2), c.k(1)) })
	mf("Monospaced", func(c *acc) Val { return fNot(c.eqF(m8(c, 3), c.k(0))) })
	for i, name := range []string{"MonoWidth", "Ascent", "ExtraAscent", "Descent", "ExtraDescent", "UppercaseAscent", "MidlineAscent", "HorzInterspacing", "VertInterspacing", "LineGap", "VertLineWidth", "VertLineGap"} {
		i := int64(i)
		mf(name, func(c *acc) Val { return m8(c, 3+i) })
	}
	mf("LineHeight", func(c *acc) Val { return c.add(m8(c, 4), m8(c, 6), m8(c, 12)) })
	mf("VertLineFullWidth", func(c *acc) Val { return c.add(m8(c, 13), m8(c, 14)) })

	// ---- colors ----
	type colSec struct {
		count, indices, num, each, eachElem, off string
		unit                                     int64
	}
	for _, cs := range []colSec{
		{"NumDyes", "NumDyeIndices", "NumDyeAlphas", "EachDye", "EachDyeAlpha", "OffsetToDyes", 1},
		{"NumPalettes", "NumPaletteIndices", "NumPaletteColors", "EachPalette", "EachPaletteColor", "OffsetToPalettes", 4},
	} {
		cs := cs
		base := func(c *acc) *Lin { return c.off(cs.off) }
		n := func(c *acc) *Lin { return c.u8(base(c)) }
		vals := func(c *acc) tbl {
			return tbl{n: n(c), ends: c.add(base(c), c.k(1)), w: 1, data: c.add(base(c), c.k(1), n(c))}
		}
		total := func(c *acc) *Lin { return c.u8(c.add(base(c), n(c))) } // the last end; the zero count otherwise
		names := func(c *acc) tbl {
			ends := c.add(base(c), c.k(1), n(c), c.mul(total(c), cs.unit))
			return tbl{n: n(c), ends: ends, w: 2, data: c.add(ends, c.mul(n(c), 2))}
		}
		wf := func(c *acc) {
			c.fits(names(c).data)
			c.fits(c.add(base(c), c.k(1), n(c), c.k(1)))
		}
		split := func(c *acc) []*Form { return []*Form{c.eqF(n(c), c.k(0))} }
		add(&accSpec{typ: "FontColor", name: cs.count, wf: wf, want: func(c *acc, _ []Val) []Val { return []Val{n(c)} }})
		add(&accSpec{typ: "FontColor", name: cs.indices, wf: wf, split: split, want: func(c *acc, _ []Val) []Val {
			if c.isZero(n(c)) {
				return []Val{c.k(0)}
			}
			return []Val{c.end(vals(c), c.e.A.addc(n(c), -1))}
		}})
		keySplit := func(c *acc) []*Form { return []*Form{c.eqF(c.arg(0), c.k(0))} }
		keyGuard := func(c *acc) *Form { return c.ltF(c.arg(0), n(c)) }
		keyWF := func(c *acc) {
			wf(c)
			if v, k := c.e.decide(c.st, keyGuard(c)); k && v {
				c.wf(vals(c), c.arg(0), cs.unit)
			}
		}
		_ = keyWF
		add(&accSpec{typ: "FontColor", name: cs.num, split: func(c *acc) []*Form { return append(keySplit(c), keyGuard(c)) }, guard: keyGuard, wf: keyWF,
			want: func(c *acc, _ []Val) []Val { return []Val{c.size(vals(c), c.arg(0))} }})
		add(&accSpec{typ: "FontColor", name: cs.eachElem, split: func(c *acc) []*Form { return append(keySplit(c), keyGuard(c)) }, guard: keyGuard, wf: keyWF,
			count: func(c *acc) *Lin { return c.size(vals(c), c.arg(0)) },
			wfN:   func(c *acc, i *Lin) {},
			each: func(c *acc, i *Lin) []Val {
				t := vals(c)
				at := c.add(t.data, c.mul(c.add(c.start(t, c.arg(0)), i), cs.unit))
				if cs.unit == 1 {
					return []Val{c.u8(at)}
				}
				var b []Val
				for j := int64(0); j < 4; j++ {
					b = append(b, c.u8(c.add(at, c.k(j))))
				}
				return []Val{StructV{fields: b}}
			}})
		add(&accSpec{typ: "FontColor", name: cs.each, wf: wf,
			count: n,
			wfN:   func(c *acc, i *Lin) { c.wf(names(c), i, 1) },
			each: func(c *acc, i *Lin) []Val {
				return []Val{i, c.str(c.elem(names(c), i))}
			}})
	}

	// ---- glyphs ----
	gl := func(name string, wf func(c *acc), f func(c *acc) Val) {
		add(&accSpec{typ: "FontGlyphs", name: name, wf: wf, want: func(c *acc, _ []Val) []Val { return []Val{f(c)} }})
	}
	gl("Count", mwf, func(c *acc) Val { return nGlyphs(c) })
	names := func(c *acc) *Lin { return c.off("OffsetToGlyphNames") }
	gl("NamedCount", func(c *acc) { c.fits(c.add(names(c), c.k(2))) }, func(c *acc) Val { return c.u16(names(c)) })
	masks := func(c *acc) tbl {
		b := c.off("OffsetToGlyphMasks")
		return tbl{n: nGlyphs(c), ends: b, w: 3, data: c.add(b, c.mul(nGlyphs(c), 3))}
	}
	glyphGuard := func(c *acc) *Form { return c.ltF(c.arg(0), nGlyphs(c)) }
	glyphSplit := func(c *acc) []*Form {
		return []*Form{c.eqF(c.arg(0), c.k(0)), c.eqF(m8(c, 2), c.k(1)), glyphGuard(c)}
	}
	vert := func(c *acc) bool {
		v, k := c.e.decide(c.st, c.eqF(m8(c, 2), c.k(1)))
		return k && v
	}
	psize := func(c *acc) *Lin { // the placement comes before the mask
		if vert(c) {
			return c.k(4)
		}
		return c.k(1)
	}
	glyphWF := func(c *acc) {
		mwf(c)
		c.fits(masks(c).data)
		if v, k := c.e.decide(c.st, glyphGuard(c)); k && v {
			t := masks(c)
			i := c.arg(0)
			c.wf(t, i, 1)
			c.le(c.add(c.start(t, i), psize(c)), c.end(t, i))
		}
	}
	add(&accSpec{typ: "FontGlyphs", name: "Advance", split: glyphSplit, guard: glyphGuard, wf: glyphWF,
		want: func(c *acc, _ []Val) []Val {
			at, _ := c.elem(masks(c), c.arg(0))
			return []Val{c.u8(at)}
		}})
	add(&accSpec{typ: "FontGlyphs", name: "Placement", split: glyphSplit, guard: glyphGuard, wf: glyphWF,
		want: func(c *acc, _ []Val) []Val {
			at, _ := c.elem(masks(c), c.arg(0))
			f := map[string]Val{"Advance": c.u8(at)}
			if vert(c) {
				f["TopAdvance"] = c.u8(c.add(at, c.k(1)))
				f["BottomAdvance"] = c.u8(c.add(at, c.k(2)))
				f["HorzCenter"] = c.u8(c.add(at, c.k(3)))
			}
			return []Val{c.stc(c.typ("GlyphPlacement"), f)}
		}})
	add(&accSpec{typ: "FontGlyphs", name: "RasterizeMask", split: glyphSplit, guard: glyphGuard, wf: glyphWF,
		want: func(c *acc, _ []Val) []Val {
			at, n := c.elem(masks(c), c.arg(0))
			return []Val{rasterized{c.view(c.add(at, psize(c)), c.sub(n, psize(c)))}}
		}})

	// ---- settings ----
	words := func(c *acc) tbl {
		b := c.off("OffsetToWords")
		n := c.u8(b)
		return tbl{n: n, ends: c.add(b, c.k(1)), w: 2, data: c.add(b, c.k(1), c.mul(n, 2))}
	}
	word := func(c *acc, i *Lin) Val {
		if v, k := c.e.decide(c.st, c.ltF(i, words(c).n)); k {
			if v {
				return c.str(c.elem(words(c), i))
			}
			return predefWord{i}
		}
		return nil
	}
	wordSplit := func(c *acc, i *Lin) []*Form { return []*Form{c.ltF(i, words(c).n), c.eqF(i, c.k(0))} }
	wordWF := func(c *acc, i *Lin) {
		t := words(c)
		c.fits(t.data)
		c.fits(c.add(t.ends))
		if v, k := c.e.decide(c.st, c.ltF(i, t.n)); k && v {
			c.wf(t, i, 1)
		}
	}
	add(&accSpec{typ: "FontSettings", name: "NumWords", wf: func(c *acc) { c.fits(words(c).data) },
		want: func(c *acc, _ []Val) []Val { return []Val{words(c).n} }})
	add(&accSpec{typ: "FontSettings", name: "GetWord", split: func(c *acc) []*Form { return wordSplit(c, c.arg(0)) }, wf: func(c *acc) { wordWF(c, c.arg(0)) },
		want: func(c *acc, _ []Val) []Val { return []Val{word(c, c.arg(0))} }})
	sNames := func(c *acc) tbl {
		b := c.off("OffsetToSettingNames")
		n := c.u8(b)
		return tbl{n: n, ends: c.add(b, c.k(1)), w: 2, data: c.add(b, c.k(1), c.mul(n, 2))}
	}
	sDefs := func(c *acc) tbl {
		b := c.off("OffsetToSettingDefinitions")
		n := c.u8(c.off("OffsetToSettingNames"))
		return tbl{n: n, ends: b, w: 2, data: c.add(b, c.mul(n, 2))}
	}
	add(&accSpec{typ: "FontSettings", name: "Count", wf: func(c *acc) { c.fits(sNames(c).data); c.fits(c.add(sNames(c).ends)) },
		want: func(c *acc, _ []Val) []Val { return []Val{sNames(c).n} }})
	setGuard := func(c *acc) *Form { return c.ltF(c.arg(0), sNames(c).n) }
	setWF := func(c *acc) {
		c.fits(c.add(sNames(c).ends))
		c.fits(sNames(c).data)
		c.fits(sDefs(c).data)
		if v, k := c.e.decide(c.st, setGuard(c)); k && v {
			c.wf(sDefs(c), c.arg(0), 1)
			c.le(c.size(sDefs(c), c.arg(0)), c.k(255))
		}
	}
	add(&accSpec{typ: "FontSettings", name: "GetNumOptions", guard: setGuard, wf: setWF,
		split: func(c *acc) []*Form { return []*Form{c.eqF(c.arg(0), c.k(0)), setGuard(c)} },
		want:  func(c *acc, _ []Val) []Val { return []Val{c.size(sDefs(c), c.arg(0))} },
		bad:   func(c *acc) []Val { return []Val{c.k(0)} }})
	optAt := func(c *acc) *Lin {
		at, _ := c.elem(sDefs(c), c.arg(0))
		return c.u8(c.add(at, c.arg(1)))
	}
	add(&accSpec{typ: "FontSettings", name: "GetOptionName",
		guard: func(c *acc) *Form {
			f := setGuard(c)
			if v, k := c.e.decide(c.st, f); k && v {
				return c.ltF(c.arg(1), c.size(sDefs(c), c.arg(0)))
			}
			return f
		},
		wf: func(c *acc) {
			setWF(c)
			if v, k := c.e.decide(c.st, setGuard(c)); k && v {
				wordWF(c, optAt(c))
			}
		},
		splits: []func(c *acc) []*Form{
			func(c *acc) []*Form { return []*Form{c.eqF(c.arg(0), c.k(0)), setGuard(c)} },
			func(c *acc) []*Form {
				if v, k := c.e.decide(c.st, setGuard(c)); k && v {
					return append([]*Form{c.ltF(c.arg(1), c.size(sDefs(c), c.arg(0)))}, wordSplit(c, optAt(c))...)
				}
				return nil
			},
		},
		want: func(c *acc, _ []Val) []Val { return []Val{word(c, optAt(c))} }})
	add(&accSpec{typ: "FontSettings", name: "Each", wf: func(c *acc) { c.fits(c.add(sNames(c).ends)); c.fits(sNames(c).data) },
		count: func(c *acc) *Lin { return sNames(c).n },
		wfN:   func(c *acc, i *Lin) { c.wf(sNames(c), i, 1) },
		each:  func(c *acc, i *Lin) []Val { return []Val{i, c.str(c.elem(sNames(c), i))} }})

	// ---- mapping ----
	sw := func(c *acc) tbl {
		b := c.off("OffsetToMappingSwitches")
		n := c.u8(b)
		return tbl{n: n, ends: c.add(b, c.k(1)), w: 2, data: c.add(b, c.k(1), c.mul(n, 2))}
	}
	swWF := func(c *acc) { c.fits(sw(c).ends); c.fits(sw(c).data) }
	add(&accSpec{typ: "FontMapping", name: "NumSwitchTypes", wf: swWF, want: func(c *acc, _ []Val) []Val { return []Val{sw(c).n} }})
	add(&accSpec{typ: "FontMapping", name: "NumEntries", wf: func(c *acc) { c.fits(c.add(c.off("OffsetToMapping"), c.k(2))) },
		want: func(c *acc, _ []Val) []Val { return []Val{c.u16(c.off("OffsetToMapping"))} }})

	// ---- rewrites ----
	add(&accSpec{typ: "FontRewrites", name: "NumConditions", wf: func(c *acc) { c.fits(c.add(c.off("OffsetToRewriteConditions"), c.k(1))) },
		want: func(c *acc, _ []Val) []Val { return []Val{c.u8(c.off("OffsetToRewriteConditions"))} }})
	for _, rs := range []struct {
		num, get, off string
		w             int // width of the count and of the end offsets
		ew            int
	}{
		{"NumGlyphRules", "GetGlyphRule", "OffsetToGlyphRewrites", 2, 3},
		{"NumUTF8Rules", "GetUtf8Rule", "OffsetToUtf8Rewrites", 2, 3},
		{"NumGlyphSets", "GetGlyphSet", "OffsetToRewriteGlyphSets", 1, 2},
		{"NumUTF8Sets", "GetUtf8Set", "OffsetToRewriteUtf8Sets", 1, 2},
	} {
		rs := rs
		t := func(c *acc) tbl {
			b := c.off(rs.off)
			n := c.uN(b, rs.w)
			ends := c.add(b, c.k(int64(rs.w)))
			return tbl{n: n, ends: ends, w: rs.ew, data: c.add(ends, c.mul(n, int64(rs.ew)))}
		}
		wf := func(c *acc) { c.fits(t(c).ends); c.fits(t(c).data) }
		guard := func(c *acc) *Form { return c.ltF(c.arg(0), t(c).n) }
		add(&accSpec{typ: "FontRewrites", name: rs.num, wf: wf, want: func(c *acc, _ []Val) []Val { return []Val{t(c).n} }})
		add(&accSpec{typ: "FontRewrites", name: rs.get, guard: guard,
			split: func(c *acc) []*Form { return []*Form{c.eqF(c.arg(0), c.k(0)), guard(c)} },
			wf: func(c *acc) {
				wf(c)
				if c.is(guard(c)) {
					c.wf(t(c), c.arg(0), 1)
				}
			},
			want: func(c *acc, _ []Val) []Val {
				at, n := c.elem(t(c), c.arg(0))
				return []Val{StructV{fields: []Val{c.view(at, n)}}}
			}})
	}
	// rules and sets are blocks of their own
	blk := func(c *acc) SliceV {
		o := c.recv.(PtrV).o
		return c.e.readCell(c.st, o, ".Data", nil, types.NewSlice(types.Typ[types.Uint8])).(SliceV)
	}
	b8 := func(c *acc, at *Lin) *Lin { return c.uIn(blk(c), at, 1) }
	bfits := func(c *acc, end *Lin) { c.le(end, blk(c).len) }
	for _, rt := range []struct {
		typ string
		w   int64
	}{{"GlyphRewriteRule", 2}, {"Utf8RewriteRule", 4}} {
		rt := rt
		for i, name := range []string{"Condition", "HeadLen", "BodyLen", "TailLen", "OutLen"} {
			i := int64(i)
			add(&accSpec{typ: rt.typ, name: name, wf: func(c *acc) { bfits(c, c.k(5)) },
				want: func(c *acc, _ []Val) []Val { return []Val{b8(c, c.k(i))} }})
		}
		add(&accSpec{typ: rt.typ, name: "InLen",
			wf: func(c *acc) {
				bfits(c, c.k(5))
				c.le(c.add(b8(c, c.k(1)), b8(c, c.k(2)), b8(c, c.k(3))), c.k(255))
			},
			want: func(c *acc, _ []Val) []Val { return []Val{c.add(b8(c, c.k(1)), b8(c, c.k(2)), b8(c, c.k(3)))} }})
		add(&accSpec{typ: rt.typ, name: "EachOut",
			wf:    func(c *acc) { bfits(c, c.add(c.k(5), c.mul(b8(c, c.k(4)), rt.w))) },
			count: func(c *acc) *Lin { return b8(c, c.k(4)) },
			wfN:   func(c *acc, n *Lin) {},
			each: func(c *acc, n *Lin) []Val {
				v := c.uIn(blk(c), c.add(c.k(5), c.mul(n, rt.w)), int(rt.w))
				if rt.w == 4 {
					v = c.e.wrap(c.st, v, 32, true)
				}
				return []Val{v}
			}})
	}
	for _, st := range []struct {
		typ, list string
		w         int64
	}{{"GlyphRewriteSet", "EachListGlyph", 2}, {"Utf8RewriteSet", "EachListRune", 4}} {
		st := st
		nr := func(c *acc) *Lin { return b8(c, c.k(0)) }
		lst := func(c *acc) *Lin { return c.add(c.k(1), c.mul(nr(c), st.w+1)) }
		nl := func(c *acc) *Lin { return b8(c, lst(c)) }
		wf := func(c *acc) {
			bfits(c, c.k(1))
			bfits(c, c.add(lst(c), c.k(1)))
			bfits(c, c.add(lst(c), c.k(1), c.mul(nl(c), st.w)))
		}
		cp := func(c *acc, at *Lin) *Lin {
			v := c.uIn(blk(c), at, int(st.w))
			if st.w == 4 {
				v = c.e.wrap(c.st, v, 32, true)
			}
			return v
		}
		add(&accSpec{typ: st.typ, name: "EachRange", wf: wf, errEach: true, count: nr,
			wfN: func(c *acc, n *Lin) {},
			each: func(c *acc, n *Lin) []Val {
				at := c.add(c.k(1), c.mul(n, st.w+1))
				first := cp(c, at)
				last := c.e.wrap(c.st, c.add(first, b8(c, c.add(at, c.k(st.w)))), uint(8*st.w), st.w == 4)
				if st.w == 2 {
					return []Val{c.stc(c.typ("GlyphRange"), map[string]Val{"First": first, "Last": last})}
				}
				return []Val{first, last}
			}})
		add(&accSpec{typ: st.typ, name: st.list, wf: wf, errEach: true, count: nl,
			wfN:  func(c *acc, n *Lin) {},
			each: func(c *acc, n *Lin) []Val { return []Val{cp(c, c.add(lst(c), c.k(1), c.mul(n, st.w)))} }})
	}
	for _, k := range []struct{ num, off string }{{"NumPairs", "OffsetToHorzKernings"}, {"NumVertPairs", "OffsetToVertKernings"}} {
		k := k
		add(&accSpec{typ: "FontKerning", name: k.num, wf: func(c *acc) { c.fits(c.add(c.off(k.off), c.k(3))) },
			want: func(c *acc, _ []Val) []Val { return []Val{c.uN(c.off(k.off), 3)} }})
	}
	return out
}

type rasterized struct{ s SliceV }
type predefWord struct{ i *Lin }
