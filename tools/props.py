#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Truncated, unreadable or invalid input never parses successfully",
 "Parsing a font (from a reader, a path or a file system) reports success only if the signature, every section and every per-section validation was processed completely and without error. Any read error, decompression error, truncation point or failed validation, wherever in the stream it happens, is returned to the caller as a non-nil error.",
 ["inputs", "fault_sequences"], "every byte stream, every truncation point, every read at which the source fails",
 "The only parsing test rebuilds one small well-formed font in memory; no truncated or failing reader is ever used.",
 ["parse.go", "internal/parsing_buffer.go"],
 [("sequential section reads with checked errors", "parse.go:Parse"), ("reads that only succeed once the bytes are buffered", "internal/parsing_buffer.go:ParsingBuffer.readUpTo/readMore"), ("per-section Validate calls", "parse.go:Parse")],
 observe=["ggfnt.Parse", "ggfnt.ParseFromPath", "ggfnt.ParseFromFS", "builder.Font.ParseEditionData"])

prop("P02", "Parsing depends only on the bytes, and trailing data is rejected",
 "The result of parsing depends only on the sequence of bytes supplied, never on how the source splits them into reads (short reads, data delivered together with the end-of-file signal, occasional empty reads). Parsing succeeds only when the decompressed data ends exactly where the last section ends: any extra byte makes it fail.",
 ["inputs", "schedules"], "every chunking of every byte stream and any amount of trailing data",
 "Tests only use a bytes.Buffer, which delivers everything in one read, and never append trailing data.",
 ["internal/parsing_buffer.go", "parse.go"],
 [("incremental reads append exactly the bytes delivered", "internal/parsing_buffer.go:ParsingBuffer.readMore"), ("end-of-stream test", "internal/parsing_buffer.go:ParsingBuffer.EnsureEOF"), ("signature read", "parse.go:Parse")],
 [("ParsingBuffer.Bytes/Index/eof", "bytes decompressed so far, bytes consumed so far, whether the stream ended", "internal/parsing_buffer.go")])

prop("P03", "Parsing arbitrary bytes never panics",
 "Whatever bytes it is given, parsing a font in the default validation mode returns normally (with a font or an error). No index, slice bound or assertion inside the parser or the per-section validations it runs can be violated by file contents.",
 ["inputs"], "every byte stream",
 "Tests only parse well-formed fonts; offsets and counts in the file are adversarial inputs that no test explores.",
 ["parse.go", "internal/parsing_buffer.go", "font.go", "internal/helpers.go"],
 [("bounds established by the reads that precede each access", "internal/parsing_buffer.go:ParsingBuffer.readUpTo"), ("validation over already parsed sections", "font.go:*.Validate")])

prop("P04", "Font data is bounded by the format's size limits",
 "Parsing never accepts, and building never produces, a font whose uncompressed data exceeds the format's maximum size, and parsing stops reading once the limit is exceeded. Likewise a font with zero glyphs or more than the maximum number of glyphs is neither accepted nor produced.",
 ["inputs"], "every byte stream and every builder state, including decompression bombs",
 "No test feeds or builds anything near the limits.",
 ["internal/parsing_buffer.go", "parse.go", "builder/font_builder.go", "font.go"],
 [("size check after each read", "internal/parsing_buffer.go:ParsingBuffer.readMore"), ("size check before returning the font", "builder/font_builder.go:Font.Build"), ("glyph count checks", "font.go:FontMetrics.Validate, builder/font_builder_props.go:AddGlyph")])

prop("P05", "Font accessors return the bytes the file format assigns to them",
 "For every well-formed font, every read accessor (header, metrics, colors, glyphs, settings, mapping, rewrite rules and sets, kerning) returns exactly the value stored at the location that the format specification assigns to it, for every key and index, and iteration accessors report every element once, in order. Accessors whose key is outside the declared count do not return data of another element.",
 ["inputs"], "every well-formed font and every key, index and option",
 "Tests build one font and read back a few values with tiny counts; offsets, wide indices and multi-element sections are never exercised.",
 ["font.go", "internal/helpers.go", "specification.md"],
 [("offset arithmetic of each accessor", "font.go"), ("little-endian decoders", "internal/helpers.go:Decode*LE")],
 [("Font.OffsetTo*", "start of each section within the font data", "internal/font.go")])

prop("P06", "Built fonts have the layout that the parser and accessors expect",
 "The data produced by building a font contains the same sections, in the same order and with the same field widths, counts and end-offset tables, that parsing and the read accessors use; each recorded section offset is the position where that section starts. Every end-offset table entry equals the cumulative size of the elements up to that entry.",
 ["inputs", "programs"], "every builder state for which building succeeds",
 "The build test covers one font with a couple of glyphs and no vertical layout, palettes, switches, sets, conditions or vertical kerning.",
 ["builder/font_builder.go", "builder/font_builder_mapping.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder_settings.go", "parse.go", "internal/helpers.go"],
 [("section by section append", "builder/font_builder.go:Font.Build"), ("section by section parse", "parse.go:Parse"), ("little-endian encoders", "internal/helpers.go:Append*LE/Encode*LE")])

prop("P07", "Reading a font never modifies it or any shared state",
 "Once a font has been parsed or built, none of the library's operations that take or query it (accessors, validation, rasterization, exporting, lookups with or without caches, rewrite testing) writes to the font's data or to unsynchronized package-level state. Therefore any number of goroutines can use the same font concurrently.",
 ["schedules", "programs"], "every interleaving of read operations from any number of goroutines",
 "Tests are single-threaded and never compare the font data before and after use.",
 ["font.go", "mapping_cache.go", "settings_cache.go", "mask/rasterize.go", "words.go", "internal/single_instance_pool.go", "internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go"],
 [("read-only views over the font data", "font.go"), ("atomic single instance pool", "internal/single_instance_pool.go")])

prop("P08", "File helpers always release the file they open",
 "Whatever happens while a font is loaded from a path or file system (open errors, stat errors, oversized files, parse errors, success), the opened file has been closed by the time the helper returns. A failure to close after a successful parse is reported.",
 ["inputs", "fault_sequences"], "every failure point between opening and returning",
 "No test uses the file helpers.",
 ["parse.go"], [("close on each exit path", "parse.go:ParseFromFS, parse.go:ParseFromPath")])

prop("P09", "Offset arithmetic while reading a font never wraps around",
 "For every font accepted by the size limits, all index and offset arithmetic done by the accessors (sums and scalings of section offsets, counts and end offsets) is computed without integer wrap-around or truncation. In particular no count or length stored in the font, up to the maximum its field can hold, makes an accessor address a wrong byte.",
 ["inputs"], "every value of every count, length and offset field",
 "Wrap-around needs long names, many entries or large offsets; test fonts are tiny.",
 ["font.go", "internal/helpers.go"], [("widened offset computations", "font.go")])

prop("P10", "Building never truncates a count, length, index or offset",
 "Whenever building succeeds, every count, length, index and offset written to the font fits its field: values that don't fit are rejected with an error (or were impossible to add in the first place), never silently truncated.",
 ["inputs", "programs"], "every sequence of builder operations followed by a build",
 "Truncation needs more than 255/65535/16MiB elements; the tests build tiny fonts.",
 ["builder/font_builder.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder_mapping.go", "builder/font_builder_settings.go", "builder/font_builder_color.go", "builder/font_builder_props.go", "internal/helpers.go"],
 [("limits enforced when adding", "builder/*.go"), ("limits enforced while building", "builder/font_builder.go:Font.Build")])

prop("P11", "Building the same content always produces the same bytes",
 "Building (or exporting) a font is deterministic: the produced data is a function of the builder contents only, independent of map iteration order, time, randomness, or earlier builds.",
 ["programs", "schedules"], "every builder state and every map iteration order",
 "Map iteration order is randomized per run; a test that builds once cannot observe differences.",
 ["builder/font_builder.go", "builder/font_builder_settings.go", "builder/font_builder_mapping.go", "mask/encoder.go"],
 [("sorting of keys collected from maps", "builder/font_builder.go:Font.Build"), ("sorted word list", "builder/font_builder.go:Font.Build")])

prop("P12", "Binary searches find every entry of the tables that building emits",
 "The tables that are looked up by binary search (glyph names, code point mappings, kerning pairs, rewrite conditions in testers) are emitted or maintained in the very order that the lookup assumes, and the lookup returns an entry if and only if it is present, for every table size including zero and one.",
 ["inputs"], "every table content and every searched key",
 "The tests look up a handful of keys on tables of one to three entries.",
 ["font.go", "builder/font_builder.go", "internal/helpers.go", "internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go", "internal/rerules/glyphrule/decision_tree_state.go", "internal/rerules/utf8rule/decision_tree_state.go"],
 [("lower bound searches", "font.go:FindIndexByName/Utf8/Utf8WithCache/Get/GetVert"), ("sorted emission", "builder/font_builder.go:Font.Build")])

prop("P13", "Rewrite conditions evaluate to their specified meaning",
 "Evaluating an encoded rewrite condition yields the truth value that the format assigns to it for the given settings: comparisons use the setting's value with the encoded operator and operand, OR and AND groups combine exactly their declared number of terms, and nesting is respected. Short-circuiting never changes the result nor the position at which the next term starts, and references to undefined settings or operators are never evaluated.",
 ["inputs"], "every encoded condition and every settings assignment",
 "No test evaluates any rewrite condition.",
 ["font.go"], [("evaluator", "font.go:FontRewrites.EvaluateCondition/evalConditionSubexpr"), ("skipper used on short-circuit", "font.go:FontRewrites.skipConditionSubexpr")])

prop("P14", "Mask decoding is bounded, and its bounds agree with its drawing",
 "Decoding any byte sequence as mask raster operations either succeeds or returns an error, without reading outside the sequence (masks too large to allocate aside). The bounds computation and the drawing pass interpret every operation as documented and identically (same bytes consumed, same cursor movement, same extents, same errors for invalid or truncated operations), so the bounds are exactly those of what is drawn and every drawn pixel lies inside them, with the palette index in force. A mask is returned exactly when something is drawn.",
 ["inputs"], "every raster operation sequence",
 "The tests decode only sequences produced by the encoder from small random masks.",
 ["mask/rasterize.go"], [("bounds pass", "mask/rasterize.go:computeRasterOpsRect"), ("drawing pass", "mask/rasterize.go:Rasterize")])

prop("P15", "Cached lookups return what the uncached lookups return",
 "Looking up a code point through the caches (settings cache, mapping cache) yields the same mapping group as the direct lookup with the current settings, provided drops are requested as documented; changing a setting invalidates every cached value that may depend on it. Rewrite conditions read through the cache equal their direct evaluation.",
 ["histories", "inputs"], "every history of lookups, setting changes and drops",
 "No test uses the caches.",
 ["font.go", "mapping_cache.go", "settings_cache.go", "internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go"],
 [("Utf8 vs Utf8WithCache", "font.go"), ("entry round trip", "mapping_cache.go:mappingEntry.Update/ToMappingGroup"), ("invalidation", "settings_cache.go:SettingsCache.Set")],
 [("SettingsCache caching flags", "which cases and conditions are valid", "settings_cache.go")])

prop("P16", "Rewrite testers keep a consistent lifecycle across errors and sequences",
 "A tester is operating exactly between a successful sequence begin and its finish: a begin that fails leaves it not operating and usable again, and operations that need (or forbid) an ongoing sequence refuse to run otherwise. Each sequence starts with no pending elements left from earlier ones, only rules that are registered and whose condition holds take part, and shared compilation resources are always returned, including on errors.",
 ["histories", "fault_sequences"], "every sequence of tester operations, including failing ones",
 "The tests run single successful sequences on fresh testers.",
 ["internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_compiler.go", "internal/single_instance_pool.go"],
 [("operating flag", "tester.go:BeginSequence/FinishSequence"), ("compiler begin/finish pairing", "tester.go:recompile"), ("pool retrieve/release pairing", "tester.go:recompile")],
 [("Tester.isOperating", "whether a sequence is ongoing", "tester.go")])

prop("P17", "Malformed rewrite rules are reported as errors, never as panics",
 "Scanning any rewrite rule data that passed the tester's minimum length check never reads outside the rule and never panics: rules that are truncated, have inconsistent fragment controls, lengths or invalid elements are reported as errors by the scan, and valid rules yield exactly their elements. Rules that use sets that the font doesn't have are rejected when compiled. Both rule kinds (glyph and utf8) behave alike.",
 ["inputs"], "every byte sequence used as rule data",
 "The tests cover a short list of hand-written malformed glyph rules and no utf8 ones.",
 ["internal/rerules/glyphrule/rule_scanner.go", "internal/rerules/utf8rule/rule_scanner.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_compiler.go"],
 [("scanner", "rule_scanner.go:RuleScanner.Start/Next/advanceControl/parseFragmentControl/checkTermination")])

prop("P18", "Failed builder operations leave the font being built unchanged",
 "Whenever an editing operation of the builder returns an error, the contents being edited are exactly what they were before the call.",
 ["inputs", "programs"], "every builder editing operation and every failing argument",
 "No test checks the builder state after a failing operation.",
 ["builder/font_builder_props.go", "builder/font_builder_color.go", "builder/font_builder_mapping.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "builder/font_builder_settings.go"],
 [("validate first, commit last", "builder/*.go")])

prop("P19", "The builder never shares memory with its callers",
 "Slices, masks and other mutable arguments passed to builder operations can be freely reused or modified by the caller afterwards without affecting the builder or fonts built from it, and the builder never modifies them. A built font shares no memory with the builder, so later edits or builds don't affect fonts already built.",
 ["programs"], "every sequence of calls and later caller mutations",
 "No test mutates an argument after passing it or edits after building.",
 ["builder/font_builder_props.go", "builder/font_builder_color.go", "builder/font_builder_mapping.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_settings.go", "builder/font_builder.go"],
 [("defensive copies", "builder/*.go")])

prop("P20", "Builder registries stay consistent and removals take effect",
 "After any sequence of operations, each set or glyph known to the builder appears exactly once in the list that determines its encoding order and vice versa, so building neither fails nor misses elements because of earlier additions or removals. A removal that reports success removes exactly the requested element, and only it.",
 ["programs", "histories"], "every sequence of additions and removals",
 "No test removes anything or creates rune sets.",
 ["builder/font_builder_rewrite_sets.go", "builder/font_builder_props.go", "builder/font_builder.go"],
 [("paired updates of map and order list", "builder/font_builder_rewrite_sets.go, builder/font_builder_props.go")],
 [("rewriteGlyphSets/glyphSetsOrder, rewriteRuneSets/runeSetsOrder, glyphData/glyphOrder", "paired registries", "builder/font_builder.go")])

prop("P22", "Detected errors are never dropped",
 "Across the library, whenever an internal operation or a callback reports an error, the calling operation also ends in an error (or an explicit failure): no error result is discarded, overwritten or turned into success, other than the end-of-file signal and best-effort closes after another error.",
 ["fault_sequences", "inputs"], "every call that can fail, in every state",
 "Failures of reads, callbacks, encoders or compilations are never injected by the tests.",
 ["parse.go", "font.go", "internal/parsing_buffer.go", "builder/font_builder.go", "internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_compiler.go"],
 [("immediate error checks", "whole repository")])

prop("P21", "Parsing enforces exactly the documented structural limits",
 "Beyond the per-section validations, parsing refuses a font whose sections were read completely only when it violates one of the structural limits of the format (each dye and palette has at least one color and a name, at most 255 colors, names and words of 1 to 32 bytes, glyph masks at least as large as the placements, settings with at least one option byte, at most 254 mapping switches, entries, conditions, sets and rules within their minimum and maximum sizes, no more kerning pairs than pairs of glyphs), and it never accepts a font that violates one. The limits are evaluated without wrap-around for all counts.",
 ["inputs"], "every combination of section counts and end offsets up to the maximum of their fields",
 "The tests parse one small well-formed font; neither the limits nor values near them are exercised.",
 ["parse.go", "specification.md"], [("structural checks of each section", "parse.go:Parse")])

prop("P23", "Font validation runs every section's checks in the requested mode",
 "Validating a font runs the validation of each of its sections with the mode requested by the caller and fails if any of them fails; parsing runs them all too. The basic checks reject exactly the documented conditions (format version, identifier entropy, empty name, glyph counts, boolean and ascent consistency, vertical spacing without vertical layout, too many color sections, more named glyphs than glyphs).",
 ["inputs", "configurations"], "every font and both validation modes",
 "Tests never call validation on an invalid font.",
 ["font.go", "parse.go"], [("per-section validation", "font.go:*.Validate"), ("aggregate validation", "font.go:Font.Validate")])

prop("P24", "Rewriting conserves the elements of a sequence",
 "Every element fed to a rewrite tester is reported exactly once and in order, except the elements that a rule replaces, in whose place exactly the output of that rule is reported. A rule is applied only where the detection found it, after its head was reported and without replacing elements that were already reported as the tail of a previous rule, and tails take part in later detection. Nothing is reported while it may still be part of a match, and once a sequence is broken or finished everything was reported. Feeding, breaking and finishing sequences never panics, for both rule kinds (glyph and utf8).",
 ["inputs", "programs", "histories"], "every history of sequences with breaks, any element values, rules with heads, bodies and tails of different lengths",
 "Tests of the testers feed a few short sequences to one or two rules, without overlapping matches.",
 ["internal/rerules/glyphrule/tester.go", "internal/rerules/utf8rule/tester.go", "internal/circular_buffer.go"],
 [("pending elements and tails", "tester.go:Feed, Break, FinishSequence, rewrite"), ("circular accumulator", "internal/circular_buffer.go")])

prop("P25", "Compiled decision trees find the rules that match",
 "For rewrite rules with any elements and sets (sets may be empty, share elements with other sets, or list an element repeatedly; rules may share beginnings, repeat each other, or be part of each other), the compilation of a detection tree succeeds without panics, also when the compiler and its buffers are reused after other rules. The tree then tells, after each element of any sequence, the rule that matches the whole sequence so far (the first one added, if several have the same length) and otherwise keeps the longest match found before; it stops once no rule may match anymore, at the latest after the longest rule, and never while a rule may still match. When detection starts with elements that can only belong to the head of a rule, no rule with a head that is long enough is missed. This holds for glyph rules and for UTF-8 rules.",
 ["inputs", "programs"], "any elements and any relative position of the ranges of sets, for families of up to four rules with up to four elements",
 "Tests compile a few rules with hand-picked glyphs and check the resulting transitions; the ways in which ranges may overlap, split, and share states are not enumerated.",
 ["internal/rerules/glyphrule/decision_tree_compiler.go", "internal/rerules/utf8rule/decision_tree_compiler.go", "internal/rerules/glyphrule/decision_tree_state.go", "internal/rerules/utf8rule/decision_tree_state.go", "internal/rerules/glyphrule/decision_tree.go", "internal/rerules/glyphrule/rule_scanner.go"],
 [("compilation", "decision_tree_compiler.go:Begin, Feed, Finish"), ("splits of transitions", "decision_tree_state.go:AppendRange"), ("detection", "decision_tree.go:Feed, FeedHead, BestMatch")])

prop("P26", "A built font reports exactly the contents given to the builder",
 "Building succeeds for valid contents, and the accessors of the font (header, metrics, glyph placements and names, dyes and palettes, settings and their options, mappings under any settings, kerning, rewrite rules and glyph sets) report exactly the contents that the operations of the builder gave it: values as they were set last, elements in the order in which they were added, nothing that was removed or never added. Operations whose arguments are within the limits of the format succeed, and those beyond these limits fail.",
 ["inputs", "programs"], "any values of bytes, metrics, kernings, colors and runes (in any order), for a family of sequences of builder operations",
 "One small font is built by the tests, and few of its contents are read.",
 ["builder/font_builder.go", "builder/font_builder_props.go", "builder/font_builder_mapping.go", "builder/font_builder_color.go", "builder/font_builder_settings.go", "builder/font_builder_rewrite_rules.go", "builder/font_builder_rewrite_sets.go", "font.go"],
 [("encoding of the sections", "builder/font_builder.go:Build"), ("operations of the builder", "builder/*.go"), ("accessors", "font.go")])

prop("P30", "Building and parsing back is the identity on font contents",
 "Exporting a font built from valid contents succeeds, parsing what was exported succeeds, and the accessors of the parsed font report exactly the contents that were given to the builder.",
 ["programs", "inputs"], "any values of bytes, metrics, kernings, colors and runes (in any order), for a family of sequences of builder operations",
 "Only one tiny font is compared.", ["builder/font_builder.go", "parse.go", "font.go"],
 [("build, export, parse, read", "builder/font_builder.go, parse.go, font.go")])

# ---- not claimed ----
prop("P31", "Encoding and rasterizing a glyph mask is the identity on its pixels",
 "Rasterizing the encoding of any glyph mask yields a mask with the same non-zero pixels.",
 ["inputs"], "every mask", "Tests sample small random masks.",
 ["mask/encoder.go", "mask/encoder_helper_funcs.go", "mask/rasterize.go"], [("fragment decomposition and encoding", "mask/encoder.go")])
prop("P32", "Rewriting a whole sequence gives the result defined by its rules",
 "Feeding any sequence to a tester outputs the sequence with the rules applied in the order of their priorities, with tails reconsidered, for any number of rules, sets and conditions.",
 ["inputs", "programs"], "every rule set and every input sequence", "Tests cover a few hand-picked rule sets.",
 ["internal/rerules/glyphrule", "internal/rerules/utf8rule"], [("decision tree compilation and traversal", "decision_tree*.go, tester.go")])
prop("P33", "Generated identifiers are unique and have enough entropy",
 "Font, glyph and set identifiers generated by the builder never collide within a font and always satisfy the entropy threshold.",
 ["programs"], "every sequence of creations", "Randomness is sampled.",
 ["builder/font_builder.go", "builder/font_builder_props.go", "internal/helpers.go"], [("rerolls", "builder/font_builder.go:New")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
