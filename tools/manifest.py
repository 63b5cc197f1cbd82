#!/usr/bin/env python3
# Generates /verif/MANIFEST.json from the table below and properties.jsonl.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = {
 'P01': ('path-sensitive error-flow and must-pass-through analysis over SSA',
         'Decides that every failure on any path of the parser and the validators it runs ends in a non-nil error, and that success is only reported after every section validation and the end-of-stream check. It trusts io.Reader to report its failures.'),
 'P02': ('abstract interpretation of the parsing buffer with the decompressor as an arbitrary io.Reader, and typestate of the position in Parse',
        'Decides, for every sequence of reads (short, empty, with or after the end of the stream, failing), that the bytes held are exactly the first bytes of the stream, that no operation fails or succeeds depending on the split, and that Parse succeeds only at the end of the stream and of the last section. Trusts compress/gzip to follow the io.Reader contract.'),
 'P03': ('abstract interpretation with every panic as an obligation',
        'Decides for all file contents that no index, slice bound, conversion, assertion or explicit panic can be reached in the parsing buffer, in Parse and in the section validations it runs in the default mode. Trusts the standard library not to panic.'),
 'P04': ('abstract interpretation with the size and glyph count limits as obligations',
        'Decides that every successful read keeps the data within the maximum size, that every success of Parse and Build implies 1 to 56789 glyphs, and that Build and AddGlyph respect the limits, for all inputs.'),
 'P05': ('abstract interpretation with a relational linear domain against a declarative layout specification',
         'Decides, for each exported accessor of the font sections, that on every path its result equals the bytes the file format assigns, for all font data and arguments satisfying the section layout. Condition switches are decided up to three settings and two cases; operations whose body is a not-implemented panic are excluded.'),
 'P06': ('abstract interpretation of the whole build with loop summaries, matched against the declared section layout',
         'Decides, for every builder content and every loop length, that on success each section of the built data consists of exactly the fields, tables and entries of the format, in order, with counts equal to the numbers of entries, end offsets equal to the cumulative sizes and section offsets at the section starts. Assumes the consistency of the builder registries (P20), data smaller than 4GiB, and takes the inside of mask encodings, rule bodies and setting option lists as opaque blobs.'),
 'P07': ('context-sensitive points-to and write-effect analysis',
         'Decides, for every exported reading operation and all its callees, that no write effect can touch the font, its data or package-level memory. Trusts the table of standard library effects.'),
 'P08': ('path-sensitive resource typestate analysis',
         'Decides on every path of each helper that opens a file that the handle is closed at each exit and that a close failure is reported. Panics inside callees are not considered exits.'),
 'P09': ('abstract interpretation with a relational linear domain: interval, wrap-around and address-flow obligations',
         'Decides, for the addressing of every accessor over well-formed font data of any admitted size, that no arithmetic that reaches an index or slice bound can wrap or be truncated, and that the bounds hold.'),
 'P10': ('abstract interpretation of the encoders and builder operations with every narrowing as an obligation',
         'Decides, for every builder content, that each narrowing conversion, sum, packed nibble and byte split that reaches the built data is in range on every path, that the operations of the builder enforce the sizes this relies on, and that exceeding sizes are refused with an error. Assumes lengths in memory stay below 4 GiB; mask encoding is excluded; lists of lists among arguments up to 2 elements.'),
 'P12': ('abstract interpretation of the lookups with a symbolic position of the target, loop invariants and ranking functions',
         'Decides, for tables of any size, that a lookup whose target is at a symbolic position returns that entry, that an absent target is reported absent, and that the loops end.'),
 'P11': ('map-iteration-order taint dataflow and effect analysis',
         'Decides that no value whose order derives from map iteration, time, randomness or a previous build reaches the built data unsorted, and that building writes no builder contents. Sort keys are checked to be total over the sorted elements.'),
 'P13': ('abstract interpretation of the condition evaluation over symbolic condition data, against the condition format',
         'Decides, for every settings assignment and any position of the condition in the font, that the value is the one of the format for each condition shape: every operator and operand form alone and at each place of a group (evaluated or skipped), groups of up to 31 terms, nested up to three levels; and that undefined controls, operators and settings yield no result. Deeper nesting is not enumerated.'),
 'P14': ('abstract interpretation of the two decoding passes, for each control byte with symbolic operands, against the documented operations',
         'Decides, for every control byte, every operand value and every truncation, between a first operation that leaves the cursor at any position and a last one: that both passes fail on the same sequences with the same error, that the bounds are exactly those of what is drawn, that each pixel drawn lies in them, and (for boundary draw lengths) that exactly the documented pixels get the palette index in force; and that data of any length is only accessed inside. Longer sequences follow as each step only depends on the cursor and the palette index. Allocation failures of huge masks are out of scope.'),
 'P15': ('abstract interpretation of the caches and lookups, compared with each other and with a model of the history',
         'Decides, with symbolic settings, options, cached values, groups and code points: that the settings cache returns exactly what was cached and drops all of it when a setting changes (histories over up to 9 settings, switches and conditions, lists of up to 17 bits with any contents); that the direct and the cached lookup agree on every font with up to 4 mapping entries and switch cases up to 2, and cache correct cases; that a mapping cache of 1 to 4 entries yields what the font yields over every history of up to 9 lookups, drops and resets. Relevance of settings is not refined: a change of any setting must invalidate.'),
 'P16': ('abstract interpretation of the tester operations with the mode, the shared compiler and the compilation as typestates',
         'Decides for testers with up to 2 trees and 2 rules, any contents and any outcome of the compilation: which operations are refused in which mode, the mode and the pending elements left by every outcome, that the shared compiler is released and its compilation finished on every path, that trees take part exactly when their condition holds, and that each sequence uses the compilation of the rules registered at that time. The functions that process elements are analysed one loop at a time with invariants about the inactive trees.'),
 'P17': ('abstract interpretation of the rule scanners compared with the rule format on symbolic data',
        'Decides for rule data of any size that no scan reads outside the rule or panics (inferred inductive invariant of the scanner between calls) and that a scan only starts with acceptable lengths; for blocks of up to 2 elements each (4 in total), that scans succeed exactly on rules that follow the format and yield exactly their elements; and that the compiler only looks up sets that the font has. Larger blocks: only the absence of panics. A rule that lacks just the closing empty block may be accepted.'),
 'P18': ('path-sensitive write-effect analysis',
         'Decides for every editing operation that no path returning an error has written builder contents before. Scratch buffers (temp*) are exempt; Build, exports and the loading of edition data are not editing operations.'),
 'P19': ('context-sensitive points-to / ownership analysis',
         'Decides for every builder operation that arguments are neither retained nor written and that results share no memory with the builder. Trusts the table of standard library effects.'),
 'P20': ('abstract interpretation of the registry operations on symbolic registries, and effect analysis of the registry fields',
         'Decides for registries of up to 3 entries (sets with up to 3 ranges and listed elements), every relation between the arguments and the entries, and every outcome of the random identifiers, that each operation leaves map and order list with the same elements, that removals remove exactly the requested element and report it, and that nothing else changes; and that no other code writes the registries. Larger registries are not enumerated.'),
 'P21': ('typestate of the parser position with the documented limits as case distinctions',
        'Decides for every count and end offset that each refusal of Parse implies the violation of a documented limit and that a violating font is never accepted. The limits are a table in the analyzer, taken from the format documentation and the names of the errors.'),
 'P23': ('abstract interpretation of the validations over symbolic font data against the documented conditions',
        'Decides for all section contents that each validation fails exactly under its documented conditions, that the validation of a font runs all of them in the mode of the caller and fails if one fails, and that Parse runs all of them on the data read so far. The entropy function itself is taken as given.'),
 'P26': ('abstract interpretation of builder operations, builds and reads with symbolic contents against what was given',
         'Decides for any values of the symbolic contents (bytes, metrics, kernings, colors, runes in every order) and 31 families of operations that cover every section that the builder can fill and the limits of the operations, that the build succeeds and that every accessor reports what was given. Numbers of elements are those of the families; identifiers are fixed; the encoding of masks is a stand-in.'),
 'P30': ('abstract interpretation of builder operations, builds, exports, parses and reads with symbolic contents against what was given',
         'Decides the same as P26 for the font that Parse returns for the exported bytes, for the families whose fonts take a single read of the parser (up to 1024 bytes). The compressor is taken as the identity; reads deliver all they can; the encoding of masks is a stand-in.'),
 'P25': ('abstract interpretation of the compilation of rules with symbolic elements and sets, and of the compiled trees, against the rules',
         'Decides for any elements and any relative position of the ranges of sets, for 41 families of up to four rules with up to four elements and both kinds of rules, that compilation succeeds and that the compiled tree finds exactly the rules that match and stops when it may. The limits of the compiler (254 states) are not reached by these families.'),
 'P24': ('abstract interpretation of the testers with the detection as an arbitrary oracle, to a fixpoint of the configurations, against a model of the sequence',
         'Decides for histories of any length (fixpoint of the tester configurations), any element values and any behaviour of the decision trees that what is reported, what is offered to the detection and which rules take effect agree with a model of the sequence; for 21 sets of one to three rules, with heads, bodies and tails of up to 4 elements and up to three conditions. Rules are given by their lengths; that the detection finds the right rules is not part of it.'),
 'P22': ('path-sensitive error-flow analysis',
         'Decides for every function of the module that no path on which a call failed ends without an error. Console printing is exempt, and so is the end-of-file signal of reads.'),
}
NA = {
 'P31': 'Pixel-exact inversion of the mask encoder by the rasterizer depends on the contents of the image and on the greedy fragment choice; it has no clause whose truth is visible in the shape of the code.',
 'P32': 'The complete function from sequences to rewritten sequences has no specification apart from the code (priorities between conditions, matches that compete after tails), and quantifies over any number of rules; its parts that have one are claimed: the decision trees find the matches (P25) and the testers conserve the elements (P24).',
 'P33': 'Uniqueness and entropy of random identifiers are probabilistic runtime quantities; no static argument bounds them.',
}
PENDING = 'The check for this property is not finished at this commit.'
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash build.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CLAIMED:
        t, n = CLAIMED[i][:2]
        m['checks'].append({'property': i, 'quick_cmd': f'bash check.sh {i}', 'thorough_cmd': f'bash check.sh {i}',
            'technique': t, 'level': 'other', 'level_note': n, 'evidence_file': f'evidence/{i}.json'})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, PENDING)})
m['notes'] = 'All checks are static: the analyzer (built from analyzer/ by build.sh) loads and type-checks /repo from source, builds its SSA form and decides the obligations; nothing of /repo is executed.'
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
