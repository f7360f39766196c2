#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long records stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["src/"+f for f in files],
            state=[dict(name=n, meaning=m, where="src/"+w) for n, m, w in state],
            mechanism=[dict(name=n, where="src/"+w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Byte sets obey set algebra, element by element",
  "For every set of bytes and every byte: adding, removing or toggling one byte, clearing, filling and complementing the set, and the union, intersection and symmetric difference of two sets, give exactly the mathematical result and change no other member. Two sets are equal exactly when they have the same members, and the empty set is the default.",
  ["inputs"], "all 2^256 sets (pairs of sets for the binary operations) and all 256 bytes",
  "The tests start from empty, full or one-element sets and look at the byte that was touched or at counts; an operation that disturbs another byte of a set of unusual shape passes them.",
  ["util/bitfield.rs", "util/charreach.rs"],
  [("BitField256::{set,reset,flip,test,set_all,reset_all,flip_all}", "util/bitfield.rs"), ("BitAnd/BitOr/BitXor/Not and their assigning forms", "util/bitfield.rs"), ("CharReach wrappers", "util/charreach.rs")],
  [("bits", "the 256 membership bits, four 64-bit words", "util/bitfield.rs")],
  ["membership test of every byte before and after the operation"], "rescan_verif")

p("C02", "Byte ranges, constructors and cardinality are exact",
  "Adding the range from..=to to a byte set (from <= to) adds exactly the bytes in that range and keeps all others; a reversed range is refused by a panic and never silently accepted. A set built from one byte, from a range, from a byte string of any length, or as the universal set has exactly those members. The cardinality and the is-empty, is-not-empty and is-full queries agree with the membership of all 256 bytes.",
  ["inputs"], "all sets, all 65536 pairs of range ends, all byte strings of any length",
  "The range tests only use an initially empty set, and only sets built from a few strings are examined; overwriting members already present, or a fault in one pair of word boundaries combined with existing members, is not seen.",
  ["util/bitfield.rs", "util/charreach.rs"],
  [("BitField256::set_range", "util/bitfield.rs"), ("BitField256::{count,none,any,all}", "util/bitfield.rs"), ("CharReach::{from_char,from_range,from_bytes,set_bytes,dot}", "util/charreach.rs")],
  observe=["membership test of every byte"], hook="rescan_verif")

p("C03", "Enumerating a byte set yields every member once, in order",
  "For every byte set, the first-member and last-member queries return the least and greatest member, the next-member query returns the least member strictly above its argument whether or not the argument is a member, and the n-th-member query returns the member with exactly n smaller members. Each answers that there is none exactly when no such member exists. Printing a byte set lists all its members in ascending order.",
  ["inputs"], "all 2^256 sets and all 256 arguments",
  "The tests enumerate one-element, full, regularly strided and a few hand-picked sets; word-boundary cases such as the last bit of a word followed by empty words are sampled at most once.",
  ["util/bitfield.rs", "util/charreach.rs"],
  [("BitField256::{find_first,find_last,find_next,find_nth}", "util/bitfield.rs"), ("CharReach wrappers and Display", "util/charreach.rs")],
  observe=["returned member against the membership test"], hook="rescan_verif")

p("C04", "Case folding adds exactly the other case of ASCII letters",
  "Making a byte set caseless adds the other-case form of every ASCII letter in it and nothing else. The upper- and lower-case mappings change exactly the 26 ASCII letters of the opposite case, and a byte counts as a letter exactly when it is one of the 52 ASCII letters. A set counts as a caseless pair exactly when it consists of the two cases of one ASCII letter.",
  ["inputs"], "all byte sets and all 256 bytes",
  "No test exercises the caseless closure at all, and the pair test only builds sets of at most two members.",
  ["util/charreach.rs", "util/compare.rs"],
  [("make_caseless", "util/charreach.rs"), ("CharReach::is_caseless_char", "util/charreach.rs"), ("mytolower, mytoupper, ourisalpha", "util/compare.rs")],
  observe=["membership test of every byte", "mapping of every byte"], hook="rescan_verif")

p("C05", "Byte-set predicates are true exactly when their definition holds",
  "For every byte set: it is alphabetic exactly when non-empty and all members are ASCII letters; bit-5 insensitive exactly when closed under toggling 0x20; ASCII exactly when no member exceeds 0x7f; a UTF-8 start set exactly when no member is below 0xc0. For every pair of sets, the subset and overlap queries are true exactly when the members say so.",
  ["inputs"], "all byte sets and pairs of byte sets",
  "Subset, overlap, ASCII and UTF-8-start have no test; alphabetic and bit-5 are tested on about thirty sets.",
  ["util/charreach.rs"],
  [("CharReach::{is_alphabetic,is_bit5_insensitive,is_subset_of,overlaps,is_ascii,is_utf8_start}", "util/charreach.rs")],
  observe=["result against the membership test"], hook="rescan_verif")

p("C06", "And/compare masks and exported bit vectors are faithful",
  "For every byte set, every member passes the and/compare check formed by the generated masks, the and-mask covers exactly the bit positions on which all members agree, and no byte passes for the empty set. Exporting a byte set to a bit vector of 32 or more bytes sets bit (c mod 8) of byte (c div 8) exactly for the members c, leaves bytes beyond the 32nd unchanged, and does not panic.",
  ["inputs"], "all byte sets; all output buffers of at least 32 bytes with any prior contents",
  "Neither function is called by any test.",
  ["util/charreach.rs"],
  [("make_and_cmp_mask", "util/charreach.rs"), ("fill_bitvector", "util/charreach.rs")],
  observe=["returned masks", "output buffer"], hook="rescan_verif")

p("C07", "Alignment helpers round to the nearest multiple",
  "For every unsigned width, value and power-of-two alignment of at most 128, rounding up returns the least multiple of the alignment that is not below the value whenever that multiple is representable, and rounding down returns the greatest multiple that is not above it. The fixed 16-byte and 64-byte forms agree with the general one.",
  ["inputs"], "all values of every unsigned integer width, all powers of two up to 128",
  "No test calls these functions directly; the one caller only passes values below 256.",
  ["util/ue2common.rs"],
  [("round_up_16, round_down_16, round_up_n, round_down_n, round_up_cache_line", "util/ue2common.rs")],
  observe=["returned value"], hook="rescan_verif")

p("C08", "Depth conversion is exact or refused, and ordering is total",
  "Converting a count to a depth succeeds exactly when the count is below the value reserved for infinity and then preserves it; otherwise it is refused rather than truncated. Depths compare as their counts, every finite depth is below infinity, and equality agrees with the ordering.",
  ["inputs"], "all 32-bit and all pointer-sized counts, all pairs of depths",
  "No test touches depths; the interesting counts are around 2^31 and beyond 2^32.",
  ["util/depth.rs"],
  [("TryFrom<u32>, TryFrom<usize> for Depth", "util/depth.rs"), ("Ord/PartialOrd/PartialEq for Depth", "util/depth.rs")],
  observe=["conversion result", "comparison results"], hook="rescan_verif")

p("C09", "A literal stores its bytes and case flags exactly, and compares by both",
  "After any sequence of appends, a literal has as many elements as appends, and iterating yields each appended byte (upper-cased if appended as case-insensitive) with its case flag, in order. Equality holds exactly when both byte strings and all case flags agree, and the ordering is by bytes first, case flags second, and is consistent with equality. It reports a case-insensitive element exactly when one was appended, and counts as mixed exactly when it holds both a case-sensitive and a case-insensitive ASCII letter.",
  ["inputs", "histories"], "all sequences of appends of any length, all pairs of literals",
  "The only test compares two empty literals.",
  ["util/ue2string.rs"],
  [("Ue2Literal::{push,len,is_empty,any_nocase,iter}", "util/ue2string.rs"), ("Ue2LiteralIter::next", "util/ue2string.rs"), ("PartialEq/Ord for Ue2Literal", "util/ue2string.rs"), ("mixed_sensitivity", "util/ue2string.rs")],
  [("s, nocase", "bytes and case flags, same length", "util/ue2string.rs")],
  ["iteration", "comparison results"], "rescan_verif")

p("C10", "Parsing is total: a pattern is accepted iff well formed, never a panic",
  "For every string, parsing returns a tree or an error and never panics: after any leading control verb, it succeeds exactly when all characters are ASCII, no group is closed that is not open, and every group opened is closed. Otherwise the error is for the first offending character (a closing parenthesis without a partner, or a non-ASCII character with its byte index), or, if there is none, names the byte index in the pattern of the opening parenthesis of the innermost group left open.",
  ["inputs"], "all strings of fewer than 2^32 - 1 bytes (the parser numbers groups with 32 bits)",
  "Four tiny valid patterns are parsed; no malformed pattern and no group after the first character is ever tried.",
  ["parser.rs", "parser/control_verbs.rs", "parser/component_class.rs", "util/compile_error.rs"],
  [("Context::{main,parse,push_sequence,pop_sequence}", "parser.rs"), ("add_literal", "parser.rs"), ("parse", "parser.rs")],
  [("sequences", "stack of enclosing groups with their start offsets", "parser.rs")],
  ["result and error text of parsing"], "rescan_verif")

p("C11", "The parse tree mirrors the pattern's structure",
  "For every accepted pattern, the tree is the one the grammar prescribes: each ordinary character is a class of that one byte, or of both cases of a letter in caseless mode; each parenthesised group is a nested sequence numbered from 1 by its opening parenthesis, the whole pattern being sequence 0; a bar splits its enclosing sequence into an alternation of uncaptured branches, one more than the bars. Nothing is lost, duplicated or reordered, including empty groups and empty branches.",
  ["inputs"], "all accepted patterns of fewer than 2^32 - 1 bytes and any nesting depth, both case modes",
  "Three patterns of at most two characters are dumped; nesting, several groups, and bars inside groups never occur together.",
  ["parser.rs", "parser/component_sequence.rs", "parser/component_alternation.rs", "parser/component_class.rs", "parser/ascii_component_class.rs", "parser/component.rs"],
  [("Context::{main,push_sequence,pop_sequence,parse}", "parser.rs"), ("ComponentSequence::{add_alternation,finalize,add_component}", "parser/component_sequence.rs"), ("ComponentAlternation::append", "parser/component_alternation.rs"), ("get_literal_component_class, ComponentClass::add", "parser/component_class.rs"), ("AsciiComponentClass::add", "parser/ascii_component_class.rs")],
  [("current_seq, sequences, group_index", "sequence being built, enclosing sequences, next group number", "parser.rs")],
  ["walking the parse tree"], "rescan_verif")

p("C12", "Control verbs are recognised exactly and applied only if supported",
  "A pattern that starts with '(*', one or more characters other than ')', and ')' starts with a control verb; any other pattern has none and is left untouched together with all mode settings. UCP turns on only the Unicode-property mode, UTF8 and UTF only the UTF-8 mode, and parsing resumes right after the verb; every other verb is an error quoting the verb and its index, 'Unsupported' for the known ones (including LIMIT_MATCH= and LIMIT_RECURSION= with any value) and 'Unknown' otherwise.",
  ["inputs"], "all strings of any length, all initial mode settings",
  "Five verbs are tried in three tests; unterminated and empty verbs, most of the known names, near misses and the preservation of the other mode settings are not.",
  ["parser/control_verbs.rs"],
  [("read_control_verbs", "parser/control_verbs.rs"), ("control_verb", "parser/control_verbs.rs")],
  observe=["remaining pattern, mode and error"], hook="rescan_verif")

p("C13", "The literal shortcut takes exactly the patterns that are plain strings",
  "A parse tree is turned into a literal exactly when it contains no alternation, at any depth, and every class in it holds a single byte or the two cases of one ASCII letter. The literal then lists those bytes in pattern order across groups, case-insensitive exactly for the letter pairs; an empty literal is not taken.",
  ["inputs"], "all parse trees of any size and depth, with arbitrary byte sets as classes",
  "One pattern, 'foobar', goes through this path, and its literal is not examined.",
  ["parser/shortcut_literal.rs", "parser/component.rs", "parser/component_sequence.rs", "parser/component_alternation.rs"],
  [("ConstructLiteralVisitor", "parser/shortcut_literal.rs"), ("walk_component and friends", "parser/component.rs"), ("shortcut_literal", "parser/shortcut_literal.rs")],
  observe=["extracted literal"], hook="rescan_verif")

p("C14", "Internal report and exhaustion identifiers are dense, stable and unique",
  "Asking for the internal identifier of a report returns the same number every time, different numbers for different reports, numbers 0, 1, 2, ... in order of first request, and looking a number up returns its report. A new report is refused exactly when the configured limit is already reached, without changing anything, while known reports still resolve. Exhaustion keys have the same stability, density and uniqueness per expression.",
  ["histories", "configurations"], "all sequences of requests of any length and all limits",
  "No test calls the report manager.",
  ["util/report_manager.rs"],
  [("ReportManager::get_internal_id", "util/report_manager.rs"), ("ReportManager::get_report", "util/report_manager.rs"), ("ReportManager::get_exhaustible_key", "util/report_manager.rs")],
  [("report_ids / report_id_to_internal_map", "mutually inverse maps", "util/report_manager.rs"), ("to_exhaustible_key_map", "dense key assignment", "util/report_manager.rs")],
  ["returned identifiers"], "rescan_verif")

p("C15", "Expressions sharing a match id must agree on SINGLEMATCH",
  "Across all expressions of one compilation, registering a match id succeeds exactly when the id is new or its first registration had the same SINGLEMATCH setting, and the first registration is never replaced. A conflict fails the compilation with an error carrying the index of the later expression and naming both expressions, and it changes nothing. The set of ids counts as globally exhaustible exactly while every successful registration was SINGLEMATCH.",
  ["histories", "inputs"], "all sequences of registrations of any length, all match ids, literal and non-literal expressions alike",
  "No test compiles two expressions.",
  ["util/report_manager.rs", "nfagraph/ng.rs", "lib.rs", "util/compile_error.rs"],
  [("ReportManager::register_ext_report", "util/report_manager.rs"), ("Ng::add_literal, Ng::add_graph", "nfagraph/ng.rs")],
  [("external_id_map", "first registration per match id", "util/report_manager.rs"), ("global_exhaust", "all registrations were SINGLEMATCH", "util/report_manager.rs")],
  ["registration result", "error text"], "rescan_verif")

p("C16", "The literal trie holds exactly the added literals with their reports",
  "After any sequence of insertions, walking the trie from its root along the bytes of an added literal ends at a node whose reports include the report it was added with, every node's reports are exactly those added for the byte string spelled by its path, and no other byte strings than prefixes of added literals are present. No node has two children for the same byte, and nodes already present keep their place and byte. Insertion tells exactly whether the trie is still within its size limit.",
  ["histories", "inputs"], "all tries reachable by insertion, all literals of any length, all report identifiers",
  "One literal is inserted by the one compile test, and the trie is not examined.",
  ["smallwrite/smallwrite_build.rs"],
  [("add_to_trie", "smallwrite/smallwrite_build.rs"), ("LitTrie::default", "smallwrite/smallwrite_build.rs")],
  [("LitTrie.inner", "rooted tree of byte-labelled nodes with report sets", "smallwrite/smallwrite_build.rs")],
  ["walking the trie"], "rescan_verif")

p("C17", "The small-write builder takes eligible literals and otherwise shuts off",
  "The small-write builder starts disabled exactly when small-write is not allowed or there are too many patterns. While enabled, a literal longer than the buffer limit is ignored, and any other literal is counted and added once, to the case-insensitive trie if it has any case-insensitive element and to the case-sensitive one otherwise; exceeding the literal limit or the trie size disables the builder. Once disabled it stays disabled and its tries and count never change.",
  ["histories", "configurations"], "all configurations, all sequences of literals and report identifiers",
  "One six-byte literal under the default configuration is added, and nothing is examined.",
  ["smallwrite/smallwrite_build.rs"],
  [("SmallWriteBuild::new", "smallwrite/smallwrite_build.rs"), ("SmallWriteBuild::add_literal", "smallwrite/smallwrite_build.rs")],
  [("poisoned, num_literals, lit_trie, lit_trie_nocase", "builder state", "smallwrite/smallwrite_build.rs")],
  ["builder state"], "rescan_verif")

p("C18", "Each class of a pattern becomes one NFA position with that class's bytes",
  "Building the automaton of a parse tree adds exactly one position per character class, in pattern order across groups and alternation branches, each reachable on exactly the bytes of its class, and adds no reports or assertion flags. The four special positions are distinct, both start positions accept every byte and both accept positions none, and a fresh graph is not vacuous. A graph counts as vacuous exactly when an edge leads from a start to an accept position, and its reports are exactly those of the positions leading to an accept position.",
  ["inputs"], "all parse trees of any size and depth",
  "No test builds a graph.",
  ["nfagraph/ng_holder.rs", "nfagraph/ng_builder.rs", "parser/component.rs", "parser/component_sequence.rs", "parser/component_alternation.rs", "parser/ascii_component_class.rs", "compiler.rs"],
  [("note_positions", "parser/component.rs"), ("NfaBuilder::{make_position,add_char_reach}", "nfagraph/ng_builder.rs"), ("NgHolder::{new,add_vertex,is_vacuous,all_reports}", "nfagraph/ng_holder.rs")],
  [("NgHolder.inner", "graph of positions", "nfagraph/ng_holder.rs")],
  ["vertices of the built graph"], "rescan_verif")

p("C19", "Batch compilation validates its arguments and blames the right expression",
  "Compiling a batch is refused when it is empty, when the numbers of expressions, flags and ids differ, or when there are more expressions than the limit; nothing else about the batch as a whole is an error. Otherwise the expressions are taken in order, each with its own flags and id, and compilation succeeds exactly when every one does; an expression longer than the length limit, or asking for quiet together with start-of-match reporting, is refused. The error returned is that of the first failing expression and carries its index.",
  ["inputs", "configurations"], "all batches of any size, all flag words, ids and limits",
  "One single-expression batch and the empty batch are compiled; no limit and no error index is tested.",
  ["lib.rs", "compiler.rs", "util/compile_error.rs"],
  [("compile_multi_int", "lib.rs"), ("add_expression, ParsedExpression::new", "compiler.rs"), ("CompileError::set_expression_index, Display", "util/compile_error.rs")],
  observe=["result and error text of compile and compile_multi"], hook="rescan_verif")

p("C20", "Flags and mode reach the parser, the expression and the engine unchanged",
  "Each implemented parse option (caseless, dot-all, multi-line, UTF-8, Unicode properties) and expression property (single-match, prefilter, quiet, UTF-8) is switched on exactly by its own flag (or, for UTF-8 and Unicode properties, also by its control verb), independently of all other flags. A database is streaming exactly for the stream and vectored modes, vectored exactly for the vectored mode, and start-of-match precision is 8, 4 or 2 bytes for the large, medium and small horizon, 8 for vectored and 0 otherwise. The compiled engine carries the mode asked for.",
  ["inputs", "configurations"], "all 65536 flag words and all modes",
  "Only empty flags and block mode are ever used.",
  ["lib.rs", "compiler.rs", "parser/parser_util.rs", "rose/rose_build.rs", "util/compile_context.rs"],
  [("Mode::{is_streaming,is_vectored,som_precision}", "lib.rs"), ("ParseMode::new", "parser/parser_util.rs"), ("ParsedExpression::new", "compiler.rs"), ("RoseBuild::build_final_engine", "rose/rose_build.rs")],
  observe=["parse mode, expression properties, engine mode"], hook="rescan_verif")

p("C21", "The runtime implementation matches the resources; block scanning is safe",
  "The engine is pure-literal exactly when it has floating literals and none of the outfix, suffix, leftfix, anchored, end-of-data, state, literal-delay or group-check resources, nor, in streaming mode, literal checks; in all other cases the full engine is chosen. Scanning with any compiled database, data and scratch space succeeds without panicking, and does not touch the data or the database.",
  ["inputs", "configurations"], "all 2^13 resource combinations in both modes; all databases and data",
  "No test selects an implementation or scans.",
  ["rose/rose_build_bytecode.rs", "runtime.rs"],
  [("is_pure_floating, is_single_outfix, pick_runtime_impl", "rose/rose_build_bytecode.rs"), ("scan", "runtime.rs")],
  observe=["chosen implementation", "scan result"], hook="rescan_verif")

p("C22", "Adding a literal is all or nothing and tracks the minimum width",
  "A literal is declined, with no change to any state, exactly when literal shortcuts are switched off or it mixes case-sensitive and case-insensitive letters. Otherwise, unless it is refused for a SINGLEMATCH conflict or the report limit, its report is registered under its id, it is offered to the small-write builder with its internal report identifier, and the minimum match width becomes the smaller of its previous value and the literal's length. The minimum width is thus at all times the least length of the literals added, infinite if none.",
  ["inputs", "histories", "configurations"], "all literals, all sequences of additions, all configurations",
  "One literal is added under the default configuration, and nothing is examined.",
  ["nfagraph/ng.rs", "util/report.rs"],
  [("Ng::add_literal", "nfagraph/ng.rs"), ("Ng::new", "nfagraph/ng.rs")],
  [("min_width, rm, smwr, rose", "state of the compilation", "nfagraph/ng.rs")],
  ["state of the compilation"], "rescan_verif")

p("C23", "Deeply nested patterns do not exhaust the stack",
  "Every pattern within the length limit compiles, or is refused, without overflowing the stack of an ordinary thread, however deeply its groups are nested.",
  ["inputs"], "all patterns up to the length limit",
  "No test nests groups.",
  ["parser/component.rs", "parser/component_sequence.rs"],
  [("recursive walk, position numbering and drop of the parse tree", "parser/component_sequence.rs")],
  observe=["process termination"])

p("C24", "Internal self-references never dangle",
  "While a compilation is in progress, the small-write builder's pointer to the report manager always refers to the live report manager of the same compilation, which is never moved.",
  ["histories"], "all compilations",
  "Undefined behaviour is not observable by the tests.",
  ["nfagraph/ng.rs", "smallwrite/smallwrite_build.rs", "compiler.rs"],
  [("Ng::new pins the structure before taking the pointer", "nfagraph/ng.rs")],
  observe=["memory safety"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
print(len(P), "properties")
