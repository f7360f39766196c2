"""What decides each property: Verus units, Kani harnesses, and the contracts of the native search."""

HOOK_NEEDS = {
    "ng": ["smallwrite_build", "report_manager", "compiler"],
    "compiler": ["ng_holder", "ng"],
}
UNITS = {}

BF = "util::bitfield::verif::proofs::"
CR = "util::charreach::verif::proofs::"


def both(*names):
    return [("bitfield", BF + n) for n in names] + [("charreach", CR + n) for n in names]


def s_both(*names):
    return ["rescan_verif_bitfield::" + n for n in names] + ["rescan_verif_charreach::" + n for n in names]


def cr(*names):
    return [("charreach", CR + n) for n in names]


def s_cr(*names):
    return ["rescan_verif_charreach::" + n for n in names]


def s_crn(*names):
    return ["rescan_verif_charreach_native::" + n for n in names]


ALGEBRA = ["default_is_empty", "set_adds_one", "reset_removes_one", "flip_toggles_one", "reset_all_empties", "set_all_fills",
           "flip_all_complements", "not_complements", "and_intersects", "or_unites", "xor_differs", "equality_is_extensional"]
WIDTHS = ["u8", "u16", "u32", "u64", "usize", "u128"]
ALIGN = ["%s_%s" % (f, w) for w in WIDTHS for f in ("up", "down", "fixed")]

# What the Verus unit "bits" takes from CharReach, discharged by Kani in the same check.
CR_BASE = cr("default_is_empty", "set_adds_one", "emptiness_and_fullness", "first_is_least", "next_is_least_above")
CASE = ["myisupper", "myislower", "mytolower", "mytoupper", "ourisalpha"]
UE2 = ["Ue2Literal::" + n for n in ("default", "len", "is_empty", "any_nocase", "push", "iter", "into_iter", "eq", "cmp", "partial_cmp")] + ["Ue2LiteralIter::next", "mytoupper"]
LIT = [n for n in UE2 if n.split("::")[1:] not in (["eq"], ["cmp"], ["partial_cmp"])]


ERR = ["CompileError::new"]
VERBS = ERR + ["control_verb", "read_control_verbs", "parse"]
CONTEXT = ["ExprState::new", "add_literal"] + ["Context::" + n for n in ("new", "push_sequence", "pop_sequence", "enter_capturing_group", "exit_group", "main", "parse")] + ["take_any", "parse"]
TREE = ["ParseMode::default", "ComponentAlternation::default", "ComponentSequence::default", "ComponentAlternation::append", "ComponentSequence::add_component",
        "ComponentSequence::add_alternation", "ComponentSequence::finalize", "Component::from@ComponentClass", "Component::from@ComponentSequence"]
CLASSES = ["AsciiComponentClass::new", "AsciiComponentClass::add", "get_component_class", "ComponentClass::add", "get_literal_component_class"]
DEPTH = ["Depth::" + n for n in ("infinity", "try_from@u32", "try_from@usize", "eq", "cmp", "partial_cmp")]
WALKERS = ["ConstructLiteralVisitor::" + n for n in ("default", "pre_ascii_component_class", "pre_component_sequence", "pre_component_alternation",
           "during_ascii_component_class", "during_component_alternation", "during_component_sequence", "post_ascii_component_class", "post_component_alternation",
           "post_component_sequence")] + ["walk_ascii_component_class", "walk_component_class", "walk_component_alternation", "walk_component_sequence", "walk_component"]
RM = ["CompileError::new", "CompileError::with_index", "ExternalReportInfo::new"] + ["ReportManager::" + n for n in ("new", "num_reports", "get_report", "get_internal_id", "get_exhaustible_key", "register_ext_report")]
ADD = ["Ng::new", "Ng::add_graph", "Ng::add_literal", "RoseBuild::add", "BoundaryReports::default", "make_e_callback", "make_som_relative_callback"]
MODE = ["Mode::is_streaming", "Mode::is_vectored", "Mode::som_precision", "CompileContext::new", "RoseBuild::build_final_engine", "RoseBuild::build_rose", "Database::new", "get_bytecode"]
IMPL = ["RoseResources::default", "BuildContext::default", "is_pure_floating", "is_single_outfix", "pick_runtime_impl", "RoseBuild::build_final_engine"]
SCAN = ["get_bytecode", "init_som_state", "rose_block_exec", "raw_block_exec", "pure_literal_block_exec", "single_outfix_block_exec", "scan"]
# The whole of the unit "nfa", of the unit "compile".
NFA = None
WHOLE = None
BATCH = ["ParseMode::new", "ParsedExpression::new", "prefilter_tree", "CompileError::set_expression_index", "add_expression", "generate_rose_engine", "db_create", "build",
         "Grey::default", "compile_multi_int", "compile", "compile_multi", "CompileError::fmt"]


def sets(bits, both=(), wrap=()):
    """Functions of the unit "sets": of BitField256 alone, of both byte-set types, of CharReach alone."""
    return ("sets", ["BitField256::" + n for n in tuple(bits) + tuple(both)] + ["CharReach::" + n for n in both] + ["CharReach::" + n for n in wrap])


WORDS = ("get_word", "mask_bit")
OPS = ("bitand", "bitor", "bitxor", "bitand_assign", "bitor_assign", "bitxor_assign", "not")
SETS_ALGEBRA = sets(WORDS, ("set", "reset", "flip", "test", "reset_all", "set_all", "flip_all") + OPS)
SETS_RANGE = sets(WORDS, ("set_range", "set", "test", "count", "none", "any", "all"), ("from_char", "from_range", "dot"))
SETS_RANGE = ("sets", SETS_RANGE[1] + ["round_up_n"])
SETS_FIND = sets(WORDS, ("find_first", "find_last", "find_next", "find_nth", "count", "test"))
ALIGNERS = ["round_up_16", "round_down_16", "round_up_n", "round_down_n", "round_up_cache_line"]


def join(*parts):
    v = [n for p in parts for n in (p[1] if isinstance(p, tuple) else p)]
    return ("sets", list(dict.fromkeys(v)))


# What the other units take from a byte set.
SETS_BASE = sets(WORDS, ("test", "set", "none", "find_first", "find_next"))
SETS_OPS = sets((), ("set_all", "bitor_assign"))
SETS_COUNT = sets((), ("count",))


def uniq(v):
    return list(dict.fromkeys(v))


PROPS = {
    "C01": {"verus": [SETS_ALGEBRA], "kani": both(*ALGEBRA), "search": s_both(*ALGEBRA), "search_s": 3},
    "C02": {
        "kani": both("set_range_exact", "count_is_cardinality", "emptiness_and_fullness")
        + [("bitfield", "util::bitfield::verif::set_range_reversed_panics"), ("charreach", "util::charreach::verif::set_range_reversed_panics")]
        + cr("from_char_is_singleton", "from_range_exact", "dot_is_universal", "default_is_empty", "set_adds_one"),
        "search": s_both("set_range_exact", "count_is_cardinality", "emptiness_and_fullness")
        + s_cr("from_char_is_singleton", "from_range_exact", "dot_is_universal", "bytes_exact") + s_crn("set_range_reversed"),
        "search_s": 4,
        "verus": [("bits", ["CharReach::set_bytes", "CharReach::from_bytes"]), SETS_RANGE],
    },
    "C03": {
        "verus": [("bits", ["CharReach::fmt"]), SETS_FIND],
        "kani": both("first_is_least", "last_is_greatest", "next_is_least_above"),
        "search": s_both("first_is_least", "last_is_greatest", "next_is_least_above", "nth_has_n_smaller")
        + s_crn("display_lists_members"),
        "search_s": 5,
    },
    "C04": {"verus": [("lit", ["CharReach::is_caseless_char"]), join(SETS_BASE, SETS_COUNT, ["myisupper", "myislower", "mytolower", "mytoupper", "ourisalpha", "make_caseless"])], "kani": cr("case_maps", "caseless_closure", "caseless_pair", "count_is_cardinality") + CR_BASE,
            "search": s_cr("case_maps", "caseless_closure", "caseless_pair"), "search_s": 5},
    "C05": {"verus": [("bits", CASE + ["CharReach::is_alphabetic", "CharReach::is_bit5_insensitive"]),
                      join(SETS_BASE, sets((), ("bitand", "bitand_assign", "not", "any", "set_range"), ("from_range", "is_subset_of", "overlaps", "is_ascii", "is_utf8_start")), ["round_up_n"])],
            "kani": cr("subset_and_overlap", "ascii_and_utf8_start") + CR_BASE,
            "search": s_cr("subset_and_overlap", "ascii_and_utf8_start", "alphabetic_few", "bit5_few") + s_crn("alphabetic_native", "bit5_native"),
            "search_s": 5},
    "C06": {"verus": [("bits", ["fill_bitvector", "make_and_cmp_mask"]), SETS_BASE], "kani": CR_BASE,
            "search": s_cr("masks_few", "bitvector_few") + s_crn("masks_native", "bitvector_native"), "search_s": 5},
    "C07": {"verus": [("align_" + w, ALIGNERS) for w in WIDTHS], "kani": [("ue2common", "util::ue2common::verif::proofs::" + n) for n in ALIGN],
            "search": ["rescan_verif_ue2common::" + n for n in ALIGN], "search_s": 3},
    "C08": {"verus": [("depth", DEPTH)], "kani": [("depth", "util::depth::verif::proofs::" + n) for n in ("conversion_domain", "ordering", "infinity_is_top")],
            "search": ["rescan_verif_depth::" + n for n in ("conversion_domain", "ordering", "infinity_is_top")], "search_s": 4},
    "C09": {"verus": [("str", UE2 + ["mixed_sensitivity"])], "kani": [], "search": ["rescan_verif_ue2string::" + n for n in ("literal_contents", "literal_comparison", "mixed")],
            "search_s": 6},
    "C10": {"verus": [("parse", VERBS + CONTEXT[:-1] + TREE + CLASSES)], "kani": [], "search": ["rescan_verif_parser::parse_accepts"], "search_s": 8},
    "C11": {"verus": [("parse", CONTEXT + TREE + CLASSES), join(SETS_BASE, SETS_OPS, ["CharReach::from_char", "make_caseless", "mytolower"])], "kani": cr("default_is_empty", "from_char_is_singleton", "caseless_closure", "or_unites"),
            "search": ["rescan_verif_parser::parse_tree", "rescan_verif_parser::literal_class"], "search_s": 8},
    "C12": {"verus": [("parse", VERBS)], "kani": [], "search": ["rescan_verif_parser::control_verbs", "rescan_verif_parser::verb_through_parse"], "search_s": 8},
    "C13": {"verus": [("ng", LIT + WALKERS + ["CharReach::is_caseless_char", "shortcut_literal"]), join(SETS_BASE, SETS_COUNT)], "kani": cr("count_is_cardinality", "equality_is_extensional") + CR_BASE,
            "search": ["rescan_verif_shortcut_literal::literal_of_tree", "rescan_verif_compiler::expression_history"], "search_s": 8},
    "C14": {"verus": [("rm", ["ReportManager::new", "ReportManager::num_reports", "ReportManager::get_report", "ReportManager::get_internal_id",
                              "ReportManager::get_exhaustible_key"])],
            "kani": [], "search": ["rescan_verif_report_manager::internal_ids", "rescan_verif_report_manager::internal_ids_many"], "search_s": 8},
    "C15": {"verus": [("rm", ["CompileError::new", "CompileError::with_index", "ExternalReportInfo::new", "ReportManager::new", "ReportManager::register_ext_report"]),
                      ("compile", ADD[:3] + BATCH)],
            "kani": [], "search": ["rescan_verif_report_manager::singlematch", "rescan_verif_ng::add_graph_registers", "rescan_verif_ng::add_literal_history"], "search_s": 6},
    "C16": {"verus": [("sw", LIT + ["LitTrieVertexProps::with_byte", "LitTrieVertexProps::default", "LitTrie::default", "LitTrie::is_empty", "add_to_trie"])],
            "kani": [], "search": ["rescan_verif_smallwrite::trie_history", "rescan_verif_smallwrite::trie_wide", "rescan_verif_smallwrite::trie_limit"], "search_s": 8},
    "C17": {"verus": [("sw", LIT + ["LitTrie::default", "SmallWriteBuild::new", "SmallWriteBuild::add_literal"])],
            "kani": [], "search": ["rescan_verif_smallwrite::builder_history", "rescan_verif_smallwrite::builder_many", "rescan_verif_smallwrite::builder_trie_limit"], "search_s": 8},
    "C18": {"verus": [("nfa", NFA), join(SETS_BASE, SETS_OPS)], "kani": CR_BASE + cr("or_unites", "set_all_fills"),
            "search": ["rescan_verif_ng_holder::fresh", "rescan_verif_ng_holder::queries", "rescan_verif_compiler::positions_of_tree"], "search_s": 8},
    "C19": {"verus": [("compile", WHOLE)], "kani": [],
            "search": ["rescan_verif_lib::batch", "rescan_verif_lib::single", "rescan_verif_lib::middle_batch", "rescan_verif_lib::large_batch"], "search_s": 8},
    "C20": {"verus": [("compile", MODE + BATCH + VERBS)],
            "kani": [("lib", "verif::proofs::mode_queries"), ("lib", "verif::proofs::parse_mode_flags"),
                     ("rose_build_bytecode", "rose::rose_build_bytecode::verif::proofs::engine_carries_mode")],
            "search": ["rescan_verif_lib::mode_queries", "rescan_verif_lib::parse_mode_flags", "rescan_verif_rose::engine_carries_mode",
                       "rescan_verif_compiler::expression_flags", "rescan_verif_compiler::expression_verbs"],
            "search_s": 5},
    "C21": {"verus": [("rose", IMPL + SCAN)],
            "kani": [("rose_build_bytecode", "rose::rose_build_bytecode::verif::proofs::" + n)
                     for n in ("implementation_matches_resources", "scan_is_safe")],
            "search": ["rescan_verif_rose::implementation_matches_resources", "rescan_verif_rose::scan_is_safe"], "search_s": 5},
    "C22": {"verus": [("ng", RM + LIT + ["mixed_sensitivity", "LitTrie::default", "SmallWriteBuild::new", "SmallWriteBuild::add_literal"] + DEPTH + ADD)],
            "kani": [], "search": ["rescan_verif_ng::add_literal_history", "rescan_verif_ng::literal_widths", "rescan_verif_compiler::expression_history"], "search_s": 8},
    "C24": {"verus": [("ng", ["SmallWriteBuild::new", "SmallWriteBuild::add_literal", "Ng::new", "Ng::add_graph", "Ng::add_literal", "shortcut_literal"]),
                      ("compile", ["add_expression", "build", "generate_rose_engine", "compile_multi_int"])],
            "kani": [("ng", "nfagraph::ng::verif_place::proofs::new_refers_to_its_manager")],
            "search": ["rescan_verif_ng_place::new_refers_to_its_manager", "rescan_verif_ng_place::manager_stays", "rescan_verif_compiler::manager_stays"],
            "search_s": 6,
            "assumptions": ["Pin and the type system keep a Pin<Box<Ng>> where it is; what the code does to it through get_unchecked_mut is covered by the frames (proved) and the histories (bounded)",
                            "the Kani harness replaces RandomState::new (keys of a hash map, from the operating system) by arbitrary keys"]},
}

# Contracts of libraries that the proofs of a property take as given: run on the libraries themselves, bounded; the functions
# on words and characters over their whole domain, by Kani.
DEPS = {"C09": ["dep_bitvec", "dep_order"], "C10": ["dep_text"], "C11": ["dep_text"], "C12": ["dep_text"], "C13": ["dep_bitvec"],
        "C14": ["dep_maps"], "C15": ["dep_maps"], "C16": ["dep_graph", "dep_maps"], "C17": ["dep_graph", "dep_maps"],
        "C18": ["dep_graph", "dep_maps"], "C19": ["dep_text", "dep_maps"], "C22": ["dep_graph", "dep_maps", "dep_bitvec"]}
for _p, _names in DEPS.items():
    PROPS[_p]["search"] = PROPS[_p]["search"] + ["rescan_verif_deps::" + n for n in _names]
DEPS_KANI = {"C02": ["dep_words"], "C03": ["dep_words"], "C04": ["dep_words", "dep_ascii"], "C09": ["dep_orderings"], "C13": ["dep_words"],
             "C20": ["dep_ascii", "dep_orderings"]}
for _p, _names in DEPS_KANI.items():
    PROPS[_p]["kani"] = PROPS[_p]["kani"] + [("bitfield", "util::bitfield::verif_deps::numbers::proofs::" + n) for n in _names]
    PROPS[_p]["search"] = PROPS[_p]["search"] + ["rescan_verif_deps_numbers::" + n for n in _names]
# Verus units about the source of a library, as linked: what they prove of the contracts the other units state on its type.
LIBS = {"bitvec": ("bit-vec", ["BitVec"], ["default", "len", "is_empty", "any", "none", "get", "push", "set", "eq", "cmp"]),
        "petgraph": ("petgraph", ["Graph", "Neighbors"], ["default", "new", "add_node", "add_edge", "node_count", "edge_count", "index", "index_mut",
                     "node_weight", "node_weight_mut", "find_edge", "neighbors_directed", "next"])}
for _p, _u in (("C04", ["bitvec"]), ("C09", ["bitvec"]), ("C13", ["bitvec"]), ("C16", ["petgraph"]), ("C17", ["petgraph"]),
               ("C18", ["petgraph"]), ("C22", ["bitvec", "petgraph"])):
    PROPS[_p]["libs"] = _u
# What these discharge of the assumptions listed by the Verus stage.
DISCHARGED = {"u64::count_ones": "dep_words", "core::mem::take": "dep_orderings", "core::mem::replace": "dep_orderings"}
for _t in ("u8", "char"):
    for _f in ("is_ascii", "is_ascii_uppercase", "is_ascii_lowercase", "is_ascii_alphabetic", "is_ascii_digit", "is_ascii_alphanumeric",
               "to_ascii_uppercase", "to_ascii_lowercase", "eq_ignore_ascii_case"):
        DISCHARGED["%s::%s" % (_t, _f)] = "dep_ascii"
DISCHARGED.update({"u8::is_power_of_two": "dep_ascii", "u8::abs_diff": "dep_orderings"})
for _f in ("then", "is_eq", "is_ne", "is_lt", "is_gt", "is_le", "is_ge", "reverse"):
    DISCHARGED["core::cmp::Ordering::" + _f] = "dep_orderings"

# Functions whose contract Kani decides over their whole domain, in place: when Verus refuses such a contract, these harnesses
# are what tells a proof that no longer fits the text from a broken contract.
WHOLE_DOMAIN = {}


def _whole():
    per = {"set": "set_adds_one", "reset": "reset_removes_one", "flip": "flip_toggles_one", "reset_all": "reset_all_empties",
           "set_all": "set_all_fills", "flip_all": "flip_all_complements", "not": "not_complements", "bitand": "and_intersects",
           "bitand_assign": "and_intersects", "bitor": "or_unites", "bitor_assign": "or_unites", "bitxor": "xor_differs",
           "bitxor_assign": "xor_differs", "set_range": "set_range_exact", "count": "count_is_cardinality",
           "none": "emptiness_and_fullness", "any": "emptiness_and_fullness", "all": "emptiness_and_fullness",
           "find_first": "first_is_least", "find_last": "last_is_greatest", "find_next": "next_is_least_above"}
    for f, h in per.items():
        WHOLE_DOMAIN["BitField256::" + f] = [("bitfield", BF + h)]
        WHOLE_DOMAIN["CharReach::" + f] = cr(h)
    for f, h in (("from_char", "from_char_is_singleton"), ("from_range", "from_range_exact"), ("dot", "dot_is_universal"),
                 ("is_caseless_char", "caseless_pair"), ("is_subset_of", "subset_and_overlap"), ("overlaps", "subset_and_overlap"),
                 ("is_ascii", "ascii_and_utf8_start"), ("is_utf8_start", "ascii_and_utf8_start")):
        WHOLE_DOMAIN["CharReach::" + f] = cr(h)
    WHOLE_DOMAIN["make_caseless"] = cr("caseless_closure")
    for f in ("mytolower", "mytoupper", "ourisalpha"):
        WHOLE_DOMAIN[f] = cr("case_maps")
    # A depth is observed through comparison only: all three together.
    for f in ("infinity", "try_from@u32", "try_from@usize", "eq", "cmp", "partial_cmp"):
        WHOLE_DOMAIN["Depth::" + f] = [("depth", "util::depth::verif::proofs::" + h) for h in ("conversion_domain", "ordering", "infinity_is_top")]
    for f in ("is_pure_floating", "pick_runtime_impl"):
        WHOLE_DOMAIN[f] = [("rose_build_bytecode", "rose::rose_build_bytecode::verif::proofs::implementation_matches_resources")]
    for f in ("is_streaming", "is_vectored", "som_precision"):
        WHOLE_DOMAIN["Mode::" + f] = [("lib", "verif::proofs::mode_queries")]
    for w in WIDTHS:
        for f, h in (("round_up_n", "up"), ("round_down_n", "down"), ("round_up_16", "fixed"), ("round_down_16", "fixed"),
                     ("round_up_cache_line", "fixed")):
            WHOLE_DOMAIN["align_%s::%s" % (w, f)] = [("ue2common", "util::ue2common::verif::proofs::%s_%s" % (h, w))]
    WHOLE_DOMAIN["sets::round_up_n"] = WHOLE_DOMAIN["align_usize::round_up_n"]


_whole()
