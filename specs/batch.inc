@flags lib.rs Flags
@raw
pub open spec fn has(f: Flags, g: Flags) -> bool { f.bits & g.bits == g.bits }
/// Masking one flag out leaves the others as they are.
pub proof fn others_stay(f: u16, all: u16, q: u16, g: u16)
    requires g & q == 0, g & all == g
    ensures
        ((f & (all & !q)) & g == g) == (f & g == g), ((f & !q) & g == g) == (f & g == g), (((f & !q) & all) & g == g) == (f & g == g),
        (((f & all) & !q) & g == g) == (f & g == g), ((f ^ (f & q)) & g == g) == (f & g == g), ((f ^ q) & g == g) == (f & g == g),
        ((f | q) & g == g) == (f & g == g), (((f | q) & !q) & g == g) == (f & g == g), (((f | q) ^ q) & g == g) == (f & g == g),
        ((f & g) & g == g) == (f & g == g),
{
    assert(g & q == 0 && g & all == g ==> {
        &&& ((f & (all & !q)) & g == g) == (f & g == g) &&& ((f & !q) & g == g) == (f & g == g) &&& (((f & !q) & all) & g == g) == (f & g == g)
        &&& (((f & all) & !q) & g == g) == (f & g == g) &&& ((f ^ (f & q)) & g == g) == (f & g == g) &&& ((f ^ q) & g == g) == (f & g == g)
        &&& ((f | q) & g == g) == (f & g == g) &&& (((f | q) & !q) & g == g) == (f & g == g) &&& (((f | q) ^ q) & g == g) == (f & g == g)
        &&& ((f & g) & g == g) == (f & g == g)
    }) by (bit_vector);
}
pub proof fn both_flags(f: u16, a: u16, b: u16)
    ensures (f & (a | b) == a | b) == (f & a == a && f & b == b)
{ assert((f & (a | b) == a | b) == (f & a == a && f & b == b)) by (bit_vector); }
/// C20: every option and property has a flag of its own.
pub proof fn flags_differ()
    ensures
        Flags::CASELESS.bits & Flags::QUIET.bits == 0, Flags::CASELESS.bits & Flags::ALL_BITS == Flags::CASELESS.bits,
        Flags::DOTALL.bits & Flags::QUIET.bits == 0, Flags::DOTALL.bits & Flags::ALL_BITS == Flags::DOTALL.bits,
        Flags::MULTILINE.bits & Flags::QUIET.bits == 0, Flags::MULTILINE.bits & Flags::ALL_BITS == Flags::MULTILINE.bits,
        Flags::UTF8.bits & Flags::QUIET.bits == 0, Flags::UTF8.bits & Flags::ALL_BITS == Flags::UTF8.bits,
        Flags::SINGLEMATCH.bits & Flags::QUIET.bits == 0, Flags::SINGLEMATCH.bits & Flags::ALL_BITS == Flags::SINGLEMATCH.bits,
        Flags::PREFILTER.bits & Flags::QUIET.bits == 0, Flags::PREFILTER.bits & Flags::ALL_BITS == Flags::PREFILTER.bits,
        Flags::SOM_LEFTMOST.bits & Flags::QUIET.bits == 0, Flags::SOM_LEFTMOST.bits & Flags::ALL_BITS == Flags::SOM_LEFTMOST.bits,
        Flags::UCP.bits & Flags::QUIET.bits == 0, Flags::UCP.bits & Flags::ALL_BITS == Flags::UCP.bits,
        separate(Flags::CASELESS.bits, Flags::DOTALL.bits | Flags::MULTILINE.bits | Flags::SINGLEMATCH.bits | Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits),
        separate(Flags::DOTALL.bits, Flags::MULTILINE.bits | Flags::SINGLEMATCH.bits | Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits),
        separate(Flags::MULTILINE.bits, Flags::SINGLEMATCH.bits | Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits),
        separate(Flags::SINGLEMATCH.bits, Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits),
        separate(Flags::UTF8.bits, Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits),
        separate(Flags::UCP.bits, Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits),
        separate(Flags::PREFILTER.bits, Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits),
        separate(Flags::SOM_LEFTMOST.bits, Flags::QUIET.bits), Flags::QUIET.bits != 0,
{
    assert(Flags::CASELESS.bits & Flags::QUIET.bits == 0 && Flags::CASELESS.bits & Flags::ALL_BITS == Flags::CASELESS.bits) by (compute);
    assert(Flags::DOTALL.bits & Flags::QUIET.bits == 0 && Flags::DOTALL.bits & Flags::ALL_BITS == Flags::DOTALL.bits) by (compute);
    assert(Flags::MULTILINE.bits & Flags::QUIET.bits == 0 && Flags::MULTILINE.bits & Flags::ALL_BITS == Flags::MULTILINE.bits) by (compute);
    assert(Flags::UTF8.bits & Flags::QUIET.bits == 0 && Flags::UTF8.bits & Flags::ALL_BITS == Flags::UTF8.bits) by (compute);
    assert(Flags::SINGLEMATCH.bits & Flags::QUIET.bits == 0 && Flags::SINGLEMATCH.bits & Flags::ALL_BITS == Flags::SINGLEMATCH.bits) by (compute);
    assert(Flags::PREFILTER.bits & Flags::QUIET.bits == 0 && Flags::PREFILTER.bits & Flags::ALL_BITS == Flags::PREFILTER.bits) by (compute);
    assert(Flags::SOM_LEFTMOST.bits & Flags::QUIET.bits == 0 && Flags::SOM_LEFTMOST.bits & Flags::ALL_BITS == Flags::SOM_LEFTMOST.bits) by (compute);
    assert(Flags::UCP.bits & Flags::QUIET.bits == 0 && Flags::UCP.bits & Flags::ALL_BITS == Flags::UCP.bits) by (compute);
    assert(separate(Flags::CASELESS.bits, Flags::DOTALL.bits | Flags::MULTILINE.bits | Flags::SINGLEMATCH.bits | Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits)) by (compute);
    assert(separate(Flags::DOTALL.bits, Flags::MULTILINE.bits | Flags::SINGLEMATCH.bits | Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits)) by (compute);
    assert(separate(Flags::MULTILINE.bits, Flags::SINGLEMATCH.bits | Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits)) by (compute);
    assert(separate(Flags::SINGLEMATCH.bits, Flags::UTF8.bits | Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits)) by (compute);
    assert(separate(Flags::UTF8.bits, Flags::UCP.bits | Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits)) by (compute);
    assert(separate(Flags::UCP.bits, Flags::PREFILTER.bits | Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits)) by (compute);
    assert(separate(Flags::PREFILTER.bits, Flags::SOM_LEFTMOST.bits | Flags::QUIET.bits)) by (compute);
    assert(separate(Flags::SOM_LEFTMOST.bits, Flags::QUIET.bits)) by (compute);
    assert(Flags::QUIET.bits != 0) by (compute);
}
pub open spec fn separate(a: u16, b: u16) -> bool { a != 0 && a & b == 0 }
/// C20: what the parser is asked for.
pub open spec fn mode_of(f: Flags) -> ParseMode {
    ParseMode { caseless: has(f, Flags::CASELESS), dotall: has(f, Flags::DOTALL), ignore_space: false, multiline: has(f, Flags::MULTILINE), ucp: has(f, Flags::UCP), utf8: has(f, Flags::UTF8) }
}
/// C20: the properties of an expression parsed in the given mode.
pub open spec fn info_of(e: ExpressionInfo, index: usize, id: ReportId, f: Flags, m: ParseMode) -> bool {
    &&& e.index == index && e.report == id && e.som is None
    &&& e.highlander == has(f, Flags::SINGLEMATCH) && e.prefilter == has(f, Flags::PREFILTER) && e.quiet == has(f, Flags::QUIET) && e.utf8 == m.utf8
}
/// C19: not compiled, whatever else is in the batch.
pub open spec fn badly_asked(f: Flags) -> bool { has(f, Flags::QUIET) && has(f, Flags::SOM_LEFTMOST) }
pub open spec fn malformed(s: Seq<char>) -> bool { (has_verb(s) && !ucp_verb(verb_name(s)) && !utf8_verb(verb_name(s))) || !(outcome(s, verb_end(s), seq![]) is Fine) }
pub open spec fn refused_alone(g: Grey, s: Seq<char>, f: Flags) -> bool { ulen(s) > g.limit_pattern_length || badly_asked(f) || malformed(s) }
pub mod vx_sizes { use super::*;
// Trees are no larger than their text.
pub proof fn group_finished(s: ComponentSequence)
    requires good_group(s) || good_branch(s)
    ensures seq_finished(s, s.children@.len())
    decreases s, s.children@.len() + 1
{
    let n = s.children@.len();
    if good_items(s, n) { items_finished(s, n); } else {
        let a = s.children@[0]->Alternation_0;
        assert(decreases_to!(s.children => s.children[0]));
        branches_finished(a, a.children@.len());
        assert(finished(s.children@[0]));
        assert(seq_finished(s, 0));
    }
}
pub proof fn items_finished(s: ComponentSequence, n: nat)
    requires good_items(s, n), n <= s.children@.len(), s.alternation is None
    ensures seq_finished(s, n)
    decreases s, n
{
    if n > 0 {
        items_finished(s, (n - 1) as nat);
        assert(decreases_to!(s.children => s.children[n - 1]));
        assert(good_item(s.children@[n - 1]));
        match s.children@[n - 1] { Component::Sequence(t) => { group_finished(t); } Component::Class(_) => { } Component::Alternation(_) => { } }
        assert(finished(s.children@[n - 1]));
    }
}
pub proof fn branches_finished(a: ComponentAlternation, n: nat)
    requires good_branches(a, n), n <= a.children@.len()
    ensures alt_finished(a, n)
    decreases a, n
{
    if n > 0 {
        branches_finished(a, (n - 1) as nat);
        assert(decreases_to!(a.children => a.children[n - 1]));
        group_finished(a.children@[n - 1]);
    }
}
pub proof fn small(c: Component)
    ensures classes(c).len() <= text(c).len(), spelled(c) matches Some(e) ==> e.len() <= text(c).len()
    decreases c
{
    match c {
        Component::Class(ComponentClass::Ascii(a)) => { }
        Component::Sequence(s) => { seq_small(s, s.children@.len()); }
        Component::Alternation(a) => { alt_small(a, a.children@.len()); }
    }
}
pub proof fn seq_small(s: ComponentSequence, n: nat)
    ensures seq_classes(s, n).len() <= seq_text(s, n).len(), seq_spelled(s, n) matches Some(e) ==> e.len() <= seq_text(s, n).len()
    decreases s, n
{
    if 0 < n <= s.children@.len() {
        seq_small(s, (n - 1) as nat);
        assert(decreases_to!(s.children => s.children[n - 1]));
        small(s.children@[n - 1]);
    }
}
pub proof fn alt_small(a: ComponentAlternation, n: nat)
    ensures alt_classes(a, n).len() <= alt_text(a, n).len()
    decreases a, n
{
    if 0 < n <= a.children@.len() {
        alt_small(a, (n - 1) as nat);
        assert(decreases_to!(a.children => a.children[n - 1]));
        seq_small(a.children@[n - 1], a.children@[n - 1].children@.len());
        assert(branch_text(a, 0) == seq_text(a.children@[0], a.children@[0].children@.len()));
    }
}
/// A finished tree stands for no more than its pattern has characters.
pub broadcast proof fn parsed_fits(s: Seq<char>, i: int, nocase: bool, t: ComponentSequence)
    requires #[trigger] parsed(s, i, nocase, Ok(t)), 0 <= i <= s.len()
    ensures fits(Component::Sequence(t), s)
{
    let n = t.children@.len();
    group_finished(t);
    seq_small(t, n);
    ulen_at_least(s);
    assert(text(Component::Sequence(t)).len() == seq_text(t, n).len() + 2);
}
}
/// The tree is complete and no larger than its pattern.
pub open spec fn fits(c: Component, s: Seq<char>) -> bool {
    finished(c) && classes(c).len() <= ulen(s) && (spelled(c) matches Some(e) ==> e.len() <= ulen(s))
}
@end
@fn parser/parser_util.rs ParseMode::new
ensures r == mode_of(flags)
@end
@fn compiler.rs ParsedExpression::new
requires ulen(expression@) < u32::MAX
ensures
    match r {
        Ok(p) => {
            &&& !badly_asked(flags) && !malformed(expression@)
            &&& verb_mode(expression@, mode_of(flags)) matches Some(m) && info_of(p.expr, index, id, flags, m)
                && (p.component matches Component::Sequence(t) && parsed(expression@, verb_end(expression@), m.caseless, Ok(t)))
        },
        Err(e) => (badly_asked(flags) || malformed(expression@)) && e.index is None,
    }
@at entry
proof {
    flags_differ();
    both_flags(flags.bits, Flags::QUIET.bits, Flags::SOM_LEFTMOST.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::CASELESS.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::DOTALL.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::MULTILINE.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::UTF8.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::SINGLEMATCH.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::PREFILTER.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::SOM_LEFTMOST.bits);
    others_stay(flags.bits, Flags::ALL_BITS, Flags::QUIET.bits, Flags::UCP.bits);
}
@end
@fn parser/prefilter.rs prefilter_tree
@end
@fn util/compile_error.rs CompileError::set_expression_index
requires old(self).index is None || old(self).index == Some(index)
ensures final(self).index == Some(index), final(self).kind == old(self).kind, final(self).reason == old(self).reason
@closure 0 option_map_or
@end
@raw
/// What a batch has left of the compilation after i expressions.
pub open spec fn kept(b: SmallWriteBuild) -> bool { b.poisoned || (size(b.lit_trie) <= 8000 && size(b.lit_trie_nocase) <= 8000) }
pub open spec fn same_env(o: Ng, n: Ng) -> bool { n.inv() && n.cc == o.cc && n.rm.grey == o.rm.grey && n.rose.cc == o.rose.cc }
pub open spec fn step(o: Ng, n: Ng) -> bool {
    &&& same_env(o, n)
    &&& n.rm.same_reports(&o.rm) || (n.rm.report_ids@ == o.rm.report_ids@.push(callback()) && !o.rm.report_id_to_internal_map@.contains_key(callback()))
    &&& n.rm.to_exhaustible_key_map@.len() <= o.rm.to_exhaustible_key_map@.len() + 1
    &&& n.smwr.num_literals <= o.smwr.num_literals + 1
    &&& kept(o.smwr) ==> kept(n.smwr)
    // C24
    &&& n.smwr.rm == o.smwr.rm
}
/// C15, C19: what adding an expression does.
pub open spec fn expression_added(o: Ng, n: Ng, index: usize, s: Seq<char>, f: Flags, id: ReportId, r: Result<(), CompileError>) -> bool {
    if refused_alone(o.cc.grey, s, f) { r is Err && (r->Err_0).index is None && n == o }
    else if o.conflict(id, has(f, Flags::SINGLEMATCH)) { r is Err && blames(o.rm, r->Err_0, id, index as int) && same_rm(o.rm, n.rm) && n.same_but_rm(&o) && n.rose == o.rose }
    else {
        &&& registered(o.rm, n.rm, id, index as int, has(f, Flags::SINGLEMATCH))
        // Only the limit on reports is left.
        &&& r is Err ==> (r->Err_0).index is None && (r->Err_0).kind is ResourceLimit && o.rm.report_ids@.len() >= o.rm.grey.limit_report_count && !o.rm.report_id_to_internal_map@.contains_key(callback())
    }
}
@end
@global Pin<&mut Ng> ==> &mut Ng
@global = ng.as_mut(); ==> = &mut **ng;
@global inner.get_unchecked_mut() ==> inner
@fn compiler.rs add_expression
requires
    old(ng).inv(), old(ng).rm_room(), kept(old(ng).smwr), old(ng).smwr.num_literals < usize::MAX, old(ng).rm.grey == &old(ng).cc.grey, old(ng).rose.cc == old(ng).cc, index <= u32::MAX,
    // Fewer than 2^31 - 1 bytes, or refused for their number.
    ulen(expression@) <= old(ng).cc.grey.limit_pattern_length ==> ulen(expression@) < 0x7fff_ffff,
ensures
    step(**old(ng), **final(ng)), expression_added(**old(ng), **final(ng), index, expression@, flags, id, r),
@at entry
broadcast use vx_sizes::parsed_fits;
@end
@raw
pub open spec fn db_of(db: Database, cc: CompileContext) -> bool { engine_mode(db.rose, cc) && db.rose.runtime_impl is FullRose }
@end
@fn compiler.rs generate_rose_engine
requires ng.rose.cc == ng.cc
ensures engine_mode(r, *ng.cc), r.runtime_impl is FullRose
@end
@fn compiler.rs db_create
ensures r.rose == rose
@end
@fn compiler.rs build
requires ng.rose.cc == ng.cc
ensures db_of(r, *ng.cc)
@end
@fn grey.rs Grey::default
ensures r.limit_report_count > 0 && r.limit_pattern_length < 0x7fff_ffff && r.limit_pattern_count < u32::MAX
@end
@raw
// Batches.
pub open spec fn clash(flags: Seq<Flags>, ids: Seq<ReportId>, j: int, k: int) -> bool { ids[j] == ids[k] && has(flags[j], Flags::SINGLEMATCH) != has(flags[k], Flags::SINGLEMATCH) }
/// C19: the k-th expression is one that fails, those before it having been taken.
pub open spec fn fails(g: Grey, ex: Seq<VxStr>, flags: Seq<Flags>, ids: Seq<ReportId>, k: int) -> bool {
    refused_alone(g, ex[k]@, flags[k]) || exists|j: int| 0 <= j < k && #[trigger] clash(flags, ids, j, k)
}
pub open spec fn refused_batch(g: Grey, ex: Seq<VxStr>, flags: Seq<Flags>, ids: Seq<ReportId>) -> bool {
    ex.len() == 0 || flags.len() != ex.len() || ids.len() != ex.len() || ex.len() > g.limit_pattern_count
}
pub open spec fn mode_kept(m: Mode, db: Database) -> bool {
    match m { Mode::Block => db.rose.mode is Block, Mode::Stream(_) => db.rose.mode is Stream, Mode::Vectored => db.rose.mode is Vectored }
}
pub open spec fn compiled(g: Grey, ex: Seq<VxStr>, flags: Seq<Flags>, ids: Seq<ReportId>, m: Mode, r: Result<Database, CompileError>) -> bool {
    if refused_batch(g, ex, flags, ids) { r is Err && (r->Err_0).index is None }
    else {
        match r {
            Ok(db) => mode_kept(m, db) && db.rose.runtime_impl is FullRose && forall|k: int| 0 <= k < ex.len() ==> !#[trigger] fails(g, ex, flags, ids, k),
            Err(e) => e.index matches Some(k) && k < ex.len() && fails(g, ex, flags, ids, k as int) && forall|j: int| 0 <= j < k ==> !#[trigger] fails(g, ex, flags, ids, j),
        }
    }
}
/// What is known of the ids registered by the first n expressions.
pub open spec fn ids_known(m: Map<ReportId, ExternalReportInfo>, flags: Seq<Flags>, ids: Seq<ReportId>, n: int) -> bool {
    &&& forall|k: ReportId| #[trigger] m.contains_key(k) ==> exists|j: int| 0 <= j < n && #[trigger] ids[j] == k
    &&& forall|j: int| 0 <= j < n ==> m.contains_key(#[trigger] ids[j]) && m[ids[j]].highlander == has(flags[j], Flags::SINGLEMATCH)
}
// Limits as they are set: the numbers of the parser and of the compilation do not overflow.
pub open spec fn usual(g: Grey) -> bool { g.limit_report_count > 0 && g.limit_pattern_length < 0x7fff_ffff && g.limit_pattern_count < u32::MAX }
@end
@global exp, fl, id ==> *exp, fl, id
@global build(&ng) ==> build(&*ng)
@fn lib.rs compile_multi_int
requires usual(*g)
ensures compiled(*g, expressions@, flags@, ids@, *mode, r)
@loop 0 izip
invariant
    usual(*g), !refused_batch(*g, expressions@, flags@, ids@), vx_i0 <= expressions@.len(),
    ng.inv(), ng.cc == &cc, ng.rm.grey == &ng.cc.grey, ng.rose.cc == ng.cc, cc.grey == *g, kept(ng.smwr), ng.smwr.num_literals <= vx_i0,
    ng.rm.report_ids@.len() <= 1, ng.rm.report_ids@.len() == 1 ==> ng.rm.report_ids@[0] == callback(), ng.rm.to_exhaustible_key_map@.len() <= vx_i0,
    ids_known(ng.rm.external_id_map@, flags@, ids@, vx_i0 as int),
    forall|k: int| 0 <= k < vx_i0 ==> !#[trigger] fails(*g, expressions@, flags@, ids@, k),
decreases expressions@.len() - vx_i0
@at loop 0 start
proof {
    let (k, m) = (vx_i0 - 1, ng.rm.external_id_map@);
    if m.contains_key(ids@[k]) {
        let j = choose|j: int| 0 <= j < k && #[trigger] ids@[j] == ids@[k];
        assert(m[ids@[j]].highlander == has(flags@[j], Flags::SINGLEMATCH));
        assert(clash(flags@, ids@, j, k) == (m[ids@[k]].highlander != has(flags@[k], Flags::SINGLEMATCH)));
    }
    if ng.rm.report_ids@.len() == 1 { assert(ng.rm.report_id_to_internal_map@.contains_key(ng.rm.report_ids@[0])); }
}
@end
@fn lib.rs compile
ensures exists|g: Grey, ex: Seq<VxStr>, f: Seq<Flags>, ids: Seq<ReportId>| usual(g) && #[trigger] compiled(g, ex, f, ids, *mode, r) && ex.len() == 1 && f.len() == 1 && ids.len() == 1 && ex[0] == expression && f[0] == flags
@end
@fn lib.rs compile_multi
ensures exists|g: Grey| usual(g) && #[trigger] compiled(g, expressions@, flags@, ids@, *mode, r)
@end
@global fmt::Formatter ==> VxFormatter
@global fmt::Result ==> Result<(), VxFmtError>
@fn util/compile_error.rs CompileError::fmt
ensures r is Ok ==> exists|s: Seq<char>| final(f).out() == #[trigger] (old(f).out() + s) && mentions(s, self.reason@) && (self.index matches Some(i) ==> names(s, i as int)) && (self.index is None ==> s == self.reason@)
@end
