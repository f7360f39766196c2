@include depth.inc
@use nfagraph/ng.rs std::cmp::min
@global std::cmp::min( ==> min(
@type util/boundary_reports.rs BoundaryReports
@default
ensures true
@end
@type rose/rose_build.rs RoseBuild
@end
@raw
pub struct PhantomPinned;
pub fn vx_hashset<T>(t: T) -> (r: HashSet<T>) ensures r@ == Set::<T>::empty().insert(t) { let mut s = HashSet::new(); s.insert(t); s }
@end
@type nfagraph/ng.rs Ng
@end
@fn util/report.rs make_e_callback
ensures r == callback()
@end
@fn util/report.rs make_som_relative_callback
ensures r == callback()
@end
@fn rose/rose_build.rs RoseBuild::add
ensures *final(self) == *old(self)
@end
@raw
/// The internal report of any literal, as both callbacks make it today.
pub open spec fn callback() -> Report { Report { min_length: 0 } }
impl<'a> Ng<'a> {
    pub open spec fn inv(&self) -> bool { self.rm.inv() && self.smwr.inv() && self.smwr.cc == self.cc }
    /// Nothing but the report manager and the use of start-of-match differs.
    pub open spec fn same_but_rm(&self, o: &Self) -> bool { self.min_width == o.min_width && self.smwr == o.smwr && self.cc == o.cc && self.boundary == o.boundary && self.rose.cc == o.rose.cc }
    pub open spec fn conflict(&self, id: ReportId, highlander: bool) -> bool { self.rm.external_id_map@.contains_key(id) && self.rm.external_id_map@[id].highlander != highlander }
    /// Fewer than 2^32 reports and exhaustion keys.
    pub open spec fn rm_room(&self) -> bool { self.rm.report_ids@.len() <= u32::MAX && self.rm.to_exhaustible_key_map@.len() < u32::MAX }
}
/// C15: what registering a match id does to the map of ids.
pub open spec fn registered(o: ReportManager, n: ReportManager, id: ReportId, index: int, highlander: bool) -> bool {
    let m = o.external_id_map@;
    &&& n.external_id_map@ == (if m.contains_key(id) { m } else { m.insert(id, ExternalReportInfo { highlander, first_pattern_index: index as u32 }) })
    &&& n.global_exhaust == (o.global_exhaust && highlander)
}
pub open spec fn blames(o: ReportManager, e: CompileError, id: ReportId, index: int) -> bool {
    e.index == Some(index as u32) && names(e.reason@, index) && names(e.reason@, o.external_id_map@[id].first_pattern_index as int)
}
pub open spec fn same_rm(o: ReportManager, n: ReportManager) -> bool { n.same_reports(&o) && n.same_but_reports(&o) }
@end
@global Pin<Box<Self>> ==> Box<Self>
@global Pin<Box<Ng>> ==> Box<Ng>
@global Pin<Box<Ng<'_>>> ==> Box<Ng<'_>>
@global Box::pin(res) ==> Box::new(res)
@global boxed.into() ==> boxed
@global Pin<&mut Self> ==> &mut Self
@global Pin::as_mut(&mut boxed) ==> &mut *boxed
@global Pin::get_unchecked_mut(mut_ref) ==> mut_ref
@global Pin::get_unchecked_mut(boxed.as_mut()) ==> boxed
@global Pin::get_unchecked_mut(ng.as_mut()) ==> ng
@global .as_mut().get_unchecked_mut() ==>
@global .try_into() ==> .vx_try_into()
@fn nfagraph/ng.rs Ng::new
ensures
    r.inv(), r.cc == cc, r.rose.cc == cc, !r.rose.has_som, r.min_width.infinite(),
    r.rm.grey == &cc.grey, r.rm.report_ids@.len() == 0, r.rm.external_id_map@ =~= Map::<ReportId, ExternalReportInfo>::empty(), r.rm.to_exhaustible_key_map@.len() == 0, r.rm.global_exhaust,
    r.smwr.num_literals == 0, empty_trie(r.smwr.lit_trie), empty_trie(r.smwr.lit_trie_nocase),
    r.smwr.poisoned == (!cc.grey.allow_small_write || num_patterns > cc.grey.small_write_max_patterns),
@end
@fn nfagraph/ng.rs Ng::add_graph
requires old(self).inv(), expr.index <= u32::MAX
ensures
    final(self).inv(), final(self).same_but_rm(old(self)),
    final(self).rm.same_reports(&old(self).rm), final(self).rm.grey == old(self).rm.grey, final(self).rm.to_exhaustible_key_map@ == old(self).rm.to_exhaustible_key_map@,
    if old(self).conflict(expr.report, expr.highlander) {
        r is Err && blames(old(self).rm, r->Err_0, expr.report, expr.index as int) && same_rm(old(self).rm, final(self).rm) && final(self).rose == old(self).rose
    } else {
        r is Ok && registered(old(self).rm, final(self).rm, expr.report, expr.index as int, expr.highlander)
            && final(self).rose.has_som == (old(self).rose.has_som || !(expr.som is None))
    }
@end
@raw
/// C22: what adding a literal does, given everything it depends on.
pub open spec fn literal_added(o: Ng, n: Ng, l: Ue2Literal, index: u32, id: ReportId, highlander: bool, som: SomType, r: Result<bool, CompileError>) -> bool {
    &&& n.inv()
    &&& if !o.cc.grey.shortcut_literals || is_mixed(l.elems()) {
        r == Ok::<bool, CompileError>(false) && n == o
    } else if o.conflict(id, highlander) {
        r is Err && blames(o.rm, r->Err_0, id, index as int) && same_rm(o.rm, n.rm) && n.same_but_rm(&o) && n.rose == o.rose
    } else {
        &&& registered(o.rm, n.rm, id, index as int, highlander)
        &&& n.rose.has_som == (o.rose.has_som || !(som is None))
        &&& n.rm.grey == o.rm.grey && n.cc == o.cc && n.boundary == o.boundary && n.rose.cc == o.rose.cc
        &&& n.rm.to_exhaustible_key_map@ =~= (if highlander && !o.rm.to_exhaustible_key_map@.contains_key(id as S64a) { o.rm.to_exhaustible_key_map@.insert(id as S64a, o.rm.to_exhaustible_key_map@.len() as u32) } else { o.rm.to_exhaustible_key_map@ })
        &&& if !o.rm.report_id_to_internal_map@.contains_key(callback()) && o.rm.report_ids@.len() >= o.rm.grey.limit_report_count {
            r is Err && (r->Err_0).kind is ResourceLimit && (r->Err_0).index is None && n.rm.same_reports(&o.rm) && n.same_but_rm(&o)
        } else {
            &&& if o.rm.report_id_to_internal_map@.contains_key(callback()) { n.rm.same_reports(&o.rm) } else { n.rm.report_ids@ == o.rm.report_ids@.push(callback()) }
            &&& if l.elems().len() >= 0x7fff_ffff {
                // Longer than any width that can be told.
                r is Err && (r->Err_0).index is None && n.min_width == o.min_width && n.smwr == o.smwr
            } else {
                &&& r == Ok::<bool, CompileError>(true)
                &&& n.min_width.val == (if l.elems().len() < o.min_width.val { l.elems().len() } else { o.min_width.val as nat })
                &&& offered(o.smwr, n.smwr, l, n.rm.report_id_to_internal_map@[callback()])
            }
        }
    }
}
/// C22: over any number of additions the minimum width is the least length of the literals taken.
pub open spec fn least_width(b: Seq<Ng>, l: Seq<Ue2Literal>, r: Seq<Result<bool, CompileError>>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0x7fff_ffff } else {
        let w = least_width(b, l, r, n - 1);
        if r[n - 1] == Ok::<bool, CompileError>(true) && l[n - 1].elems().len() < w { l[n - 1].elems().len() } else { w }
    }
}
pub proof fn width_is_least(b: Seq<Ng>, l: Seq<Ue2Literal>, r: Seq<Result<bool, CompileError>>, a: Seq<(u32, ReportId, bool, SomType)>, n: int)
    requires
        0 <= n < b.len(), l.len() == b.len() - 1, r.len() == l.len(), a.len() == l.len(), b[0].min_width.infinite(),
        forall|k: int| 0 <= k < l.len() ==> literal_added(#[trigger] b[k], b[k + 1], l[k], a[k].0, a[k].1, a[k].2, a[k].3, r[k]),
    ensures b[n].min_width.val == least_width(b, l, r, n)
    decreases n
{
    if n > 0 {
        width_is_least(b, l, r, a, n - 1);
        assert(literal_added(b[n - 1], b[n - 1 + 1], l[n - 1], a[n - 1].0, a[n - 1].1, a[n - 1].2, a[n - 1].3, r[n - 1]));
    }
}
@end
@raw
/// C24: whatever is added, the builder keeps the pointer that Ng::new gave it, and with it the compilation it refers to.
pub proof fn pointer_stays(b: Seq<Ng>, n: int)
    requires
        0 <= n < b.len(),
        forall|k: int| 0 <= k < b.len() - 1 ==> (#[trigger] b[k]).same_but_rm(&b[k + 1])
            || exists|l: Ue2Literal, i: u32, id: ReportId, h: bool, som: SomType, r: Result<bool, CompileError>| #[trigger] literal_added(b[k], b[k + 1], l, i, id, h, som, r),
    ensures b[n].smwr.rm == b[0].smwr.rm
    decreases n
{
    if n > 0 {
        pointer_stays(b, n - 1);
        let o = b[n - 1];
        assert(o.smwr.rm == b[n - 1 + 1].smwr.rm);
    }
}
@end
@fn nfagraph/ng.rs Ng::add_literal
requires
    old(self).inv(), old(self).rm_room(), literal.wf(), literal.elems().len() > 0, old(self).smwr.room(literal.elems().len()),
    // Not allowed together, refused by ParsedExpression::new.
    som is None || !highlander,
ensures literal_added(*old(self), *final(self), *literal, expr_index, external_report, highlander, som, r)
@closure 0 result_map_err
@end
@fn parser/shortcut_literal.rs shortcut_literal
requires
    old(ng).inv(), old(ng).rm_room(), finished(pe.component), pe.expr.index <= u32::MAX, pe.expr.som is None || !pe.expr.highlander,
    spelled(pe.component) matches Some(e) ==> old(ng).smwr.room(e.len()),
ensures
    match spelled(pe.component) {
        Some(e) => if old(ng).cc.grey.allow_literal && e.len() > 0 {
            exists|l: Ue2Literal| l.wf() && l.elems() =~= e && literal_added(**old(ng), **final(ng), l, pe.expr.index as u32, pe.expr.report, pe.expr.highlander, pe.expr.som, r)
        } else { r == Ok::<bool, CompileError>(false) && *final(ng) == *old(ng) },
        None => r == Ok::<bool, CompileError>(false) && *final(ng) == *old(ng),
    }
@end
