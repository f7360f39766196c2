@raw
// Lossless conversions of the standard library.
pub mod vx_conv {
use vstd::prelude::*;
use vstd::std_specs::convert::FromSpec;
pub broadcast axiom fn i64_from_u32() ensures #[trigger] <i64 as FromSpec<u32>>::obeys_from_spec();
pub broadcast axiom fn i64_from_u32_value(x: u32) ensures #[trigger] <i64 as FromSpec<u32>>::from_spec(x) == x as i64;
pub broadcast group g { i64_from_u32, i64_from_u32_value }
}
@end
@broadcast vx_conv::g
@type util/ue2common.rs S64a
@end
@type util/ue2common.rs ReportId
@end
@type grey.rs Grey
@end
@type util/report.rs Report ?Clone ?PartialEq ?Eq ?Hash
@end
@raw
impl Clone for Report {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@end
@broadcast vx_reports::one_more
@type util/report_manager.rs ExternalReportInfo Clone Copy
@end
@type util/report_manager.rs ReportManager
@end
@raw
pub mod vx_reports {
use super::Report;
use vstd::prelude::*;
/// Reports and numbers correspond one to one; the numbers are 0, 1, 2, ...
pub open spec fn reports_inv(ids: Seq<Report>, m: Map<Report, u32>) -> bool {
    &&& forall|r: Report| #[trigger] m.contains_key(r) ==> m[r] < ids.len() && ids[m[r] as int] == r
    &&& forall|i: int| 0 <= i < ids.len() ==> #[trigger] m.contains_key(ids[i]) && m[ids[i]] == i
}
/// A report that is not known yet gets the next number.
pub broadcast proof fn one_more(ids: Seq<Report>, m: Map<Report, u32>, x: Report, n: u32)
    requires reports_inv(ids, m), !m.contains_key(x), n == ids.len()
    ensures #[trigger] reports_inv(ids.push(x), m.insert(x, n))
{
    let (ids2, m2) = (ids.push(x), m.insert(x, n));
    assert forall|i: int| 0 <= i < ids2.len() implies #[trigger] m2.contains_key(ids2[i]) && m2[ids2[i]] == i by {
        if i < ids.len() { assert(m.contains_key(ids[i])); }
    }
}
}
pub use vx_reports::reports_inv;
/// Keys are below their number and differ.
pub open spec fn keys_inv(m: Map<S64a, u32>) -> bool {
    &&& forall|k: S64a| #[trigger] m.contains_key(k) ==> m[k] < m.len()
    &&& forall|k: S64a, l: S64a| #[trigger] m.contains_key(k) && #[trigger] m.contains_key(l) && k != l ==> m[k] != m[l]
}
impl<'a> ReportManager<'a> {
    pub open spec fn inv(&self) -> bool {
        reports_inv(self.report_ids@, self.report_id_to_internal_map@) && keys_inv(self.to_exhaustible_key_map@)
    }
    /// Everything but the reports.
    pub open spec fn same_but_reports(&self, o: &Self) -> bool {
        self.grey == o.grey && self.external_id_map@ == o.external_id_map@ && self.to_exhaustible_key_map@ == o.to_exhaustible_key_map@ && self.global_exhaust == o.global_exhaust
    }
    pub open spec fn same_reports(&self, o: &Self) -> bool {
        self.report_ids@ == o.report_ids@ && self.report_id_to_internal_map@ == o.report_id_to_internal_map@
    }
}
@end
@fn util/report_manager.rs ExternalReportInfo::new
ensures r.highlander == h, r.first_pattern_index == fpi
@end
@fn util/report_manager.rs ReportManager::new
ensures
    r.inv(), r.grey == g, r.report_ids@.len() == 0, r.report_id_to_internal_map@ =~= Map::<Report, u32>::empty(),
    r.external_id_map@ =~= Map::<ReportId, ExternalReportInfo>::empty(), r.to_exhaustible_key_map@ =~= Map::<S64a, u32>::empty(), r.global_exhaust,
@end
@fn util/report_manager.rs ReportManager::num_reports
ensures r == self.report_ids@.len()
@end
@fn util/report_manager.rs ReportManager::get_report
requires id < self.report_ids@.len()
ensures *r == self.report_ids@[id as int]
@end
@fn util/report_manager.rs ReportManager::get_internal_id
requires
    old(self).inv(),
    // Fewer than 2^32 reports.
    old(self).report_ids@.len() <= u32::MAX,
ensures
    final(self).inv(), final(self).same_but_reports(old(self)),
    final(self).report_ids@.len() <= u32::MAX + 1,
    ({
        let m = old(self).report_id_to_internal_map@;
        let n = old(self).report_ids@.len();
        if m.contains_key(*ir) { r == Ok::<u32, CompileError>(m[*ir]) && final(self).same_reports(old(self)) }
        else if n >= old(self).grey.limit_report_count {
            &&& r is Err && (r->Err_0).kind is ResourceLimit && (r->Err_0).index is None
            &&& final(self).same_reports(old(self))
        }
        else {
            &&& r == Ok::<u32, CompileError>(n as u32)
            &&& final(self).report_ids@ == old(self).report_ids@.push(*ir)
            &&& final(self).report_id_to_internal_map@ == m.insert(*ir, n as u32)
        }
    }),
@end
@fn util/report_manager.rs ReportManager::register_ext_report
requires old(self).inv()
ensures
    final(self).inv(), final(self).same_reports(old(self)), final(self).grey == old(self).grey,
    final(self).to_exhaustible_key_map@ == old(self).to_exhaustible_key_map@,
    ({
        let m = old(self).external_id_map@;
        if m.contains_key(id) && m[id].highlander != ext.highlander {
            &&& r is Err && (r->Err_0).index == Some(ext.first_pattern_index)
            &&& names((r->Err_0).reason@, ext.first_pattern_index as int) && names((r->Err_0).reason@, m[id].first_pattern_index as int)
            &&& final(self).external_id_map@ == m && final(self).global_exhaust == old(self).global_exhaust
        } else {
            &&& r is Ok
            &&& final(self).external_id_map@ == (if m.contains_key(id) { m } else { m.insert(id, ext) })
            &&& final(self).global_exhaust == (old(self).global_exhaust && ext.highlander)
        }
    }),
@end
@fn util/report_manager.rs ReportManager::get_exhaustible_key
requires
    old(self).inv(),
    // Fewer than 2^32 expressions.
    old(self).to_exhaustible_key_map@.len() < u32::MAX,
ensures
    final(self).inv(), final(self).same_reports(old(self)), final(self).grey == old(self).grey,
    final(self).external_id_map@ == old(self).external_id_map@, final(self).global_exhaust == old(self).global_exhaust,
    ({
        let m = old(self).to_exhaustible_key_map@;
        if m.contains_key(a as S64a) { r == m[a as S64a] && final(self).to_exhaustible_key_map@ =~= m }
        else { r == m.len() && final(self).to_exhaustible_key_map@ == m.insert(a as S64a, r) }
    }),
@end
