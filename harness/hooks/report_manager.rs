#[cfg(not(kani))]
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::{grey::Grey, util::Report};
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    fn numbers(s: &str) -> Vec<u64> {
        s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
    }

    // C14: a history of requests against an association list.
    fn internal_ids<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        let lim = s.u8();
        grey.limit_report_count = if lim & 3 == 0 { lim as usize >> 4 } else if lim & 0x1f == 5 { s.u16() as usize } else { 1000 };
        let mut rm = ReportManager::new(&grey);
        let (mut known, mut keys): (Vec<u64>, Vec<u32>) = (vec![], vec![]);
        let (steps, wide) = (s.size(40), s.flag());
        let mut step = 0;
        for _ in 0..steps {
            step += 1;
            let full = steps < 64 || step == steps || step % 64 == 1;
            if s.flag() {
                let r = match s.u8() % if steps >= 64 && wide { 1 } else { 4 } { 0 => s.u64(), 1 => (s.u8() as u64) << 32, 2 if !known.is_empty() => known[s.u8() as usize % known.len()] ^ 1 << (s.u8() % 64),
                    3 if wide => [u32::max_value() as u64, 1 << 32, 1 << 31, 1 << 63, u64::max_value(), i64::max_value() as u64][s.u8() as usize % 6] - s.u8() as u64 % 3, _ => s.u8() as u64 % 12 };
                let got = rm.get_internal_id(&Report { min_length: r });
                match known.iter().position(|x| *x == r) {
                    Some(i) => assert!(got.ok() == Some(i as u32), "get_internal_id: a known report keeps its number"),
                    None if known.len() >= grey.limit_report_count => assert!(got.is_err(), "get_internal_id: refused at the limit"),
                    None => {
                        assert!(got.ok() == Some(known.len() as u32), "get_internal_id: the next number");
                        known.push(r);
                    }
                }
            } else {
                let a = match s.u8() % if steps >= 64 && wide { 1 } else { 4 } { 0 => s.u32(), 1 => u32::max_value() - s.u8() as u32 % 3, _ => s.u8() as u32 % 12 };
                let got = rm.get_exhaustible_key(a);
                let i = keys.iter().position(|x| *x == a).unwrap_or_else(|| { keys.push(a); keys.len() - 1 });
                assert!(got as usize == i, "get_exhaustible_key: dense and stable");
            }
            if full { for (i, r) in known.iter().enumerate() {
                assert!(rm.get_report(i as u32).min_length == *r, "get_report: the report of the number");
            } }
            assert!(rm.num_reports() == known.len(), "num_reports: the numbers given out");
        }
    }
    /// More reports than 16 bits can number.
    fn internal_ids_many<S: Src>(s: &mut S) {
        let grey = Grey::default();
        let mut rm = ReportManager::new(&grey);
        let (n, start, step) = (65_560 + s.u8() as u64, s.u64() >> 8, [1, 3, 1 << 16, 1 << 32][s.u8() as usize % 4]);
        for i in 0..n {
            assert!(rm.get_internal_id(&Report { min_length: start.wrapping_add(i * step) }).ok() == Some(i as u32), "get_internal_id: the next number");
            assert!(rm.get_exhaustible_key((start as u32).wrapping_sub(i as u32)) == i as u32, "get_exhaustible_key: dense");
        }
        for _ in 0..40 {
            let i = match s.u8() % 4 { 0 => 65_534 + s.u8() as u64 % 4, _ => s.u32() as u64 % n };
            let r = Report { min_length: start.wrapping_add(i * step) };
            assert!(rm.get_internal_id(&r).ok() == Some(i as u32), "get_internal_id: a known report keeps its number");
            assert!(*rm.get_report(i as u32) == r, "get_report: the report of the number");
            assert!(rm.get_exhaustible_key((start as u32).wrapping_sub(i as u32)) == i as u32, "get_exhaustible_key: stable");
        }
        assert!(rm.num_reports() as u64 == n, "num_reports: the numbers given out");
    }
    // C15
    fn singlematch<S: Src>(s: &mut S) {
        let grey = Grey::default();
        let mut rm = ReportManager::new(&grey);
        let mut first: Vec<(u32, bool, u32)> = vec![];
        let mut all_single = true;
        assert!(rm.global_exhaust, "globally exhaustible at first");
        for _ in 0..s.size(24) {
            let id = match s.u8() % 8 { 0 => s.u32(), _ => s.u8() as u32 % 5 };
            let (h, idx) = (s.u8() % 3 != 0, (s.limit(256) % 0xffff_ff00) as u32 + 100);
            let got = rm.register_ext_report(id, ExternalReportInfo::new(h, idx));
            match first.iter().find(|x| x.0 == id) {
                Some(f) if f.1 != h => {
                    let e = got.err().expect("register_ext_report: a conflict is refused").to_string();
                    let n = numbers(&e);
                    assert!(n.contains(&(f.2 as u64)) && n.iter().filter(|x| **x == idx as u64).count() >= if f.2 == idx { 3 } else { 2 },
                        "register_ext_report: the error names both expressions and carries the later index: {:?}", e);
                    let tail = e.trim_end().trim_end_matches(char::is_numeric).trim_end();
                    assert!(tail.ends_with("in expression"), "register_ext_report: the error carries the index");
                }
                Some(_) => { assert!(got.is_ok(), "register_ext_report: agreement is accepted"); all_single &= h; }
                None => {
                    assert!(got.is_ok(), "register_ext_report: a new id is accepted");
                    first.push((id, h, idx));
                    all_single &= h;
                }
            }
            assert!(rm.global_exhaust == all_single, "global_exhaust: while all were SINGLEMATCH");
            assert!(rm.external_id_map.len() == first.len(), "register_ext_report: one entry per id");
            for f in &first {
                let e = rm.external_id_map.get(&f.0).expect("register_ext_report: every id is kept");
                assert!(e.highlander == f.1 && e.first_pattern_index == f.2, "register_ext_report: the first registration stays");
            }
        }
    }
    #[no_mangle]
    pub(crate) fn rescan_verif_rm_state(rm: &ReportManager) -> (Vec<u64>, Vec<(u32, bool, u32)>, Vec<(i64, u32)>, bool) {
        let mut e: Vec<_> = rm.external_id_map.iter().map(|(k, v)| (*k, v.highlander, v.first_pattern_index)).collect();
        e.sort();
        (rm.report_ids.iter().map(|r| r.min_length).collect(), e,
         rm.to_exhaustible_key_map.iter().map(|(k, v)| (*k, *v)).collect(), rm.global_exhaust)
    }
    contracts! { rescan_verif_report_manager; internal_ids [1]; internal_ids_many [1]; singlematch [1]; }
}
