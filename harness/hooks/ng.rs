#[cfg(not(kani))]
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::{compiler::ExpressionInfo, nfagraph::NgHolder, SmallWriteBuild, SomType};
    use crate::util::{CompileContext, Depth, ReportManager, Ue2Literal};
    use std::convert::TryInto;
    use crate::grey::Grey;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    type Nodes = Vec<(Vec<u8>, Vec<u32>)>;
    type RmState = (Vec<u64>, Vec<(u32, bool, u32)>, Vec<(i64, u32)>, bool);
    type NgState = ((Nodes, Nodes, usize, bool), RmState, Option<u64>, bool);
    extern "Rust" {
        #[allow(improper_ctypes)]
        fn rescan_verif_smwr_state(b: &SmallWriteBuild) -> (Nodes, Nodes, usize, bool);
        fn rescan_verif_rm_state(rm: &ReportManager) -> RmState;
    }
    /// The count of a depth, found by comparison; None: infinity.
    fn count(d: &Depth) -> Option<u64> {
        if *d == Depth::infinity() { return None; }
        let (mut lo, mut hi) = (0_u32, 0x7fff_fffe_u32);
        while lo < hi {
            let mid = lo + (hi - lo) / 2;
            let m: Depth = mid.try_into().ok().expect("a count below infinity");
            if *d <= m { hi = mid } else { lo = mid + 1 }
        }
        Some(lo as u64)
    }
    #[no_mangle]
    pub(crate) fn rescan_verif_ng_state(ng: &Ng) -> NgState {
        unsafe { (rescan_verif_smwr_state(&ng.smwr), rescan_verif_rm_state(&ng.rm), count(&ng.min_width), ng.rose.has_som) }
    }
    fn letter(c: u8) -> bool { (65..=90).contains(&c) || (97..=122).contains(&c) }

    // C22
    fn add_literal_history<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        grey.shortcut_literals = s.u8() % 6 != 0;
        if s.u8() % 3 == 0 { grey.limit_report_count = s.limit(2); }
        if s.u8() % 4 == 0 { grey.small_write_largest_buffer = s.limit(5); }
        if s.u8() % 4 == 0 { grey.small_write_max_literals = s.limit(5); }
        if s.u8() % 4 == 0 { grey.small_write_max_patterns = s.limit(5); }
        if s.u8() % 6 == 0 { grey.allow_small_write = false; }
        let n = s.limit(4);
        let cc = CompileContext::new(s.flag(), s.flag(), &grey);
        let mut ng = Ng::new(&cc, n, 0);
        let st0 = rescan_verif_ng_state(&ng);
        assert!(st0.2.is_none(), "Ng::new: the minimum width is infinite");
        assert!(!st0.3, "Ng::new: no start of match");
        assert!(st0.0 .3 == (!grey.allow_small_write || n > grey.small_write_max_patterns), "Ng::new: small-write builder for the number of patterns");
        assert!((st0.0 .2, (st0.0 .0).len(), (st0.0 .1).len()) == (0, 1, 1) && st0.1 == (vec![], vec![], vec![], true), "Ng::new: nothing registered");
        let mut min: Option<u64> = None;
        for _ in 0..s.u8() % 7 {
            let len = 1 + s.size(5);
            let kind = s.u8() % 3;
            let v: Vec<(u8, bool)> = (0..len).map(|_| (b"aAb1xZ0\xff"[s.u8() as usize % 8], match kind { 0 => false, 1 => true, _ => s.flag() })).collect::<Vec<_>>();
            let mut v = v;
            // Long ones of which one letter is unlike the others.
            if len > 5 && s.flag() { let i = [0, len - 1, len / 2, s.u16() as usize % len][s.u8() as usize % 4]; v[i] = (b'q', !v[i].1); }
            let mut l = Ue2Literal::default();
            for (c, nc) in &v { l.push(*c, *nc); }
            let idx = match s.u8() { 7 => s.u32(), k => k as u32 };
            let id = match s.u8() % 16 { 0 => [0x8000_0000, u32::max_value(), 0x1_0000][s.u8() as usize % 3], k => k as u32 % 3 };
            let (h, quiet) = (s.flag(), s.flag());
            let som = if !h && s.u8() % 4 == 0 { SomType::Left } else { SomType::None };
            let before = rescan_verif_ng_state(&ng);
            let got = unsafe { ng.as_mut().get_unchecked_mut().add_literal(&l, idx, id, h, som, quiet) };
            let after = rescan_verif_ng_state(&ng);
            let mixed = v.iter().any(|e| letter(e.0) && e.1) && v.iter().any(|e| letter(e.0) && !e.1);
            if !grey.shortcut_literals || mixed {
                assert!(matches!(got, Ok(false)), "add_literal: declined: {:?}", v);
                assert!(before == after, "add_literal: declined without a change");
                continue;
            }
            let clash = before.1 .1.iter().any(|x| x.0 == id && x.1 != h);
            if clash {
                assert!(got.is_err() && before == after, "add_literal: a conflict is refused without a change");
                continue;
            }
            let known = before.1 .1.iter().any(|x| x.0 == id);
            let mut want = before.1 .1.clone();
            if !known { want.push((id, h, idx)); want.sort(); }
            assert!(after.1 .1 == want, "add_literal: registered under its id");
            assert!(after.1 .3 == (before.1 .3 && h), "add_literal: globally exhaustible while all are SINGLEMATCH");
            if (before.1 .0).is_empty() && grey.limit_report_count == 0 {
                assert!(got.is_err(), "add_literal: refused at the report limit");
                assert!(after.2 == before.2 && after.0 == before.0, "add_literal: refused at the report limit before anything else");
                continue;
            }
            assert!(matches!(got, Ok(true)), "add_literal: accepted: {:?}", v);
            min = Some(min.map_or(len as u64, |m| m.min(len as u64)));
            assert!(after.2 == min, "add_literal: the minimum width is the smaller of the previous one and the length");
            assert!(after.3 == (before.3 || som == SomType::Left), "add_literal: start of match noted");
            // Offered to the small-write builder: what that does is the contract of the builder.
            let mut want = before.0.clone();
            if !want.3 && len <= grey.small_write_largest_buffer {
                want.2 += 1;
                if want.2 > grey.small_write_max_literals { want.3 = true; } else {
                    let up: Vec<u8> = v.iter().map(|(c, nc)| if *nc && (97..=122).contains(c) { c - 32 } else { *c }).collect();
                    let t = if v.iter().any(|e| e.1) { &mut want.1 } else { &mut want.0 };
                    for k in 0..=len { if !t.iter().any(|x| x.0 == up[..k]) { t.push((up[..k].to_vec(), vec![])); } }
                    let node = t.iter_mut().find(|x| x.0 == up).unwrap();
                    if !node.1.contains(&0) { node.1.push(0); node.1.sort(); }
                    t.sort();
                }
            }
            assert!(after.0 == want, "add_literal: offered to the small-write builder under its internal report: {:?}", v);
        }
        let last = rescan_verif_ng_state(&ng);
        assert!(last.2 == min, "min_width: the least length of the literals added");
    }
    /// Lengths of any magnitude.
    fn literal_widths<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        grey.small_write_largest_buffer = 3;
        let cc = CompileContext::new(false, false, &grey);
        let mut ng = Ng::new(&cc, 1, 0);
        let mut min: Option<u64> = None;
        for k in 0..1 + s.u8() as u32 % 4 {
            let len = 1 + match s.u8() % 32 { 0 => s.u16() as usize + s.u8() as usize * 64, 1..=7 => s.u16() as usize % 4200, 8..=15 => s.u16() as usize % 600, _ => s.size(40) };
            let mut l = Ue2Literal::default();
            for i in 0..len { l.push(48 + (i % 10) as u8, false); }
            let got = unsafe { ng.as_mut().get_unchecked_mut().add_literal(&l, k, k, false, SomType::None, false) };
            assert!(matches!(got, Ok(true)), "add_literal: a literal of {} bytes is accepted", len);
            min = Some(min.map_or(len as u64, |m| m.min(len as u64)));
            assert!(count(&ng.min_width) == min, "add_literal: the minimum width is the smaller of the previous one and the length: {:?} after {} bytes", count(&ng.min_width), len);
        }
    }
    // C15
    fn add_graph_registers<S: Src>(s: &mut S) {
        let grey = Grey::default();
        let cc = CompileContext::new(false, false, &grey);
        let mut ng = Ng::new(&cc, 1, 0);
        let mut first: Vec<(u32, bool, u32)> = vec![];
        for _ in 0..s.u8() % 9 {
            let idx = match s.u8() { 7 => s.u32(), k => k as u32 };
            let id = match s.u8() % 16 { 0 => [0x8000_0000, u32::max_value(), 0x1_0000][s.u8() as usize % 3], k => k as u32 % 3 };
            let h = s.flag();
            let graph = s.flag();
            let got = if graph {
                let bits = s.u16() & !0x108 | if h { 8 } else { 0 };
                let e = unsafe { rescan_verif_expr(idx as usize, id, bits) };
                let g = NgHolder::new();
                unsafe { ng.as_mut().get_unchecked_mut().add_graph(&e, &g) }
            } else {
                let mut l = Ue2Literal::default();
                l.push(65, false);
                unsafe { ng.as_mut().get_unchecked_mut().add_literal(&l, idx, id, h, if !h && s.flag() { SomType::Left } else { SomType::None }, s.flag()).map(|_| ()) }
            };
            let clash = first.iter().any(|x| x.0 == id && x.1 != h);
            assert!(got.is_err() == clash, "registration: refused iff in conflict");
            if let Err(e) = got { assert!(e.to_string().ends_with(&format!("in expression {}", idx)), "registration: the error carries the later index"); }
            if !clash && !first.iter().any(|x| x.0 == id) { first.push((id, h, idx)); first.sort(); }
            let st = rescan_verif_ng_state(&ng);
            assert!(st.1 .1 == first, "registration: the first per id, never replaced");
            assert!(st.1 .3 == first.iter().all(|x| x.1), "registration: globally exhaustible while all are SINGLEMATCH");
        }
    }
    extern "Rust" { fn rescan_verif_expr(index: usize, id: u32, bits: u16) -> ExpressionInfo; }
    contracts! { rescan_verif_ng; add_literal_history [1]; literal_widths [1]; add_graph_registers [1]; }
}

#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif_place {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::{compiler::ExpressionInfo, nfagraph::NgHolder, SmallWriteBuild, SomType};
    use crate::util::{CompileContext, Depth, ReportManager, Ue2Literal};
    use std::convert::TryInto;
    use crate::grey::Grey;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));

    /// The builder's pointer is that of this compilation's report manager.
    pub(crate) fn refers(ng: &Ng) -> bool { std::ptr::eq(ng.smwr.rm.as_ptr() as *const ReportManager, &ng.rm) }
    #[cfg(not(kani))]
    #[no_mangle]
    pub(crate) fn rescan_verif_ng_refers(ng: &Ng) -> bool { refers(ng) }

    // C24.  What Ng::new sets up, wherever its handle goes.
    fn new_refers_to_its_manager<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        grey.allow_small_write = s.flag();
        grey.small_write_max_patterns = s.usize();
        grey.limit_report_count = s.usize();
        let cc = CompileContext::new(s.flag(), s.flag(), &grey);
        let one = Ng::new(&cc, s.usize(), s.usize());
        assert!(refers(&one), "Ng::new: the builder refers to the report manager");
        let two = Ng::new(&cc, s.usize(), s.usize());
        let held = [Some(two), Some(one)];
        for ng in held.iter().flatten() {
            assert!(refers(ng), "Ng::new: each builder refers to its own report manager, also after the handle is moved");
        }
        // What it refers to is live: Kani checks the access.
        let _ = unsafe { std::ptr::read(held[1].as_ref().unwrap().smwr.rm.as_ptr() as *const u8) };
        #[cfg(kani)]
        std::mem::forget(held);
    }
    // C24.  It stays so over any history.
    #[cfg(not(kani))]
    fn manager_stays<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        if s.u8() % 3 == 0 { grey.limit_report_count = s.limit(2); }
        if s.u8() % 2 == 0 { grey.small_write_largest_buffer = [0, 2, 10000][s.u8() as usize % 3]; }
        if s.u8() % 4 == 0 { grey.small_write_max_literals = s.limit(5); }
        if s.u8() % 6 == 0 { grey.allow_small_write = false; }
        grey.shortcut_literals = s.u8() % 6 != 0;
        let cc = CompileContext::new(s.flag(), s.flag(), &grey);
        let mut both = vec![Ng::new(&cc, s.u8() as usize % 4, 0), Ng::new(&cc, 1, 0)];
        let at: Vec<*const Ng> = both.iter().map(|n| &**n as *const Ng).collect();
        for k in 0..s.size(12) {
            let w = s.u8() as usize % 2;
            let mut l = Ue2Literal::default();
            // Once in a while, a literal the trie has no room for.
            let n = if s.u8() % 32 == 0 { 8200 } else { 1 + s.u8() as usize % 5 };
            let c = s.u8();
            for i in 0..n { l.push((i as u8).wrapping_mul(7) ^ c, s.u8() % 16 == 0); }
            let (id, h) = (match s.u8() { d if d & 1 == 0 => k as u32, d => d as u32 % 3 }, s.u8() % 8 == 0);
            let ng = unsafe { both[w].as_mut().get_unchecked_mut() };
            if s.u8() % 3 == 0 {
                let e = unsafe { rescan_verif_expr(k as usize, id, s.u16() & !0x108 | if h { 8 } else { 0 }) };
                let _ = ng.add_graph(&e, &NgHolder::new());
            } else {
                let som = if !h && s.flag() { SomType::Left } else { SomType::None };
                let _ = ng.add_literal(&l, k as u32, id, h, som, s.flag());
            }
            if s.flag() { both.shrink_to_fit(); both.reserve(3); }
            for (n, a) in both.iter().zip(&at) {
                assert!(refers(n), "the builder still refers to the report manager of its compilation");
                assert!(std::ptr::eq(&**n, *a), "the compilation is not moved");
                assert!(unsafe { rescan_verif_rm_state(n.smwr.rm.as_ref()) == rescan_verif_rm_state(&n.rm) }, "the report manager referred to is the live one");
            }
        }
    }
    #[cfg(not(kani))]
    extern "Rust" {
        fn rescan_verif_expr(index: usize, id: u32, bits: u16) -> ExpressionInfo;
        #[allow(improper_ctypes)]
        fn rescan_verif_rm_state(rm: &ReportManager) -> (Vec<u64>, Vec<(u32, bool, u32)>, Vec<(i64, u32)>, bool);
    }

    #[cfg(kani)]
    pub(crate) mod proofs {
        /// Hash maps get their keys from the operating system; any keys will do.
        fn keys() -> std::collections::hash_map::RandomState { unsafe { std::mem::transmute([kani::any::<u64>(), kani::any::<u64>()]) } }
        #[kani::proof]
        #[kani::stub(std::collections::hash_map::RandomState::new, keys)]
        #[kani::unwind(4)]
        fn new_refers_to_its_manager() { super::new_refers_to_its_manager(&mut super::Sym) }
    }
    #[cfg(not(kani))]
    #[no_mangle]
    pub fn rescan_verif_ng_place(name: &str, next: &mut dyn FnMut() -> u8) -> bool {
        let mut s = Bytes(next);
        match name {
            "new_refers_to_its_manager" => new_refers_to_its_manager(&mut s),
            "manager_stays" => manager_stays(&mut s),
            _ => return false,
        }
        true
    }
}
