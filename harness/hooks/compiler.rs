#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::{compiler::expression_info::ExpressionInfo, nfagraph::{Ng, NgHolder}, Flags};
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    #[cfg(not(kani))]
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/spec.inc"));

    // C20.  The empty pattern with every flag word.
    fn expression_flags<S: Src>(s: &mut S) {
        let f = Flags::from_bits_truncate(s.u16());
        let (b, index, id) = (f.bits(), s.usize(), s.u32());
        let r = ParsedExpression::new(index, "", f, id);
        assert!(r.is_err() == (b & 0x500 == 0x500), "ParsedExpression: refused iff QUIET and SOM_LEFTMOST");
        if let Ok(pe) = r {
            assert!(pe.expr.highlander == (b & 0x8 != 0), "ParsedExpression: single match iff SINGLEMATCH");
            assert!(pe.expr.prefilter == (b & 0x80 != 0), "ParsedExpression: prefilter iff PREFILTER");
            assert!(pe.expr.quiet == (b & 0x400 != 0), "ParsedExpression: quiet iff QUIET");
            assert!(pe.expr.utf8 == (b & 0x20 != 0), "ParsedExpression: utf8 iff UTF8");
            assert!(pe.expr.index == index && pe.expr.report == id, "ParsedExpression: index and id as given");
            #[cfg(kani)]
            std::mem::forget(pe);
        }
    }
    #[cfg(not(kani))]
    fn expression_verbs<S: Src>(s: &mut S) {
        let f = Flags::from_bits_truncate(s.u16());
        let b = f.bits();
        let (index, id) = (s.usize(), s.u32());
        let p = any_pattern(s);
        let r = ParsedExpression::new(index, &p, f, id);
        let want = spec_parse(&p, b & 1 != 0);
        assert!(r.is_ok() == (b & 0x500 != 0x500 && want.is_ok()), "ParsedExpression: refused iff not well formed, or QUIET and SOM_LEFTMOST");
        if let (Ok(pe), Ok((_, _, utf8))) = (r, want) {
            assert!(pe.expr.utf8 == (b & 0x20 != 0 || utf8), "ParsedExpression: utf8 iff UTF8 or its verb: {:?}", p);
            assert!(pe.expr.highlander == (b & 0x8 != 0) && pe.expr.prefilter == (b & 0x80 != 0) && pe.expr.quiet == (b & 0x400 != 0),
                "ParsedExpression: single match, prefilter, quiet iff their flags");
            assert!(pe.expr.index == index && pe.expr.report == id, "ParsedExpression: index and id as given");
        }
    }

    #[cfg(not(kani))]
    extern "Rust" {
        #[allow(improper_ctypes)]
        fn rescan_verif_holder_state(g: &NgHolder) -> Vec<(Vec<u8>, usize, u32)>;
        fn rescan_verif_ng_state(ng: &Ng) -> NgState;
        fn rescan_verif_ng_refers(ng: &Ng) -> bool;
    }
    #[cfg(not(kani))]
    type NgState = ((Vec<(Vec<u8>, Vec<u32>)>, Vec<(Vec<u8>, Vec<u32>)>, usize, bool),
        (Vec<u64>, Vec<(u32, bool, u32)>, Vec<(i64, u32)>, bool), Option<u64>, bool);

    // C18
    #[cfg(all(not(kani), rescan_verif = "ng_holder"))]
    fn positions_of_tree<S: Src>(s: &mut S) {
        let f = if s.flag() { Flags::CASELESS } else { Flags::empty() };
        let p = any_pattern(s);
        if let (Ok(mut pe), Ok((t, _, _))) = (ParsedExpression::new(0, &p, f, 0), spec_parse(&p, f.bits() & 1 != 0)) {
            let b = build_graph(&mut pe);
            let st = unsafe { rescan_verif_holder_state(&b.g) };
            let mut want = vec![];
            spec_classes(&t, &mut want);
            assert!(st.len() == want.len() + 4, "note_positions: one position per class of {:?}: {} instead of {}", p, st.len(), want.len() + 4);
            for (i, w) in want.iter().enumerate() {
                assert!(st[4 + i].0 == *w, "note_positions: position {} of {:?} is reachable on the bytes of its class", i, p);
            }
            for x in &st { assert!(x.1 == 0 && x.2 == 0, "note_positions: no reports, no flags"); }
            assert!(!b.g.is_vacuous(), "note_positions: not vacuous");
        }
    }

    // C13, C15, C19, C22 through add_expression.
    #[cfg(all(not(kani), rescan_verif = "ng"))]
    fn expression_history<S: Src>(s: &mut S) {
        let mut grey = crate::grey::Grey::default();
        grey.limit_pattern_length = if s.u8() % 4 == 0 { s.u8() as usize % 12 } else { 200 };
        grey.allow_literal = s.u8() % 8 != 0;
        grey.shortcut_literals = s.u8() % 8 != 0;
        let cc = crate::util::CompileContext::new(s.flag(), false, &grey);
        let mut ng = Ng::new(&cc, 1, 0);
        let mut ids: Vec<(u32, bool, u32)> = vec![];
        let mut lits: Vec<(Vec<(u8, bool)>, u32)> = vec![];
        for k in 0..1 + s.u8() as usize % 5 {
            let f = Flags::from_bits_truncate(s.u16() & if s.flag() { 0x9 } else { 0x7ff });
            let b = f.bits();
            let p = if s.flag() { any_pattern(s) } else { ["abc", "a", "(b)c", "", "a|b", "Ab1", "0"][s.u8() as usize % 7].to_string() };
            let id = s.u8() as u32 % 3;
            let got = add_expression(&mut ng, k, &p, f, id);
            let parsed = spec_parse(&p, b & 1 != 0);
            let fits = p.len() <= grey.limit_pattern_length && b & 0x500 != 0x500;
            let h = b & 8 != 0;
            let clash = ids.iter().any(|x| x.0 == id && x.1 != h);
            let ok = fits && parsed.is_ok() && !clash;
            assert!(got.is_ok() == ok, "add_expression: {:?} with flags {:#x} and id {} is {}: {:?}", p, b, id,
                if ok { "accepted" } else { "refused" }, got.map_err(|e| e.to_string()));
            if ok {
                if !ids.iter().any(|x| x.0 == id) { ids.push((id, h, k as u32)); }
                if let Some(l) = spec_literal(&parsed.unwrap().0) {
                    if grey.allow_literal && grey.shortcut_literals && !l.is_empty() && !spec_mixed(&l) { lits.push((l, 0)); }
                }
            }
            let ((cs, nc, n, poisoned), (_, reg, _, glob), min, _) = unsafe { rescan_verif_ng_state(&ng) };
            ids.sort();
            assert!(reg == ids, "add_expression: ids registered once, by their first expression: {:?}, not {:?}", ids, reg);
            assert!(glob == ids.iter().all(|x| x.1), "add_expression: globally exhaustible while all are SINGLEMATCH");
            assert!(min == lits.iter().map(|l| l.0.len() as u64).min(), "add_expression: minimum width after {:?}", p);
            let short: Vec<_> = lits.iter().filter(|l| l.0.len() <= grey.small_write_largest_buffer).collect();
            assert!(!poisoned && n == short.len(), "add_expression: literals offered to the small-write builder: {} of {:?}", n, short);
            let mut ends: Vec<Vec<u8>> = cs.iter().chain(nc.iter()).filter(|x| !x.1.is_empty()).map(|x| x.0.clone()).collect();
            ends.sort();
            ends.dedup();
            let mut want: Vec<Vec<u8>> = short.iter().map(|l| l.0.iter().map(|e| e.0).collect()).collect();
            want.sort();
            want.dedup();
            assert!(ends == want, "add_expression: the literal of {:?}", p);
        }
    }

    // C24: while expressions are compiled.
    #[cfg(all(not(kani), rescan_verif = "ng"))]
    fn manager_stays<S: Src>(s: &mut S) {
        let mut grey = crate::grey::Grey::default();
        if s.u8() % 4 == 0 { grey.limit_pattern_length = s.u8() as usize % 12; }
        if s.u8() % 4 == 0 { grey.small_write_max_literals = s.u8() as usize % 3; }
        if s.u8() % 4 == 0 { grey.limit_report_count = 0; }
        let cc = crate::util::CompileContext::new(s.flag(), s.flag(), &grey);
        let mut ng = Ng::new(&cc, 1 + s.u8() as usize % 20, 0);
        let at = &*ng as *const Ng;
        for k in 0..1 + s.size(9) {
            let f = Flags::from_bits_truncate(s.u16() & if s.flag() { 0x9 } else { 0x7ff });
            let p = if s.flag() { any_pattern(s) } else { ["abc", "a", "(b)c", "", "a|b", "Ab1", "0"][s.u8() as usize % 7].to_string() };
            let _ = add_expression(&mut ng, k, &p, f, match s.u8() { d if d & 1 == 0 => k as u32, d => d as u32 % 3 });
            assert!(std::ptr::eq(&*ng, at), "add_expression: the compilation is not moved");
            assert!(unsafe { rescan_verif_ng_refers(&ng) }, "add_expression: the builder refers to the report manager of its compilation");
        }
        let _ = build(&ng);
        assert!(unsafe { rescan_verif_ng_refers(&ng) }, "build: the builder refers to the report manager of its compilation");
    }

    #[cfg(not(kani))]
    #[no_mangle]
    pub(crate) fn rescan_verif_expr(index: usize, id: u32, bits: u16) -> ExpressionInfo {
        let f = Flags::from_bits_truncate(bits);
        ParsedExpression::new(index, "", f, id).ok().expect("the empty pattern").expr
    }

    #[cfg(kani)]
    contracts! { rescan_verif_compiler; expression_flags [12]; }
    #[cfg(not(kani))]
    #[no_mangle]
    pub fn rescan_verif_compiler(name: &str, next: &mut dyn FnMut() -> u8) -> bool {
        let mut s = Bytes(next);
        match name {
            "expression_flags" => expression_flags(&mut s),
            "expression_verbs" => expression_verbs(&mut s),
            #[cfg(rescan_verif = "ng_holder")]
            "positions_of_tree" => positions_of_tree(&mut s),
            #[cfg(rescan_verif = "ng")]
            "expression_history" => expression_history(&mut s),
            #[cfg(rescan_verif = "ng")]
            "manager_stays" => manager_stays(&mut s),
            _ => return false,
        }
        true
    }
}
