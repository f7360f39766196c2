#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::{grey::Grey, util::ReportId};
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    fn any_mode<S: Src>(s: &mut S) -> (Mode, u8) {
        let k = s.u8();
        s.assume(k < 6);
        (match k {
            0 => Mode::Block,
            1 => Mode::Stream(None),
            2 => Mode::Stream(Some(SomHorizon::Large)),
            3 => Mode::Stream(Some(SomHorizon::Medium)),
            4 => Mode::Stream(Some(SomHorizon::Small)),
            _ => Mode::Vectored,
        }, k)
    }
    // C20
    fn mode_queries<S: Src>(s: &mut S) {
        let (m, k) = any_mode(s);
        assert!(m.is_streaming() == (k != 0), "is_streaming: stream and vectored");
        assert!(m.is_vectored() == (k == 5), "is_vectored: vectored only");
        assert!(m.som_precision() == [0, 0, 8, 4, 2, 8][k as usize], "som_precision: bytes of the horizon");
    }
    fn parse_mode_flags<S: Src>(s: &mut S) {
        let f = Flags::from_bits_truncate(s.u16());
        let b = f.bits();
        let m = crate::parser::ParseMode::new(f);
        assert!(m.caseless == (b & 0x1 != 0), "ParseMode: caseless iff CASELESS");
        assert!(m.dotall == (b & 0x2 != 0), "ParseMode: dotall iff DOTALL");
        assert!(m.multiline == (b & 0x4 != 0), "ParseMode: multiline iff MULTILINE");
        assert!(m.utf8 == (b & 0x20 != 0), "ParseMode: utf8 iff UTF8");
        assert!(m.ucp == (b & 0x40 != 0), "ParseMode: ucp iff UCP");
        assert!(!m.ignore_space, "ParseMode: ignore_space is off");
    }
    #[cfg(not(kani))]
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/spec.inc"));
    // C19
    #[cfg(not(kani))]
    fn batch<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        grey.limit_pattern_count = if s.u8() % 3 == 0 { s.limit(4) } else { 1000 };
        grey.limit_pattern_length = if s.u8() % 3 == 0 { s.limit(10) } else { 100 };
        let n = s.size(5);
        let mode = match s.u8() % 4 { 0 => Mode::Stream(None), 1 => Mode::Vectored, _ => Mode::Block };
        let p: Vec<String> = (0..n).map(|_| if s.u8() % 3 == 0 { any_pattern(s) } else {
            ["abc", "a", "(b)c", "", "a|b", "Ab1", "0", "(", "a)", "\u{e9}", "(*UTF8)x", "(*CR)y", "a(b|)(c", "x|(*UCP)", "abcdefghijk", "((a)b|c)*"][s.u8() as usize % 16].to_string()
        }).collect();
        let e: Vec<&str> = p.iter().map(|x| x.as_str()).collect();
        let skew = s.u8() % 12;
        let (nf, ni) = (match skew { 0 => n + 1, 1 => n.saturating_sub(1), _ => n }, match skew { 2 => n + 1, 3 => n.saturating_sub(1), _ => n });
        let f: Vec<Flags> = (0..nf).map(|_| { let w = s.u16(); Flags::from_bits_truncate(if w & 0x800 == 0 { w & 0x9 } else { w & 0x5ff }) }).collect();
        let ids: Vec<ReportId> = (0..ni).map(|_| s.limit(4) as u32).collect();
        let got = compile_multi_int(&e, &f, &ids, &mode, &grey);
        if n == 0 || nf != n || ni != n || n > grey.limit_pattern_count {
            let t = got.err().expect("batch: refused as a whole").to_string();
            assert!(!t.contains("in expression"), "batch: the error of the whole batch carries no index");
            return;
        }
        let mut first: Vec<(u32, bool)> = vec![];
        let mut bad: Option<(usize, Option<Refusal>)> = None;
        for i in 0..n {
            let b = f[i].bits();
            if e[i].len() > grey.limit_pattern_length || b & 0x500 == 0x500 { bad = Some((i, None)); break; }
            if let Err(r) = spec_parse(e[i], b & 1 != 0) { bad = Some((i, Some(r))); break; }
            let h = b & 8 != 0;
            match first.iter().find(|x| x.0 == ids[i]) {
                Some(x) if x.1 != h => { bad = Some((i, None)); break; }
                Some(_) => (),
                None => first.push((ids[i], h)),
            }
        }
        match (bad, got) {
            (None, Ok(_)) => (),
            (Some((i, r)), Err(t)) => {
                let t = t.to_string();
                let tail = format!(" in expression {}", i);
                assert!(t.ends_with(&tail), "batch: the first failing expression is {}: {:?} of {:?}", i, t, p);
                let body = &t[..t.len() - tail.len()];
                if let Some(r) = r { assert!(says(body, &r), "batch: the error is that of the first failing expression: {:?}", t); }
                else { assert!(!body.to_lowercase().contains("parenthes") && !body.to_lowercase().contains("ascii") && !body.contains("verb"), "batch: the error is that of the first failing expression: {:?}", t); }
            }
            (b, g) => panic!("batch: {:?} flags {:?} ids {:?}: expected the failure {:?}, got {:?}", p, f, ids, b, g.map(|_| "success").map_err(|e| e.to_string())),
        }
    }
    /// Some hundreds, each with its own id or sharing it, of which one may be at odds with the rest.
    #[cfg(not(kani))]
    fn middle_batch<S: Src>(s: &mut S) {
        let n = 1 + s.u8() as usize + s.u8() as usize * (s.u8() as usize % 5);
        let at = if s.flag() { n - 1 - s.u8() as usize % n.min(4) } else { (s.u8() as usize) << 8 | s.u8() as usize } % n;
        let (period, mul, single) = ([n, n, 128, 7, 1][s.u8() as usize % 5], [1_u32, 3, 0x1000, 0x1_0001][s.u8() as usize % 4], s.u8());
        let some = ["a", "b|c", "xyz", "", "(q)r", "(*UTF8)k"];
        let what = s.u8() % 6;
        // An id with or without SINGLEMATCH, for all that carry it.
        let of = |id: u32| if single & (1 << (id / mul % 8)) != 0 { Flags::SINGLEMATCH } else { Flags::empty() };
        let mut e: Vec<&str> = (0..n).map(|i| some[i % (1 + single as usize % 6)]).collect();
        let ids: Vec<ReportId> = (0..n).map(|i| (i % period) as u32 * mul).collect();
        let mut f: Vec<Flags> = ids.iter().map(|id| of(*id)).collect();
        let met = ids[..at].contains(&ids[at]);
        let bad = match what {
            0 => { e[at] = ")"; Some(at) }
            1 => { f[at] = f[at] ^ Flags::SINGLEMATCH; if met { Some(at) } else { ids[at + 1..].iter().position(|x| *x == ids[at]).map(|k| at + 1 + k) } }
            2 => { f[at] = f[at] | Flags::QUIET | Flags::SOM_LEFTMOST; Some(at) }
            3 => { e[at] = "(*CR)"; Some(at) }
            _ => None,
        };
        let got = compile_multi_int(&e, &f, &ids, &Mode::Block, &Grey::default());
        match (bad, got) {
            (None, Ok(_)) => (),
            (Some(i), Err(t)) => assert!(t.to_string().ends_with(&format!(" in expression {}", i)), "batch: the first failing expression of {} is {}: {}", n, i, t),
            (b, g) => panic!("batch of {}, ids every {} times {}: expected the failure {:?}, got {:?}", n, period, mul, b, g.map(|_| "success").map_err(|e| e.to_string())),
        }
    }
    /// More expressions than 16 bits can number.
    #[cfg(not(kani))]
    fn large_batch<S: Src>(s: &mut S) {
        let n = 65_560_usize;
        let at = 65_530 + s.u8() as usize % 30;
        let (mut e, mut f, mut ids) = (vec!["a"; n], vec![Flags::empty(); n], vec![3; n]);
        for i in 0..n { e[i] = ["a", "", "b|c", "xyz"][i % 4]; }
        match s.u8() % 4 { 0 => e[at] = ")", 1 => f[at] = Flags::SINGLEMATCH, 2 => f[at] = Flags::QUIET | Flags::SOM_LEFTMOST, _ => ids[at] = 9 }
        let got = compile_multi_int(&e, &f, &ids, &Mode::Block, &Grey::default());
        match got {
            Ok(_) => assert!(ids[at] == 9, "batch: the first failing expression is {}", at),
            Err(t) => assert!(ids[at] != 9 && t.to_string().ends_with(&format!(" in expression {}", at)), "batch: the first failing expression is {}: {}", at, t),
        }
    }
    /// The documented entry points, with the default limits.
    #[cfg(not(kani))]
    fn single<S: Src>(s: &mut S) {
        let k = s.u8();
        let mut p = any_pattern(s);
        if k % 16 == 0 {
            let want = 15_999 + s.u8() as usize % 3;
            while p.len() < want { p.push('a'); }
        }
        let f = Flags::from_bits_truncate(s.u16() & if s.flag() { 0x9 } else { 0x5ff });
        let b = f.bits();
        let ok = p.len() <= 16_000 && b & 0x500 != 0x500 && spec_parse(&p, b & 1 != 0).is_ok();
        let got = compile(&p, f, &Mode::Block);
        assert!(got.is_ok() == ok, "compile: {:?} is {}", p, if ok { "accepted" } else { "refused" });
        if let Err(e) = got { assert!(e.to_string().ends_with(" in expression 0"), "compile: the error carries index 0"); }
        let got = compile_multi(&[&p], &[f], &[7], &Mode::Vectored);
        assert!(got.is_ok() == ok, "compile_multi: as compile");
    }
    #[cfg(kani)]
    contracts! { rescan_verif_lib; mode_queries [8]; parse_mode_flags [8]; }
    #[cfg(not(kani))]
    contracts! { rescan_verif_lib; mode_queries [8]; parse_mode_flags [8]; batch [1]; single [1]; middle_batch [1]; large_batch [1]; }
}
