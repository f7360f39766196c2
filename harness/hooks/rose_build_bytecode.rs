#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::{rose::{RoseBuild, RoseResources, RoseRuntimeImpl}, util::CompileContext};
    use crate::grey::Grey;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));

    fn context<S: Src>(s: &mut S) -> CompileContext {
        CompileContext { streaming: s.flag(), vectored: s.flag(), grey: Grey::default() }
    }

    // C21
    fn implementation_matches_resources<S: Src>(s: &mut S) {
        let cc = context(s);
        let mut r = RoseResources::default();
        r.has_outfixes = s.flag();
        r.has_suffixes = s.flag();
        r.has_leftfixes = s.flag();
        r.has_literals = s.flag();
        r.has_states = s.flag();
        r.checks_groups = s.flag();
        r.has_lit_delay = s.flag();
        r.has_lit_check = s.flag();
        r.has_anchored = s.flag();
        r.has_anchored_multiple = s.flag();
        r.has_anchored_large = s.flag();
        r.has_floating = s.flag();
        r.has_eod = s.flag();
        let build = RoseBuild { cc: &cc, has_som: s.flag() };
        let other = r.has_outfixes | r.has_suffixes | r.has_leftfixes | r.has_anchored | r.has_eod | r.has_states
            | r.has_lit_delay | r.checks_groups;
        let pure = r.has_floating & !other & !(cc.streaming & r.has_lit_check);
        let got = pick_runtime_impl(&build, &r);
        assert!(matches!(got, RoseRuntimeImpl::PureLiteral) == pure, "pick_runtime_impl: pure literal iff only floating literals");
        assert!(matches!(got, RoseRuntimeImpl::FullRose) == !pure, "pick_runtime_impl: full engine otherwise");
    }

    // C20
    fn engine_carries_mode<S: Src>(s: &mut S) {
        let cc = context(s);
        s.assume(cc.streaming || !cc.vectored);
        let build = RoseBuild { cc: &cc, has_som: s.flag() };
        let e = build.build_rose();
        let m = &e.mode;
        assert!(matches!(m, crate::Mode::Vectored) == cc.vectored, "engine mode: vectored iff asked for");
        assert!(matches!(m, crate::Mode::Block) == !cc.streaming, "engine mode: block iff not streaming");
        assert!(matches!(m, crate::Mode::Stream(_)) == (cc.streaming && !cc.vectored), "engine mode: stream iff asked for");
    }
    // C21
    fn scan_is_safe<S: Src>(s: &mut S) {
        let k = s.u8();
        let rt = match k % 3 { 0 => RoseRuntimeImpl::FullRose, 1 => RoseRuntimeImpl::PureLiteral, _ => RoseRuntimeImpl::SingleOutfix };
        let kept = k % 3;
        let mode = match s.u8() % 3 { 0 => crate::Mode::Block, 1 => crate::Mode::Stream(None), _ => crate::Mode::Vectored };
        let db = crate::Database::new(crate::rose::RoseEngine { runtime_impl: rt, mode });
        let data = [s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8(), s.u8()];
        let copy = data;
        let n = s.u8() as usize;
        s.assume(n <= 8);
        let mut state = [s.u8(); 4];
        // Scratch space without a state (a block-mode engine has none), or with one.
        let with = s.flag();
        let mut scratch = crate::Scratch {
            core_info: crate::scratch::CoreInfo { state: if with { state.as_mut_ptr() } else { std::ptr::null_mut() } },
        };
        let r = crate::scan(&db, &data[..n], &mut scratch);
        assert!(r.is_ok(), "scan: succeeds");
        assert!(data == copy, "scan: the data is untouched");
        let e = crate::database::get_bytecode(&db);
        let now = match e.runtime_impl { RoseRuntimeImpl::FullRose => 0, RoseRuntimeImpl::PureLiteral => 1, RoseRuntimeImpl::SingleOutfix => 2 };
        assert!(now == kept, "scan: the database is untouched");
    }
    contracts! { rescan_verif_rose; scan_is_safe [10]; implementation_matches_resources [4]; engine_carries_mode [4]; }
}
