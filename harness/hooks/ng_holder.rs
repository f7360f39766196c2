#[cfg(not(kani))]
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    use super::*;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));

    // C18
    fn fresh<S: Src>(s: &mut S) {
        let g = NgHolder::new();
        let sp = [g.start, g.start_ds, g.accept, g.accept_eod];
        assert!(g.num_vertices() == 4, "new: the four special positions");
        for i in 0..4 {
            for j in 0..i { assert!(sp[i] != sp[j], "new: special positions are distinct"); }
            let c = s.u8();
            assert!(g[sp[i]].char_reach.test(c) == (i < 2), "new: starts accept every byte, accepts none");
            assert!(g[sp[i]].reports.is_empty() && g[sp[i]].assert_flags.is_empty(), "new: no reports, no flags");
        }
        assert!(!g.is_vacuous(), "new: not vacuous");
        assert!(g.all_reports().is_empty(), "new: no reports");
    }
    fn queries<S: Src>(s: &mut S) {
        let mut g = NgHolder::new();
        let extra = s.size(5);
        for k in 0..extra {
            let v = g.add_vertex();
            assert!(v.index() == 4 + k && g.num_vertices() == 5 + k, "add_vertex: one more position");
            assert!(g[v].char_reach.none() && g[v].reports.is_empty() && g[v].assert_flags.is_empty(), "add_vertex: without bytes, reports, flags");
        }
        let n = g.num_vertices();
        for i in 0..n {
            for _ in 0..s.u8() % 3 { let r = match s.u8() { 200 => s.u32(), k => k as u32 % 16 }; g[NfaVertex::new(i)].reports.insert(r); }
        }
        let mut edges = vec![(g.start, g.start_ds), (g.start_ds, g.start_ds), (g.accept, g.accept_eod)];
        for _ in 0..s.u8() % 5 {
            let (a, b) = (NfaVertex::new(s.u8() as usize % n), NfaVertex::new(s.u8() as usize % n));
            g.inner.add_edge(a, b, NfaGraphEdgeProps::default());
            edges.push((a, b));
        }
        let vac = edges.iter().any(|(a, b)| (*a == g.start || *a == g.start_ds) && (*b == g.accept || *b == g.accept_eod));
        assert!(g.is_vacuous() == vac, "is_vacuous: iff an edge from a start to an accept");
        let mut want: Vec<u32> = edges.iter().filter(|(_, b)| *b == g.accept || *b == g.accept_eod)
            .flat_map(|(a, _)| g[*a].reports.iter().copied().collect::<Vec<_>>()).collect();
        want.sort();
        want.dedup();
        let mut got: Vec<u32> = g.all_reports().into_iter().collect();
        got.sort();
        assert!(got == want, "all_reports: the reports of the positions leading to an accept");
    }
    #[no_mangle]
    pub(crate) fn rescan_verif_holder_state(g: &NgHolder) -> Vec<(Vec<u8>, usize, u32)> {
        g.inner.node_indices().map(|i| ((0..=255).filter(|c| g[i].char_reach.test(*c)).collect(), g[i].reports.len(), g[i].assert_flags.bits())).collect()
    }
    contracts! { rescan_verif_ng_holder; fresh [1]; queries [1]; }
}
