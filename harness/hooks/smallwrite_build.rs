#[cfg(not(kani))]
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use crate::util::{CompileContext, ReportId, Ue2Literal};
    use petgraph::{graph::NodeIndex, Direction};
    use crate::grey::Grey;
    use petgraph::visit::EdgeRef;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    type L = Vec<(u8, bool)>;
    /// (path, reports) of every node, by path.
    type Nodes = Vec<(Vec<u8>, Vec<ReportId>)>;

    fn upper(v: &L) -> Vec<u8> { v.iter().map(|(c, nc)| if *nc && (97..=122).contains(c) { c - 32 } else { *c }).collect() }
    fn build(v: &L) -> Ue2Literal {
        let mut l = Ue2Literal::default();
        for (c, nc) in v { l.push(*c, *nc); }
        l
    }
    fn nodes(t: &LitTrie) -> Nodes {
        let mut out: Nodes = vec![];
        let mut todo = vec![(t.root, vec![])];
        let mut seen = 0;
        while let Some((u, path)) = todo.pop() {
            seen += 1;
            assert!(seen <= t.inner.node_count(), "trie: a tree");
            let mut r: Vec<ReportId> = t.inner[u].reports.iter().copied().collect();
            r.sort();
            let mut bytes: Vec<u8> = vec![];
            for e in t.inner.edges_directed(u, Direction::Outgoing) {
                let c = t.inner[e.target()].c;
                assert!(!bytes.contains(&c), "trie: no two children for the same byte");
                bytes.push(c);
                let mut p = path.clone();
                p.push(c);
                todo.push((e.target(), p));
            }
            out.push((path, r));
        }
        assert!(seen == t.inner.node_count(), "trie: every node is reachable from the root");
        assert!(t.inner.edge_count() + 1 == t.inner.node_count(), "trie: one edge per child");
        out.sort();
        out
    }
    #[derive(Clone, Default, PartialEq, Debug)]
    pub(crate) struct Model { items: Vec<(Vec<u8>, ReportId)> }
    impl Model {
        fn nodes(&self) -> Nodes {
            let mut paths: Vec<Vec<u8>> = vec![vec![]];
            for (b, _) in &self.items { for k in 0..=b.len() { paths.push(b[..k].to_vec()); } }
            paths.sort();
            paths.dedup();
            paths.into_iter().map(|p| {
                let mut r: Vec<ReportId> = self.items.iter().filter(|(b, _)| *b == p).map(|x| x.1).collect();
                r.sort();
                r.dedup();
                (p, r)
            }).collect()
        }
    }
    fn any<S: Src>(s: &mut S) -> L {
        let n = match s.u8() % 8 { 0 => s.size(40), 1 => 0, k => k as usize };
        let kind = s.u8() % 3;
        (0..n).map(|_| {
            let c = match s.u8() % 9 { 0 => s.u8(), 1 => 0, k => b"xxabABa"[k as usize - 2] };
            (c, match kind { 0 => false, 1 => true, _ => s.flag() })
        }).collect()
    }

    // C16
    fn trie_history<S: Src>(s: &mut S) {
        let mut t = LitTrie::default();
        let mut m = Model::default();
        assert!(nodes(&t) == m.nodes(), "trie: a fresh trie has the root alone, without reports");
        assert!(t.is_empty(), "trie: a fresh trie is empty");
        let steps = s.size(10);
        for step in 0..steps {
            let check = steps < 12 || step + 1 == steps || step % 100 == 40;
            let mut v = any(s);
            if steps >= 12 { v.truncate(4); }
            if s.u8() % 3 == 0 && !m.items.is_empty() { v = m.items[s.u8() as usize % m.items.len()].0.iter().map(|c| (*c, false)).collect(); }
            let (v, r) = (v, match s.u8() % 8 { 0 => s.u32(), k => k as u32 + 8 * (step as u32 % 7) });
            let before: Vec<(u8, usize)> = t.inner.node_indices().map(|i| (t.inner[i].c, i.index())).collect();
            let ok = add_to_trie(&build(&v), r, &mut t);
            m.items.push((upper(&v), r));
            if check { assert!(nodes(&t) == m.nodes(), "trie: exactly the added literals: {:?} is {:?}", m, nodes(&t)); }
            for (c, i) in before { assert!(t.inner[NodeIndex::new(i)].c == c, "trie: nodes keep their byte"); }
            assert!(ok == (t.inner.node_count() <= MAX_TRIE_VERTICES), "trie: tells whether it is within the limit");
            assert!(t.is_empty() == (t.inner.node_count() == 1), "trie: empty iff the root alone");
        }
        let mut all: Vec<_> = t.all_reports().into_iter().collect();
        all.sort();
        let mut want: Vec<_> = m.items.iter().map(|x| x.1).collect();
        want.sort();
        want.dedup();
        assert!(all == want, "trie: all_reports");
    }
    fn trie_wide<S: Src>(s: &mut S) {
        // A node with up to all the children there can be, met in any order, and met again.
        let mut t = LitTrie::default();
        let mut m = Model::default();
        let (depth, times, by, from, nc) = (s.u8() as usize % 4, s.u8() as usize + s.u8() as usize, s.u8() | 1, s.u8(), s.u8() % 4 == 0);
        let tail = s.u8() as usize % 3;
        for i in 0..times {
            let mut v: L = (0..depth).map(|k| (k as u8, nc)).collect();
            v.push(((i as u8).wrapping_mul(by).wrapping_add(from), nc));
            for _ in 0..tail { v.push((from, nc)); }
            let r = i as u32 % 3;
            add_to_trie(&build(&v), r, &mut t);
            m.items.push((upper(&v), r));
        }
        assert!(nodes(&t) == m.nodes(), "trie: exactly the added literals, {} times {:?}", times, (depth, by, from, nc, tail));
    }
    fn trie_limit<S: Src>(s: &mut S) {
        // Grows a trie to around the limit (8000 nodes) with long distinct literals.
        let mut t = LitTrie::default();
        let mut count = 1_usize;
        let step = 700 + s.u8() as usize;
        for i in 0..14_usize {
            let n = if count < 8000 && 8000 - count <= step + 2 { 8000 - count + (s.u8() as usize % 3) } else { step };
            if n < 2 { break; }
            let mut v: L = vec![(i as u8 + 1, false)];
            for _ in 1..n { v.push((7, false)); }
            let ok = add_to_trie(&build(&v), 3, &mut t);
            count += n;
            assert!(t.inner.node_count() == count, "trie: one node per new byte");
            assert!(ok == (count <= 8000), "trie: tells whether it is within the limit");
        }
    }
    // C17
    fn builder_history<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        grey.allow_small_write = s.u8() % 8 != 0;
        grey.small_write_largest_buffer = s.limit(9);
        grey.small_write_max_patterns = s.limit(4);
        grey.small_write_max_literals = s.limit(8);
        let n = s.limit(5);
        let cc = CompileContext { streaming: s.flag(), vectored: s.flag(), grey };
        let mut b = SmallWriteBuild::new(n, &cc);
        let g = &cc.grey;
        let mut poisoned = !g.allow_small_write || n > g.small_write_max_patterns;
        let (mut cs, mut nc, mut count) = (Model::default(), Model::default(), 0);
        for _ in 0..=s.u8() % 12 {
            let st = rescan_verif_smwr_state(&b);
            assert!(st.3 == poisoned, "small-write: disabled exactly when it should be: {} {:?}", st.3, (g.allow_small_write, n));
            assert!(st.0 == cs.nodes() && st.1 == nc.nodes(), "small-write: the literals of each trie");
            if !poisoned { assert!(st.2 == count, "small-write: the number of literals"); }
            let r = s.u8() as u32 % 5;
            let v = any(s);
            b.add_literal(&build(&v), r);
            if poisoned {
                let again = rescan_verif_smwr_state(&b);
                assert!(again == st, "small-write: nothing changes once disabled");
                continue;
            }
            if v.len() > g.small_write_largest_buffer { continue; }
            count += 1;
            if count > g.small_write_max_literals { poisoned = true; continue; }
            if v.iter().any(|e| e.1) { nc.items.push((upper(&v), r)) } else { cs.items.push((upper(&v), r)) }
        }
    }
    /// Many short literals, around the number that is allowed.
    fn builder_many<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        grey.small_write_max_literals = match s.u8() % 8 { 0 => Grey::default().small_write_max_literals, 1 => 66_000, 2 | 3 => s.u16() as usize % 5000, _ => s.u8() as usize * 2 };
        let max = grey.small_write_max_literals;
        let cc = CompileContext { streaming: false, vectored: false, grey };
        let mut b = SmallWriteBuild::new(1, &cc);
        let (from, nc) = (s.u8(), s.u8() % 3 == 0);
        for i in 0..max + 3 {
            b.add_literal(&build(&vec![(from.wrapping_add((i % 3) as u8), nc)]), (i % 2) as u32);
            assert!(b.poisoned == (i >= max), "small-write: disabled exactly after {} literals, not {}", max, i + 1);
            if i < max { assert!(b.num_literals == i + 1, "small-write: the number of literals"); }
        }
    }
    fn builder_trie_limit<S: Src>(s: &mut S) {
        let mut grey = Grey::default();
        grey.small_write_largest_buffer = 5000;
        let cc = CompileContext { streaming: false, vectored: false, grey };
        let mut b = SmallWriteBuild::new(1, &cc);
        let nc = s.flag();
        let mut count = 1_usize;
        for i in 0..4_u8 {
            let n = 2600 + s.u8() as usize;
            b.add_literal(&build(&(0..n).map(|k| (if k == 0 { i } else { 9 }, nc)).collect()), 1);
            if count <= 8000 { count += n; }
            assert!(b.poisoned == (count > 8000), "small-write: disabled when the trie exceeds its size");
        }
    }
    #[no_mangle]
    pub(crate) fn rescan_verif_smwr_state(b: &SmallWriteBuild) -> (Nodes, Nodes, usize, bool) {
        (nodes(&b.lit_trie), nodes(&b.lit_trie_nocase), b.num_literals, b.poisoned)
    }
    contracts! { rescan_verif_smallwrite; trie_history [1]; trie_wide [1]; trie_limit [1]; builder_history [1]; builder_many [1]; builder_trie_limit [1]; }
}
