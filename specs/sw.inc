@type smallwrite/smallwrite_build.rs MAX_TRIE_VERTICES
@end
@type smallwrite/smallwrite_build.rs LitTrieVertexProps
@end
@type smallwrite/smallwrite_build.rs LitTrieEdgeProps
@end
@type smallwrite/smallwrite_build.rs LitTrieVertex
@end
@type smallwrite/smallwrite_build.rs LitTrie
@end
@graph trie.inner self.inner g inner
@mutating insert

@raw
pub open spec fn bytes(l: Ue2Literal) -> Seq<u8> { l.s@ }
/// The parent of node `v`: node `k + 1` was added together with edge `k`.
pub open spec fn parent(t: LitTrie, v: int) -> int { t.inner.edges()[v - 1].0 }
pub open spec fn byte(t: LitTrie, v: int) -> u8 { t.inner.nodes()[v].c }
pub open spec fn reports(t: LitTrie, v: int) -> Set<ReportId> { t.inner.nodes()[v].reports@ }
pub open spec fn size(t: LitTrie) -> int { t.inner.nodes().len() as int }
/// A tree from node 0, in which no node has two children for the same byte.
pub open spec fn tree(t: LitTrie) -> bool {
    &&& t.root.i == 0
    &&& size(t) >= 1
    &&& t.inner.edges().len() == size(t) - 1
    &&& forall|v: int| 1 <= v < size(t) ==> 0 <= #[trigger] parent(t, v) < v && t.inner.edges()[v - 1].1 == v
    &&& forall|v: int, w: int| 1 <= v < w < size(t) && #[trigger] parent(t, v) == #[trigger] parent(t, w) ==> byte(t, v) != byte(t, w)
}
/// The byte string spelled by the way from the root to `v`.
pub open spec fn path(t: LitTrie, v: int) -> Seq<u8>
    decreases v
{
    if v <= 0 || !(0 <= parent(t, v) < v) { seq![] } else { path(t, parent(t, v)).push(byte(t, v)) }
}
/// `t` has the nodes of `o`, with the same bytes and at the same place.
pub open spec fn extends(t: LitTrie, o: LitTrie) -> bool {
    &&& size(t) >= size(o)
    &&& forall|v: int| 0 <= v < size(o) ==> byte(t, v) == #[trigger] byte(o, v)
    &&& forall|v: int| 1 <= v < size(o) ==> parent(t, v) == #[trigger] parent(o, v)
}
pub proof fn path_extends(t: LitTrie, o: LitTrie, v: int)
    requires tree(o), tree(t), extends(t, o), 0 <= v < size(o)
    ensures path(t, v) == path(o, v)
    decreases v
{
    if v > 0 { assert(0 <= parent(o, v) < v); assert(parent(t, v) == parent(o, v)); path_extends(t, o, parent(o, v)); }
}
/// Different nodes spell different strings.
pub proof fn path_injective(t: LitTrie, v: int, w: int)
    requires tree(t), 0 <= v < size(t), 0 <= w < size(t), path(t, v) == path(t, w)
    ensures v == w
    decreases v + w
{
    path_len(t, v); path_len(t, w);
    if v > 0 && w > 0 {
        let (p, q) = (parent(t, v), parent(t, w));
        assert(path(t, v) == path(t, p).push(byte(t, v)));
        assert(path(t, w) == path(t, q).push(byte(t, w)));
        assert(path(t, p) =~= path(t, v).drop_last());
        assert(path(t, q) =~= path(t, w).drop_last());
        assert(path(t, v).last() == byte(t, v) && path(t, w).last() == byte(t, w));
        path_injective(t, p, q);
    }
}
pub proof fn path_len(t: LitTrie, v: int)
    requires tree(t), 0 <= v < size(t)
    ensures v > 0 ==> path(t, v).len() > 0 && path(t, v) == path(t, parent(t, v)).push(byte(t, v)), v == 0 ==> path(t, v).len() == 0
{
    if v > 0 { assert(0 <= parent(t, v) < v); }
}
/// What one insertion does.
pub open spec fn inserted(o: LitTrie, t: LitTrie, l: Seq<u8>, rep: ReportId) -> bool {
    &&& tree(t) && extends(t, o) && size(t) <= size(o) + l.len()
    &&& exists|v: int| 0 <= v < size(t) && #[trigger] path(t, v) == l
    &&& forall|v: int| 0 <= v < size(o) ==> #[trigger] reports(t, v) == (if path(t, v) == l { reports(o, v).insert(rep) } else { reports(o, v) })
    &&& forall|v: int| size(o) <= v < size(t) ==> #[trigger] reports(t, v) == (if path(t, v) == l { set![rep] } else { Set::empty() })
    &&& forall|v: int| size(o) <= v < size(t) ==> (#[trigger] path(t, v)).is_prefix_of(l)
}
/// On the way: the nodes so far spell prefixes of `l`, without reports yet.
pub open spec fn grown(o: LitTrie, t: LitTrie, l: Seq<u8>) -> bool {
    &&& tree(t) && extends(t, o) && size(t) <= size(o) + l.len()
    &&& forall|v: int| 0 <= v < size(o) ==> #[trigger] reports(t, v) == reports(o, v)
    &&& forall|v: int| size(o) <= v < size(t) ==> #[trigger] reports(t, v) == Set::<ReportId>::empty()
    &&& forall|v: int| size(o) <= v < size(t) ==> (#[trigger] path(t, v)).is_prefix_of(l)
}
/// The string is a prefix of one of the set.
pub open spec fn starts_one(s: Seq<u8>, h: Set<(Seq<u8>, ReportId)>) -> bool { exists|x: (Seq<u8>, ReportId)| #[trigger] h.contains(x) && s.is_prefix_of(x.0) }
/// The trie holds exactly the set of pairs.
pub open spec fn holds(t: LitTrie, h: Set<(Seq<u8>, ReportId)>) -> bool {
    &&& tree(t)
    &&& forall|v: int, r: ReportId| 0 <= v < size(t) ==> (#[trigger] reports(t, v).contains(r) <==> h.contains((path(t, v), r)))
    &&& forall|x: (Seq<u8>, ReportId)| #[trigger] h.contains(x) ==> exists|v: int| 0 <= v < size(t) && #[trigger] path(t, v) == x.0
    &&& forall|v: int| 0 < v < size(t) ==> #[trigger] starts_one(path(t, v), h)
}
/// C16 over histories: an insertion keeps `holds`, with the pair added.
pub proof fn insertion(o: LitTrie, t: LitTrie, l: Seq<u8>, rep: ReportId, h: Set<(Seq<u8>, ReportId)>)
    requires holds(o, h), inserted(o, t, l, rep)
    ensures holds(t, h.insert((l, rep)))
{
    let h2 = h.insert((l, rep));
    assert forall|v: int, r: ReportId| 0 <= v < size(t) implies (#[trigger] reports(t, v).contains(r) <==> h2.contains((path(t, v), r))) by {
        if v < size(o) {
            path_extends(t, o, v);
            assert(reports(o, v).contains(r) <==> h.contains((path(o, v), r)));
        } else if h.contains((path(t, v), r)) {
            // A new node spells a new string.
            let x = (path(t, v), r);
            let w = choose|w: int| 0 <= w < size(o) && #[trigger] path(o, w) == x.0;
            path_extends(t, o, w);
            path_injective(t, v, w);
        }
    }
    assert forall|x: (Seq<u8>, ReportId)| #[trigger] h2.contains(x) implies exists|v: int| 0 <= v < size(t) && #[trigger] path(t, v) == x.0 by {
        if h.contains(x) {
            let w = choose|w: int| 0 <= w < size(o) && #[trigger] path(o, w) == x.0;
            path_extends(t, o, w);
            assert(path(t, w) == x.0);
        }
    }
    assert forall|v: int| 0 < v < size(t) implies #[trigger] starts_one(path(t, v), h2) by {
        if v < size(o) {
            path_extends(t, o, v);
            assert(starts_one(path(o, v), h));
            let x = choose|x: (Seq<u8>, ReportId)| #[trigger] h.contains(x) && path(o, v).is_prefix_of(x.0);
            assert(h2.contains(x));
        } else { assert(h2.contains((l, rep))); }
    }
}
pub open spec fn empty_trie(t: LitTrie) -> bool { tree(t) && size(t) == 1 && reports(t, 0) == Set::<ReportId>::empty() }
pub open spec fn pairs(a: Seq<(Seq<u8>, ReportId)>) -> Set<(Seq<u8>, ReportId)>
    decreases a.len()
{
    if a.len() == 0 { Set::empty() } else { pairs(a.drop_last()).insert(a.last()) }
}
/// C16: after any sequence of insertions the trie holds exactly what was inserted.
pub proof fn any_history(t: Seq<LitTrie>, a: Seq<(Seq<u8>, ReportId)>)
    requires
        t.len() == a.len() + 1, empty_trie(t[0]),
        forall|i: int| 0 <= i < a.len() ==> #[trigger] inserted(t[i], t[i + 1], a[i].0, a[i].1),
    ensures holds(t.last(), pairs(a))
    decreases a.len()
{
    if a.len() > 0 {
        let n = a.len() - 1;
        assert forall|i: int| 0 <= i < n implies #[trigger] inserted(t.drop_last()[i], t.drop_last()[i + 1], a.drop_last()[i].0, a.drop_last()[i].1) by {
            assert(inserted(t[i], t[i + 1], a[i].0, a[i].1));
        }
        any_history(t.drop_last(), a.drop_last());
        assert(inserted(t[n], t[n + 1], a[n].0, a[n].1));
        insertion(t[n], t[n + 1], a[n].0, a[n].1, pairs(a.drop_last()));
    }
}
@end
@fn smallwrite/smallwrite_build.rs LitTrieVertexProps::with_byte
ensures r.c == c, r.reports@ == Set::<ReportId>::empty()
@end
@fn smallwrite/smallwrite_build.rs LitTrieVertexProps::default
ensures r.reports@ == Set::<ReportId>::empty()
@end
@fn smallwrite/smallwrite_build.rs LitTrie::default
ensures empty_trie(r)
@end
@fn smallwrite/smallwrite_build.rs LitTrie::is_empty
ensures r == (size(*self) == 1)
@end
@fn smallwrite/smallwrite_build.rs add_to_trie
requires
    tree(*old(trie)), literal.wf(),
    // Fewer than 2^32 nodes.
    size(*old(trie)) + literal.elems().len() < u32::MAX,
ensures
    inserted(*old(trie), *final(trie), bytes(*literal), report),
    r == (size(*final(trie)) <= 8000),
@closure 0 option_unwrap_or_else
@closure 1 find
@loop 0 iter
invariant
    vx_it0.lit == literal, literal.wf(), vx_it0.idx <= literal.elems().len(),
    u.i < size(*trie), path(*trie, u.i as int) == bytes(*literal).take(vx_it0.idx as int),
    grown(*old(trie), *trie, bytes(*literal)), size(*trie) <= size(*old(trie)) + vx_it0.idx,
    size(*old(trie)) + literal.elems().len() < u32::MAX,
ensures vx_it0.idx == literal.elems().len(),
decreases literal.elems().len() - vx_it0.idx,
@at loop 0 start
let ghost t0 = *trie;
let ghost u0 = u.i as int;
let ghost j = vx_it0.idx - 1;
proof {
    assert forall|a: int, b: int| #[trigger] trie.inner.edges().contains((a, b)) implies 1 <= b < size(*trie) by {
        let e = choose|e: int| 0 <= e < trie.inner.edges().len() && trie.inner.edges()[e] == (a, b);
        assert(parent(*trie, e + 1) >= 0);
    }
}
@at loop 0 end
proof {
    let l = bytes(*literal);
    let o = *old(trie);
    assert(literal.elems()[j].0 == c.c);
    assert(l.take(j + 1) =~= l.take(j).push(c.c));
    let n = size(t0);
    if size(*trie) == n {
        let e = choose|e: int| 0 <= e < t0.inner.edges().len() && t0.inner.edges()[e] == (u0, u.i as int);
        assert(parent(t0, e + 1) >= 0);
        path_len(*trie, u.i as int);
    } else {
        let t = *trie;
        assert forall|v: int| 1 <= v < size(t) implies 0 <= #[trigger] parent(t, v) < v && t.inner.edges()[v - 1].1 == v by {
            if v < n { assert(parent(t0, v) == parent(t, v)); }
        }
        assert forall|v: int, w: int| 1 <= v < w < size(t) && #[trigger] parent(t, v) == #[trigger] parent(t, w) implies byte(t, v) != byte(t, w) by {
            assert(parent(t0, v) == parent(t, v));
            if w < n { assert(parent(t0, w) == parent(t, w)); }
            else { assert(t0.inner.edges()[v - 1] == (u0, v)); assert(t0.inner.edges().contains((u0, v))); }
        }
        assert(tree(t));
        assert forall|v: int| 1 <= v < n implies parent(t, v) == #[trigger] parent(t0, v) by { }
        assert(extends(t, t0));
        path_extends(t, t0, u0);
        path_len(t, n);
        assert(path(t, n) =~= l.take(j + 1));
        assert forall|v: int| size(o) <= v < size(t) implies (#[trigger] path(t, v)).is_prefix_of(l) by {
            if v < n { path_extends(t, t0, v); }
        }
        assert(extends(t, o)) by {
            assert forall|v: int| 0 <= v < size(o) implies byte(t, v) == #[trigger] byte(o, v) by { assert(byte(t0, v) == byte(o, v)); }
            assert forall|v: int| 1 <= v < size(o) implies parent(t, v) == #[trigger] parent(o, v) by { assert(parent(t0, v) == parent(o, v)); }
        }
        assert forall|v: int| 0 <= v < size(o) implies #[trigger] reports(t, v) == reports(o, v) by { assert(reports(t0, v) == reports(o, v)); }
        assert forall|v: int| size(o) <= v < size(t) implies #[trigger] reports(t, v) == Set::<ReportId>::empty() by { if v < n { assert(reports(t0, v) == Set::<ReportId>::empty()); } }
    }
}
@at after loop 0
let ghost t1 = *trie;
@at tail
proof {
    let l = bytes(*literal);
    let t = *trie;
    let o = *old(trie);
    assert(l.take(l.len() as int) =~= l);
    assert forall|v: int| 0 <= v < size(t) implies byte(t, v) == byte(t1, v) && reports(t, v) == (if v == u.i { reports(t1, v).insert(report) } else { reports(t1, v) }) by { }
    assert(extends(t, t1));
    assert forall|v: int| 1 <= v < size(t) implies 0 <= #[trigger] parent(t, v) < v && t.inner.edges()[v - 1].1 == v by { assert(parent(t1, v) == parent(t, v)); }
    assert forall|v: int, w: int| 1 <= v < w < size(t) && #[trigger] parent(t, v) == #[trigger] parent(t, w) implies byte(t, v) != byte(t, w) by {
        assert(parent(t1, v) == parent(t, v) && parent(t1, w) == parent(t, w));
    }
    assert(tree(t));
    assert forall|v: int| 0 <= v < size(t) implies path(t, v) == path(t1, v) && (path(t, v) == l) == (v == u.i) by {
        path_extends(t, t1, v);
        if path(t1, v) == l { path_injective(t1, v, u.i as int); }
    }
    assert forall|v: int| 0 <= v < size(o) implies byte(t, v) == #[trigger] byte(o, v) by { assert(byte(t1, v) == byte(o, v)); }
    assert forall|v: int| 1 <= v < size(o) implies parent(t, v) == #[trigger] parent(o, v) by { assert(parent(t1, v) == parent(o, v)); }
}
@loop c1 LitTrieVertex
invariant
    forall|a: int, b: int| #[trigger] trie.inner.edges().contains((a, b)) ==> 1 <= b < size(*trie),
    forall|k: int| 0 <= k < vx_it1.rest().len() ==> trie.inner.edges().contains((u.i as int, (#[trigger] vx_it1.rest()[k]).i as int)),
    tree(*trie),
    match vx_r1 {
        Some(v) => !vx_go1 && trie.inner.edges().contains((u.i as int, v.i as int)) && v.i < size(*trie) && byte(*trie, v.i as int) == c.c,
        None => forall|v: int| #[trigger] trie.inner.edges().contains((u.i as int, v)) && byte(*trie, v) == c.c ==> listed(vx_it1.rest(), v),
    },
    vx_go1 || vx_r1 is Some || vx_it1.rest().len() == 0,
decreases vx_it1.rest().len() + (if vx_go1 { 1int } else { 0 }),
@at loop c1 start
let ghost rest0 = vx_it1.rest();
proof { if rest0.len() > 0 { assert(trie.inner.edges().contains((u.i as int, rest0[0].i as int))); } }
@at loop c1 end
proof {
    assert forall|k: int| 0 <= k < vx_it1.rest().len() implies trie.inner.edges().contains((u.i as int, (#[trigger] vx_it1.rest()[k]).i as int)) by {
        if rest0.len() > 0 { assert(vx_it1.rest()[k] == rest0[k + 1]); }
    }
    if vx_r1 is None && rest0.len() > 0 {
        assert forall|v: int| #[trigger] trie.inner.edges().contains((u.i as int, v)) && byte(*trie, v) == c.c implies listed(vx_it1.rest(), v) by {
            assert(listed(rest0, v));
            listed_rest(rest0, v);
        }
    }
}
@end
