# The graph of crate petgraph, as linked: discharges the contracts stated on it in graph.inc.
# Read from the crate's source; weights are of types N and E that nothing is known about, the graph is directed and indexed by u32
# (the parameters' defaults).
@include common.inc
@raw
use std::marker::PhantomData;
use core::ops::Range;
#[verifier::external_body]
pub struct N { x: u8 }
#[verifier::external_body]
pub struct E { x: u8 }
pub struct Directed { }
type Ty = Directed;
type Ix = u32;
use Direction::*;
pub trait IndexType: Sized {
    spec fn of(x: usize) -> Self;
    spec fn at(&self) -> usize;
    spec fn most() -> Self;
    fn new(x: usize) -> (r: Self) ensures r == Self::of(x);
    fn index(&self) -> (r: usize) ensures r == self.at();
    fn max() -> (r: Self) ensures r == Self::most();
}
/// `unsafe impl IndexType for u32`, as it stands there.
impl IndexType for u32 {
    open spec fn of(x: usize) -> u32 { x as u32 }
    open spec fn at(&self) -> usize { *self as usize }
    open spec fn most() -> u32 { u32::MAX }
    fn new(x: usize) -> u32 { x as u32 }
    fn index(&self) -> usize { *self as usize }
    fn max() -> u32 { u32::MAX }
}
pub trait EdgeType { spec fn yes() -> bool; fn is_directed() -> (r: bool) ensures r == Self::yes(); }
impl EdgeType for Directed { open spec fn yes() -> bool { true } fn is_directed() -> bool { true } }
@end
@type graph_impl/mod.rs DefaultIx
@end
@type lib.rs Direction Copy +Clone PartialEq Eq +Structural
@end
@type graph_impl/mod.rs NodeIndex Copy Clone PartialEq Eq +Structural
@edit NodeIndex<Ix = DefaultIx>(Ix) ==> NodeIndex<Ix = DefaultIx>(pub Ix)
@end
@type graph_impl/mod.rs EdgeIndex Copy Clone PartialEq Eq +Structural
@edit EdgeIndex<Ix = DefaultIx>(Ix) ==> EdgeIndex<Ix = DefaultIx>(pub Ix)
@end
@type graph_impl/mod.rs Node
@end
@type graph_impl/mod.rs Edge
@end
@type graph_impl/mod.rs Graph
@end
@type graph_impl/mod.rs Pair
@end
@type graph_impl/mod.rs Neighbors
@edit &'a [Edge<E, Ix>] ==> &'a Vec<Edge<E, Ix>>
@end
@type graph_impl/mod.rs NodeIndices
@edit PhantomData<fn() -> Ix> ==> PhantomData<Ix>
@end
@raw
impl NodeIndices<Ix> {
    /// As node_indices makes them.
    pub open spec fn wf(&self) -> bool { self.r.start <= self.r.end <= u32::MAX }
    pub open spec fn rest(&self) -> Seq<NodeIndex<Ix>> { Seq::new((self.r.end - self.r.start) as nat, |i: int| NodeIndex((self.r.start + i) as u32)) }
}
@end
@raw
/// The greatest of the first `m` edges that end (k = 1) or begin (k = 0) at v; 2^32 - 1 when there is none.
pub open spec fn last(es: Seq<Edge<E, Ix>>, v: int, k: int, m: int) -> int decreases m {
    if m <= 0 { u32::MAX as int } else if es[m - 1].node[k].0 == v { m - 1 } else { last(es, v, k, m - 1) }
}
/// What a walk along `next[k]` from edge e meets: the other ends.
pub open spec fn walk(es: Seq<Edge<E, Ix>>, k: int, e: int) -> Seq<NodeIndex<Ix>> decreases e {
    if 0 <= e < es.len() && (es[e].next[k].0 < e || es[e].next[k].0 == u32::MAX) {
        seq![es[e].node[1 - k]] + (if es[e].next[k].0 < e { walk(es, k, es[e].next[k].0 as int) } else { seq![] })
    } else { seq![] }
}
pub open spec fn linked(es: Seq<Edge<E, Ix>>) -> bool {
    &&& es.len() <= u32::MAX
    &&& forall|e: int, k: int| 0 <= e < es.len() && 0 <= k < 2 ==> (#[trigger] es[e].next[k]).0 == last(es, es[e].node[k].0 as int, k, e)
}
pub open spec fn listed(s: Seq<NodeIndex<u32>>, v: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == v }
impl Graph<N, E, Ty, Ix> {
    pub open spec fn wf(&self) -> bool {
        &&& linked(self.edges@)
        &&& self.nodes@.len() <= u32::MAX
        &&& forall|e: int, k: int| 0 <= e < self.edges@.len() && 0 <= k < 2 ==> (#[trigger] self.edges@[e].node[k]).0 < self.nodes@.len()
        &&& forall|v: int, k: int| 0 <= v < self.nodes@.len() && 0 <= k < 2 ==> (#[trigger] self.nodes@[v].next[k]).0 == last(self.edges@, v, k, self.edges@.len() as int)
    }
    pub open spec fn gnodes(&self) -> Seq<N> { Seq::new(self.nodes@.len(), |i: int| self.nodes@[i].weight) }
    pub open spec fn gedges(&self) -> Seq<(int, int)> { Seq::new(self.edges@.len(), |i: int| (self.edges@[i].node[0].0 as int, self.edges@[i].node[1].0 as int)) }
}
impl<'a> Neighbors<'a, E, Ix> {
    /// As neighbors_directed makes them: along one of the two lists only.
    pub open spec fn wf(&self) -> bool {
        &&& linked(self.edges@)
        &&& self.skip_start.0 == u32::MAX
        &&& forall|e: int| 0 <= e < self.edges@.len() ==> (#[trigger] self.edges@[e].node[0]).0 < u32::MAX
        &&& self.next[0].0 == u32::MAX || self.next[1].0 == u32::MAX
        &&& forall|k: int| 0 <= k < 2 ==> self.next[k].0 < self.edges@.len() || (#[trigger] self.next[k]).0 == u32::MAX
    }
    pub open spec fn rest(&self) -> Seq<NodeIndex<Ix>> {
        if self.next[0].0 != u32::MAX { walk(self.edges@, 0, self.next[0].0 as int) } else { walk(self.edges@, 1, self.next[1].0 as int) }
    }
}
// Names of the standard library that the crate has functions of its own for: fn map (Option).
impl Graph<N, E, Ty, Ix> {
    pub open spec fn has(&self, k: int, v: int, u: int) -> bool { if k == 0 { self.gedges().contains((v, u)) } else { self.gedges().contains((u, v)) } }
    /// The lists of a node hold its edges.
    pub proof fn list(&self, v: int, k: int)
        requires self.wf(), v >= 0, k == 0 || k == 1
        ensures
            v < self.nodes@.len() ==> ({
                let h = self.nodes@[v].next[k].0;
                let w = walk(self.edges@, k, h as int);
                &&& h < self.edges@.len() || h == u32::MAX
                &&& forall|j: int| 0 <= j < w.len() ==> self.has(k, v, (#[trigger] w[j]).0 as int)
                &&& forall|u: int| #[trigger] self.has(k, v, u) ==> listed(w, u)
            }),
            v >= self.nodes@.len() ==> forall|u: int| !#[trigger] self.has(k, v, u),
    {
        let es = self.edges@;
        assert forall|u: int| #[trigger] self.has(k, v, u) implies exists|e: int| 0 <= e < es.len() && (#[trigger] es[e].node[k]).0 == v && es[e].node[1 - k].0 == u by {
            let p = if k == 0 { (v, u) } else { (u, v) };
            let e = choose|e: int| 0 <= e < es.len() && self.gedges()[e] == p;
            assert(es[e].node[k].0 == v && es[e].node[1 - k].0 == u);
        }
        if v < self.nodes@.len() {
            walk_is(es, v, k, es.len() as int);
            last_is(es, v, k, es.len() as int);
            let h = self.nodes@[v].next[k].0;
            let w = walk(es, k, h as int);
            assert forall|j: int| 0 <= j < w.len() implies self.has(k, v, (#[trigger] w[j]).0 as int) by {
                let e = choose|e: int| 0 <= e < es.len() && es[e].node[k].0 == v && es[e].node[1 - k] == w[j];
                assert(self.gedges()[e] == (if k == 0 { (v, w[j].0 as int) } else { (w[j].0 as int, v) }));
            }
        }
    }
    pub proof fn around(&self, v: int)
        requires self.wf(), v >= 0
        ensures
            v < self.nodes@.len() ==> ({
                let n = self.nodes@[v].next;
                let (w, x) = (walk(self.edges@, 0, n[0].0 as int), walk(self.edges@, 1, n[1].0 as int));
                &&& n[0].0 < self.edges@.len() || n[0].0 == u32::MAX
                &&& n[1].0 < self.edges@.len() || n[1].0 == u32::MAX
                &&& forall|j: int| 0 <= j < w.len() ==> self.gedges().contains((v, (#[trigger] w[j]).0 as int))
                &&& forall|j: int| 0 <= j < x.len() ==> self.gedges().contains(((#[trigger] x[j]).0 as int, v))
                &&& forall|u: int| #[trigger] self.gedges().contains((v, u)) ==> listed(w, u)
                &&& forall|u: int| #[trigger] self.gedges().contains((u, v)) ==> listed(x, u)
            }),
            v >= self.nodes@.len() ==> forall|u: int| !#[trigger] self.gedges().contains((v, u)) && !#[trigger] self.gedges().contains((u, v)),
    {
        self.list(v, 0);
        self.list(v, 1);
        assert forall|u: int| #[trigger] self.gedges().contains((v, u)) implies self.has(0, v, u) by { }
        assert forall|u: int| #[trigger] self.gedges().contains((u, v)) implies self.has(1, v, u) by { }
        if v < self.nodes@.len() {
            let n = self.nodes@[v].next;
            let (w, x) = (walk(self.edges@, 0, n[0].0 as int), walk(self.edges@, 1, n[1].0 as int));
            assert forall|j: int| 0 <= j < w.len() implies self.gedges().contains((v, (#[trigger] w[j]).0 as int)) by { assert(self.has(0, v, w[j].0 as int)); }
            assert forall|j: int| 0 <= j < x.len() implies self.gedges().contains(((#[trigger] x[j]).0 as int, v)) by { assert(self.has(1, v, x[j].0 as int)); }
        }
    }
}
pub proof fn last_is(es: Seq<Edge<E, Ix>>, v: int, k: int, m: int)
    requires 0 <= m <= es.len() <= u32::MAX
    ensures ({ let l = last(es, v, k, m); l == u32::MAX || (0 <= l < m && es[l].node[k].0 == v) }),
    decreases m
{ if m > 0 && es[m - 1].node[k].0 != v { last_is(es, v, k, m - 1); } }
/// Edges added later do not matter.
pub proof fn walk_step(es: Seq<Edge<E, Ix>>, k: int, e: int)
    requires linked(es), 0 <= e < es.len(), k == 0 || k == 1
    ensures es[e].next[k].0 == u32::MAX || es[e].next[k].0 < e, walk(es, k, e) == seq![es[e].node[1 - k]] + walk(es, k, es[e].next[k].0 as int),
        walk(es, k, e).drop_first() == walk(es, k, es[e].next[k].0 as int), walk(es, k, u32::MAX as int).len() == 0
{
    last_is(es, es[e].node[k].0 as int, k, e);
    assert(walk(es, k, e) =~= seq![es[e].node[1 - k]] + walk(es, k, es[e].next[k].0 as int));
    assert(walk(es, k, e).drop_first() =~= walk(es, k, es[e].next[k].0 as int));
}
pub proof fn walk_end(es: Seq<Edge<E, Ix>>)
    requires linked(es)
    ensures walk(es, 0, u32::MAX as int).len() == 0, walk(es, 1, u32::MAX as int).len() == 0
{ }
pub proof fn listed_step(s: Seq<NodeIndex<u32>>, x: NodeIndex<u32>, v: int)
    ensures listed(seq![x] + s, v) == (x.0 == v || listed(s, v))
{
    let t = seq![x] + s;
    if x.0 == v { assert(t[0].0 == v); }
    if listed(s, v) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).0 == v; assert(t[k + 1].0 == v); }
    if listed(t, v) && x.0 != v { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == v; assert(s[k - 1].0 == v); }
}
pub proof fn last_of(es: Seq<Edge<E, Ix>>, fs: Seq<Edge<E, Ix>>, v: int, k: int, m: int)
    requires 0 <= m <= es.len(), m <= fs.len(), 0 <= k < 2, forall|e: int| 0 <= e < m ==> es[e].node[k] == fs[e].node[k]
    ensures last(es, v, k, m) == last(fs, v, k, m)
    decreases m
{ if m > 0 { last_of(es, fs, v, k, m - 1); } }
/// No edge goes to a node that is not there.
pub proof fn last_none(es: Seq<Edge<E, Ix>>, v: int, k: int, m: int)
    requires 0 <= m <= es.len(), forall|e: int| 0 <= e < m ==> es[e].node[k].0 != v
    ensures last(es, v, k, m) == u32::MAX
    decreases m
{ if m > 0 { last_none(es, v, k, m - 1); } }
/// The walk meets the other ends of the edges at v, and only those.
pub proof fn walk_is(es: Seq<Edge<E, Ix>>, v: int, k: int, m: int)
    requires linked(es), 0 <= m <= es.len(), k == 0 || k == 1
    ensures ({
        let w = walk(es, k, last(es, v, k, m));
        &&& forall|j: int| 0 <= j < w.len() ==> exists|e: int| 0 <= e < m && es[e].node[k].0 == v && es[e].node[1 - k] == #[trigger] w[j]
        &&& forall|e: int| 0 <= e < m && (#[trigger] es[e].node[k]).0 == v ==> listed(w, es[e].node[1 - k].0 as int)
    })
    decreases m
{
    last_is(es, v, k, m);
    let l = last(es, v, k, m);
    if m > 0 {
        walk_is(es, v, k, m - 1);
        if es[m - 1].node[k].0 == v {
            let w0 = walk(es, k, last(es, v, k, m - 1));
            let w = walk(es, k, l);
            last_is(es, v, k, m - 1);
            assert(es[m - 1].next[k].0 == last(es, v, k, m - 1));
            assert(w =~= seq![es[m - 1].node[1 - k]] + w0);
            assert forall|j: int| 0 <= j < w.len() implies exists|e: int| 0 <= e < m && es[e].node[k].0 == v && es[e].node[1 - k] == #[trigger] w[j] by {
                if j == 0 { assert(es[m - 1].node[1 - k] == w[0]); } else { assert(w[j] == w0[j - 1]); }
            }
            assert forall|e: int| 0 <= e < m && (#[trigger] es[e].node[k]).0 == v implies listed(w, es[e].node[1 - k].0 as int) by {
                if e == m - 1 { assert(w[0].0 == es[e].node[1 - k].0); }
                else {
                    let j = choose|j: int| 0 <= j < w0.len() && (#[trigger] w0[j]).0 == es[e].node[1 - k].0;
                    assert(w[j + 1] == w0[j]);
                }
            }
        }
    }
}
@end
@fn graph_impl/mod.rs NodeIndex::new
ensures r.0 == x as u32
@mono
@end
@fn graph_impl/mod.rs NodeIndex::index
ensures r == self.0
@mono
@end
@fn graph_impl/mod.rs NodeIndex::end
ensures r.0 == u32::MAX
@mono
@end
@fn graph_impl/mod.rs EdgeIndex::new
ensures r.0 == x as u32
@mono
@end
@fn graph_impl/mod.rs EdgeIndex::index
ensures r == self.0
@mono
@end
@fn graph_impl/mod.rs EdgeIndex::end
ensures r.0 == u32::MAX
@mono
@end
@fn lib.rs Direction::index
ensures r == (match self { Direction::Outgoing => 0int, Direction::Incoming => 1int })
@at entry
proof { assert(0usize & 1 == 0) by(bit_vector); assert(1usize & 1 == 1) by(bit_vector); }
@end
# Two exclusive references into one slice, by raw pointers: not within Verus' reach.
@assume graph_impl/mod.rs index_twice
ensures match r {
    Pair::None => (a >= old(slc)@.len() || b >= old(slc)@.len()) && final(slc)@ == old(slc)@,
    Pair::One(x) => a == b && a < old(slc)@.len() && *x == old(slc)@[a as int] && final(slc)@ == old(slc)@.update(a as int, *final(x)),
    Pair::Both(x, y) => a != b && a < old(slc)@.len() && b < old(slc)@.len() && *x == old(slc)@[a as int] && *y == old(slc)@[b as int]
        && final(slc)@ == old(slc)@.update(a as int, *final(x)).update(b as int, *final(y)),
}
@edit sig:slc: &mut [T] ==> slc: &mut Vec<T>
@end
@fn graph_impl/mod.rs Graph::with_capacity
ensures r.wf(), r.gnodes().len() == 0, r.gedges().len() == 0
@mono
@end
@fn graph_impl/mod.rs Graph::default
ensures r.wf(), r.gnodes().len() == 0, r.gedges().len() == 0
@mono
@end
@fn graph_impl/mod.rs Graph::new
ensures r.wf(), r.gnodes().len() == 0, r.gedges().len() == 0
@mono
@end
@fn graph_impl/mod.rs Graph::node_count
ensures r == self.gnodes().len()
@mono
@end
@fn graph_impl/mod.rs Graph::edge_count
ensures r == self.gedges().len()
@mono
@end
@fn graph_impl/mod.rs Graph::is_directed
ensures r
@mono
@end
@fn graph_impl/mod.rs Graph::add_node
requires old(self).wf(), old(self).gnodes().len() < u32::MAX
ensures final(self).wf(), r.0 == old(self).gnodes().len(), final(self).gnodes() == old(self).gnodes().push(weight), final(self).gedges() == old(self).gedges()
@mono
@at tail
proof {
    let (o, n) = (old(self), &*self);
    assert forall|k: int| 0 <= k < 2 implies (#[trigger] n.nodes@[o.nodes@.len() as int].next[k]).0 == last(n.edges@, o.nodes@.len() as int, k, n.edges@.len() as int) by {
        assert forall|e: int| 0 <= e < n.edges@.len() implies n.edges@[e].node[k].0 != o.nodes@.len() by { assert(o.edges@[e].node[k].0 < o.nodes@.len()); }
        last_none(n.edges@, o.nodes@.len() as int, k, n.edges@.len() as int);
    }
    assert(n.gnodes() =~= o.gnodes().push(weight));
    assert(n.gedges() =~= o.gedges());
}
@end
@fn graph_impl/mod.rs Graph::node_weight
ensures match r { Some(n) => a.0 < self.gnodes().len() && *n == self.gnodes()[a.0 as int], None => a.0 >= self.gnodes().len() }
@mono
@closure 0 option_map
@end
@fn graph_impl/mod.rs Graph::node_weight_mut
requires old(self).wf()
ensures
    final(self).wf(),
    final(self).gedges() == old(self).gedges(),
    match r {
        Some(n) => {
            &&& a.0 < old(self).gnodes().len() && *n == old(self).gnodes()[a.0 as int]
            &&& final(self).gnodes() == old(self).gnodes().update(a.0 as int, *final(n))
        }
        None => a.0 >= old(self).gnodes().len() && final(self).gnodes() == old(self).gnodes(),
    }
@mono
@closure 0 option_map
@end
@fn graph_impl/mod.rs Graph::index
requires index.0 < self.gnodes().len()
ensures *r == self.gnodes()[index.0 as int]
@mono
@end
@fn graph_impl/mod.rs Graph::index_mut
requires old(self).wf(), index.0 < old(self).gnodes().len()
ensures
    final(self).wf(),
    *r == old(self).gnodes()[index.0 as int],
    final(self).gnodes() == old(self).gnodes().update(index.0 as int, *final(r)),
    final(self).gedges() == old(self).gedges(),
@mono
@end
@fn graph_impl/mod.rs Graph::add_edge
requires old(self).wf(), a.0 < old(self).gnodes().len(), b.0 < old(self).gnodes().len(), old(self).gedges().len() < u32::MAX
ensures final(self).wf(), final(self).gnodes() == old(self).gnodes(), final(self).gedges() == old(self).gedges().push((a.0 as int, b.0 as int))
@mono
@at tail
proof {
    let (o, n) = (old(self), &*self);
    let (es, fs) = (o.edges@, n.edges@);
    let m = es.len() as int;
    assert forall|v: int, k: int, j: int| 0 <= j <= m && 0 <= k < 2 implies last(fs, v, k, j) == #[trigger] last(es, v, k, j) by { last_of(es, fs, v, k, j); }
    assert forall|e: int, k: int| 0 <= e < fs.len() && 0 <= k < 2 implies (#[trigger] fs[e].next[k]).0 == last(fs, fs[e].node[k].0 as int, k, e) by {
        if e < m {
            assert(fs[e] == es[e]);
            assert(es[e].next[k].0 == last(es, es[e].node[k].0 as int, k, e));
        } else {
            let v = fs[m].node[k].0 as int;
            assert(o.nodes@[v].next[k].0 == last(es, v, k, m));
        }
    }
    assert forall|e: int, k: int| 0 <= e < fs.len() && 0 <= k < 2 implies (#[trigger] fs[e].node[k]).0 < n.nodes@.len() by {
        if e < m { assert(fs[e] == es[e]); assert(es[e].node[k].0 < o.nodes@.len()); }
    }
    assert forall|v: int, k: int| 0 <= v < n.nodes@.len() && 0 <= k < 2 implies (#[trigger] n.nodes@[v].next[k]).0 == last(fs, v, k, m + 1) by {
        assert(o.nodes@[v].next[k].0 == last(es, v, k, m));
    }
    assert(n.gnodes() =~= o.gnodes());
    assert(n.gedges() =~= o.gedges().push((a.0 as int, b.0 as int)));
}
@end
@fn graph_impl/mod.rs Graph::neighbors_undirected
requires self.wf()
ensures r.skip_start == a, r.edges == &self.edges,
    a.0 < self.nodes@.len() ==> r.next == self.nodes@[a.0 as int].next,
    a.0 >= self.nodes@.len() ==> r.next[0].0 == u32::MAX && r.next[1].0 == u32::MAX,
@mono
@end
@fn graph_impl/mod.rs Graph::neighbors_directed
requires self.wf()
ensures
    r.wf(),
    match dir {
        Direction::Outgoing => {
            &&& forall|k: int| 0 <= k < r.rest().len() ==> self.gedges().contains((a.0 as int, (#[trigger] r.rest()[k]).0 as int))
            &&& forall|v: int| #[trigger] self.gedges().contains((a.0 as int, v)) ==> listed(r.rest(), v)
        }
        Direction::Incoming => {
            &&& forall|k: int| 0 <= k < r.rest().len() ==> self.gedges().contains(((#[trigger] r.rest()[k]).0 as int, a.0 as int))
            &&& forall|v: int| #[trigger] self.gedges().contains((v, a.0 as int)) ==> listed(r.rest(), v)
        }
    }
@mono
@at entry
proof { self.around(a.0 as int); }
@end
@fn graph_impl/mod.rs Graph::neighbors
requires self.wf()
ensures
    r.wf(),
    forall|k: int| 0 <= k < r.rest().len() ==> self.gedges().contains((a.0 as int, (#[trigger] r.rest()[k]).0 as int)),
    forall|v: int| #[trigger] self.gedges().contains((a.0 as int, v)) ==> listed(r.rest(), v),
@mono
@end
@fn graph_impl/mod.rs Graph::node_indices
requires self.wf()
ensures r.rest().len() == self.gnodes().len(), forall|k: int| 0 <= k < r.rest().len() ==> (#[trigger] r.rest()[k]).0 == k
@mono
@end
@fn graph_impl/mod.rs node_index
ensures r.0 == index as u32
@edit sig: <Ix: IndexType> ==>
@edit sig: NodeIndex<Ix> ==> NodeIndex<u32>
@end
@fn graph_impl/mod.rs NodeIndices::next
requires old(self).wf()
ensures
    final(self).wf(),
    match r {
        Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
        None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
    }
@mono
@end
@fn graph_impl/mod.rs Neighbors::next
requires old(self).wf()
ensures
    final(self).wf(),
    match r {
        Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
        None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
    }
@mono
@attr #[verifier::loop_isolation(false)]
@at entry
proof {
    walk_end(self.edges@);
    if self.next[0].0 != u32::MAX { walk_step(self.edges@, 0, self.next[0].0 as int); }
    else if self.next[1].0 != u32::MAX { walk_step(self.edges@, 1, self.next[1].0 as int); }
}
@loop 0
invariant
    self.edges == old(self).edges, self.skip_start == old(self).skip_start, self.next == old(self).next,
decreases self.next[1].0
@end
@fn graph_impl/mod.rs Graph::find_edge_directed_from_node
requires self.wf(), node.next[0].0 < self.edges@.len() || node.next[0].0 == u32::MAX
ensures r is Some == listed(walk(self.edges@, 0, node.next[0].0 as int), b.0 as int)
@mono
@at entry
proof { walk_end(self.edges@); }
@attr #[verifier::loop_isolation(false)]
@loop 0
invariant
    self.wf(), edix.0 < self.edges@.len() || edix.0 == u32::MAX,
    listed(walk(self.edges@, 0, node.next[0].0 as int), b.0 as int) == listed(walk(self.edges@, 0, edix.0 as int), b.0 as int),
decreases (if edix.0 == u32::MAX { 0int } else { edix.0 + 1 })
@at loop 0 start
proof {
    walk_step(self.edges@, 0, edix.0 as int);
    listed_step(walk(self.edges@, 0, edge.next[0].0 as int), edge.node[1], b.0 as int);
}
@end
# For undirected graphs: not reached.
@assume graph_impl/mod.rs Graph::find_edge_undirected
requires false
@mono
@end
@fn graph_impl/mod.rs Graph::find_edge
requires self.wf()
ensures r is Some == self.gedges().contains((a.0 as int, b.0 as int))
@mono
@closure 0 option_map
@at entry
proof { self.around(a.0 as int); }
@end
@helpers
@raw
} // verus!
@end
