@raw
// petgraph's Graph as it is documented: nodes and edges are numbered in the order in which they are added (trusted).
pub type DefaultIx = u32;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeIndex<Ix> { pub i: Ix }
pub struct EdgeIndex { pub i: u32 }
/// Node `v` is among the given ones.
pub open spec fn listed(s: Seq<NodeIndex<u32>>, v: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).i == v }
pub proof fn listed_rest(s: Seq<NodeIndex<u32>>, v: int)
    requires s.len() > 0, listed(s, v), s[0].i != v
    ensures listed(s.drop_first(), v)
{
    let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).i == v;
    assert(s.drop_first()[k - 1].i == v);
}
pub enum Direction { Outgoing, Incoming }
#[verifier::external_body]
#[verifier::reject_recursive_types(N)]
#[verifier::reject_recursive_types(E)]
pub struct Graph<N, E> { n: Vec<N>, e: Vec<E> }
impl<N, E> Graph<N, E> {
    pub uninterp spec fn nodes(&self) -> Seq<N>;
    /// (source, target)
    pub uninterp spec fn edges(&self) -> Seq<(int, int)>;
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r.nodes().len() == 0, r.edges().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.nodes().len() == 0, r.edges().len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn add_node(&mut self, n: N) -> (r: NodeIndex<u32>)
        requires old(self).nodes().len() < u32::MAX
        ensures r.i == old(self).nodes().len(), final(self).nodes() == old(self).nodes().push(n), final(self).edges() == old(self).edges()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn add_edge(&mut self, a: NodeIndex<u32>, b: NodeIndex<u32>, w: E) -> (r: EdgeIndex)
        requires a.i < old(self).nodes().len(), b.i < old(self).nodes().len(), old(self).edges().len() < u32::MAX
        ensures final(self).nodes() == old(self).nodes(), final(self).edges() == old(self).edges().push((a.i as int, b.i as int))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_count(&self) -> (r: usize) ensures r == self.nodes().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn edge_count(&self) -> (r: usize) ensures r == self.edges().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn index(&self, i: NodeIndex<u32>) -> (r: &N) requires i.i < self.nodes().len() ensures *r == self.nodes()[i.i as int] { unimplemented!() }
    #[verifier::external_body]
    pub fn index_mut(&mut self, i: NodeIndex<u32>) -> (r: &mut N)
        requires i.i < old(self).nodes().len()
        ensures
            *r == old(self).nodes()[i.i as int],
            final(self).nodes() == old(self).nodes().update(i.i as int, *final(r)),
            final(self).edges() == old(self).edges(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_weight(&self, i: NodeIndex<u32>) -> (r: Option<&N>)
        ensures match r { Some(n) => i.i < self.nodes().len() && *n == self.nodes()[i.i as int], None => i.i >= self.nodes().len() }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_weight_mut(&mut self, i: NodeIndex<u32>) -> (r: Option<&mut N>)
        ensures
            final(self).edges() == old(self).edges(),
            match r {
                Some(n) => {
                    &&& i.i < old(self).nodes().len() && *n == old(self).nodes()[i.i as int]
                    &&& final(self).nodes() == old(self).nodes().update(i.i as int, *final(n))
                }
                None => i.i >= old(self).nodes().len() && final(self).nodes() == old(self).nodes(),
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_edge(&self, a: NodeIndex<u32>, b: NodeIndex<u32>) -> (r: Option<EdgeIndex>)
        ensures r is Some == self.edges().contains((a.i as int, b.i as int))
    { unimplemented!() }
    /// The far ends of the edges at `u`, in an order that is not relied on.
    #[verifier::external_body]
    pub fn neighbors_directed(&self, u: NodeIndex<u32>, d: Direction) -> (r: Neighbors)
        ensures match d {
            Direction::Outgoing => {
                &&& forall|k: int| 0 <= k < r.rest().len() ==> self.edges().contains((u.i as int, (#[trigger] r.rest()[k]).i as int))
                &&& forall|v: int| #[trigger] self.edges().contains((u.i as int, v)) ==> listed(r.rest(), v)
            }
            Direction::Incoming => {
                &&& forall|k: int| 0 <= k < r.rest().len() ==> self.edges().contains(((#[trigger] r.rest()[k]).i as int, u.i as int))
                &&& forall|v: int| #[trigger] self.edges().contains((v, u.i as int)) ==> listed(r.rest(), v)
            }
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn neighbors(&self, u: NodeIndex<u32>) -> (r: Neighbors)
        ensures
            forall|k: int| 0 <= k < r.rest().len() ==> self.edges().contains((u.i as int, (#[trigger] r.rest()[k]).i as int)),
            forall|v: int| #[trigger] self.edges().contains((u.i as int, v)) ==> listed(r.rest(), v),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn node_indices(&self) -> (r: Neighbors)
        ensures r.rest().len() == self.nodes().len(), forall|k: int| 0 <= k < r.rest().len() ==> (#[trigger] r.rest()[k]).i == k
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Neighbors { v: Vec<u32> }
impl Neighbors {
    pub uninterp spec fn rest(&self) -> Seq<NodeIndex<u32>>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<NodeIndex<u32>>)
        ensures match r {
            Some(x) => old(self).rest().len() > 0 && x == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }
}
@end
