@type nfagraph/ng_holder.rs NfaVertex
@end
@type parser/position.rs Position
@end
@type nfagraph/ng_holder.rs NfaGraphVertexProps
@default
ensures cr_empty(r.char_reach), r.reports@ == Set::<ReportId>::empty(), r.assert_flags.bits == 0
@end
@type nfagraph/ng_holder.rs NfaGraphEdgeProps
@default
@end
@type nfagraph/ng_holder.rs NgHolder
@end
@graph inner self.inner self.graph
@mutating set_all bitor_assign
@raw
pub open spec fn plain(n: NfaGraphVertexProps) -> bool { n.reports@ == Set::<ReportId>::empty() && n.assert_flags.bits == 0 }
impl NgHolder {
    pub open spec fn nodes(&self) -> Seq<NfaGraphVertexProps> { self.inner.nodes() }
    pub open spec fn edges(&self) -> Seq<(int, int)> { self.inner.edges() }
    pub open spec fn inv(&self) -> bool {
        &&& self.start.i < self.nodes().len() && self.start_ds.i < self.nodes().len() && self.accept.i < self.nodes().len() && self.accept_eod.i < self.nodes().len()
        &&& self.start.i != self.start_ds.i && self.start.i != self.accept.i && self.start.i != self.accept_eod.i
        &&& self.start_ds.i != self.accept.i && self.start_ds.i != self.accept_eod.i && self.accept.i != self.accept_eod.i
    }
    /// Both starts take every byte, both accepts none.
    pub open spec fn ends_reach(&self) -> bool {
        &&& forall|x: u8| self.nodes()[self.start.i as int].char_reach.has(x) && self.nodes()[self.start_ds.i as int].char_reach.has(x)
        &&& cr_empty(self.nodes()[self.accept.i as int].char_reach) && cr_empty(self.nodes()[self.accept_eod.i as int].char_reach)
    }
    /// A graph as it is made.
    pub open spec fn fresh(&self) -> bool {
        &&& self.inv() && self.nodes().len() == 4 && !self.vacuous() && self.joined()
        &&& forall|i: int| 0 <= i < 4 ==> plain(#[trigger] self.nodes()[i])
        &&& self.ends_reach()
    }
    pub open spec fn same_ends(&self, o: &Self) -> bool { self.start == o.start && self.start_ds == o.start_ds && self.accept == o.accept && self.accept_eod == o.accept_eod }
    /// The reports of the positions that lead to node `t`.
    pub open spec fn into_node(&self, t: int, rep: ReportId) -> bool { exists|v: int| #[trigger] self.edges().contains((v, t)) && self.nodes()[v].reports@.contains(rep) }
    pub open spec fn vacuous(&self) -> bool {
        ||| self.edges().contains((self.start.i as int, self.accept.i as int))
        ||| self.edges().contains((self.start.i as int, self.accept_eod.i as int))
        ||| self.edges().contains((self.start_ds.i as int, self.accept.i as int))
        ||| self.edges().contains((self.start_ds.i as int, self.accept_eod.i as int))
    }
    /// Edges join nodes.
    pub open spec fn joined(&self) -> bool { forall|a: int, b: int| #[trigger] self.edges().contains((a, b)) ==> 0 <= a < self.nodes().len() && 0 <= b < self.nodes().len() }
}
@end
@raw
/// On the way through the nodes before `t`: those in `rest` may be missing.
pub open spec fn gathered(g: NgHolder, t: int, init: Set<ReportId>, acc: Set<ReportId>, rest: Seq<NodeIndex<u32>>) -> bool {
    &&& forall|k: int| 0 <= k < rest.len() ==> g.edges().contains(((#[trigger] rest[k]).i as int, t))
    &&& forall|rep: ReportId| #[trigger] acc.contains(rep) ==> init.contains(rep) || g.into_node(t, rep)
    &&& forall|rep: ReportId| #[trigger] init.contains(rep) ==> acc.contains(rep)
    &&& forall|v: int, rep: ReportId| #[trigger] g.edges().contains((v, t)) && #[trigger] g.nodes()[v].reports@.contains(rep) ==> acc.contains(rep) || listed(rest, v)
}
pub proof fn gather(g: NgHolder, t: int, init: Set<ReportId>, acc: Set<ReportId>, rest: Seq<NodeIndex<u32>>, acc2: Set<ReportId>)
    requires gathered(g, t, init, acc, rest), rest.len() > 0, acc2 == acc.union(g.nodes()[rest[0].i as int].reports@)
    ensures gathered(g, t, init, acc2, rest.drop_first())
{
    let x = rest[0].i as int;
    assert(g.edges().contains((x, t)));
    assert forall|k: int| 0 <= k < rest.len() - 1 implies g.edges().contains(((#[trigger] rest.drop_first()[k]).i as int, t)) by { assert(rest.drop_first()[k] == rest[k + 1]); }
    assert forall|v: int, rep: ReportId| #[trigger] g.edges().contains((v, t)) && #[trigger] g.nodes()[v].reports@.contains(rep) implies acc2.contains(rep) || listed(rest.drop_first(), v) by {
        if !acc.contains(rep) && v != x { listed_rest(rest, v); }
    }
}
@end
@fn nfagraph/ng_holder.rs add_special_vertex
requires old(g).nodes().len() < u32::MAX
ensures
    r.i == old(g).nodes().len(), final(g).edges() == old(g).edges(),
    exists|n: NfaGraphVertexProps| final(g).nodes() == #[trigger] old(g).nodes().push(n) && plain(n) && cr_empty(n.char_reach),
@end
@fn nfagraph/ng_holder.rs NgHolder::new
ensures r.fresh()
@end
@fn nfagraph/ng_holder.rs NgHolder::add_vertex
requires old(self).nodes().len() < u32::MAX
ensures
    r.i == old(self).nodes().len(), final(self).same_ends(old(self)), final(self).edges() == old(self).edges(),
    exists|n: NfaGraphVertexProps| final(self).nodes() == #[trigger] old(self).nodes().push(n) && plain(n) && cr_empty(n.char_reach),
@end
@fn nfagraph/ng_holder.rs NgHolder::num_vertices
ensures r == self.nodes().len()
@end
@fn nfagraph/ng_holder.rs NgHolder::index
requires index.i < self.nodes().len()
ensures *r == self.nodes()[index.i as int]
@end
@fn nfagraph/ng_holder.rs NgHolder::index_mut
requires index.i < old(self).nodes().len()
ensures
    *r == old(self).nodes()[index.i as int], final(self).same_ends(old(self)), final(self).edges() == old(self).edges(),
    final(self).nodes() == old(self).nodes().update(index.i as int, *final(r)),
@end
@fn nfagraph/ng_holder.rs NgHolder::is_vacuous
ensures r == self.vacuous()
@end
@fn nfagraph/ng_holder.rs NgHolder::all_reports
requires self.joined()
ensures forall|rep: ReportId| r@.contains(rep) <==> self.into_node(self.accept.i as int, rep) || self.into_node(self.accept_eod.i as int, rep)
@closure 0 fold
@closure 1 fold
@loop c0
invariant self.joined(), gathered(*self, self.accept.i as int, Set::empty(), vx_acc0@, vx_it0.rest()),
    vx_go0 || vx_it0.rest().len() == 0,
decreases vx_it0.rest().len() + (if vx_go0 { 1int } else { 0 }),
@at loop c0 start
let ghost (acc0, rest0) = (vx_acc0@, vx_it0.rest());
proof { if rest0.len() > 0 { assert(self.edges().contains((rest0[0].i as int, self.accept.i as int))); } }
@at loop c0 end
proof { gather(*self, self.accept.i as int, Set::empty(), acc0, rest0, vx_acc0@); }
@loop c1
invariant self.joined(), gathered(*self, self.accept_eod.i as int, reports@, vx_acc1@, vx_it1.rest()),
    vx_go1 || vx_it1.rest().len() == 0,
decreases vx_it1.rest().len() + (if vx_go1 { 1int } else { 0 }),
@at loop c1 start
let ghost (acc1, rest1) = (vx_acc1@, vx_it1.rest());
proof { if rest1.len() > 0 { assert(self.edges().contains((rest1[0].i as int, self.accept_eod.i as int))); } }
@at loop c1 end
proof { gather(*self, self.accept_eod.i as int, reports@, acc1, rest1, vx_acc1@); }
@end
