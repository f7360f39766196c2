@raw
// Only what its user makes of it: the successors are not read by any function under contract.
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxBag<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> VxBag<K, V> {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn entry<'e>(&'e mut self, k: K) -> (r: VxEntry<'e, K, V>) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VxEntry<'e, K, V> { m: &'e VxBag<K, V> }
impl<'e, K, V> VxEntry<'e, K, V> {
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'e mut V) { unimplemented!() }
}
impl NodeIndex<u32> {
    pub fn into(self) -> (r: PositionInfo) ensures r.pos == self, r.flags.bits == 0 { PositionInfo::from(self) }
}
@end
@type parser/position_info.rs PositionInfo Clone Copy
@end
@fn parser/position_info.rs PositionInfo::from
ensures r.pos == pos, r.flags.bits == 0
@end
@type parser/build_state.rs GlushkovBuildState
@edit HashMap ==> VxBag
@end
@fn parser/build_state.rs GlushkovBuildState::get_builder_mut
ensures *r == *old(self).builder, *final(self).builder == *final(r), *final(final(self).builder) == *final(old(self).builder)
@end
@fn parser/build_state.rs GlushkovBuildState::pos_epsilon
ensures r.i == u32::MAX - 1
@end
@raw
// Vec::retain keeps some of the elements.
#[verifier::external_body]
pub fn vx_retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, f: F)
    requires forall|x: &T| f.requires((x,))
    ensures final(v)@.len() <= old(v)@.len(), forall|k: int| 0 <= k < final(v)@.len() ==> old(v)@.contains(#[trigger] final(v)@[k])
{ v.retain(f) }
pub open spec fn leads(s: Seq<PositionInfo>, p: Position) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).pos == p }
@end
@global tolist.retain( ==> vx_retain(tolist,
@global tolist.iter() ==> vx_iter(&tolist)
@global firsts.to_vec() ==> vx_to_vec(firsts)
@raw
#[verifier::external_body]
pub fn vx_to_vec<T: Copy>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
@end
@fn parser/build_state.rs filter_edges
requires from.pos.i < bs.builder.graph.nodes().len()
ensures final(tolist)@.len() <= old(tolist)@.len(), forall|k: int| 0 <= k < final(tolist)@.len() ==> old(tolist)@.contains(#[trigger] final(tolist)@[k])
@end
@fn parser/build_state.rs GlushkovBuildState::connect_successors
requires room(*old(self).builder, 0), from.pos.i < old(self).builder.graph.nodes().len(), forall|k: int| 0 <= k < tolist@.len() ==> (#[trigger] tolist@[k]).pos != old(self).accept_state
ensures *final(self).builder == *old(self).builder, *final(final(self).builder) == *final(old(self).builder), final(self).accept_state == old(self).accept_state
@closure 0 position
@loop c0
invariant vx_it0.k <= vx_it0.v@.len(), vx_it0.v@ == tolist@, vx_r0 is None, forall|k: int| 0 <= k < tolist@.len() ==> (#[trigger] tolist@[k]).pos != self.accept_state, vx_n0 == vx_it0.k
decreases vx_it0.v@.len() - vx_it0.k + (if vx_go0 { 1int } else { 0 })
@loop 0
invariant true
@end
@fn parser/build_state.rs GlushkovBuildState::connect_regions
requires
    room(*old(self).builder, 0), forall|k: int| 0 <= k < lasts@.len() ==> (#[trigger] lasts@[k]).pos.i < old(self).builder.graph.nodes().len(),
    forall|k: int| 0 <= k < firsts@.len() ==> (#[trigger] firsts@[k]).pos != old(self).accept_state
ensures *final(self).builder == *old(self).builder, *final(final(self).builder) == *final(old(self).builder)
@loop 0
invariant
    forall|k: int| 0 <= k < lasts@.len() ==> (#[trigger] lasts@[k]).pos.i < old(self).builder.graph.nodes().len(),
    forall|k: int| 0 <= k < firsts@.len() ==> (#[trigger] firsts@[k]).pos != old(self).accept_state,
    room(*old(self).builder, 0), *self.builder == *old(self).builder, *final(self.builder) == *final(old(self).builder), self.accept_state == old(self).accept_state,
@end
@fn parser/build_state.rs GlushkovBuildState::new
requires room(*old(b), 0)
ensures *r.builder == *old(b), *final(r.builder) == *final(b)
@edit *HashMap ==> VxBag
@end
@fn parser/build_state.rs make_glushkov_build_state
requires room(*old(b), 0)
ensures *r.builder == *old(b), *final(r.builder) == *final(b)
@end
