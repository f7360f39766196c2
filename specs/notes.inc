@include classes.inc
@type nfagraph/ng_builder.rs NfaBuilder
@end
@raw
pub open spec fn same_bytes(a: CharReach, b: CharReach) -> bool { forall|x: u8| a.has(x) == b.has(x) }
/// One more position for each class, in order; nothing else changes.
pub open spec fn noted(g: NgHolder, h: NgHolder, cls: Seq<CharReach>) -> bool {
    &&& h.same_ends(&g) && h.edges() == g.edges() && h.nodes().len() == g.nodes().len() + cls.len()
    &&& forall|i: int| 0 <= i < g.nodes().len() ==> #[trigger] h.nodes()[i] == g.nodes()[i]
    &&& forall|k: int| g.nodes().len() <= k < h.nodes().len() ==> plain(#[trigger] h.nodes()[k]) && same_bytes(h.nodes()[k].char_reach, cls[k - g.nodes().len()])
}
pub open spec fn bnoted(g: NfaBuilder, h: NfaBuilder, cls: Seq<CharReach>) -> bool { noted(g.graph, h.graph, cls) && h.expr == g.expr }
pub open spec fn room(b: NfaBuilder, n: nat) -> bool { b.graph.inv() && b.graph.nodes().len() + n < u32::MAX - 1 }
pub proof fn bnoted_more(a: NfaBuilder, b: NfaBuilder, c: NfaBuilder, s: Seq<CharReach>, t: Seq<CharReach>)
    requires bnoted(a, b, s), bnoted(b, c, t)
    ensures bnoted(a, c, s + t)
{
    let n = a.graph.nodes().len();
    assert forall|i: int| 0 <= i < n implies #[trigger] c.graph.nodes()[i] == a.graph.nodes()[i] by { assert(b.graph.nodes()[i] == a.graph.nodes()[i]); }
    assert forall|k: int| n <= k < c.graph.nodes().len() implies plain(#[trigger] c.graph.nodes()[k]) && same_bytes(c.graph.nodes()[k].char_reach, (s + t)[k - n]) by {
        if k < n + s.len() { assert(c.graph.nodes()[k] == b.graph.nodes()[k]); }
    }
}
@end
@fn nfagraph/ng_builder.rs NfaBuilder::new
ensures r.graph.fresh(), r.expr == parsed.expr
@end
@fn nfagraph/ng_builder.rs make_nfa_builder
ensures r.graph.fresh(), r.expr == expr.expr
@end
@fn nfagraph/ng_builder.rs NfaBuilder::add_vertex
requires old(self).graph.nodes().len() < u32::MAX
ensures
    r.i == old(self).graph.nodes().len(), final(self).expr == old(self).expr,
    final(self).graph.same_ends(&old(self).graph), final(self).graph.edges() == old(self).graph.edges(),
    exists|n: NfaGraphVertexProps| final(self).graph.nodes() == #[trigger] old(self).graph.nodes().push(n) && plain(n) && cr_empty(n.char_reach),
@end
@fn nfagraph/ng_builder.rs NfaBuilder::make_position
requires old(self).graph.nodes().len() < u32::MAX
ensures
    r.i == old(self).graph.nodes().len(), final(self).expr == old(self).expr,
    final(self).graph.same_ends(&old(self).graph), final(self).graph.edges() == old(self).graph.edges(),
    exists|n: NfaGraphVertexProps| final(self).graph.nodes() == #[trigger] old(self).graph.nodes().push(n) && plain(n) && cr_empty(n.char_reach),
@end
@fn nfagraph/ng_builder.rs NfaBuilder::num_vertices
ensures r == self.graph.nodes().len()
@end
@fn nfagraph/ng_builder.rs NfaBuilder::get_start
ensures r == self.graph.start
@end
@fn nfagraph/ng_builder.rs NfaBuilder::get_start_dot_star
ensures r == self.graph.start_ds
@end
@fn nfagraph/ng_builder.rs NfaBuilder::get_accept
ensures r == self.graph.accept
@end
@fn nfagraph/ng_builder.rs NfaBuilder::get_accept_eod
ensures r == self.graph.accept_eod
@end
@fn nfagraph/ng_builder.rs NfaBuilder::add_char_reach
requires pos.i < old(self).graph.nodes().len()
ensures
    final(self).expr == old(self).expr, final(self).graph.same_ends(&old(self).graph), final(self).graph.edges() == old(self).graph.edges(),
    final(self).graph.nodes() == old(self).graph.nodes().update(pos.i as int, final(self).graph.nodes()[pos.i as int]),
    final(self).graph.nodes()[pos.i as int].reports == old(self).graph.nodes()[pos.i as int].reports,
    final(self).graph.nodes()[pos.i as int].assert_flags == old(self).graph.nodes()[pos.i as int].assert_flags,
    forall|x: u8| #[trigger] final(self).graph.nodes()[pos.i as int].char_reach.has(x) == (old(self).graph.nodes()[pos.i as int].char_reach.has(x) || cr.has(x)),
@assignop
@end
@fn nfagraph/ng_builder.rs NfaBuilder::get_assert_flag
requires pos.i < self.graph.nodes().len()
ensures r == self.graph.nodes()[pos.i as int].assert_flags
@end
@fn nfagraph/ng_builder.rs NfaBuilder::get_graph
ensures r.expr == self.expr, r.g == self.graph
@end
@include glushkov.inc
@fn parser/ascii_component_class.rs AsciiComponentClass::note_positions
requires room(*old(bs).builder, 1)
ensures bnoted(*old(bs).builder, *final(bs).builder, seq![old(self).cr]), *final(final(bs).builder) == *final(old(bs).builder)
@end
@fn parser/component_class.rs ComponentClass::note_positions
requires room(*old(bs).builder, 1)
ensures bnoted(*old(bs).builder, *final(bs).builder, classes(Component::Class(*old(self)))), *final(final(bs).builder) == *final(old(bs).builder)
@end
@fn parser/component_sequence.rs ComponentSequence::note_positions
requires room(*old(bs).builder, seq_classes(*old(self), old(self).children@.len()).len())
ensures bnoted(*old(bs).builder, *final(bs).builder, seq_classes(*old(self), old(self).children@.len())), *final(final(bs).builder) == *final(old(bs).builder)
decreases *old(self)
@loop 0 idx
invariant
    self.children@.len() == old(self).children@.len(), vx_i0 <= old(self).children@.len(),
    forall|k: int| vx_i0 <= k < self.children@.len() ==> #[trigger] self.children@[k] == old(self).children@[k],
    room(*old(bs).builder, seq_classes(*old(self), old(self).children@.len()).len()),
    bnoted(*old(bs).builder, *bs.builder, seq_classes(*old(self), vx_i0 as nat)), *final(bs.builder) == *final(old(bs).builder),
decreases old(self).children@.len() - vx_i0,
@at loop 0 start
let ghost b0 = *bs.builder;
proof {
    let s = *old(self);
    seq_classes_grow(s, vx_i0 as nat, s.children@.len());
    assert(*c == s.children@[vx_i0 - 1]);
    assert(decreases_to!(s.children => s.children[vx_i0 - 1]));
}
@at loop 0 end
proof {
    let s = *old(self);
    bnoted_more(*old(bs).builder, b0, *bs.builder, seq_classes(s, (vx_i0 - 1) as nat), classes(s.children@[vx_i0 - 1]));
}
@end
@fn parser/component_alternation.rs ComponentAlternation::note_positions
requires room(*old(bs).builder, alt_classes(*old(self), old(self).children@.len()).len())
ensures bnoted(*old(bs).builder, *final(bs).builder, alt_classes(*old(self), old(self).children@.len())), *final(final(bs).builder) == *final(old(bs).builder)
decreases *old(self)
@loop 0 idx
invariant
    self.children@.len() == old(self).children@.len(), vx_i0 <= old(self).children@.len(),
    forall|k: int| vx_i0 <= k < self.children@.len() ==> #[trigger] self.children@[k] == old(self).children@[k],
    room(*old(bs).builder, alt_classes(*old(self), old(self).children@.len()).len()),
    bnoted(*old(bs).builder, *bs.builder, alt_classes(*old(self), vx_i0 as nat)), *final(bs.builder) == *final(old(bs).builder),
decreases old(self).children@.len() - vx_i0,
@at loop 0 start
let ghost b0 = *bs.builder;
proof {
    let s = *old(self);
    alt_classes_grow(s, vx_i0 as nat, s.children@.len());
    assert(*c == s.children@[vx_i0 - 1]);
    assert(decreases_to!(s.children => s.children[vx_i0 - 1]));
}
@at loop 0 end
proof {
    let s = *old(self);
    bnoted_more(*old(bs).builder, b0, *bs.builder, alt_classes(s, (vx_i0 - 1) as nat), seq_classes(s.children@[vx_i0 - 1], s.children@[vx_i0 - 1].children@.len()));
}
@end
@fn parser/component.rs Component::note_positions
requires room(*old(bs).builder, classes(*old(self)).len())
ensures bnoted(*old(bs).builder, *final(bs).builder, classes(*old(self))), *final(final(bs).builder) == *final(old(bs).builder)
decreases *old(self)
@end
@raw
/// C18: the graph of a tree with the given classes.
pub open spec fn built(g: NgHolder, cls: Seq<CharReach>) -> bool {
    &&& g.inv() && g.nodes().len() == 4 + cls.len() && g.ends_reach() && !g.vacuous()
    &&& g.start.i < 4 && g.start_ds.i < 4 && g.accept.i < 4 && g.accept_eod.i < 4
    &&& forall|i: int| 0 <= i < g.nodes().len() ==> plain(#[trigger] g.nodes()[i])
    &&& forall|k: int| 4 <= k < g.nodes().len() ==> same_bytes(#[trigger] g.nodes()[k].char_reach, cls[k - 4])
}
@end
@fn compiler.rs build_graph
requires classes(old(pe).component).len() < u32::MAX - 5
ensures r.expr == old(pe).expr, built(r.g, classes(old(pe).component))
@end
