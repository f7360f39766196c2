@raw
/// What a pattern is made of; a tree is written back as such pieces, which is how it is compared with the pattern (C11).
pub ghost enum Tok { Open(int), Close, Bar, Lit(Seq<bool>) }
pub open spec fn bytes_of(cr: CharReach) -> Seq<bool> { Seq::new(256, |i: int| cr.has(i as u8)) }
/// The bytes an ordinary character stands for.
pub open spec fn lit_bytes(c: char, nocase: bool) -> Seq<bool> {
    Seq::new(256, |i: int| i == c as int || (nocase && ascii_letter(i) && ascii_letter(c as int) && other_case(i, c as int)))
}
pub open spec fn ascii_letter(c: int) -> bool { 0x41 <= c <= 0x5a || 0x61 <= c <= 0x7a }
pub open spec fn other_case(a: int, b: int) -> bool { a == b + 32 || b == a + 32 }

pub open spec fn text(c: Component) -> Seq<Tok>
    decreases c
{
    match c {
        Component::Class(ComponentClass::Ascii(a)) => seq![Tok::Lit(bytes_of(a.cr))],
        Component::Sequence(s) => seq![open_of(s)] + seq_text(s, s.children@.len()) + seq![Tok::Close],
        Component::Alternation(a) => alt_text(a, a.children@.len()),
    }
}
pub open spec fn open_of(s: ComponentSequence) -> Tok { Tok::Open(match s.capture_index { Some(n) => n as int, None => -1 }) }
/// The first n children, one after the other.
pub open spec fn seq_text(s: ComponentSequence, n: nat) -> Seq<Tok>
    decreases s, n
{ if n == 0 || n > s.children@.len() { seq![] } else { seq_text(s, (n - 1) as nat) + text(s.children@[n - 1]) } }
/// The first n branches, bars between.
pub open spec fn alt_text(a: ComponentAlternation, n: nat) -> Seq<Tok>
    decreases a, n
{
    if n == 0 || n > a.children@.len() { seq![] }
    else if n == 1 { branch_text(a, 0) }
    else { alt_text(a, (n - 1) as nat) + seq![Tok::Bar] + seq_text(a.children@[n - 1], a.children@[n - 1].children@.len()) }
}
pub open spec fn branch_text(a: ComponentAlternation, i: int) -> Seq<Tok>
    decreases a, 0nat
{ if 0 <= i < a.children@.len() { seq_text(a.children@[i], a.children@[i].children@.len()) } else { seq![] } }

/// The shapes a finished tree has.
pub open spec fn good_item(c: Component) -> bool
    decreases c
{
    match c { Component::Class(_) => true, Component::Sequence(s) => good_group(s), Component::Alternation(_) => false }
}
pub open spec fn good_group(s: ComponentSequence) -> bool
    decreases s, s.children@.len() + 1
{
    s.alternation is None && s.capture_index is Some && s.capture_name is None && (good_items(s, s.children@.len()) || (s.children@.len() == 1 && match s.children@[0] {
        Component::Alternation(a) => a.children@.len() >= 2 && good_branches(a, a.children@.len()),
        _ => false,
    }))
}
pub open spec fn good_items(s: ComponentSequence, n: nat) -> bool
    decreases s, n
{ n == 0 || n > s.children@.len() || (good_items(s, (n - 1) as nat) && good_item(s.children@[n - 1])) }
pub open spec fn good_branches(a: ComponentAlternation, n: nat) -> bool
    decreases a, n
{ n == 0 || n > a.children@.len() || (good_branches(a, (n - 1) as nat) && good_branch(a.children@[n - 1])) }
pub open spec fn good_branch(s: ComponentSequence) -> bool
    decreases s, s.children@.len() + 1
{ s.alternation is None && s.capture_index is None && s.capture_name is None && good_items(s, s.children@.len()) }

// Both depend on the children only.
pub proof fn same_items(s: ComponentSequence, t: ComponentSequence, n: nat)
    requires n <= s.children@.len(), n <= t.children@.len(), forall|i: int| 0 <= i < n ==> #[trigger] s.children@[i] == t.children@[i]
    ensures seq_text(s, n) == seq_text(t, n), good_items(s, n) == good_items(t, n)
    decreases n
{ if n > 0 { same_items(s, t, (n - 1) as nat); assert(s.children@[n - 1] == t.children@[n - 1]); } }
pub proof fn same_branches(s: ComponentAlternation, t: ComponentAlternation, n: nat)
    requires n <= s.children@.len(), n <= t.children@.len(), forall|i: int| 0 <= i < n ==> #[trigger] s.children@[i] == t.children@[i]
    ensures alt_text(s, n) == alt_text(t, n), good_branches(s, n) == good_branches(t, n)
    decreases n
{ if n > 0 { same_branches(s, t, (n - 1) as nat); assert(s.children@[n - 1] == t.children@[n - 1]); assert(s.children@[0] == t.children@[0]);
    assert(branch_text(s, 0) == seq_text(s.children@[0], s.children@[0].children@.len()));
    assert(branch_text(t, 0) == seq_text(t.children@[0], t.children@[0].children@.len())); } }

/// good_branch, for a sequence at hand.
pub open spec fn branch_like(s: ComponentSequence) -> bool { s.alternation is None && s.capture_index is None && s.capture_name is None && good_items(s, s.children@.len()) }
pub open spec fn part_of(s: ComponentSequence) -> Seq<Tok> { seq_text(s, s.children@.len()) }
pub mod vx_tree {
    use super::*;
    /// What a sequence says depends on its children only, wherever they are moved.
    pub broadcast proof fn said(s: ComponentSequence, t: ComponentSequence, n: nat, m: nat)
        requires s.children@ == t.children@, n == m, n == s.children@.len()
        ensures #[trigger] seq_text(s, n) == #[trigger] seq_text(t, m)
    { same_items(s, t, n); }
    pub broadcast proof fn good(s: ComponentSequence, t: ComponentSequence, n: nat, m: nat)
        requires s.children@ == t.children@, n == m, n == s.children@.len()
        ensures #[trigger] good_items(s, n) == #[trigger] good_items(t, m)
    { same_items(s, t, n); }
    pub broadcast proof fn nothing(s: ComponentSequence)
        ensures #[trigger] seq_text(s, 0) == Seq::<Tok>::empty(), good_items(s, 0)
    {}
    pub broadcast group moved { said, good, nothing }
}
/// A sequence still being built: the branches done, each with its bar, then the current one.
pub open spec fn part_text(s: ComponentSequence) -> Seq<Tok> {
    (match s.alternation { Some(a) => alt_text(a, a.children@.len()) + seq![Tok::Bar], None => seq![] }) + seq_text(s, s.children@.len())
}
pub open spec fn good_part(s: ComponentSequence) -> bool {
    &&& s.capture_index is Some && s.capture_name is None && good_items(s, s.children@.len())
    &&& match s.alternation { Some(a) => a.children@.len() >= 1 && good_branches(a, a.children@.len()), None => true }
}
@end
@fn parser/component_alternation.rs ComponentAlternation::append
ensures
    final(self).children@ == old(self).children@.push(component),
    final(self).children@.len() == old(self).children@.len() + 1,
    alt_text(*final(self), final(self).children@.len()) == (if old(self).children@.len() == 0 { part_of(component) } else { alt_text(*old(self), old(self).children@.len()) + seq![Tok::Bar] + part_of(component) }),
    good_branches(*final(self), final(self).children@.len()) == (good_branches(*old(self), old(self).children@.len()) && branch_like(component)),
@at leaves
proof {
    let n = self.children@.len();
    assert(self.children@[n - 1] == component);
    same_branches(*old(self), *self, (n - 1) as nat);
    assert(branch_text(*self, 0) == seq_text(self.children@[0], self.children@[0].children@.len()));
    assert(good_branches(*self, 0) && good_branches(*old(self), 0));
    assert(good_branches(*self, n) == (good_branches(*self, (n - 1) as nat) && good_branch(component)));
}
@end
@fn parser/component_sequence.rs ComponentSequence::add_component
ensures
    final(self).children@ == old(self).children@.push(comp), final(self).alternation == old(self).alternation,
    final(self).capture_index == old(self).capture_index, final(self).capture_name == old(self).capture_name,
    part_text(*final(self)) =~= part_text(*old(self)) + text(comp),
    good_part(*old(self)) && good_item(comp) ==> good_part(*final(self)),
@at leaves
proof {
    let n = old(self).children@.len();
    assert(self.children@[n as int] == comp);
    same_items(*old(self), *self, n);
}
@end
@fn parser/component_sequence.rs ComponentSequence::add_alternation
requires old(self).alternation is Some ==> old(self).alternation->0.children@.len() >= 1
ensures
    final(self).children@.len() == 0, final(self).alternation is Some,
    final(self).capture_index == old(self).capture_index, final(self).capture_name == old(self).capture_name,
    part_text(*final(self)) =~= part_text(*old(self)).push(Tok::Bar),
    alt_text(final(self).alternation->0, final(self).alternation->0.children@.len()) =~= part_text(*old(self)),
    old(self).alternation is None ==> final(self).alternation->0.children@.len() == 1,
    old(self).alternation is Some ==> final(self).alternation->0.children@.len() == old(self).alternation->0.children@.len() + 1,
    good_part(*old(self)) ==> good_part(*final(self)),
@at entry
broadcast use vx_tree::moved;
@end
@fn parser/component_sequence.rs ComponentSequence::finalize
requires good_part(*old(self))
ensures
    good_group(*final(self)), final(self).capture_index == old(self).capture_index,
    seq_text(*final(self), final(self).children@.len()) =~= part_text(*old(self)),
@at entry
broadcast use vx_tree::moved;
@at leaves
proof {
    if self.children@.len() == 1 {
        let s = *self;
        assert(seq_text(s, 1) =~= seq_text(s, 0) + text(s.children@[0]));
    }
}
@end
@fn parser/component.rs Component::from@ComponentClass
ensures r == Component::Class(c)
@rename from_class
@end
@fn parser/component.rs Component::from@ComponentSequence
ensures r == Component::Sequence(c)
@rename from_sequence
@end
@raw
// Into is From turned around.
impl ComponentClass { pub fn into(self) -> (r: Component) ensures r == Component::Class(self) { Component::from_class(self) } }
impl ComponentSequence { pub fn into(self) -> (r: Component) ensures r == Component::Sequence(self) { Component::from_sequence(self) } }
@end
