@raw
/// The character classes of a tree, in pattern order.
pub open spec fn classes(c: Component) -> Seq<CharReach>
    decreases c
{
    match c {
        Component::Class(ComponentClass::Ascii(a)) => seq![a.cr],
        Component::Sequence(s) => seq_classes(s, s.children@.len()),
        Component::Alternation(a) => alt_classes(a, a.children@.len()),
    }
}
/// Those of the first `n` children.
pub open spec fn seq_classes(s: ComponentSequence, n: nat) -> Seq<CharReach>
    decreases s, n
{
    if n == 0 || n > s.children@.len() { seq![] } else { seq_classes(s, (n - 1) as nat) + classes(s.children@[n - 1]) }
}
pub open spec fn alt_classes(a: ComponentAlternation, n: nat) -> Seq<CharReach>
    decreases a, n
{
    if n == 0 || n > a.children@.len() { seq![] } else { alt_classes(a, (n - 1) as nat) + seq_classes(a.children@[n - 1], a.children@[n - 1].children@.len()) }
}
pub proof fn seq_classes_grow(s: ComponentSequence, a: nat, b: nat)
    requires a <= b <= s.children@.len()
    ensures seq_classes(s, a).len() <= seq_classes(s, b).len()
    decreases b - a
{ if a < b { seq_classes_grow(s, a, (b - 1) as nat); } }
pub proof fn alt_classes_grow(s: ComponentAlternation, a: nat, b: nat)
    requires a <= b <= s.children@.len()
    ensures alt_classes(s, a).len() <= alt_classes(s, b).len()
    decreases b - a
{ if a < b { alt_classes_grow(s, a, (b - 1) as nat); } }
@end
