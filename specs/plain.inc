@raw
pub open spec fn single(s: CharReach, c: u8) -> bool { forall|x: u8| s.has(x) == (x == c) }
pub open spec fn pair(s: CharReach, a: u8, b: u8) -> bool { forall|x: u8| s.has(x) == (x == a || x == b) }
proof fn one(s: CharReach, c: u8)
    requires s.has(c), forall|x: u8| x < c ==> !s.has(x)
    ensures card(s, c + 1) == 1, (card(s, 256) == 1) == single(s, c), card(s, 256) >= 1
{
    card_gap(s, 0, c as int);
    card_grows(s, c + 1, 256);
    if card(s, 256) == 1 {
        assert forall|x: u8| s.has(x) == (x == c) by {
            if s.has(x) && x > c { card_grows(s, c + 1, x as int); card_grows(s, x + 1, 256); assert(card(s, x + 1) == card(s, x as int) + 1); }
        }
    }
    if single(s, c) { card_gap(s, c + 1, 256); }
}
proof fn two(s: CharReach, a: u8, b: u8)
    requires s.has(a), s.has(b), a < b, forall|x: u8| x < b && x != a ==> !s.has(x)
    ensures (card(s, 256) == 2) == pair(s, a, b), card(s, 256) >= 2
{
    card_gap(s, 0, a as int);
    card_gap(s, a + 1, b as int);
    card_grows(s, b + 1, 256);
    assert(card(s, b + 1) == 2);
    if card(s, 256) == 2 {
        assert forall|x: u8| s.has(x) == (x == a || x == b) by {
            if s.has(x) && x > b { card_grows(s, b + 1, x as int); card_grows(s, x + 1, 256); assert(card(s, x + 1) == card(s, x as int) + 1); }
        }
    }
    if pair(s, a, b) { card_gap(s, b + 1, 256); }
}
proof fn least(s: CharReach, from: int, w: u8) -> (c: u8)
    requires 0 <= from <= w, s.has(w)
    ensures s.has(c), from <= c <= w, forall|x: u8| from <= x < c ==> !s.has(x)
    decreases w - from
{ if s.has(from as u8) { from as u8 } else { least(s, from + 1, w) } }
/// What the number of members says about them.
proof fn counts(s: CharReach)
    ensures
        (card(s, 256) == 0) == cr_empty(s),
        (card(s, 256) == 1) == (exists|c: u8| single(s, c)),
        (card(s, 256) == 2) == (exists|a: u8, b: u8| a < b && pair(s, a, b)),
{
    if cr_empty(s) {
        card_gap(s, 0, 256);
        assert(forall|c: u8| single(s, c) ==> s.has(c));
        assert(forall|a: u8, b: u8| pair(s, a, b) ==> s.has(a));
    } else {
        let c = least(s, 0, choose|c: u8| s.has(c));
        one(s, c);
        assert(forall|d: u8| single(s, d) ==> s.has(d));
        assert(forall|a: u8, b: u8| pair(s, a, b) ==> s.has(a) && s.has(b));
        if !single(s, c) {
            let w = choose|w: u8| s.has(w) && w != c;
            let b = least(s, c + 1, w);
            two(s, c, b);
            assert(forall|d: u8| !single(s, d));
        }
    }
}
pub open spec fn case_pair(s: CharReach, u: u8) -> bool { 0x41 <= u <= 0x5a && pair(s, u, (u + 0x20) as u8) }
/// What a class stands for in a literal: its only byte, or a letter in both cases.
pub open spec fn class_elem(s: CharReach) -> Option<(u8, bool)> {
    if exists|c: u8| single(s, c) { Some((choose|c: u8| single(s, c), false)) }
    else if exists|u: u8| case_pair(s, u) { Some((choose|u: u8| case_pair(s, u), true)) }
    else { None }
}
proof fn elem_one(s: CharReach, c: u8)
    requires single(s, c)
    ensures class_elem(s) == Some((c, false))
{ let d = choose|d: u8| single(s, d); assert(s.has(c)); assert(s.has(d)); }
proof fn elem_pair(s: CharReach, u: u8)
    requires case_pair(s, u)
    ensures class_elem(s) == Some((u, true))
{
    assert(s.has(u) && s.has((u + 0x20) as u8));
    assert forall|c: u8| !single(s, c) by { }
    let d = choose|d: u8| case_pair(s, d);
    assert(s.has(d) && s.has((d + 0x20) as u8));
}
/// No group is left unfinished, at any depth (parse sees to it: C11).
pub open spec fn finished(c: Component) -> bool
    decreases c
{
    match c {
        Component::Class(_) => true,
        Component::Sequence(s) => seq_finished(s, s.children@.len()),
        Component::Alternation(a) => alt_finished(a, a.children@.len()),
    }
}
pub open spec fn seq_finished(s: ComponentSequence, n: nat) -> bool
    decreases s, n
{ s.alternation is None && (n == 0 || n > s.children@.len() || (seq_finished(s, (n - 1) as nat) && finished(s.children@[n - 1]))) }
pub open spec fn alt_finished(a: ComponentAlternation, n: nat) -> bool
    decreases a, n
{ n == 0 || n > a.children@.len() || (alt_finished(a, (n - 1) as nat) && seq_finished(a.children@[n - 1], a.children@[n - 1].children@.len())) }
/// The plain string a tree stands for, if it stands for one.
pub open spec fn spelled(c: Component) -> Option<Seq<(u8, bool)>>
    decreases c
{
    match c {
        Component::Class(ComponentClass::Ascii(a)) => match class_elem(a.cr) { Some(e) => Some(seq![e]), None => None },
        Component::Sequence(s) => seq_spelled(s, s.children@.len()),
        Component::Alternation(_) => None,
    }
}
pub open spec fn seq_spelled(s: ComponentSequence, n: nat) -> Option<Seq<(u8, bool)>>
    decreases s, n
{
    if n == 0 || n > s.children@.len() { Some(seq![]) } else {
        match (seq_spelled(s, (n - 1) as nat), spelled(s.children@[n - 1])) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
proof fn seq_spelled_not(s: ComponentSequence, i: nat, n: nat)
    requires i <= n <= s.children@.len(), seq_spelled(s, i) is None
    ensures seq_spelled(s, n) is None
    decreases n - i
{ if i < n { seq_spelled_not(s, i, (n - 1) as nat); } }
proof fn seq_finished_all(s: ComponentSequence, i: nat, n: nat)
    requires i < n <= s.children@.len(), seq_finished(s, n)
    ensures finished(s.children@[i as int])
    decreases n - i
{ if i + 1 < n { seq_finished_all(s, i, (n - 1) as nat); } }
/// The visitor has been through something that stands for `p`.
pub open spec fn visited(o: ConstructLiteralVisitor, n: ConstructLiteralVisitor, r: Result<(), NotLiteral>, p: Option<Seq<(u8, bool)>>) -> bool {
    &&& n.lit.wf()
    &&& match p { Some(e) => r is Ok && n.lit.elems() =~= o.lit.elems() + e, None => r is Err }
}
@end
@assume util/charreach.rs CharReach::count from sets.vs
@end
@fn util/charreach.rs CharReach::is_caseless_char
ensures r == (exists|u: u8| case_pair(*self, u))
@at entry
proof {
    counts(*self);
    assert forall|u: u8| #[trigger] case_pair(*self, u) implies pair(*self, u, (u + 0x20) as u8) && self.has(u) && self.has((u + 0x20) as u8) by { }
    assert forall|a: u8, b: u8| #[trigger] pair(*self, a, b) implies self.has(a) && self.has(b) by { }
    assert forall|a: u8, b: u8| #[trigger] pair(*self, a, b) && a < b && a == up(b) implies case_pair(*self, a) by { }
}
@end
@type parser/shortcut_literal.rs NotLiteral
@end
@type parser/shortcut_literal.rs ConstructLiteralVisitor
@default
ensures r.lit.wf(), r.lit.elems() =~= Seq::<(u8, bool)>::empty()
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::pre_ascii_component_class
requires old(self).lit.wf()
ensures visited(*old(self), *final(self), r, match class_elem(c.cr) { Some(e) => Some(seq![e]), None => None })
@at entry
proof {
    counts(c.cr);
    assert forall|u: u8| #[trigger] single(c.cr, u) implies class_elem(c.cr) == Some((u, false)) && c.cr.has(u) by { elem_one(c.cr, u); }
    assert forall|u: u8| #[trigger] case_pair(c.cr, u) implies class_elem(c.cr) == Some((u, true)) && c.cr.has(u) && pair(c.cr, u, (u + 0x20) as u8) && card(c.cr, 256) == 2 by { elem_pair(c.cr, u); }
    assert(class_elem(c.cr) is Some ==> card(c.cr, 256) == 1 || card(c.cr, 256) == 2 && exists|u: u8| case_pair(c.cr, u));
}
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::pre_component_sequence
ensures r is Ok, *final(self) == *old(self)
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::pre_component_alternation
ensures r is Err, *final(self) == *old(self)
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::during_ascii_component_class
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::during_component_alternation
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::during_component_sequence
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::post_ascii_component_class
ensures *final(self) == *old(self)
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::post_component_alternation
ensures *final(self) == *old(self)
@end
@fn parser/shortcut_literal.rs ConstructLiteralVisitor::post_component_sequence
ensures *final(self) == *old(self)
@end
@global c.children.iter() ==> vx_iter(&c.children)
@global <V: ConstComponentVisitor> ==>
@global V::Error ==> NotLiteral
@global &mut V ==> &mut ConstructLiteralVisitor
@fn parser/ascii_component_class.rs walk_ascii_component_class
requires old(v).lit.wf()
ensures visited(*old(v), *final(v), r, spelled(Component::Class(ComponentClass::Ascii(*c))))
@end
@fn parser/component_class.rs walk_component_class
requires old(v).lit.wf()
ensures visited(*old(v), *final(v), r, spelled(Component::Class(*c)))
@end
@fn parser/component_alternation.rs walk_component_alternation
requires old(v).lit.wf(), finished(Component::Alternation(*c))
ensures visited(*old(v), *final(v), r, spelled(Component::Alternation(*c)))
decreases *c
@loop 0
invariant false
ensures false
decreases 0int
@end
@fn parser/component_sequence.rs walk_component_sequence
requires old(v).lit.wf(), finished(Component::Sequence(*c))
ensures visited(*old(v), *final(v), r, spelled(Component::Sequence(*c)))
decreases *c
@loop 0
invariant
    child_iter.v == &c.children, child_iter.k <= c.children@.len(), v.lit.wf(), seq_finished(*c, c.children@.len()),
    seq_spelled(*c, child_iter.k as nat) matches Some(e) && v.lit.elems() =~= old(v).lit.elems() + e,
ensures child_iter.k == c.children@.len()
decreases c.children@.len() - child_iter.k
@at loop 0 start
proof {
    let n = c.children@.len();
    seq_finished_all(*c, (child_iter.k - 1) as nat, n);
    assert(decreases_to!(c.children => c.children[child_iter.k - 1]));
    if spelled(c.children@[child_iter.k - 1]) is None { assert(seq_spelled(*c, child_iter.k as nat) is None); seq_spelled_not(*c, child_iter.k as nat, n); }
}
@end
@fn parser/component.rs walk_component
requires old(v).lit.wf(), finished(*c)
ensures visited(*old(v), *final(v), r, spelled(*c))
decreases *c
@end
