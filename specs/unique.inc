@raw
// C11: no two trees of the shapes a finished tree has are written with the same pieces; the text determines the tree.
pub open spec fn same_tree(c: Component, d: Component) -> bool
    decreases c
{
    match (c, d) {
        (Component::Class(ComponentClass::Ascii(a)), Component::Class(ComponentClass::Ascii(b))) => bytes_of(a.cr) == bytes_of(b.cr),
        (Component::Sequence(s), Component::Sequence(t)) => same_group(s, t),
        (Component::Alternation(a), Component::Alternation(b)) => a.children@.len() == b.children@.len() && same_branch_list(a, b, a.children@.len()),
        _ => false,
    }
}
pub open spec fn same_group(s: ComponentSequence, t: ComponentSequence) -> bool
    decreases s, s.children@.len() + 1
{
    s.capture_index == t.capture_index && s.capture_name == t.capture_name && s.alternation is None && t.alternation is None
        && s.children@.len() == t.children@.len() && same_list(s, t, s.children@.len())
}
/// The first n children.
pub open spec fn same_list(s: ComponentSequence, t: ComponentSequence, n: nat) -> bool
    decreases s, n
{ n == 0 || n > s.children@.len() || n > t.children@.len() || (same_list(s, t, (n - 1) as nat) && same_tree(s.children@[n - 1], t.children@[n - 1])) }
pub open spec fn same_branch_list(a: ComponentAlternation, b: ComponentAlternation, n: nat) -> bool
    decreases a, n
{ n == 0 || n > a.children@.len() || n > b.children@.len() || (same_branch_list(a, b, (n - 1) as nat) && same_group(a.children@[n - 1], b.children@[n - 1])) }

pub open spec fn starts(x: Seq<Tok>) -> bool { x.len() > 0 && (x.last() is Open || x.last() is Bar) }
proof fn same_front(x: Seq<Tok>, y: Seq<Tok>, a: Tok, b: Tok)
    requires x.push(a) == y.push(b)
    ensures a == b, x == y
{
    assert(x.push(a).last() == a && y.push(b).last() == b);
    assert(x.push(a).drop_last() =~= x && y.push(b).drop_last() =~= y);
}
/// An item ends with a byte or with a closing parenthesis.
proof fn item_ends(c: Component)
    requires good_item(c)
    ensures text(c).len() > 0, text(c).last() is Lit || text(c).last() is Close
{ }
/// Read from the right: the items are the same, and so is what is before them.
proof fn items_from_right(s: ComponentSequence, n: nat, t: ComponentSequence, m: nat, x: Seq<Tok>, y: Seq<Tok>)
    requires
        n <= s.children@.len(), m <= t.children@.len(), good_items(s, n), good_items(t, m), starts(x), starts(y),
        x + seq_text(s, n) == y + seq_text(t, m),
    ensures n == m, same_list(s, t, n), x == y
    decreases s, n
{
    if n == 0 || m == 0 {
        assert(x + seq![] =~= x && y + seq![] =~= y);
        if n > 0 {
            item_ends(s.children@[n - 1]);
            assert((x + seq_text(s, n)).last() == text(s.children@[n - 1]).last());
        }
        if m > 0 {
            item_ends(t.children@[m - 1]);
            assert((y + seq_text(t, m)).last() == text(t.children@[m - 1]).last());
        }
    } else {
        let (c, d) = (s.children@[n - 1], t.children@[m - 1]);
        let (p, q) = (x + seq_text(s, (n - 1) as nat), y + seq_text(t, (m - 1) as nat));
        assert(p + text(c) =~= x + seq_text(s, n));
        assert(q + text(d) =~= y + seq_text(t, m));
        item_from_right(c, d, p, q);
        items_from_right(s, (n - 1) as nat, t, (m - 1) as nat, x, y);
    }
}
proof fn item_from_right(c: Component, d: Component, p: Seq<Tok>, q: Seq<Tok>)
    requires good_item(c), good_item(d), p + text(c) == q + text(d)
    ensures same_tree(c, d), p == q
    decreases c
{
    item_ends(c);
    item_ends(d);
    assert((p + text(c)).last() == text(c).last());
    assert((q + text(d)).last() == text(d).last());
    match (c, d) {
        (Component::Class(ComponentClass::Ascii(a)), Component::Class(ComponentClass::Ascii(b))) => {
            assert(p + text(c) =~= p.push(text(c).last()));
            assert(q + text(d) =~= q.push(text(d).last()));
            same_front(p, q, text(c).last(), text(d).last());
        }
        (Component::Sequence(s), Component::Sequence(t)) => { group_from_right(s, t, p, q); }
        _ => { }
    }
}
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
proof fn group_from_right(s: ComponentSequence, t: ComponentSequence, p: Seq<Tok>, q: Seq<Tok>)
    requires good_group(s), good_group(t), p + text(Component::Sequence(s)) == q + text(Component::Sequence(t))
    ensures same_group(s, t), p == q
    decreases s, s.children@.len() + 1
{
    let (n, m) = (s.children@.len(), t.children@.len());
    let (x, y) = (p.push(open_of(s)), q.push(open_of(t)));
    let (a, b) = (x + seq_text(s, n), y + seq_text(t, m));
    assert(a.push(Tok::Close) =~= p + text(Component::Sequence(s)));
    assert(b.push(Tok::Close) =~= q + text(Component::Sequence(t)));
    same_front(a, b, Tok::Close, Tok::Close);
    if good_items(s, n) && good_items(t, m) {
        items_from_right(s, n, t, m, x, y);
    } else if good_items(s, n) {
        let e = t.children@[0]->Alternation_0;
        assert(seq_text(t, 1) =~= seq_text(t, 0) + text(t.children@[0]));
        let k = e.children@.len();
        let f = e.children@[k - 1];
        let z = y + alt_text(e, (k - 1) as nat) + seq![Tok::Bar];
        assert(z + seq_text(f, f.children@.len()) =~= b);
        assert(z.last() == Tok::Bar);
        items_from_right(s, n, f, f.children@.len(), x, z);
    } else if good_items(t, m) {
        let e = s.children@[0]->Alternation_0;
        assert(seq_text(s, 1) =~= seq_text(s, 0) + text(s.children@[0]));
        let k = e.children@.len();
        let f = e.children@[k - 1];
        let z = x + alt_text(e, (k - 1) as nat) + seq![Tok::Bar];
        assert(z + seq_text(f, f.children@.len()) =~= a);
        assert(z.last() == Tok::Bar);
        items_from_right(f, f.children@.len(), t, m, z, y);
    } else {
        let (e, f) = (s.children@[0]->Alternation_0, t.children@[0]->Alternation_0);
        assert(seq_text(s, 1) =~= seq_text(s, 0) + text(s.children@[0]));
        assert(seq_text(t, 1) =~= seq_text(t, 0) + text(t.children@[0]));
        assert(x + alt_text(e, e.children@.len()) =~= a);
        assert(y + alt_text(f, f.children@.len()) =~= b);
        branches_from_right(e, e.children@.len(), f, f.children@.len(), x, y);
        assert(same_tree(s.children@[0], t.children@[0]));
        assert(same_list(s, t, 0));
        assert(same_list(s, t, 1));
    }
    same_front(p, q, open_of(s), open_of(t));
}
proof fn branches_from_right(a: ComponentAlternation, n: nat, b: ComponentAlternation, m: nat, x: Seq<Tok>, y: Seq<Tok>)
    requires
        1 <= n <= a.children@.len(), 1 <= m <= b.children@.len(), good_branches(a, n), good_branches(b, m),
        x.len() > 0, x.last() is Open, y.len() > 0, y.last() is Open,
        x + alt_text(a, n) == y + alt_text(b, m),
    ensures n == m, same_branch_list(a, b, n), x == y
    decreases a, n
{
    let (f, g) = (a.children@[n - 1], b.children@[m - 1]);
    let p = if n == 1 { x } else { x + alt_text(a, (n - 1) as nat) + seq![Tok::Bar] };
    let q = if m == 1 { y } else { y + alt_text(b, (m - 1) as nat) + seq![Tok::Bar] };
    assert(alt_text(a, 1) == branch_text(a, 0) && alt_text(b, 1) == branch_text(b, 0));
    assert(alt_text(a, n) == if n == 1 { branch_text(a, 0) } else { alt_text(a, (n - 1) as nat) + seq![Tok::Bar] + seq_text(f, f.children@.len()) });
    assert(alt_text(b, m) == if m == 1 { branch_text(b, 0) } else { alt_text(b, (m - 1) as nat) + seq![Tok::Bar] + seq_text(g, g.children@.len()) });
    assert(p + seq_text(f, f.children@.len()) =~= x + alt_text(a, n));
    assert(q + seq_text(g, g.children@.len()) =~= y + alt_text(b, m));
    assert(good_branch(f) && good_branch(g));
    items_from_right(f, f.children@.len(), g, g.children@.len(), p, q);
    assert(n > 1 ==> p.last() == Tok::Bar);
    assert(m > 1 ==> q.last() == Tok::Bar);
    assert(same_branch_list(a, b, 0));
    if n > 1 {
        let (u, v) = (x + alt_text(a, (n - 1) as nat), y + alt_text(b, (m - 1) as nat));
        assert(u.push(Tok::Bar) =~= p && v.push(Tok::Bar) =~= q);
        same_front(u, v, Tok::Bar, Tok::Bar);
        branches_from_right(a, (n - 1) as nat, b, (m - 1) as nat, x, y);
    }
    assert(same_group(f, g));
}
/// The tree of a pattern is the only one: whatever finished tree is written with these pieces is this tree.
pub proof fn one_tree(s: ComponentSequence, t: ComponentSequence)
    requires good_group(s), good_group(t), text(Component::Sequence(s)) == text(Component::Sequence(t))
    ensures same_tree(Component::Sequence(s), Component::Sequence(t))
{
    assert(seq![] + text(Component::Sequence(s)) =~= text(Component::Sequence(s)));
    assert(seq![] + text(Component::Sequence(t)) =~= text(Component::Sequence(t)));
    group_from_right(s, t, seq![], seq![]);
}
@end
