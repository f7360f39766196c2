# Literals: C09.
@include common.inc
@include bitvec.inc
@include case.inc
@include ue2string.inc

@fn util/ue2string.rs Ue2Literal::eq
ensures r == (self.s@ == other.s@ && self.nocase@ == other.nocase@)
@end
@fn util/ue2string.rs Ue2Literal::cmp
ensures r == order(*self, *other)
@end
@fn util/ue2string.rs Ue2Literal::partial_cmp
ensures r == Some(order(*self, *other))
@end

@raw
/// Bytes first, case flags second.
pub open spec fn order(a: Ue2Literal, b: Ue2Literal) -> Ordering {
    if lex(a.s@, b.s@) is Equal { lex_bits(a.nocase@, b.nocase@) } else { lex(a.s@, b.s@) }
}
pub open spec fn opposite(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
proof fn lex_eq(a: Seq<u8>, b: Seq<u8>)
    ensures (lex(a, b) is Equal) == (a == b), lex(b, a) == opposite(lex(a, b))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lex_eq(a.drop_first(), b.drop_first());
        if lex(a, b) is Equal { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else { if a.len() == b.len() { assert(a =~= b); } }
}
proof fn lexb_eq(a: Seq<bool>, b: Seq<bool>)
    ensures (lex_bits(a, b) is Equal) == (a == b), lex_bits(b, a) == opposite(lex_bits(a, b))
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lexb_eq(a.drop_first(), b.drop_first());
        if lex_bits(a, b) is Equal { assert(a =~= seq![a[0]] + a.drop_first()); assert(b =~= seq![b[0]] + b.drop_first()); }
    } else { if a.len() == b.len() { assert(a =~= b); } }
}
proof fn lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex(a, b) is Less, lex(b, c) is Less
    ensures lex(a, c) is Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lex_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}
proof fn lexb_trans(a: Seq<bool>, b: Seq<bool>, c: Seq<bool>)
    requires lex_bits(a, b) is Less, lex_bits(b, c) is Less
    ensures lex_bits(a, c) is Less
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lexb_trans(a.drop_first(), b.drop_first(), c.drop_first()); }
}
/// The order is total, antisymmetric, consistent with equality and transitive.
pub proof fn order_laws(a: Ue2Literal, b: Ue2Literal, c: Ue2Literal)
    ensures
        (order(a, b) is Equal) == (a.s@ == b.s@ && a.nocase@ == b.nocase@),
        order(b, a) == opposite(order(a, b)),
        order(a, b) is Less && order(b, c) is Less ==> order(a, c) is Less,
{
    lex_eq(a.s@, b.s@); lex_eq(b.s@, c.s@); lex_eq(a.s@, c.s@);
    lexb_eq(a.nocase@, b.nocase@); lexb_eq(b.nocase@, c.nocase@);
    if lex(a.s@, b.s@) is Less && lex(b.s@, c.s@) is Less { lex_trans(a.s@, b.s@, c.s@); }
    if lex_bits(a.nocase@, b.nocase@) is Less && lex_bits(b.nocase@, c.nocase@) is Less { lexb_trans(a.nocase@, b.nocase@, c.nocase@); }
}
/// Equality of contents is equality of the elements, in order.
pub proof fn eq_is_elems(a: Ue2Literal, b: Ue2Literal)
    requires a.wf(), b.wf()
    ensures (a.s@ == b.s@ && a.nocase@ == b.nocase@) == (a.elems() == b.elems())
{
    if a.elems() == b.elems() {
        assert(a.elems().len() == b.elems().len());
        assert forall|i: int| 0 <= i < a.s@.len() implies a.s@[i] == b.s@[i] && a.nocase@[i] == b.nocase@[i] by { assert(a.elems()[i] == b.elems()[i]); }
        assert(a.s@ =~= b.s@); assert(a.nocase@ =~= b.nocase@);
    } else if a.s@ == b.s@ && a.nocase@ == b.nocase@ { assert(a.elems() =~= b.elems()); }
}
@end
@include mixed.inc
@helpers
@raw
} // verus!
@end
