# Loops over byte sets: C02 (set_bytes, from_bytes), C03 (Display), C05, C06.
@include common.inc
@include text.inc
@include charreach_assumed.inc

@include case.inc

@fn util/charreach.rs CharReach::set_bytes
ensures forall|x: u8| final(self).has(x) == (old(self).has(x) || bytes@.contains(x))
@loop 0 native
invariant
    forall|x: u8| self.has(x) == (old(self).has(x) || bytes@.take(vx_it0.index@).contains(x)),
@at loop 0 start
proof {
    let i = vx_it0.index@;
    assert(bytes@.take(i + 1) =~= bytes@.take(i).push(bytes@[i]));
    assert forall|x: u8| bytes@.take(i + 1).contains(x) == (bytes@.take(i).contains(x) || x == bytes@[i]) by {
        if bytes@.take(i).contains(x) { let k = choose|k: int| 0 <= k < i && bytes@.take(i)[k] == x; assert(bytes@.take(i + 1)[k] == x); }
        if x == bytes@[i] { assert(bytes@.take(i + 1)[i] == x); }
    }
}
@at exit
proof { assert(bytes@.take(bytes@.len() as int) =~= bytes@); }
@end
@fn util/charreach.rs CharReach::from_bytes
ensures forall|x: u8| r.has(x) == bytes@.contains(x)
@end

@fn util/charreach.rs CharReach::is_alphabetic
ensures r == (!cr_empty(*self) && forall|c: u8| self.has(c) ==> letter(c))
@loop 0
invariant
    match next {
        Some(pos) => self.has(pos) && forall|c: u8| self.has(c) && c < pos ==> letter(c),
        None => forall|c: u8| self.has(c) ==> letter(c),
    },
ensures next is None,
decreases (match next { Some(pos) => 256 - pos, None => 0 }),
@end
@raw
mod vx_bit5 {
    use super::*;
    pub open spec fn facts(c: u8) -> bool {
        &&& (c ^ 0x20) == (if c & 0x20 == 0 { c | 0x20 } else { c & 0xdf }) && c & 0xdf == c & !0x20 && !0x20u8 == 0xdf
        &&& c & 0x20 == 0 ==> c ^ 0x20 == c + 0x20
        &&& c & 0x20 != 0 ==> c ^ 0x20 == c - 0x20
        &&& c & 0x20 == 0 || c & 0x20 == 0x20
        &&& (c ^ 0x20) ^ 0x20 == c && c ^ 0x20 == 0x20 ^ c && 0x20 & c == c & 0x20
    }
    /// Other ways to toggle a bit.
    pub broadcast proof fn toggled(c: u8) ensures #[trigger] (c ^ 0x20) == c ^ 0x20, facts(c) { prove(c); }
    pub broadcast proof fn tested(c: u8) ensures #[trigger] (c & 0x20) == c & 0x20, facts(c) { prove(c); }
    proof fn prove(c: u8) ensures facts(c) {
        assert((c ^ 0x20) == (if c & 0x20 == 0 { c | 0x20 } else { c & 0xdf }) && c & 0xdf == c & !0x20 && !0x20u8 == 0xdf
            && (c & 0x20 == 0 ==> c ^ 0x20 == c + 0x20) && (c & 0x20 != 0 ==> c ^ 0x20 == c - 0x20)
            && (c & 0x20 == 0 || c & 0x20 == 0x20) && (c ^ 0x20) ^ 0x20 == c && c ^ 0x20 == 0x20 ^ c && 0x20 & c == c & 0x20) by (bit_vector);
    }
    pub broadcast group g { toggled, tested }
}
@end
@broadcast vx_bit5::g
@fn util/charreach.rs CharReach::is_bit5_insensitive
ensures r == (forall|c: u8| self.has(c) ==> self.has(c ^ 0x20))
@loop 0
invariant
    match next {
        Some(pos) => self.has(pos) && forall|c: u8| self.has(c) && c < pos ==> self.has(c ^ 0x20),
        None => forall|c: u8| self.has(c) ==> self.has(c ^ 0x20),
    },
ensures next is None,
decreases (match next { Some(pos) => 256 - pos, None => 0 }),
@end

@raw
/// The members of `s` that are at least `n`, in ascending order.
pub open spec fn members_from(s: CharReach, n: int) -> Seq<char>
    decreases 256 - n
{
    if n < 0 || n > 255 { seq![] }
    else if s.has(n as u8) { seq![n as u8 as char] + members_from(s, n + 1) }
    else { members_from(s, n + 1) }
}
proof fn skip_to(s: CharReach, n: int, m: int)
    requires 0 <= n <= m <= 256, forall|c: u8| n <= c < m ==> !s.has(c)
    ensures members_from(s, n) == members_from(s, m)
    decreases m - n
{
    if n < m { assert(!s.has(n as u8)); skip_to(s, n + 1, m); }
}
@end
@fn util/charreach.rs CharReach::fmt
ensures r is Ok ==> final(f).out() == old(f).out() + members_from(*self, 0)
@edit sig: &mut fmt::Formatter<'_> ==> &mut VxFormatter
@edit sig: fmt::Result ==> Result<(), VxFmtError>
@loop 0
invariant
    match next {
        Some(pos) => self.has(pos) && s@ + members_from(*self, pos as int) =~= members_from(*self, 0),
        None => s@ =~= members_from(*self, 0),
    },
ensures next is None,
decreases (match next { Some(pos) => 256 - pos, None => 0 }),
@at loop 0 start
proof { assert(members_from(*self, pos as int) =~= seq![pos as char] + members_from(*self, pos + 1)); }
@at loop 0 end
proof { match next { Some(q) => skip_to(*self, pos + 1, q as int), None => { skip_to(*self, pos + 1, 256); } } }
@at loop 0 before
proof { match next { Some(q) => skip_to(*self, 0, q as int), None => skip_to(*self, 0, 256) } }
@end

@raw
pub open spec fn bit(x: u8, i: u8) -> bool { x & (1u8 << i) != 0 }
pub open spec fn bv_bit(b: Seq<u8>, c: u8) -> bool { bit(b[c as int / 8], c & 7) }
pub open spec fn bv_upto(b: Seq<u8>, s: CharReach, next: Option<u8>) -> bool {
    match next {
        Some(pos) => s.has(pos) && forall|c: u8| bv_bit(b, c) == (s.has(c) && c < pos),
        None => forall|c: u8| bv_bit(b, c) == s.has(c),
    }
}
proof fn bv_clear(b: Seq<u8>)
    requires b.len() >= 32, forall|i: int| 0 <= i < 32 ==> b[i] == 0
    ensures forall|c: u8| !bv_bit(b, c)
{
    assert forall|c: u8| !bv_bit(b, c) by { assert(0u8 & (1u8 << (c & 7)) == 0) by (bit_vector); }
}
proof fn bv_set(b: Seq<u8>, p: u8)
    requires b.len() >= 32
    ensures forall|c: u8| bv_bit(b.update(p as int / 8, b[p as int / 8] | (1u8 << (p & 7))), c) == (bv_bit(b, c) || c == p)
{
    let x = b[p as int / 8];
    let n = b.update(p as int / 8, x | (1u8 << (p & 7)));
    assert forall|c: u8| bv_bit(n, c) == (bv_bit(b, c) || c == p) by {
        assert((((x | (1u8 << (p & 7))) & (1u8 << (c & 7))) != 0) == ((x & (1u8 << (c & 7))) != 0 || c & 7 == p & 7)) by (bit_vector);
        assert(c & 7 == p & 7 && c / 8 == p / 8 ==> c == p) by (bit_vector);
    }
}
@end
@fn util/charreach.rs fill_bitvector
requires old(bits)@.len() >= 32
ensures
    final(bits)@.len() == old(bits)@.len(),
    forall|c: u8| bv_bit(final(bits)@, c) == cr.has(c),
    forall|i: int| 32 <= i < old(bits)@.len() ==> final(bits)@[i] == old(bits)@[i],
@loop 0 idx
invariant
    vx_i0 <= 32,
    bits@.len() == old(bits)@.len(), bits@.len() >= 32,
    forall|i: int| 0 <= i < vx_i0 ==> bits@[i] == 0,
    forall|i: int| 32 <= i < old(bits)@.len() ==> bits@[i] == old(bits)@[i],
decreases 32 - vx_i0,
@loop 1
invariant
    bits@.len() == old(bits)@.len(), bits@.len() >= 32,
    forall|i: int| 32 <= i < old(bits)@.len() ==> bits@[i] == old(bits)@[i],
    bv_upto(bits@, *cr, next),
ensures next is None,
decreases (match next { Some(pos) => 256 - pos, None => 0 }),
@at loop 1 before
proof { bv_clear(bits@); }
@at loop 1 start
let ghost b0 = bits@;
proof { bv_set(bits@, pos); assert(pos & 7 < 8) by (bit_vector); }
@at loop 1 end
proof {
    assert(bits@ =~= b0.update(pos as int / 8, b0[pos as int / 8] | (1u8 << (pos & 7))));
    assert forall|c: u8| bv_bit(bits@, c) == (bv_bit(b0, c) || c == pos) by { }
    assert forall|c: u8| bv_bit(b0, c) == (cr.has(c) && c < pos) by { }
}
@end

@raw
/// The members of `s` agree on bit `i`.
pub open spec fn agree(s: CharReach, i: u8) -> bool {
    (forall|c: u8| s.has(c) ==> bit(c, i)) || (forall|c: u8| s.has(c) ==> !bit(c, i))
}
/// `lo` and `hi` are the conjunction and the disjunction of the members below `n`.
pub open spec fn masks(s: CharReach, n: int, lo: u8, hi: u8) -> bool {
    &&& forall|c: u8| s.has(c) && c < n ==> c & lo == lo && c & hi == c
    &&& forall|i: u8| i < 8 ==> (#[trigger] bit(lo, i) == (forall|c: u8| s.has(c) && c < n ==> bit(c, i)))
    &&& forall|i: u8| i < 8 ==> (#[trigger] bit(hi, i) == (exists|c: u8| s.has(c) && c < n && bit(c, i)))
}
proof fn masks_start(s: CharReach, n: int)
    requires forall|c: u8| c < n ==> !s.has(c)
    ensures masks(s, n, 0xff, 0)
{
    assert forall|i: u8| i < 8 implies #[trigger] bit(0xff, i) && !bit(0, i) by {
        assert(i < 8 ==> 0xffu8 & (1u8 << i) != 0) by (bit_vector);
        assert(0u8 & (1u8 << i) == 0) by (bit_vector);
    }
    assert forall|i: u8| i < 8 implies !#[trigger] bit(0, i) by { assert(0u8 & (1u8 << i) == 0) by (bit_vector); }
}
proof fn masks_skip(s: CharReach, n: int, m: int, lo: u8, hi: u8)
    requires masks(s, n, lo, hi), n <= m, forall|c: u8| n <= c < m ==> !s.has(c)
    ensures masks(s, m, lo, hi)
{
    assert forall|i: u8| i < 8 implies #[trigger] bit(lo, i) == (forall|c: u8| s.has(c) && c < m ==> bit(c, i)) by {
        if bit(lo, i) { assert forall|c: u8| s.has(c) && c < m implies bit(c, i) by { assert(c < n); } }
    }
    assert forall|i: u8| i < 8 implies #[trigger] bit(hi, i) == (exists|c: u8| s.has(c) && c < m && bit(c, i)) by {
        if exists|c: u8| s.has(c) && c < m && bit(c, i) { let c = choose|c: u8| s.has(c) && c < m && bit(c, i); assert(c < n); }
    }
}
proof fn masks_step(s: CharReach, p: u8, lo: u8, hi: u8)
    requires masks(s, p as int, lo, hi), s.has(p)
    ensures masks(s, p + 1, lo & p, hi | p)
{
    assert forall|c: u8| s.has(c) && c < p + 1 implies c & (lo & p) == (lo & p) && c & (hi | p) == c by {
        if c == p {
            assert(p & (lo & p) == (lo & p) && p & (hi | p) == p) by (bit_vector);
        } else {
            assert(c < p);
            assert(c & lo == lo ==> c & (lo & p) == (lo & p)) by (bit_vector);
            assert(c & hi == c ==> c & (hi | p) == c) by (bit_vector);
        }
    }
    assert forall|i: u8| i < 8 implies #[trigger] bit(lo & p, i) == (forall|c: u8| s.has(c) && c < p + 1 ==> bit(c, i)) by {
        assert((lo & p) & (1u8 << i) == (lo & (1u8 << i)) & (p & (1u8 << i))) by (bit_vector);
        assert(i < 8 ==> (((lo & p) & (1u8 << i) != 0) == (lo & (1u8 << i) != 0 && p & (1u8 << i) != 0))) by (bit_vector);
        assert(bit(lo & p, i) == (bit(lo, i) && bit(p, i)));
        if bit(lo & p, i) { assert forall|c: u8| s.has(c) && c < p + 1 implies bit(c, i) by { assert(c < p || c == p); } }
        else if !bit(p, i) { }
        else { let c = choose|c: u8| s.has(c) && c < p && !bit(c, i); assert(s.has(c) && c < p + 1 && !bit(c, i)); }
    }
    assert forall|i: u8| i < 8 implies #[trigger] bit(hi | p, i) == (exists|c: u8| s.has(c) && c < p + 1 && bit(c, i)) by {
        assert(i < 8 ==> (((hi | p) & (1u8 << i) != 0) == (hi & (1u8 << i) != 0 || p & (1u8 << i) != 0))) by (bit_vector);
        assert(bit(hi | p, i) == (bit(hi, i) || bit(p, i)));
        if bit(hi, i) { let c = choose|c: u8| s.has(c) && c < p && bit(c, i); assert(c < p + 1); }
        if exists|c: u8| s.has(c) && c < p + 1 && bit(c, i) { let c = choose|c: u8| s.has(c) && c < p + 1 && bit(c, i); assert(c < p || c == p); }
    }
}
proof fn masks_end(s: CharReach, lo: u8, hi: u8)
    requires masks(s, 256, lo, hi), !cr_empty(s)
    ensures
        forall|c: u8| s.has(c) ==> c & !(lo ^ hi) == lo,
        forall|i: u8| i < 8 ==> (bit(!(lo ^ hi), i) == agree(s, i)),
        lo & hi == lo,
{
    assert forall|c: u8| s.has(c) implies c & !(lo ^ hi) == lo by {
        assert(c & lo == lo && c & hi == c ==> c & !(lo ^ hi) == lo) by (bit_vector);
    }
    let m = choose|c: u8| s.has(c);
    assert forall|i: u8| i < 8 implies bit(!(lo ^ hi), i) == agree(s, i) by {
        assert(i < 8 ==> ((!(lo ^ hi) & (1u8 << i) != 0) == ((lo & (1u8 << i) != 0) == (hi & (1u8 << i) != 0)))) by (bit_vector);
        assert(bit(!(lo ^ hi), i) == (bit(lo, i) == bit(hi, i)));
        if bit(lo, i) { assert(bit(m, i)); }
    }
    assert(m & lo == lo && m & hi == m ==> lo & hi == lo) by (bit_vector);
}
/// Other ways to write the same masks.
proof fn mask_forms(lo: u8, hi: u8)
    ensures
        hi ^ lo == lo ^ hi, hi & lo == lo & hi, hi | lo == lo | hi,
        (lo & hi) | !(lo | hi) == !(lo ^ hi), !(lo | hi) | (lo & hi) == !(lo ^ hi),
        (lo & hi) | (!lo & !hi) == !(lo ^ hi), (!lo & !hi) | (lo & hi) == !(lo ^ hi),
        !lo ^ hi == !(lo ^ hi), lo ^ !hi == !(lo ^ hi), !hi ^ lo == !(lo ^ hi), hi ^ !lo == !(lo ^ hi),
        0xffu8 ^ (lo ^ hi) == !(lo ^ hi), (lo ^ hi) ^ 0xffu8 == !(lo ^ hi), 0xffu8 - (lo ^ hi) == !(lo ^ hi),
        (lo | hi) ^ (lo & hi) == lo ^ hi, (lo | hi) & !(lo & hi) == lo ^ hi, (lo & !hi) | (!lo & hi) == lo ^ hi,
        lo & hi == lo ==> {
            &&& lo | !hi == !(lo ^ hi) && !hi | lo == !(lo ^ hi)
            &&& hi & !lo == lo ^ hi && !lo & hi == lo ^ hi && hi - lo == lo ^ hi
            &&& lo & !(lo ^ hi) == lo && !(lo ^ hi) & lo == lo && hi & !(lo ^ hi) == lo && !(lo ^ hi) & hi == lo
        },
{
    assert(hi ^ lo == lo ^ hi && hi & lo == lo & hi && hi | lo == lo | hi) by (bit_vector);
    assert((lo & hi) | !(lo | hi) == !(lo ^ hi) && !(lo | hi) | (lo & hi) == !(lo ^ hi)) by (bit_vector);
    assert((lo & hi) | (!lo & !hi) == !(lo ^ hi) && (!lo & !hi) | (lo & hi) == !(lo ^ hi)) by (bit_vector);
    assert(!lo ^ hi == !(lo ^ hi) && lo ^ !hi == !(lo ^ hi) && !hi ^ lo == !(lo ^ hi) && hi ^ !lo == !(lo ^ hi)) by (bit_vector);
    assert(0xffu8 ^ (lo ^ hi) == !(lo ^ hi) && (lo ^ hi) ^ 0xffu8 == !(lo ^ hi) && 0xffu8 - (lo ^ hi) == !(lo ^ hi)) by (bit_vector);
    assert((lo | hi) ^ (lo & hi) == lo ^ hi && (lo | hi) & !(lo & hi) == lo ^ hi && (lo & !hi) | (!lo & hi) == lo ^ hi) by (bit_vector);
    assert(lo & hi == lo ==> lo | !hi == !(lo ^ hi) && !hi | lo == !(lo ^ hi) && hi & !lo == lo ^ hi && !lo & hi == lo ^ hi && hi - lo == lo ^ hi) by (bit_vector);
    assert(lo & hi == lo ==> lo & !(lo ^ hi) == lo && !(lo ^ hi) & lo == lo && hi & !(lo ^ hi) == lo && !(lo ^ hi) & hi == lo) by (bit_vector);
}
@end
@fn util/charreach.rs make_and_cmp_mask
ensures
    forall|c: u8| cr.has(c) ==> c & r.0 == r.1,
    cr_empty(*cr) ==> forall|c: u8| c & r.0 != r.1,
    !cr_empty(*cr) ==> forall|i: u8| i < 8 ==> (bit(r.0, i) == agree(*cr, i)),
@loop 0
invariant
    match next {
        Some(pos) => cr.has(pos) && masks(*cr, pos as int, lo, hi),
        None => masks(*cr, 256, lo, hi),
    },
    cr_empty(*cr) ==> lo == 0xff && hi == 0,
ensures next is None,
decreases (match next { Some(pos) => 256 - pos, None => 0 }),
@at loop 0 before
proof { masks_start(*cr, match next { Some(q) => q as int, None => 256 }); }
@at loop 0 start
proof { masks_step(*cr, pos, lo, hi); }
@at loop 0 end
proof {
    masks_skip(*cr, pos + 1, match next { Some(q) => q as int, None => 256 }, lo, hi);
}
@at tail
proof {
    mask_forms(lo, hi);
    if cr_empty(*cr) {
        assert(!(0xffu8 ^ 0u8) == 0u8) by (bit_vector);
        assert forall|c: u8| #[trigger] (c & 0u8) == 0u8 by { assert(c & 0u8 == 0u8) by (bit_vector); }
    } else { masks_end(*cr, lo, hi); }
}
@end
@helpers
@raw
} // verus!
@end
