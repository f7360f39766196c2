# Byte sets from their words up: C01, C02, C03, C04, C05.  Everything the other units take from a byte set is proved here.
@include common.inc
@type util/unicode_def.rs UTF_TWO_BYTE_HEADER
@end
@type util/unicode_def.rs UTF_CONT_MAX
@end
@type util/bitfield.rs BLOCK_SIZE
@end
@type util/bitfield.rs ALL_ONES
@end
@type util/bitfield.rs BitField256 Clone Copy ?PartialEq
@default
ensures forall|c: int| !r.has(c)
@end
@type util/charreach.rs CharReach Clone Copy ?PartialEq
@default
ensures forall|c: u8| !r.has(c)
@end
@raw
/// How many of the bits of `w` below `k` are set.
pub open spec fn pop(w: u64, k: int) -> int decreases k { if k <= 0 { 0 } else { pop(w, k - 1) + if bit(w, k - 1) { 1int } else { 0int } } }

pub assume_specification [ u64::count_ones ] (w: u64) -> (r: u32) ensures r == pop(w, 64), r <= 64;

impl BitField256 {
    pub open spec fn has(&self, c: int) -> bool { 0 <= c < 256 && bit(self.bits[c / 64], c % 64) }
    /// How many members are smaller than `c`.
    pub open spec fn rank(&self, c: int) -> int decreases c { if c <= 0 { 0 } else { self.rank(c - 1) + if self.has(c - 1) { 1int } else { 0int } } }
}
proof fn rank_step(s: BitField256, i: int, k: int)
    requires 0 <= i < 4, 0 <= k <= 64
    ensures s.rank(64 * i + k) == s.rank(64 * i) + pop(s.bits[i], k)
    decreases k
{
    if k > 0 {
        rank_step(s, i, k - 1);
        assert((64 * i + k - 1) / 64 == i && (64 * i + k - 1) % 64 == k - 1) by (nonlinear_arith) requires 0 <= i < 4, 0 < k <= 64;
    }
}
proof fn pop_monotone(w: u64, a: int, b: int)
    requires 0 <= a <= b
    ensures 0 <= pop(w, a) <= pop(w, b) <= b
    decreases b
{
    if a < b { pop_monotone(w, a, b - 1); } else if a > 0 { pop_monotone(w, a - 1, a - 1); }
}
/// Some bit is the one before which exactly `j` are set.
proof fn pop_reaches(w: u64, k: int, j: int) -> (r: int)
    requires 0 <= j < pop(w, k), k <= 64
    ensures 0 <= r < k, bit(w, r), pop(w, r) == j
    decreases k
{
    pop_monotone(w, 0, k - 1);
    if pop(w, k - 1) > j { pop_reaches(w, k - 1, j) } else { k - 1 }
}
/// `b` is `w` without its `j` lowest members.
pub open spec fn without(w: u64, j: int, b: u64) -> bool { forall|i: int| 0 <= i < 64 ==> (#[trigger] bit(b, i) == (bit(w, i) && pop(w, i) >= j)) }
/// What is left holds the `j`th member as its lowest.
proof fn lowest_left(w: u64, j: int, b: u64, t: int)
    requires without(w, j, b), 0 <= j < pop(w, 64), 0 <= t < 64 ==> bit(b, t), t <= 64, 0 <= t, forall|i: int| 0 <= i < t ==> !bit(b, i)
    ensures t < 64, bit(w, t), pop(w, t) == j, b != 0
{
    let k = pop_reaches(w, 64, j);
    assert(bit(b, k));
    if t == 64 { assert(!bit(b, k)); }
    if pop(w, t) > j {
        let m = pop_reaches(w, t, j);
        assert(bit(b, m));
    }
    assert(b != 0) by { if b == 0 { let tt = t as u64; assert((0u64 >> tt) & 1 == 0) by (bit_vector); } }
}
proof fn zeros(b: u64, t: u32)
    requires t == vstd::std_specs::bits::u64_trailing_zeros(b)
    ensures t <= 64, t < 64 ==> bit(b, t as int), forall|i: int| 0 <= i < t ==> !bit(b, i)
{
    vstd::std_specs::bits::axiom_u64_trailing_zeros(b);
    let n = t as u64;
    if b != 0 {
        assert((b >> n) & 1u64 == 1u64);
    }
    assert forall|i: int| 0 <= i < t implies !bit(b, i) by {
        let x = i as u64;
        assert((b >> x) & 1u64 == 0u64);
    }
}
/// b & (b - 1) clears the lowest member.
proof fn clears_lowest(w: u64, j: int, b: u64)
    requires without(w, j, b), 0 <= j < pop(w, 64)
    ensures b != 0, without(w, j + 1, b & (b - 1) as u64)
{
    vstd::std_specs::bits::axiom_u64_trailing_zeros(b);
    let t = vstd::std_specs::bits::u64_trailing_zeros(b);
    zeros(b, t);
    lowest_left(w, j, b, t as int);
    let tt = t as u64;
    let c = b & (b - 1) as u64;
    assert(b & sub(b, 1) == b & !(1u64 << tt)) by (bit_vector) requires (b >> tt) & 1 == 1, tt < 64, b << sub(64, tt) == 0 || tt == 0;
    assert forall|i: int| 0 <= i < 64 implies (#[trigger] bit(c, i) == (bit(w, i) && pop(w, i) >= j + 1)) by {
        let x = i as u64;
        assert(((b & !(1u64 << tt)) >> x) & 1 == if x == tt { 0u64 } else { (b >> x) & 1 }) by (bit_vector) requires x < 64, tt < 64;
        assert(bit(c, i) == (bit(b, i) && i != t));
        assert(bit(b, i) == (bit(w, i) && pop(w, i) >= j));
        if bit(w, i) && pop(w, i) == j && i != t {
            // Two members with the same rank.
            if i < t { pop_monotone(w, i + 1, t as int); } else { pop_monotone(w, t + 1, i); }
        }
    }
}

// What the operators on words do to single bits.
pub mod vx_words { use vstd::prelude::*; use super::*;
pub open spec fn bit(w: u64, i: int) -> bool { 0 <= i < 64 && (w >> (i as u64)) & 1u64 == 1u64 }
pub broadcast proof fn bit_and(w: u64, v: u64, i: int) ensures #[trigger] bit(w & v, i) == (bit(w, i) && bit(v, i))
{ let x = i as u64; if 0 <= i < 64 { assert((((w & v) >> x) & 1 == 1) == ((w >> x) & 1 == 1 && (v >> x) & 1 == 1)) by (bit_vector); } }
pub broadcast proof fn bit_or(w: u64, v: u64, i: int) ensures #[trigger] bit(w | v, i) == (bit(w, i) || bit(v, i))
{ let x = i as u64; if 0 <= i < 64 { assert((((w | v) >> x) & 1 == 1) == ((w >> x) & 1 == 1 || (v >> x) & 1 == 1)) by (bit_vector); } }
pub broadcast proof fn bit_xor(w: u64, v: u64, i: int) ensures #[trigger] bit(w ^ v, i) == (bit(w, i) != bit(v, i))
{ let x = i as u64; if 0 <= i < 64 { assert((((w ^ v) >> x) & 1 == 1) == (((w >> x) & 1 == 1) != ((v >> x) & 1 == 1))) by (bit_vector); } }
pub broadcast proof fn bit_not(w: u64, i: int) ensures #[trigger] bit(!w, i) == (0 <= i < 64 && !bit(w, i))
{ let x = i as u64; if 0 <= i < 64 { assert((((!w) >> x) & 1 == 1) == ((w >> x) & 1 != 1)) by (bit_vector) requires x < 64; } }
pub broadcast proof fn bit_zero(i: int) ensures !#[trigger] bit(0u64, i)
{ let x = i as u64; if 0 <= i < 64 { assert((0u64 >> x) & 1 != 1) by (bit_vector); } }
pub broadcast proof fn bit_ones(i: int) ensures #[trigger] bit(0xffff_ffff_ffff_ffffu64, i) == (0 <= i < 64)
{ let x = i as u64; if 0 <= i < 64 { assert((0xffff_ffff_ffff_ffffu64 >> x) & 1 == 1) by (bit_vector) requires x < 64; } }
pub broadcast proof fn bit_one_at(k: u64, i: int) requires k < 64 ensures #[trigger] bit(1u64 << k, i) == (i == k)
{ let x = i as u64; if 0 <= i < 64 { assert((((1u64 << k) >> x) & 1 == 1) == (x == k)) by (bit_vector) requires x < 64, k < 64; } }
pub broadcast proof fn bit_from(k: u64, i: int) requires k < 64 ensures #[trigger] bit(0xffff_ffff_ffff_ffffu64 << k, i) == (k <= i < 64)
{ let x = i as u64; if 0 <= i < 64 { assert((((0xffff_ffff_ffff_ffffu64 << k) >> x) & 1 == 1) == (k <= x)) by (bit_vector) requires x < 64, k < 64; } }
pub broadcast proof fn bit_below(k: u64, i: int) requires k < 64 ensures #[trigger] bit(((1u64 << k) - 1) as u64, i) == (0 <= i < k), 1u64 << k >= 1
{
    let x = i as u64;
    assert(1u64 << k >= 1) by (bit_vector) requires k < 64;
    if 0 <= i < 64 { assert(((sub(1u64 << k, 1) >> x) & 1 == 1) == (x < k)) by (bit_vector) requires x < 64, k < 64; }
}
pub broadcast group words { bit_and, bit_or, bit_xor, bit_not, bit_zero, bit_ones, bit_one_at, bit_from, bit_below }
}
pub use vx_words::*;
proof fn same_words(w: u64, v: u64)
    requires forall|i: int| 0 <= i < 64 ==> bit(w, i) == bit(v, i)
    ensures w == v
{
    let d = w ^ v;
    vstd::std_specs::bits::axiom_u64_trailing_zeros(d);
    let t = vstd::std_specs::bits::u64_trailing_zeros(d);
    zeros(d, t);
    if d != 0 { assert(bit(d, t as int)); bit_xor(w, v, t as int); }
    assert(w ^ v == 0 ==> w == v) by (bit_vector);
}
/// All words agree when all members do.
proof fn extensional(a: BitField256, b: BitField256)
    requires forall|c: int| a.has(c) == b.has(c)
    ensures a.bits@ =~= b.bits@
{
    assert forall|k: int| 0 <= k < 4 implies a.bits@[k] == b.bits@[k] by {
        assert forall|i: int| 0 <= i < 64 implies bit(a.bits@[k], i) == bit(b.bits@[k], i) by {
            assert((64 * k + i) / 64 == k && (64 * k + i) % 64 == i);
            assert(a.has(64 * k + i) == b.has(64 * k + i));
        }
        same_words(a.bits@[k], b.bits@[k]);
    }
}
impl BitField256 {
    pub open spec fn is(&self, f: spec_fn(int) -> bool) -> bool { forall|c: int| 0 <= c < 256 ==> #[trigger] self.has(c) == f(c) }
}
// `==` is derived from that of the words.
impl vstd::std_specs::cmp::PartialEqSpecImpl for BitField256 {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.bits@ =~= o.bits@ }
}
impl PartialEq for BitField256 { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::ops::BitAndSpecImpl for BitField256 {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: Self) -> bool { true }
    open spec fn bitand_spec(self, o: Self) -> Self { arbitrary() }
}
impl std::ops::BitAnd for BitField256 { type Output = Self; fn bitand(self, o: Self) -> (r: Self) ensures forall|c: int| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (self.has(c) && o.has(c)) { BitField256::bitand(self, o) } }
impl vstd::std_specs::ops::BitAndSpecImpl for CharReach {
    open spec fn obeys_bitand_spec() -> bool { false }
    open spec fn bitand_req(self, o: Self) -> bool { true }
    open spec fn bitand_spec(self, o: Self) -> Self { arbitrary() }
}
impl std::ops::BitAnd for CharReach { type Output = Self; fn bitand(self, o: Self) -> (r: Self) ensures forall|c: u8| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (self.has(c) && o.has(c)) { CharReach::bitand(self, o) } }
impl vstd::std_specs::ops::BitOrSpecImpl for BitField256 {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, o: Self) -> bool { true }
    open spec fn bitor_spec(self, o: Self) -> Self { arbitrary() }
}
impl std::ops::BitOr for BitField256 { type Output = Self; fn bitor(self, o: Self) -> (r: Self) ensures forall|c: int| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (self.has(c) || o.has(c)) { BitField256::bitor(self, o) } }
impl vstd::std_specs::ops::BitOrSpecImpl for CharReach {
    open spec fn obeys_bitor_spec() -> bool { false }
    open spec fn bitor_req(self, o: Self) -> bool { true }
    open spec fn bitor_spec(self, o: Self) -> Self { arbitrary() }
}
impl std::ops::BitOr for CharReach { type Output = Self; fn bitor(self, o: Self) -> (r: Self) ensures forall|c: u8| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (self.has(c) || o.has(c)) { CharReach::bitor(self, o) } }
impl vstd::std_specs::ops::BitXorSpecImpl for BitField256 {
    open spec fn obeys_bitxor_spec() -> bool { false }
    open spec fn bitxor_req(self, o: Self) -> bool { true }
    open spec fn bitxor_spec(self, o: Self) -> Self { arbitrary() }
}
impl std::ops::BitXor for BitField256 { type Output = Self; fn bitxor(self, o: Self) -> (r: Self) ensures forall|c: int| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (self.has(c) != o.has(c)) { BitField256::bitxor(self, o) } }
impl vstd::std_specs::ops::BitXorSpecImpl for CharReach {
    open spec fn obeys_bitxor_spec() -> bool { false }
    open spec fn bitxor_req(self, o: Self) -> bool { true }
    open spec fn bitxor_spec(self, o: Self) -> Self { arbitrary() }
}
impl std::ops::BitXor for CharReach { type Output = Self; fn bitxor(self, o: Self) -> (r: Self) ensures forall|c: u8| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (self.has(c) != o.has(c)) { CharReach::bitxor(self, o) } }
impl vstd::std_specs::ops::NotSpecImpl for BitField256 {
    open spec fn obeys_not_spec() -> bool { false }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> Self { arbitrary() }
}
impl std::ops::Not for BitField256 { type Output = Self; fn not(self) -> (r: Self) ensures forall|c: int| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (0 <= c < 256 && !self.has(c)) { BitField256::not(self) } }
impl vstd::std_specs::ops::NotSpecImpl for CharReach {
    open spec fn obeys_not_spec() -> bool { false }
    open spec fn not_req(self) -> bool { true }
    open spec fn not_spec(self) -> Self { arbitrary() }
}
impl std::ops::Not for CharReach { type Output = Self; fn not(self) -> (r: Self) ensures forall|c: u8| #![trigger r.has(c)] #![trigger self.has(c)] r.has(c) == (!self.has(c)) { CharReach::not(self) } }

impl CharReach { pub open spec fn has(&self, c: u8) -> bool { self.bits.has(c as int) } }
@end
@broadcast vx_words::words
@include cr_specs.inc
@include case.inc
@raw
pub trait VxUsize { spec fn usz(&self) -> int; fn vx_into(self) -> (r: usize) where Self: Sized ensures r == self.usz(); }
impl VxUsize for u8 { open spec fn usz(&self) -> int { *self as int } fn vx_into(self) -> (r: usize) { self as usize } }
impl VxUsize for usize { open spec fn usz(&self) -> int { *self as int } fn vx_into(self) -> (r: usize) { self } }
@end
@raw
impl CharReach {
    /// Bytes are all there is.
    pub proof fn bytes(&self)
        ensures
            forall|c: int| #[trigger] self.bits.has(c) == (0 <= c < 256 && self.has(c as u8)),
            forall|c: u8| #[trigger] self.has(c) == self.bits.has(c as int),
    { }
}
@end
@fn util/bitfield.rs BitField256::get_word
ensures r == n / 64
@end
@fn util/bitfield.rs BitField256::mask_bit
ensures r == 1u64 << (n as u64 % 64)
@end
@fn util/bitfield.rs BitField256::test
ensures r == self.has(n as int)
@at entry
proof {
    let w = self.bits[n as int / 64];
    let k = n as u64 % 64;
    assert((w & (1u64 << k) != 0) == ((w >> k) & 1 == 1)) by (bit_vector) requires k < 64;
}
@end
@fn util/bitfield.rs BitField256::count
ensures r == self.rank(256)
@at entry
proof {
    reveal_with_fuel(BitField256::rank, 2);
    pop_monotone(self.bits[0], 0, 64); pop_monotone(self.bits[1], 0, 64); pop_monotone(self.bits[2], 0, 64); pop_monotone(self.bits[3], 0, 64);
    rank_step(*self, 0, 64); rank_step(*self, 1, 64); rank_step(*self, 2, 64); rank_step(*self, 3, 64);
}
@end
@fn util/bitfield.rs BitField256::find_nth
ensures match r { Some(b) => self.has(b as int) && self.rank(b as int) == n, None => self.rank(256) <= n }
@loop 0 enumerate
invariant
    vx_i0 <= 4, sum == self.rank(64 * vx_i0), sum <= n, sum <= 64 * vx_i0,
decreases 4 - vx_i0,
@at loop 0 start
proof { rank_step(*self, i as int, 64); pop_monotone(bits, 0, 64); }
@loop 1 native
invariant
    0 <= i < 4, bits == self.bits[i as int], sum == self.rank(64 * i),
    without(bits, vx_it1.index@, block), sum + pop(bits, 64) > n, sum <= n,
@at loop 1 before
proof {
    assert forall|k: int| 0 <= k < 64 implies (#[trigger] bit(bits, k) == (bit(bits, k) && pop(bits, k) >= 0)) by { pop_monotone(bits, 0, k); }
}
@at loop 1 start
proof { clears_lowest(bits, vx_it1.index@, block); }
@at after loop 1
proof {
    let t = vstd::std_specs::bits::u64_trailing_zeros(block);
    zeros(block, t);
    lowest_left(bits, n - sum, block, t as int);
    rank_step(*self, i as int, t as int);
}
@at entry
proof { reveal_with_fuel(BitField256::rank, 2); }
@end
@raw
type T = usize;
/// Which word a byte is in.
proof fn place(c: int) requires 0 <= c < 256 ensures 0 <= c / 64 < 4, 0 <= c % 64 < 64, 64 * (c / 64) + c % 64 == c {}
proof fn up_to_word(a: usize)
    requires a <= 255
    ensures (((a + 63) as usize) & !63usize) == (a + 63) / 64 * 64
{
    let b = (a + 63) as usize;
    assert((b & !63usize) == b / 64 * 64) by (bit_vector);
}
proof fn rank_is_card(s: CharReach, n: int)
    requires 0 <= n <= 256
    ensures s.bits.rank(n) == card(s, n)
    decreases n
{ if n > 0 { rank_is_card(s, n - 1); } }
/// `1 << k` less one, whatever `k` came from.
proof fn leading(b: u64, t: int)
    requires t == vstd::std_specs::bits::u64_leading_zeros(b), b != 0
    ensures t < 64, bit(b, 63 - t), forall|i: int| 63 - t < i < 64 ==> !bit(b, i)
{
    vstd::std_specs::bits::axiom_u64_leading_zeros(b);
    let n = (63 - t) as u64;
    assert((b >> n) & 1u64 != 0u64);
    assert((b >> n) & 1u64 == 1u64) by (bit_vector) requires (b >> n) & 1u64 != 0u64;
    assert forall|i: int| 63 - t < i < 64 implies !bit(b, i) by { let x = i as u64; assert((b >> x) & 1u64 == 0u64); }
}
proof fn no_bits(w: u64)
    ensures (w == 0) == (forall|i: int| 0 <= i < 64 ==> !bit(w, i)), (w == 0xffff_ffff_ffff_ffff) == (forall|i: int| 0 <= i < 64 ==> bit(w, i))
{
    bit_zero(0);
    assert forall|i: int| 0 <= i < 64 implies !bit(0u64, i) && bit(0xffff_ffff_ffff_ffffu64, i) by { bit_zero(i); bit_ones(i); }
    if forall|i: int| 0 <= i < 64 ==> !bit(w, i) { same_words(w, 0); }
    if forall|i: int| 0 <= i < 64 ==> bit(w, i) { same_words(w, 0xffff_ffff_ffff_ffff); }
}
impl BitField256 {
    pub open spec fn word_empty(&self, k: int) -> bool { forall|c: int| 64 * k <= c < 64 * k + 64 ==> !self.has(c) }
    pub open spec fn word_full(&self, k: int) -> bool { forall|c: int| 64 * k <= c < 64 * k + 64 ==> self.has(c) }
    /// What one word says of the members it stands for.
    pub proof fn word(&self, k: int)
        requires 0 <= k < 4
        ensures
            (self.bits[k] == 0) == self.word_empty(k),
            (self.bits[k] == 0xffff_ffff_ffff_ffff) == self.word_full(k),
            self.bits[k] != 0 ==> {
                let (t, l) = (vstd::std_specs::bits::u64_trailing_zeros(self.bits[k]), vstd::std_specs::bits::u64_leading_zeros(self.bits[k]));
                &&& 0 <= t < 64 && self.has(64 * k + t) && forall|c: int| 64 * k <= c < 64 * k + t ==> !self.has(c)
                &&& 0 <= l < 64 && self.has(64 * k + 63 - l) && forall|c: int| 64 * k + 63 - l < c < 64 * k + 64 ==> !self.has(c)
            },
    {
        let w = self.bits[k];
        no_bits(w);
        assert forall|c: int| 64 * k <= c < 64 * k + 64 implies self.has(c) == bit(w, c - 64 * k) by { assert(c / 64 == k && c % 64 == c - 64 * k); }
        assert forall|i: int| 0 <= i < 64 implies bit(w, i) == self.has(64 * k + i) by { }
        let t = vstd::std_specs::bits::u64_trailing_zeros(w);
        let l = vstd::std_specs::bits::u64_leading_zeros(w);
        zeros(w, t);
        if w != 0 { leading(w, l); assert(t < 64) by { vstd::std_specs::bits::axiom_u64_trailing_zeros(w); } }
    }
    /// What is left of the word of `last` when everything up to it is masked off.
    pub proof fn after(&self, last: int)
        requires 0 <= last < 256, last % 64 != 63
        ensures ({
            let k = last / 64;
            let w = self.bits[k] & (0xffff_ffff_ffff_ffffu64 << (last % 64 + 1) as u64);
            let t = vstd::std_specs::bits::u64_trailing_zeros(w);
            if w == 0 { forall|c: int| last < c < 64 * k + 64 ==> !self.has(c) }
            else { 0 <= t < 64 && self.has(64 * k + t) && 64 * k + t > last && forall|c: int| last < c < 64 * k + t ==> !self.has(c) }
        })
    {
        let k = last / 64;
        let m = last % 64 + 1;
        let w = self.bits[k] & (0xffff_ffff_ffff_ffffu64 << m as u64);
        let t = vstd::std_specs::bits::u64_trailing_zeros(w);
        zeros(w, t); no_bits(w);
        vstd::std_specs::bits::axiom_u64_trailing_zeros(w);
        assert forall|i: int| 0 <= i < 64 implies bit(w, i) == (m <= i && bit(self.bits[k], i)) by { }
        assert forall|c: int| 64 * k <= c < 64 * k + 64 implies self.has(c) == bit(self.bits[k], c - 64 * k) by { assert(c / 64 == k && c % 64 == c - 64 * k); }
        assert forall|c: int| last < c < 64 * k + 64 implies self.has(c) == bit(w, c - 64 * k) by { }
    }
    pub proof fn words(&self)
        ensures
            (self.bits[0] == 0 && self.bits[1] == 0 && self.bits[2] == 0 && self.bits[3] == 0) == (forall|c: int| !self.has(c)),
            (self.bits[0] == ALL_ONES && self.bits[1] == ALL_ONES && self.bits[2] == ALL_ONES && self.bits[3] == ALL_ONES) == (forall|c: int| 0 <= c < 256 ==> self.has(c)),
    {
        assert(ALL_ONES == 0xffff_ffff_ffff_ffffu64) by { assert(!0u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector); }
        self.word(0); self.word(1); self.word(2); self.word(3);
        if forall|c: int| !self.has(c) { assert(self.word_empty(0) && self.word_empty(1) && self.word_empty(2) && self.word_empty(3)); }
        if forall|c: int| 0 <= c < 256 ==> self.has(c) { assert(self.word_full(0) && self.word_full(1) && self.word_full(2) && self.word_full(3)); }
        if self.word_empty(0) && self.word_empty(1) && self.word_empty(2) && self.word_empty(3) {
            assert forall|c: int| !self.has(c) by { if 0 <= c < 256 { let k = c / 64; assert(k == 0 || k == 1 || k == 2 || k == 3); } }
        }
        if self.word_full(0) && self.word_full(1) && self.word_full(2) && self.word_full(3) {
            assert forall|c: int| 0 <= c < 256 implies self.has(c) by { let k = c / 64; assert(k == 0 || k == 1 || k == 2 || k == 3); }
        }
    }
}
@end
@fn util/bitfield.rs BitField256::reset_all
ensures forall|x: int| !#[trigger] final(self).has(x)
@end
@fn util/bitfield.rs BitField256::set_all
ensures forall|x: int| #[trigger] final(self).has(x) == (0 <= x < 256)
@at entry
proof { assert(!0u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector); }
@end
@fn util/bitfield.rs BitField256::reset
ensures forall|x: int| #[trigger] final(self).has(x) == (old(self).has(x) && x != n)
@at entry
proof { place(n as int); }
@end
@fn util/bitfield.rs BitField256::set
ensures forall|x: int| #[trigger] final(self).has(x) == (old(self).has(x) || x == n)
@at entry
proof { place(n as int); }
@end
@fn util/bitfield.rs BitField256::flip_all
ensures forall|x: int| #[trigger] final(self).has(x) == (0 <= x < 256 && !old(self).has(x))
@end
@fn util/bitfield.rs BitField256::flip
ensures forall|x: int| #[trigger] final(self).has(x) == (old(self).has(x) != (x == n))
@at entry
proof { place(n as int); }
@end
@fn util/ue2common.rs round_up_n
requires n == 64, a <= 255
ensures r == (a + 63) / 64 * 64
@mono
@edit * .into() ==> .vx_into()
@at entry
proof { up_to_word(a); }
@end
@fn util/bitfield.rs BitField256::set_range
requires from <= to
ensures forall|x: int| #[trigger] final(self).has(x) == (old(self).has(x) || from <= x <= to)
@at entry
proof {
    assert(!0u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector); place(from as int); place(to as int);
    let k = ((to + 1) % 64) as u64;
    bit_below(k, 0);
    let b = ((1u64 << k) - 1) as u64;
    assert forall|i: int| #[trigger] bit(b, i) == (0 <= i < k) by { bit_below(k, i); }
}
@loop 0
invariant
    from <= i <= 256, i <= to + 64, i % 64 == 0,
    forall|x: int| #![trigger self.has(x)] #![trigger old(self).has(x)] self.has(x) == (old(self).has(x) || from <= x < i && x <= to),
decreases 320 - i,
@at loop 0 start
let ghost (pre, at) = (*self, i as int);
@at loop 0 end
proof {
    assert forall|x: int| #![trigger self.has(x)] #![trigger old(self).has(x)] self.has(x) == (pre.has(x) || at <= x < at + 64) by {
        if 0 <= x < 256 {
            if at <= x < at + 64 { assert(x / 64 == at / 64); } else { assert(x / 64 != at / 64); assert(self.bits[x / 64] == pre.bits[x / 64]); }
        }
    }
}
@at after loop 0
let ghost pre = *self;
@at exit
proof {
    let k = to + 1 - i;
    assert(i <= to ==> k == (to + 1) % 64);
    assert forall|x: int| #![trigger self.has(x)] #![trigger old(self).has(x)] self.has(x) == (pre.has(x) || i <= x <= to) by {
        if 0 <= x < 256 {
            if i <= x < i + 64 { assert(x / 64 == i as int / 64 && x % 64 == x - i); }
            else { assert(x / 64 != i as int / 64); assert(self.bits[x / 64] == pre.bits[x / 64]); }
        }
    }
}
@end
@fn util/bitfield.rs BitField256::none
ensures r == (forall|c: int| !self.has(c))
@at entry
proof { self.words(); }
@end
@fn util/bitfield.rs BitField256::any
ensures r == (exists|c: int| self.has(c))
@end
@fn util/bitfield.rs BitField256::all
ensures r == (forall|c: int| 0 <= c < 256 ==> self.has(c))
@at entry
proof { self.words(); }
@end
@fn util/bitfield.rs BitField256::find_first
ensures match r { Some(b) => self.has(b as int) && forall|c: int| c < b ==> !self.has(c), None => forall|c: int| !self.has(c) }
@loop 0 enumerate
invariant
    vx_i0 <= 4, forall|c: int| c < 64 * vx_i0 ==> !self.has(c),
decreases 4 - vx_i0,
@at loop 0 start
proof { self.word(i as int); }
@end
@fn util/bitfield.rs BitField256::find_last
ensures match r { Some(b) => self.has(b as int) && forall|c: int| c > b ==> !self.has(c), None => forall|c: int| !self.has(c) }
@loop 0 enumerate
invariant
    vx_i0 <= 4, forall|c: int| c >= 64 * vx_i0 ==> !self.has(c),
decreases vx_i0,
@at loop 0 start
proof { self.word(i as int); }
@end
@fn util/bitfield.rs BitField256::find_next
ensures match r { Some(b) => self.has(b as int) && b > last && forall|c: int| last < c < b ==> !self.has(c), None => forall|c: int| c > last ==> !self.has(c) }
@at entry
proof {
    assert(!0u64 == 0xffff_ffff_ffff_ffffu64) by (bit_vector); place(last as int);
    if last % 64 != 63 { self.after(last as int); }
}
@loop 0 enumerate
invariant
    vx_lo0 == last_i, 1 <= last_i == last as int / 64 + 1, vx_lo0 <= vx_i0 <= 4, forall|c: int| last < c < 64 * vx_i0 ==> !self.has(c),
decreases 4 - vx_i0,
@at loop 0 start
proof { self.word(vx_i0 - 1); }
@end
@fn util/bitfield.rs BitField256::bitand_assign
ensures forall|x: int| #[trigger] final(self).has(x) == (old(self).has(x) && a.has(x))
@end
@fn util/bitfield.rs BitField256::bitand
ensures forall|x: int| #[trigger] r.has(x) == (self.has(x) && rhs.has(x))
@assignop rhs
@end
@fn util/bitfield.rs BitField256::bitor_assign
ensures forall|x: int| #[trigger] final(self).has(x) == (old(self).has(x) || a.has(x))
@end
@fn util/bitfield.rs BitField256::bitor
ensures forall|x: int| #[trigger] r.has(x) == (self.has(x) || rhs.has(x))
@assignop rhs
@end
@fn util/bitfield.rs BitField256::bitxor_assign
ensures forall|x: int| #[trigger] final(self).has(x) == (old(self).has(x) != a.has(x))
@end
@fn util/bitfield.rs BitField256::bitxor
ensures forall|x: int| #[trigger] r.has(x) == (self.has(x) != rhs.has(x))
@assignop rhs
@end
@fn util/bitfield.rs BitField256::not
ensures forall|x: int| #[trigger] r.has(x) == (0 <= x < 256 && !self.has(x))
@end
@fn util/charreach.rs CharReach::from_char
ensures forall|x: u8| #[trigger] r.has(x) == (x == c)
@end
@fn util/charreach.rs CharReach::from_range
requires from <= to
ensures forall|x: u8| #[trigger] r.has(x) == (from <= x <= to)
@end
@fn util/charreach.rs CharReach::set_range
requires from <= to
ensures forall|x: u8| #[trigger] final(self).has(x) == (old(self).has(x) || from <= x <= to)
@end
@fn util/charreach.rs CharReach::dot
ensures forall|x: u8| #[trigger] r.has(x)
@end
@fn util/charreach.rs CharReach::reset_all
ensures cr_empty(*final(self))
@end
@fn util/charreach.rs CharReach::set_all
ensures forall|x: u8| #[trigger] final(self).has(x)
@end
@fn util/charreach.rs CharReach::reset
ensures forall|x: u8| #[trigger] final(self).has(x) == (old(self).has(x) && x != c)
@end
@fn util/charreach.rs CharReach::set
ensures forall|x: u8| #[trigger] final(self).has(x) == (x == c || old(self).has(x))
@end
@fn util/charreach.rs CharReach::test
ensures r == self.has(c)
@end
@fn util/charreach.rs CharReach::flip_all
ensures forall|x: u8| #[trigger] final(self).has(x) == !old(self).has(x)
@end
@fn util/charreach.rs CharReach::flip
ensures forall|x: u8| #[trigger] final(self).has(x) == (old(self).has(x) != (x == c))
@end
@fn util/charreach.rs CharReach::none
ensures r == cr_empty(*self)
@at entry
proof { self.bytes(); }
@end
@fn util/charreach.rs CharReach::any
ensures r == !cr_empty(*self)
@at entry
proof { self.bytes(); }
@end
@fn util/charreach.rs CharReach::all
ensures r == (forall|c: u8| self.has(c))
@at entry
proof { self.bytes(); }
@end
@fn util/charreach.rs CharReach::find_first
ensures cr_first(*self, r)
@at entry
proof { self.bytes(); }
@end
@fn util/charreach.rs CharReach::find_last
ensures match r { Some(x) => self.has(x) && forall|c: u8| c > x ==> !self.has(c), None => cr_empty(*self) }
@at entry
proof { self.bytes(); }
@end
@fn util/charreach.rs CharReach::find_next
ensures cr_next(*self, last, r)
@at entry
proof { self.bytes(); }
@end
@fn util/charreach.rs CharReach::count
ensures r == card(*self, 256)
@at entry
proof { rank_is_card(*self, 256); }
@end
@fn util/charreach.rs CharReach::find_nth
ensures match r { Some(b) => self.has(b) && card(*self, b as int) == n, None => card(*self, 256) <= n }
@at entry
proof { assert forall|k: int| 0 <= k <= 256 implies self.bits.rank(k) == #[trigger] card(*self, k) by { rank_is_card(*self, k); } }
@end
@fn util/charreach.rs CharReach::bitand_assign
ensures forall|x: u8| #[trigger] final(self).has(x) == (old(self).has(x) && a.has(x))
@assignop self.bits
@end
@fn util/charreach.rs CharReach::bitand
ensures forall|x: u8| #[trigger] r.has(x) == (self.has(x) && rhs.has(x))
@assignop rhs
@end
@fn util/charreach.rs CharReach::bitor_assign
ensures forall|x: u8| #[trigger] final(self).has(x) == (old(self).has(x) || rhs.has(x))
@assignop self.bits
@end
@fn util/charreach.rs CharReach::bitor
ensures forall|x: u8| #[trigger] r.has(x) == (self.has(x) || rhs.has(x))
@assignop rhs
@end
@fn util/charreach.rs CharReach::bitxor_assign
ensures forall|x: u8| #[trigger] final(self).has(x) == (old(self).has(x) != rhs.has(x))
@assignop self.bits
@end
@fn util/charreach.rs CharReach::bitxor
ensures forall|x: u8| #[trigger] r.has(x) == (self.has(x) != rhs.has(x))
@assignop rhs
@end
@fn util/charreach.rs CharReach::not
ensures forall|x: u8| #[trigger] r.has(x) == !self.has(x)
@end
@fn util/charreach.rs CharReach::is_subset_of
ensures r == (forall|c: u8| self.has(c) ==> rhs.has(c))
@at entry
proof {
    self.bytes(); rhs.bytes();
    assert forall|z: BitField256| (forall|c: int| #[trigger] z.has(c) == (self.bits.has(c) && rhs.bits.has(c)))
        implies ((#[trigger] z.bits@) =~= self.bits.bits@) == (forall|c: u8| self.has(c) ==> rhs.has(c)) by {
        if forall|c: u8| self.has(c) ==> rhs.has(c) { extensional(z, self.bits); }
        if z.bits@ =~= self.bits.bits@ { assert forall|c: u8| self.has(c) implies rhs.has(c) by { assert(z.has(c as int) == self.bits.has(c as int)); } }
    }
}
@end
@fn util/charreach.rs CharReach::overlaps
ensures r == (exists|c: u8| self.has(c) && rhs.has(c))
@end
@fn util/charreach.rs CharReach::is_ascii
ensures r == (forall|c: u8| self.has(c) ==> c < 0x80)
@end
@fn util/charreach.rs CharReach::is_utf8_start
ensures r == (forall|c: u8| self.has(c) ==> c > 0xbf)
@end
@fn util/charreach.rs make_caseless
ensures forall|x: u8| #[trigger] final(cr).has(x) == (old(cr).has(x) || (swapped(x) is Some && old(cr).has(swapped(x)->0)))
@loop 0 native
invariant
    forall|x: u8| #[trigger] cr.has(x) == (old(cr).has(x) || (swapped(x) is Some && up(x) < 0x41 + vx_it0.index@ && old(cr).has(swapped(x)->0))),
@end
@helpers
@raw
} // verus!
@end
