# The bit vector of crate bit-vec, as linked: discharges the contracts stated on it in bitvec.inc.
# Read from the crate's source; its type parameter is the default, u32 (one instance).
@include common.inc
@include iter.inc
@raw
use std::cmp::Ordering;
type B = u32;
/// What bit_block_impl! writes for u32.
pub trait BitBlock: Sized {
    spec fn bits_spec() -> int;
    spec fn zero_spec() -> Self;
    spec fn one_spec() -> Self;
    fn bits() -> (r: usize) ensures r == Self::bits_spec();
    fn zero() -> (r: Self) ensures r == Self::zero_spec();
    fn one() -> (r: Self) ensures r == Self::one_spec();
}
impl BitBlock for u32 {
    open spec fn bits_spec() -> int { 32 }
    open spec fn zero_spec() -> u32 { 0 }
    open spec fn one_spec() -> u32 { 1 }
    fn bits() -> usize { 32 }
    fn zero() -> u32 { 0 }
    fn one() -> u32 { 1 }
}
// Names of the standard library that the crate has functions of its own for: fn new (Vec), fn all (Iterator).
pub open spec fn bit(w: u32, b: int) -> bool { w & (1u32 << (b as u32)) != 0 }
/// Lexicographic order, false before true (the same text as in bitvec.inc).
pub open spec fn lex_bits(a: Seq<bool>, b: Seq<bool>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if !a[0] && b[0] { Ordering::Less }
    else if a[0] && !b[0] { Ordering::Greater }
    else { lex_bits(a.drop_first(), b.drop_first()) }
}
@end
@type lib.rs BitVec
@end
@type lib.rs Iter
@edit Range<usize> ==> std::ops::Range<usize>
@end
@type lib.rs Blocks
@edit slice::Iter<'a, B> ==> VxIter<'a, B>
@end
@raw
/// Two walks side by side: the first is asked first, as `zip` documents.
pub struct VxZip<'a> { pub a: Blocks<'a, B>, pub b: Blocks<'a, B> }
impl<'a> VxZip<'a> {
    pub open spec fn wf(&self) -> bool { self.a.wf() && self.b.wf() && self.a.iter.v@.len() == self.b.iter.v@.len() && self.a.iter.k == self.b.iter.k }
    pub fn next(&mut self) -> (r: Option<(u32, u32)>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).a.iter.v == old(self).a.iter.v, final(self).b.iter.v == old(self).b.iter.v,
            match r {
                Some((x, y)) => old(self).a.iter.k < old(self).a.iter.v@.len() && x == old(self).a.iter.v@[old(self).a.iter.k as int]
                    && y == old(self).b.iter.v@[old(self).a.iter.k as int] && final(self).a.iter.k == old(self).a.iter.k + 1,
                None => old(self).a.iter.k == old(self).a.iter.v@.len() && final(self).a.iter.k == old(self).a.iter.k,
            }
    {
        match self.a.next() { None => None, Some(x) => match self.b.next() { None => None, Some(y) => Some((x, y)) } }
    }
}
pub fn vx_zip<'a>(a: Blocks<'a, B>, b: Blocks<'a, B>) -> (r: VxZip<'a>) ensures r.a == a, r.b == b { VxZip { a, b } }
impl<'a> Blocks<'a, B> { pub open spec fn wf(&self) -> bool { self.iter.k <= self.iter.v@.len() } }
impl<'a> Iter<'a, B> {
    pub open spec fn wf(&self) -> bool { self.bit_vec.wf() && self.range.start <= self.range.end && self.range.end == self.bit_vec.nbits }
}
impl BitVec<B> {
    /// Blocks for the bits there are, and none of the rest set.
    pub open spec fn wf(&self) -> bool {
        &&& self.storage@.len() == (self.nbits + 31) / 32
        &&& forall|i: int| self.nbits <= i < 32 * self.storage@.len() ==> !#[trigger] self.at(i)
    }
    pub open spec fn at(&self, i: int) -> bool { bit(self.storage@[i / 32], i % 32) }
    pub open spec fn view(&self) -> Seq<bool> { Seq::new(self.nbits as nat, |i: int| self.at(i)) }
}
/// The order of bool (trusted; std: false < true).
pub mod vx_ax {
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::OrdSpec;
pub broadcast axiom fn ax_bool_cmp(a: bool, b: bool)
    ensures #[trigger] a.cmp_spec(&b) == (if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater });
pub broadcast axiom fn ax_bool_cmp_o() ensures #[trigger] <bool as OrdSpec>::obeys_cmp_spec();
pub broadcast group ax { ax_bool_cmp, ax_bool_cmp_o }
}
pub proof fn set_bit(w: u32, b: int)
    requires 0 <= b < 32
    ensures
        forall|c: int| 0 <= c < 32 ==> #[trigger] bit(w | (1u32 << (b as u32)), c) == (c == b || bit(w, c)),
        forall|c: int| 0 <= c < 32 ==> #[trigger] bit(w & !(1u32 << (b as u32)), c) == (c != b && bit(w, c)),
{
    let d = b as u32;
    assert forall|c: int| 0 <= c < 32 implies #[trigger] bit(w | (1u32 << d), c) == (c == b || bit(w, c)) by {
        let e = c as u32;
        assert(((w | (1u32 << d)) & (1u32 << e) != 0) == (e == d || w & (1u32 << e) != 0)) by(bit_vector) requires d < 32, e < 32;
    }
    assert forall|c: int| 0 <= c < 32 implies #[trigger] bit(w & !(1u32 << d), c) == (c != b && bit(w, c)) by {
        let e = c as u32;
        assert(((w & !(1u32 << d)) & (1u32 << e) != 0) == (e != d && w & (1u32 << e) != 0)) by(bit_vector) requires d < 32, e < 32;
    }
}
pub proof fn no_bits(b: int) requires 0 <= b < 32 ensures !bit(0, b) {
    let d = b as u32;
    assert(0u32 & (1u32 << d) == 0) by(bit_vector);
}
pub proof fn zero_of_bits(w: u32) ensures (w == 0) == (forall|b: int| 0 <= b < 32 ==> !#[trigger] bit(w, b)) {
    assert forall|b: int| w == 0 && 0 <= b < 32 implies !#[trigger] bit(w, b) by { no_bits(b); }
    if forall|b: int| 0 <= b < 32 ==> !#[trigger] bit(w, b) {
        assert forall|b: int| 0 <= b < 32 implies #[trigger] bit(w, b) == bit(0, b) by { no_bits(b); }
        same_bits(w, 0);
    }
}
pub proof fn same_bits(v: u32, w: u32)
    requires forall|b: int| 0 <= b < 32 ==> #[trigger] bit(v, b) == bit(w, b)
    ensures v == w
{
    assert(bit(v, 0) == bit(w, 0)); assert(1u32 << 0u32 == 1u32) by(bit_vector);
    assert(bit(v, 1) == bit(w, 1)); assert(1u32 << 1u32 == 2u32) by(bit_vector);
    assert(bit(v, 2) == bit(w, 2)); assert(1u32 << 2u32 == 4u32) by(bit_vector);
    assert(bit(v, 3) == bit(w, 3)); assert(1u32 << 3u32 == 8u32) by(bit_vector);
    assert(bit(v, 4) == bit(w, 4)); assert(1u32 << 4u32 == 16u32) by(bit_vector);
    assert(bit(v, 5) == bit(w, 5)); assert(1u32 << 5u32 == 32u32) by(bit_vector);
    assert(bit(v, 6) == bit(w, 6)); assert(1u32 << 6u32 == 64u32) by(bit_vector);
    assert(bit(v, 7) == bit(w, 7)); assert(1u32 << 7u32 == 128u32) by(bit_vector);
    assert(bit(v, 8) == bit(w, 8)); assert(1u32 << 8u32 == 256u32) by(bit_vector);
    assert(bit(v, 9) == bit(w, 9)); assert(1u32 << 9u32 == 512u32) by(bit_vector);
    assert(bit(v, 10) == bit(w, 10)); assert(1u32 << 10u32 == 1024u32) by(bit_vector);
    assert(bit(v, 11) == bit(w, 11)); assert(1u32 << 11u32 == 2048u32) by(bit_vector);
    assert(bit(v, 12) == bit(w, 12)); assert(1u32 << 12u32 == 4096u32) by(bit_vector);
    assert(bit(v, 13) == bit(w, 13)); assert(1u32 << 13u32 == 8192u32) by(bit_vector);
    assert(bit(v, 14) == bit(w, 14)); assert(1u32 << 14u32 == 16384u32) by(bit_vector);
    assert(bit(v, 15) == bit(w, 15)); assert(1u32 << 15u32 == 32768u32) by(bit_vector);
    assert(bit(v, 16) == bit(w, 16)); assert(1u32 << 16u32 == 65536u32) by(bit_vector);
    assert(bit(v, 17) == bit(w, 17)); assert(1u32 << 17u32 == 131072u32) by(bit_vector);
    assert(bit(v, 18) == bit(w, 18)); assert(1u32 << 18u32 == 262144u32) by(bit_vector);
    assert(bit(v, 19) == bit(w, 19)); assert(1u32 << 19u32 == 524288u32) by(bit_vector);
    assert(bit(v, 20) == bit(w, 20)); assert(1u32 << 20u32 == 1048576u32) by(bit_vector);
    assert(bit(v, 21) == bit(w, 21)); assert(1u32 << 21u32 == 2097152u32) by(bit_vector);
    assert(bit(v, 22) == bit(w, 22)); assert(1u32 << 22u32 == 4194304u32) by(bit_vector);
    assert(bit(v, 23) == bit(w, 23)); assert(1u32 << 23u32 == 8388608u32) by(bit_vector);
    assert(bit(v, 24) == bit(w, 24)); assert(1u32 << 24u32 == 16777216u32) by(bit_vector);
    assert(bit(v, 25) == bit(w, 25)); assert(1u32 << 25u32 == 33554432u32) by(bit_vector);
    assert(bit(v, 26) == bit(w, 26)); assert(1u32 << 26u32 == 67108864u32) by(bit_vector);
    assert(bit(v, 27) == bit(w, 27)); assert(1u32 << 27u32 == 134217728u32) by(bit_vector);
    assert(bit(v, 28) == bit(w, 28)); assert(1u32 << 28u32 == 268435456u32) by(bit_vector);
    assert(bit(v, 29) == bit(w, 29)); assert(1u32 << 29u32 == 536870912u32) by(bit_vector);
    assert(bit(v, 30) == bit(w, 30)); assert(1u32 << 30u32 == 1073741824u32) by(bit_vector);
    assert(bit(v, 31) == bit(w, 31)); assert(1u32 << 31u32 == 2147483648u32) by(bit_vector);
    assert(v == w) by(bit_vector) requires (v & 1u32 != 0) == (w & 1u32 != 0), (v & 2u32 != 0) == (w & 2u32 != 0), (v & 4u32 != 0) == (w & 4u32 != 0), (v & 8u32 != 0) == (w & 8u32 != 0), (v & 16u32 != 0) == (w & 16u32 != 0), (v & 32u32 != 0) == (w & 32u32 != 0), (v & 64u32 != 0) == (w & 64u32 != 0), (v & 128u32 != 0) == (w & 128u32 != 0), (v & 256u32 != 0) == (w & 256u32 != 0), (v & 512u32 != 0) == (w & 512u32 != 0), (v & 1024u32 != 0) == (w & 1024u32 != 0), (v & 2048u32 != 0) == (w & 2048u32 != 0), (v & 4096u32 != 0) == (w & 4096u32 != 0), (v & 8192u32 != 0) == (w & 8192u32 != 0), (v & 16384u32 != 0) == (w & 16384u32 != 0), (v & 32768u32 != 0) == (w & 32768u32 != 0), (v & 65536u32 != 0) == (w & 65536u32 != 0), (v & 131072u32 != 0) == (w & 131072u32 != 0), (v & 262144u32 != 0) == (w & 262144u32 != 0), (v & 524288u32 != 0) == (w & 524288u32 != 0), (v & 1048576u32 != 0) == (w & 1048576u32 != 0), (v & 2097152u32 != 0) == (w & 2097152u32 != 0), (v & 4194304u32 != 0) == (w & 4194304u32 != 0), (v & 8388608u32 != 0) == (w & 8388608u32 != 0), (v & 16777216u32 != 0) == (w & 16777216u32 != 0), (v & 33554432u32 != 0) == (w & 33554432u32 != 0), (v & 67108864u32 != 0) == (w & 67108864u32 != 0), (v & 134217728u32 != 0) == (w & 134217728u32 != 0), (v & 268435456u32 != 0) == (w & 268435456u32 != 0), (v & 536870912u32 != 0) == (w & 536870912u32 != 0), (v & 1073741824u32 != 0) == (w & 1073741824u32 != 0), (v & 2147483648u32 != 0) == (w & 2147483648u32 != 0);
}
pub proof fn masked(w: u32, k: u32)
    requires 0 < k < 32
    ensures 1u32 << k >= 1, (w & !(((1u32 << k) - 1) as u32) == 0) == (forall|b: int| k <= b < 32 ==> !#[trigger] bit(w, b))
{
    assert(1u32 << k >= 1) by(bit_vector) requires k < 32;
    let m = ((1u32 << k) - 1) as u32;
    let x = w & !m;
    assert forall|b: int| 0 <= b < 32 implies #[trigger] bit(x, b) == (b >= k && bit(w, b)) by {
        let e = b as u32;
        assert(((w & !sub(1u32 << k, 1)) & (1u32 << e) != 0) == (e >= k && w & (1u32 << e) != 0)) by(bit_vector) requires k < 32, e < 32;
    }
    zero_of_bits(x);
    assert forall|b: int| x == 0 && k <= b < 32 implies !#[trigger] bit(w, b) by { assert(!bit(x, b)); }
}
pub proof fn lex_skip(a: Seq<bool>, b: Seq<bool>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures lex_bits(a, b) == lex_bits(a.skip(k), b.skip(k))
    decreases k
{
    if k == 0 { assert(a.skip(0) =~= a); assert(b.skip(0) =~= b); }
    else {
        lex_skip(a, b, k - 1);
        let (x, y) = (a.skip(k - 1), b.skip(k - 1));
        assert(x[0] == a[k - 1] && y[0] == b[k - 1]);
        assert(x.drop_first() =~= a.skip(k));
        assert(y.drop_first() =~= b.skip(k));
    }
}
@end
@fn lib.rs BitVec::blocks
ensures r.iter.v == &self.storage, r.iter.k == 0, r.wf()
@mono
@edit self.storage.iter() ==> vx_iter(&self.storage)
@end
@fn lib.rs BitVec::last_block_with_mask
requires self.wf()
ensures
    self.nbits % 32 == 0 ==> r is None,
    self.nbits % 32 != 0 ==> r == Some((self.storage@.last(), ((1u32 << (self.nbits % 32) as u32) - 1) as u32)),
@mono
@at entry
proof { if self.nbits % 32 != 0 { masked(0, (self.nbits % 32) as u32); } }
@end
@fn lib.rs BitVec::is_last_block_fixed
requires self.wf()
ensures r
@mono
@at entry
proof {
    if self.nbits % 32 != 0 {
        let k = (self.nbits % 32) as u32;
        let s = self.storage@.len() - 1;
        masked(self.storage@.last(), k);
        assert forall|b: int| k <= b < 32 implies !#[trigger] bit(self.storage@.last(), b) by {
            let i = 32 * s + b;
            assert(!self.at(i));
            assert(i / 32 == s && i % 32 == b);
        }
    }
}
@end
@fn lib.rs BitVec::ensure_invariant
requires self.wf()
@mono
@end
@fn lib.rs BitVec::get
requires self.wf()
ensures r == (if i < self@.len() { Some(self@[i as int]) } else { None })
@mono
@closure 0 option_map
@end
@fn lib.rs BitVec::set
requires old(self).wf(), i < old(self)@.len()
ensures final(self).wf(), final(self)@ == old(self)@.update(i as int, x)
@mono
@at exit
proof {
    let (o, n) = (old(self), &*self);
    set_bit(o.storage@[i as int / 32], i as int % 32);
    assert(n.storage@ =~= o.storage@.update(i as int / 32, n.storage@[i as int / 32]));
    assert forall|j: int| 0 <= j < 32 * n.storage@.len() implies #[trigger] n.at(j) == (if j == i { x } else { o.at(j) }) by {
        if j / 32 == i as int / 32 && j != i { assert(j % 32 != i as int % 32); }
    }
    assert(n@ =~= o@.update(i as int, x));
}
@end
@fn lib.rs BitVec::len
ensures r == self@.len()
@mono
@end
@fn lib.rs BitVec::is_empty
ensures r == (self@.len() == 0)
@mono
@end
@fn lib.rs BitVec::default
ensures r.wf(), r@.len() == 0
@mono
@end
@raw
pub exec static TRUE: bool ensures TRUE { true }
pub exec static FALSE: bool ensures !FALSE { false }
@end
@fn lib.rs BitVec::index@usize
requires self.wf(), i < self@.len()
ensures *r == self@[i as int]
@mono
@end
@fn lib.rs blocks_for_bits
requires bits < usize::MAX
ensures r == (bits + 31) / 32
@mono
@end
@fn lib.rs BitVec::with_capacity
requires nbits < usize::MAX
ensures r.wf(), r@.len() == 0
@edit ::<B> ==> 
@end
@fn lib.rs BitVec::new
ensures r.wf(), r@.len() == 0
@edit Default::default() ==> BitVec::default()
@end
@fn lib.rs BitVec::pop
requires old(self).wf()
ensures
    final(self).wf(), final(self)@ == (if old(self)@.len() > 0 { old(self)@.drop_last() } else { old(self)@ }),
    r == (if old(self)@.len() > 0 { Some(old(self)@.last()) } else { None }),
@mono
@edit self[i] ==> *self.index(i)
@edit self.nbits = i; ==> let ghost mid = *self; self.nbits = i;
@edit Some(ret) ==> { proof { let (o, n) = (old(self), &*self); assert(mid@.len() == mid.nbits && o@.len() == o.nbits); assert(mid.wf()); assert(mid@[i as int] == false); assert(n.storage@.len() <= mid.storage@.len()); assert forall|j: int| 0 <= j < 32 * n.storage@.len() implies #[trigger] n.at(j) == (j < i && o.at(j)) by { assert(n.storage@[j / 32] == mid.storage@[j / 32]); assert(n.at(j) == mid.at(j)); assert(j < mid.nbits ==> mid@[j] == mid.at(j)); assert(j < i ==> mid@[j] == o@[j]); assert(j < i ==> o@[j] == o.at(j)); assert(j > i ==> !mid.at(j)); } assert(n@ =~= o@.drop_last()); } Some(ret) }
@end
@fn lib.rs BitVec::push
requires old(self).wf(), old(self)@.len() < usize::MAX
ensures final(self).wf(), final(self)@ == old(self)@.push(elem)
@mono
@at tail
proof {
    let (o, n) = (old(self), &*self);
    let k = o.storage@.len() as int;
    assert forall|j: int| 0 <= j < 32 * n.storage@.len() implies #[trigger] n.at(j) == (j < 32 * k && o.at(j)) by {
        if j >= 32 * k { assert(n.storage@[j / 32] == 0); no_bits(j % 32); } else { assert(n.storage@[j / 32] == o.storage@[j / 32]); }
    }
    assert(forall|j: int| o.nbits <= j < 32 * k ==> !#[trigger] o.at(j));
    assert(n@ =~= o@.push(false));
}
@at exit
proof { assert(self@ =~= old(self)@.push(elem)); }
@end
@fn lib.rs BitVec::none
requires self.wf()
ensures r == (forall|i: int| 0 <= i < self@.len() ==> !self@[i])
@mono
@closure 0 all
@loop c0
invariant
    vx_it0.wf(), vx_it0.iter.v == &self.storage, vx_go0 ==> vx_r0,
    forall|j: int| 0 <= j < (if vx_r0 { vx_it0.iter.k as int } else { 0 }) ==> self.storage@[j] == 0,
    vx_r0 && !vx_go0 ==> vx_it0.iter.k == self.storage@.len(),
    !vx_r0 ==> exists|j: int| 0 <= j < self.storage@.len() && self.storage@[j] != 0,
decreases self.storage@.len() - vx_it0.iter.k + (if vx_go0 { 1int } else { 0 })
@at entry
proof {
    assert forall|j: int| 0 <= j < self.storage@.len() && #[trigger] self.storage@[j] != 0 implies exists|i: int| 0 <= i < self@.len() && self@[i] by {
        zero_of_bits(self.storage@[j]);
        let b = choose|b: int| 0 <= b < 32 && bit(self.storage@[j], b);
        let i = 32 * j + b;
        assert(i / 32 == j && i % 32 == b);
        assert(self.at(i));
        assert(self@[i]);
    }
    assert forall|i: int| 0 <= i < self@.len() && self.storage@[i / 32] == 0 implies !#[trigger] self@[i] by { no_bits(i % 32); assert(self@[i] == self.at(i)); }
}
@end
@fn lib.rs BitVec::any
requires self.wf()
ensures r == (exists|i: int| 0 <= i < self@.len() && self@[i])
@mono
@end
@fn lib.rs BitVec::eq
requires self.wf(), other.wf()
ensures r == (self@ == other@)
@mono
@edit self.blocks().zip(other.blocks()) ==> vx_zip(self.blocks(), other.blocks())
@closure 0 all
@loop c0
invariant
    vx_it0.wf(), vx_it0.a.iter.v == &self.storage, vx_it0.b.iter.v == &other.storage, self.storage@.len() == other.storage@.len(), vx_go0 ==> vx_r0,
    forall|j: int| 0 <= j < (if vx_r0 { vx_it0.a.iter.k as int } else { 0 }) ==> self.storage@[j] == other.storage@[j],
    vx_r0 && !vx_go0 ==> vx_it0.a.iter.k == self.storage@.len(),
    !vx_r0 ==> exists|j: int| 0 <= j < self.storage@.len() && self.storage@[j] != other.storage@[j],
decreases self.storage@.len() - vx_it0.a.iter.k + (if vx_go0 { 1int } else { 0 })
@at entry
proof {
    if self.nbits == other.nbits {
        if self.storage@ =~= other.storage@ { assert(self@ =~= other@); }
        if self@ == other@ {
            assert forall|j: int| 0 <= j < self.storage@.len() implies self.storage@[j] == other.storage@[j] by {
                assert forall|b: int| 0 <= b < 32 implies #[trigger] bit(self.storage@[j], b) == bit(other.storage@[j], b) by {
                    let i = 32 * j + b;
                    assert(i / 32 == j && i % 32 == b);
                    if i < self.nbits { assert(self@[i] == other@[i]); } else { assert(!self.at(i) && !other.at(i)); }
                }
                same_bits(self.storage@[j], other.storage@[j]);
            }
        }
    } else { assert(self@.len() != other@.len()); }
}
@end
@fn lib.rs BitVec::iter
requires self.wf()
ensures r.wf(), r.bit_vec == self, r.range.start == 0
@mono
@end
@fn lib.rs Iter::next
requires old(self).wf()
ensures final(self).wf(), final(self).bit_vec == old(self).bit_vec,
    match r {
        Some(x) => old(self).range.start < old(self).bit_vec@.len() && x == old(self).bit_vec@[old(self).range.start as int]
            && final(self).range.start == old(self).range.start + 1,
        None => old(self).range.start == old(self).bit_vec@.len() && final(self).range.start == old(self).range.start,
    }
@mono
@closure 0 option_map
@end
@fn lib.rs Blocks::next
requires old(self).wf()
ensures final(self).wf(), final(self).iter.v == old(self).iter.v,
    match r {
        Some(x) => old(self).iter.k < old(self).iter.v@.len() && x == old(self).iter.v@[old(self).iter.k as int] && final(self).iter.k == old(self).iter.k + 1,
        None => old(self).iter.k == old(self).iter.v@.len() && final(self).iter.k == old(self).iter.k,
    }
@mono
@end
@fn lib.rs BitVec::cmp
requires self.wf(), other.wf()
ensures r == lex_bits(self@, other@)
@mono
@loop 0
invariant
    self.wf(), other.wf(), a.wf(), b.wf(), a.bit_vec == self, b.bit_vec == other, a.range.start == b.range.start,
    a.range.start <= self@.len(), b.range.start <= other@.len(),
    forall|i: int| 0 <= i < a.range.start ==> self@[i] == other@[i],
decreases self@.len() - a.range.start
@at loop 0 start
proof { lex_skip(self@, other@, a.range.start as int); }
@end
@broadcast vx_ax::ax
@helpers
@raw
} // verus!
@end
