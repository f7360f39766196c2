@raw
// What the standard library and bit-vec do (trusted).
pub mod vx_ax {
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::{PartialEqSpec, OrdSpec};
/// Lexicographic order of byte strings, as Ord for Vec<u8>.
pub open spec fn lex(a: Seq<u8>, b: Seq<u8>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { lex(a.drop_first(), b.drop_first()) }
}
/// The same of bit vectors, false before true.
pub open spec fn lex_bits(a: Seq<bool>, b: Seq<bool>) -> Ordering decreases a.len() {
    if a.len() == 0 { if b.len() == 0 { Ordering::Equal } else { Ordering::Less } }
    else if b.len() == 0 { Ordering::Greater }
    else if !a[0] && b[0] { Ordering::Less }
    else if a[0] && !b[0] { Ordering::Greater }
    else { lex_bits(a.drop_first(), b.drop_first()) }
}
pub broadcast axiom fn ax_vec_eq(a: Vec<u8>, b: Vec<u8>) ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
pub broadcast axiom fn ax_vec_eq_o() ensures #[trigger] <Vec<u8> as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_vec_cmp(a: Vec<u8>, b: Vec<u8>) ensures #[trigger] a.cmp_spec(&b) == lex(a@, b@);
pub broadcast axiom fn ax_vec_cmp_o() ensures #[trigger] <Vec<u8> as OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn ax_o_eq(a: Ordering, b: Ordering) ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn ax_o_o() ensures #[trigger] <Ordering as PartialEqSpec>::obeys_eq_spec();
pub broadcast group ax { ax_vec_eq, ax_vec_eq_o, ax_vec_cmp, ax_vec_cmp_o, ax_o_eq, ax_o_o }
}
use vx_ax::*;
use std::cmp::Ordering;
#[verifier::external_body]
pub struct BitVec { x: Vec<bool> }
impl View for BitVec { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
impl PartialEq for BitVec { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for BitVec {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self@ == other@ }
}
impl vstd::std_specs::core::IndexSpecImpl<usize> for BitVec {
    open spec fn index_req(&self, i: &usize) -> bool { *i < self@.len() }
}
impl core::ops::Index<usize> for BitVec {
    type Output = bool;
    #[verifier::external_body]
    fn index(&self, i: usize) -> (r: &bool) ensures *r == self@[i as int] { unimplemented!() }
}
impl BitVec {
    #[verifier::external_body]
    pub fn default() -> (r: BitVec) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn any(&self) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self@.len() && self@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn all(&self) -> (r: bool) ensures r == (forall|i: int| 0 <= i < self@.len() ==> self@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn none(&self) -> (r: bool) ensures r == (forall|i: int| 0 <= i < self@.len() ==> !self@[i]) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: BitVec) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: BitVec) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<bool>)
        ensures
            final(self)@ == (if old(self)@.len() > 0 { old(self)@.drop_last() } else { old(self)@ }),
            r == (if old(self)@.len() > 0 { Some(old(self)@.last()) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, b: bool) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::new(old(self)@.len(), |i: int| false) { unimplemented!() }
    #[verifier::external_body]
    pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, b: bool) ensures final(self)@ == old(self)@.push(b) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: usize) -> (r: Option<bool>) ensures r == (if i < self@.len() { Some(self@[i as int]) } else { None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn cmp(&self, o: &BitVec) -> (r: Ordering) ensures r == lex_bits(self@, o@) { unimplemented!() }
}
@end
@broadcast vx_ax::ax
