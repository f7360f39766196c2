@strtype VxStr
@raw
use vstd::utf8::*;
use core::mem;

// `&str` is extracted as VxStr: a sequence of characters.
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VxStr<'a> { s: &'a str }
/// The number of bytes of a text.
pub open spec fn ulen(s: Seq<char>) -> nat { encode_utf8(s).len() }
pub trait VxPat: Sized { spec fn pat(&self) -> Seq<char>; }
impl<'a> VxPat for &'a str { open spec fn pat(&self) -> Seq<char> { self@ } }
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPat for VxStr<'a> { open spec fn pat(&self) -> Seq<char> { self@ } }
impl<'a> VxStr<'a> {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == ulen(self@) { self.s.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { self.s.is_empty() }
    #[verifier::external_body]
    pub fn starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_prefix_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_suffix_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<VxStr<'a>>)
        ensures match r { Some(x) => p.pat().is_prefix_of(self@) && x@ == self@.skip(p.pat().len() as int), None => !p.pat().is_prefix_of(self@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<VxStr<'a>>)
        ensures match r { Some(x) => p.pat().is_suffix_of(self@) && x@ == self@.take(self@.len() - p.pat().len()), None => !p.pat().is_suffix_of(self@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn eq_ignore_ascii_case(&self, p: &str) -> (r: bool)
        ensures r == (self@.len() == p@.len() && forall|i: int| 0 <= i < p@.len() ==> std_to_lower(#[trigger] self@[i] as int) == std_to_lower(p@[i] as int))
    { self.s.eq_ignore_ascii_case(p) }
    #[verifier::external_body]
    pub fn is_ascii(&self) -> (r: bool) ensures r == (forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i] as u32) < 128) { self.s.is_ascii() }
    #[verifier::external_body]
    pub fn chars(&self) -> (r: VxChars<'a>) ensures r.rest() == self@ { unimplemented!() }
}
impl<'a> VxDisplay for VxStr<'a> { open spec fn disp(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_str_eq(a: VxStr<'_>, b: &str) -> (r: bool) ensures r == (a@ == b@) { a.s == b }
#[verifier::external_body]
pub struct VxChars<'a> { s: &'a str }
impl<'a> VxChars<'a> {
    pub uninterp spec fn rest(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures match r {
            Some(c) => old(self).rest().len() > 0 && c == old(self).rest()[0] && final(self).rest() == old(self).rest().drop_first(),
            None => old(self).rest().len() == 0 && final(self).rest() == old(self).rest(),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: VxStr<'a>) ensures r@ == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.rest().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<char>) ensures r == (if self.rest().len() == 0 { None } else { Some(self.rest().last()) }) { unimplemented!() }
}


pub proof fn ulen_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures ulen(s) == ulen(s.take(k)) + ulen(s.skip(k))
    decreases k
{
    if k == 0 {
        assert(s.take(0).len() == 0);
        assert(s.skip(0) =~= s);
    } else {
        ulen_split(s.drop_first(), k - 1);
        assert(s.take(k).drop_first() =~= s.drop_first().take(k - 1));
        assert(s.skip(k) =~= s.drop_first().skip(k - 1));
        assert(s.take(k)[0] == s[0]);
    }
}
pub proof fn ulen_at_least(s: Seq<char>)
    ensures ulen(s) >= s.len()
    decreases s.len()
{ if s.len() > 0 { ulen_at_least(s.drop_first()); } }
@end
