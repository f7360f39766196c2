@raw
// Texts: format!("a {} b", x) is extracted as the concatenation of its pieces.
pub trait VxDisplay {
    spec fn disp(&self) -> Seq<char>;
}
pub uninterp spec fn dec(n: int) -> Seq<char>;
impl VxDisplay for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for u8 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for u16 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for u64 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for i32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for i64 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for isize { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as int) } }
impl VxDisplay for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<'a> VxDisplay for &'a str { open spec fn disp(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
pub fn vx_disp<T: VxDisplay>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
#[verifier::external_body]
pub fn vx_lit(x: &str) -> (r: String) ensures r@ == x@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
// T: Into<String>
pub trait VxIntoString {
    spec fn text(&self) -> Seq<char>;
    fn into(self) -> (r: String) where Self: Sized ensures r@ == self.text();
}
impl<'a> VxIntoString for &'a str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn into(self) -> (r: String) { unimplemented!() }
}
impl VxIntoString for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    fn into(self) -> (r: String) { self }
}
// What a Formatter has been given.
#[verifier::external_body]
pub struct VxFormatter { x: u8 }
impl VxFormatter { pub uninterp spec fn out(&self) -> Seq<char>; }
pub struct VxFmtError { }
#[verifier::external_body]
pub fn vx_write(f: &mut VxFormatter, s: String) -> (r: Result<(), VxFmtError>)
    ensures r is Ok ==> final(f).out() == old(f).out() + s@ && forall|o: Seq<char>, t: Seq<char>| old(f).out() == #[trigger] (o + t) ==> final(f).out() == o + (t + s@)
{ unimplemented!() }
@end
