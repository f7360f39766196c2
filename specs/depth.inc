@absent util/depth.rs Depth::min
@absent util/depth.rs Depth::max
@type util/depth.rs INFINITY
@default
ensures INFINITY == 0x7fff_ffff
@end
@type util/depth.rs MAX_VALUE
@default
ensures MAX_VALUE == 0x7fff_fffe
@end
@type util/depth.rs DepthOverflowError
@end
@type util/depth.rs Depth Clone Copy
@end
@raw
pub open spec fn order(a: u32, b: u32) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl Depth {
    /// No length at all is as large as infinity.
    pub open spec fn infinite(&self) -> bool { self.val == 0x7fff_ffff }
}
/// C08: a total order, every count below infinity, equality agreeing with it.
pub proof fn depths_are_ordered(a: Depth, b: Depth, c: Depth)
    ensures
        (order(a.val, b.val) is Equal) == (a == b),
        (order(a.val, b.val) is Less) == (order(b.val, a.val) is Greater),
        order(a.val, b.val) is Less && order(b.val, c.val) is Less ==> order(a.val, c.val) is Less,
        a.val < 0x7fff_ffff && b.infinite() ==> order(a.val, b.val) is Less,
{}
@end
@fn util/depth.rs Depth::infinity
ensures r.infinite()
@end
@fn util/depth.rs Depth::try_from@u32
ensures match r { Ok(d) => val < 0x7fff_ffff && d.val == val, Err(_) => val >= 0x7fff_ffff }
@rename try_from_u32
@end
@fn util/depth.rs Depth::eq
ensures r == (self.val == other.val)
@end
@fn util/depth.rs Depth::partial_cmp
ensures r == Some(order(self.val, other.val))
@end
@fn util/depth.rs Depth::try_from@usize
ensures match r { Ok(d) => val < 0x7fff_ffff && d.val == val, Err(_) => val >= 0x7fff_ffff }
@end
@fn util/depth.rs Depth::cmp
ensures r == order(self.val, other.val)
@end
@raw
// The operators ==, <, <=, >, >= ask the functions under contract above.
impl vstd::std_specs::cmp::PartialEqSpecImpl for Depth {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Depth) -> bool { self.val == o.val }
}
impl PartialEq for Depth { fn eq(&self, o: &Depth) -> bool { Depth::eq(self, o) } }
impl vstd::std_specs::cmp::PartialOrdSpecImpl for Depth {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Depth) -> Option<Ordering> { Some(order(self.val, o.val)) }
}
impl PartialOrd for Depth { fn partial_cmp(&self, o: &Depth) -> (r: Option<Ordering>) { Depth::partial_cmp(self, o) } }
// std::cmp::min, by Ord for Depth (under contract above).
pub fn min(a: Depth, b: Depth) -> (r: Depth) ensures r == (if b.val < a.val { b } else { a }) {
    match b.cmp(&a) { Ordering::Less => b, _ => a }
}
// Ord::min and Ord::max as methods: what a type gets that defines cmp alone.
impl Depth {
    pub fn min(self, o: Depth) -> (r: Depth) ensures r == (if o.val < self.val { o } else { self }) { min(self, o) }
    pub fn max(self, o: Depth) -> (r: Depth) ensures r == (if o.val < self.val { self } else { o }) {
        match o.cmp(&self) { Ordering::Less => self, _ => o }
    }
}
// TryInto
pub trait VxTryInto<T>: Sized {
    type E;
    spec fn fits(&self) -> bool;
    spec fn val(&self) -> T;
    fn vx_try_into(self) -> (r: Result<T, Self::E>)
        ensures match r { Ok(v) => self.fits() && v == self.val(), Err(_) => !self.fits() };
}
impl VxTryInto<Depth> for usize {
    type E = DepthOverflowError;
    open spec fn fits(&self) -> bool { *self < 0x7fff_ffff }
    open spec fn val(&self) -> Depth { Depth { val: *self as u32 } }
    fn vx_try_into(self) -> (r: Result<Depth, DepthOverflowError>) { Depth::try_from(self) }
}
impl VxTryInto<u64> for usize {
    type E = std::num::TryFromIntError;
    open spec fn fits(&self) -> bool { true }
    open spec fn val(&self) -> u64 { *self as u64 }
    fn vx_try_into(self) -> (r: Result<u64, std::num::TryFromIntError>) { Ok(self as u64) }
}
impl VxTryInto<u32> for usize {
    type E = std::num::TryFromIntError;
    open spec fn fits(&self) -> bool { *self <= u32::MAX }
    open spec fn val(&self) -> u32 { *self as u32 }
    #[verifier::external_body]
    fn vx_try_into(self) -> (r: Result<u32, std::num::TryFromIntError>) { self.try_into() }
}
@end
