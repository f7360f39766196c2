@raw
use vstd::prelude::*;
verus! {

// Shims for what the extraction rewrites (see DESIGN.md).  A panic is an obligation: its precondition is false.
pub fn vx_assert(c: bool) requires c { }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }
/// `cfg!`: whichever it is.
#[verifier::external_body]
pub fn vx_cfg() -> bool { unimplemented!() }
@end
@include std.inc
