# Depths: C08.
@include common.inc
@raw
use core::cmp::Ordering;
@end
@include depth.inc
@helpers
@raw
} // verus!
@end
