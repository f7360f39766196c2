# The report manager: C14, C15.
@include common.inc
@include text.inc
@include names.inc
@include maps.inc
@include errors.inc
@include rm.inc
@helpers
@raw
} // verus!
@end
