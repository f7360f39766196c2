# The parser: C10, C11, C12.
@include common.inc
@include charreach_assumed.inc
@include charreach_ops.inc
@include text.inc
@include names.inc
@include errors.inc
@include strs.inc
@include nom.inc
@include tree.inc
@include verbs.inc
@include shape.inc
@include unique.inc
@include parse.inc
@helpers
@raw
} // verus!
@end
