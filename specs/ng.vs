# Adding an expression to the compilation, and the literal shortcut: C13, C15, C22.
@include common.inc
@include text.inc
@include names.inc
@include maps.inc
@include sets.inc
@include errors.inc
@include rm.inc
@include bitvec.inc
@include charreach_assumed.inc
@include case.inc
@include ue2string.inc
@include mixed.inc
@include graph.inc
@include sw.inc
@include sw_build.inc
@include tree.inc
@include iter.inc
@include plain.inc
@include expr.inc
@raw
// Not read by the functions under contract here.
pub struct NgHolder { }
@end
@include ng.inc
@helpers
@raw
} // verus!
@end
