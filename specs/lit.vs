# The literal shortcut: C13.
@include common.inc
@include charreach_assumed.inc
@include bitvec.inc
@include case.inc
@include ue2string.inc
@include tree.inc
@include iter.inc
@include plain.inc
@helpers
@raw
} // verus!
@end
