# The literal trie and the small-write builder: C16, C17.
@include common.inc
@include bitvec.inc
@include case.inc
@include ue2string.inc
@include sets.inc
@include graph.inc
@type util/ue2common.rs ReportId
@end
@include sw.inc
@type grey.rs Grey
@end
@include sw_build.inc
@raw
pub struct ReportManager<'a> { pub grey: &'a Grey }
@end
@helpers
@raw
} // verus!
@end
