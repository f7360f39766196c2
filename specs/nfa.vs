# From the parse tree to the graph: C18.
@include common.inc
@include charreach_assumed.inc
@include charreach_ops.inc
@include sets.inc
@include graph.inc
@include graph_more.inc
@flags parser/position.rs PosFlags
@type util/ue2common.rs ReportId
@end
@include tree.inc
@include holder.inc
@include expr.inc
@type compiler.rs BuiltExpression
@end
@include iter.inc
@include notes.inc
@helpers
@raw
} // verus!
@end
