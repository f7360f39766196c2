# From the arguments of a compilation to its result: C19, C20.
@include common.inc
@include text.inc
@include names.inc
@include maps.inc
@include sets.inc
@include errors.inc
@include rm.inc
@include bitvec.inc
@include charreach_assumed.inc
@include charreach_ops.inc
@include case.inc
@include ue2string.inc
@include mixed.inc
@include graph.inc
@include graph_more.inc
@include sw.inc
@include sw_build.inc
@include strs.inc
@include nom.inc
@include tree.inc
@include iter.inc
@include verbs.inc
@include shape.inc
@include parse.inc
@include plain.inc
@flags parser/position.rs PosFlags
@include holder.inc
@include expr.inc
@type compiler.rs BuiltExpression
@end
@include notes.inc
@include ng.inc
@raw
impl Clone for Grey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@end
@include rose.inc
@include batch.inc
@helpers
@raw
} // verus!
@end
