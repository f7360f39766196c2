# The engine: C20, C21.
@include common.inc
@type grey.rs Grey ?Clone
@end
@raw
impl Clone for Grey {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@end
@type util/compile_context.rs CompileContext
@end
@type rose/rose_build.rs RoseBuild
@end
@include rose.inc
@helpers
@raw
} // verus!
@end
