@type lib.rs SomHorizon
@end
@type lib.rs Mode
@end
@type rose/rose_internal.rs RoseRuntimeImpl
@end
@type rose/rose_internal.rs RoseEngine
@end
@type rose/rose_build_resources.rs RoseResources
@default
ensures
    !r.has_outfixes && !r.has_suffixes && !r.has_leftfixes && !r.has_literals && !r.has_states && !r.checks_groups && !r.has_lit_delay,
    !r.has_lit_check && !r.has_anchored && !r.has_anchored_multiple && !r.has_anchored_large && !r.has_floating && !r.has_eod,
@end
@type rose/rose_build_bytecode.rs BuildContext
@default
ensures !r.resources.has_floating
@end
@type rose/rose_build_bytecode.rs DerivedBoundaryReports
@end
@raw
pub open spec fn streaming_mode(m: Mode) -> bool { m is Stream || m is Vectored }
pub open spec fn precision(m: Mode) -> int {
    match m {
        Mode::Stream(Some(SomHorizon::Large)) => 8,
        Mode::Stream(Some(SomHorizon::Medium)) => 4,
        Mode::Stream(Some(SomHorizon::Small)) => 2,
        Mode::Vectored => 8,
        _ => 0,
    }
}
/// C21: nothing but floating literals.
pub open spec fn pure_literal(x: RoseResources, streaming: bool) -> bool {
    &&& x.has_floating
    &&& !x.has_outfixes && !x.has_suffixes && !x.has_leftfixes && !x.has_anchored && !x.has_eod && !x.has_states && !x.has_lit_delay && !x.checks_groups
    &&& !(streaming && x.has_lit_check)
}
/// C20: the mode of the engine, its start-of-match horizon apart.
pub open spec fn engine_mode(e: RoseEngine, cc: CompileContext) -> bool {
    if cc.streaming { if cc.vectored { e.mode is Vectored } else { e.mode == Mode::Stream(None) } } else { e.mode is Block }
}
@end
@fn lib.rs Mode::is_streaming
ensures r == streaming_mode(*self)
@end
@fn lib.rs Mode::is_vectored
ensures r == (self is Vectored)
@end
@fn lib.rs Mode::som_precision
ensures r == precision(*self)
@end
@fn rose/rose_build_bytecode.rs is_pure_floating
ensures r == pure_literal(*resources, cc.streaming)
@end
@fn rose/rose_build_bytecode.rs is_single_outfix
ensures !r
@end
@fn rose/rose_build_bytecode.rs pick_runtime_impl
ensures if pure_literal(*resources, build.cc.streaming) { r is PureLiteral } else { r is FullRose }
@end
@fn rose/rose_build.rs RoseBuild::build_final_engine
ensures engine_mode(r, *self.cc), r.runtime_impl is FullRose
@edit super::DerivedBoundaryReports ==> DerivedBoundaryReports
@end
@fn rose/rose_build.rs RoseBuild::build_rose
ensures engine_mode(r, *self.cc), r.runtime_impl is FullRose
@end
@type database.rs Database
@end
@fn database.rs Database::new
ensures r.rose == rose
@end
@fn database.rs get_bytecode
ensures *r == db.rose
@end
@type scratch.rs CoreInfo
@end
@type scratch.rs Scratch
@end
@type runtime.rs Error
@end
@fn runtime.rs init_som_state
@end
@fn rose/block.rs rose_block_exec
@end
@fn runtime.rs raw_block_exec
@end
@fn runtime.rs pure_literal_block_exec
@end
@fn runtime.rs single_outfix_block_exec
@end
@fn runtime.rs scan
ensures r is Ok
@end
@fn util/compile_context.rs CompileContext::new
ensures r.streaming == streaming, r.vectored == vectored, r.grey == *grey
@end
