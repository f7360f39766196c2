@type util/compile_error.rs ErrorKind
@end
@type util/compile_error.rs CompileError
@end
@global Into<String> ==> VxIntoString
@fn util/compile_error.rs CompileError::new
ensures r.kind == kind, r.reason@ == why.text(), r.index is None
@end
@fn util/compile_error.rs CompileError::with_index
ensures r.index == Some(index), r.reason@ == why.text()
@end
