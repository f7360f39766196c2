@type som.rs SomType Clone Copy PartialEq +Eq +Structural
@end
@type compiler/expression_info.rs ExpressionInfo ?Clone
@end
@raw
impl Clone for ExpressionInfo {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
@end
@type compiler.rs ParsedExpression
@end
