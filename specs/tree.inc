# The parse tree.
@type parser/parser_util.rs ParseMode Clone Copy
@default
ensures !r.caseless && !r.dotall && !r.ignore_space && !r.multiline && !r.ucp && !r.utf8
@end
@type parser/ascii_component_class.rs AsciiComponentClass
@end
@type parser/component_class.rs ComponentClass
@end
@type parser/component_alternation.rs ComponentAlternation
@default
ensures r.children@.len() == 0
@end
@type parser/component_sequence.rs ComponentSequence
@default
ensures r.children@.len() == 0, r.alternation is None, r.capture_index is None, r.capture_name is None
@end
@type parser/component.rs Component
@end
