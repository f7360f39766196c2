@fn util/compare.rs myisupper
ensures r == (0x41 <= c <= 0x5a)
@end
@fn util/compare.rs myislower
ensures r == (0x61 <= c <= 0x7a)
@end
@fn util/compare.rs mytolower
ensures r == if 0x41 <= c <= 0x5a { (c + 0x20) as u8 } else { c }
@end
@fn util/compare.rs mytoupper
ensures r == up(c)
@end
@raw
pub open spec fn letter(c: u8) -> bool { 0x41 <= c <= 0x5a || 0x61 <= c <= 0x7a }
pub open spec fn up(c: u8) -> u8 { if 0x61 <= c <= 0x7a { (c - 0x20) as u8 } else { c } }
@end
@fn util/compare.rs ourisalpha
ensures r == letter(c)
@end
