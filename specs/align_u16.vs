# Rounding in u16: C07.  One instance of the generic functions; the bodies are theirs.
@include common.inc
@raw
type T = u16;
pub trait VxInto { spec fn val(&self) -> int; fn vx_into(self) -> (r: T) where Self: Sized ensures r == self.val(); }
impl VxInto for u8 { open spec fn val(&self) -> int { *self as int } fn vx_into(self) -> (r: T) { self as T } }
impl VxInto for u16 { open spec fn val(&self) -> int { *self as int } fn vx_into(self) -> (r: T) { self } }
pub fn vx_from(x: u8) -> (r: T) ensures r == x { x as T }
proof fn vx_mask1(b: u16) ensures down_to((b & !0u16) as int, b as int, 1) { let c = b & !0u16; assert(c % 1 == 0 && c <= b && sub(b, c) < 1) by (bit_vector) requires c == b & !0u16; }
proof fn vx_mask2(b: u16) ensures down_to((b & !1u16) as int, b as int, 2) { let c = b & !1u16; assert(c % 2 == 0 && c <= b && sub(b, c) < 2) by (bit_vector) requires c == b & !1u16; }
proof fn vx_mask4(b: u16) ensures down_to((b & !3u16) as int, b as int, 4) { let c = b & !3u16; assert(c % 4 == 0 && c <= b && sub(b, c) < 4) by (bit_vector) requires c == b & !3u16; }
proof fn vx_mask8(b: u16) ensures down_to((b & !7u16) as int, b as int, 8) { let c = b & !7u16; assert(c % 8 == 0 && c <= b && sub(b, c) < 8) by (bit_vector) requires c == b & !7u16; }
proof fn vx_mask16(b: u16) ensures down_to((b & !15u16) as int, b as int, 16) { let c = b & !15u16; assert(c % 16 == 0 && c <= b && sub(b, c) < 16) by (bit_vector) requires c == b & !15u16; }
proof fn vx_mask32(b: u16) ensures down_to((b & !31u16) as int, b as int, 32) { let c = b & !31u16; assert(c % 32 == 0 && c <= b && sub(b, c) < 32) by (bit_vector) requires c == b & !31u16; }
proof fn vx_mask64(b: u16) ensures down_to((b & !63u16) as int, b as int, 64) { let c = b & !63u16; assert(c % 64 == 0 && c <= b && sub(b, c) < 64) by (bit_vector) requires c == b & !63u16; }
proof fn vx_mask128(b: u16) ensures down_to((b & !127u16) as int, b as int, 128) { let c = b & !127u16; assert(c % 128 == 0 && c <= b && sub(b, c) < 128) by (bit_vector) requires c == b & !127u16; }
@end
@include align.inc
