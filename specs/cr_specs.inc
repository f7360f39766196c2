@raw
pub open spec fn cr_empty(s: CharReach) -> bool { forall|c: u8| !s.has(c) }
pub open spec fn cr_first(s: CharReach, r: Option<u8>) -> bool {
    match r {
        Some(x) => s.has(x) && forall|c: u8| c < x ==> !s.has(c),
        None => cr_empty(s),
    }
}
pub open spec fn cr_next(s: CharReach, n: u8, r: Option<u8>) -> bool {
    match r {
        Some(x) => s.has(x) && x > n && forall|c: u8| n < c < x ==> !s.has(c),
        None => forall|c: u8| c > n ==> !s.has(c),
    }
}
/// A letter in the other case.
pub open spec fn swapped(x: u8) -> Option<u8> {
    if 0x41 <= x <= 0x5a { Some((x + 32) as u8) } else if 0x61 <= x <= 0x7a { Some((x - 32) as u8) } else { None }
}
/// How many members are below n.
pub open spec fn card(s: CharReach, n: int) -> nat
    decreases n
{ if n <= 0 { 0 } else { card(s, n - 1) + (if s.has((n - 1) as u8) { 1nat } else { 0 }) } }
proof fn card_gap(s: CharReach, n: int, m: int)
    requires 0 <= n <= m <= 256, forall|c: u8| n <= c < m ==> !s.has(c)
    ensures card(s, m) == card(s, n)
    decreases m - n
{ if n < m { card_gap(s, n, m - 1); assert(!s.has((m - 1) as u8)); } }
proof fn card_grows(s: CharReach, n: int, m: int)
    requires 0 <= n <= m <= 256
    ensures card(s, n) <= card(s, m)
    decreases m - n
{ if n < m { card_grows(s, n, m - 1); } }
@end
