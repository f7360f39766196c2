@raw
pub open spec fn pow2(n: int) -> bool { n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 || n == 128 }
/// The least multiple of n that is not below a.
pub open spec fn up_to(r: int, a: int, n: int) -> bool { r % n == 0 && a <= r < a + n }
/// The greatest multiple of n that is not above a.
pub open spec fn down_to(r: int, a: int, n: int) -> bool { r % n == 0 && r <= a < r + n }
proof fn masks(b: T, n: T)
    requires pow2(n as int)
    ensures down_to((b & !((n - 1) as T)) as int, b as int, n as int), n >= 1
{
    vx_mask1(b); vx_mask2(b); vx_mask4(b); vx_mask8(b); vx_mask16(b); vx_mask32(b); vx_mask64(b); vx_mask128(b);
}
/// There is one such multiple.
proof fn only_one(n: int, a: int, r: int, s: int)
    requires n > 0
    ensures up_to(r, a, n) && up_to(s, a, n) ==> r == s, down_to(r, a, n) && down_to(s, a, n) ==> r == s
{
    if up_to(r, a, n) && up_to(s, a, n) || down_to(r, a, n) && down_to(s, a, n) {
        let (i, j) = (r / n, s / n);
        assert(r == n * i && s == n * j) by (nonlinear_arith) requires r % n == 0, s % n == 0, i == r / n, j == s / n, n > 0;
        assert(i == j) by (nonlinear_arith) requires r == n * i, s == n * j, n > 0, -n < r - s < n;
    }
}
@end
@fn util/ue2common.rs round_up_16
requires exists|m: int| up_to(m, a as int, 16) && m <= T::MAX
ensures up_to(r as int, a as int, 16)
@mono
@edit *T::from( ==> vx_from(
@edit *.into() ==> .vx_into()
@at entry
proof {
    let m = choose|m: int| up_to(m, a as int, 16) && m <= T::MAX;
    assert(a + 15 <= T::MAX);
    masks((a + 15) as T, 16);
}
@end
@fn util/ue2common.rs round_down_16
ensures down_to(r as int, a as int, 16)
@mono
@edit *T::from( ==> vx_from(
@edit *.into() ==> .vx_into()
@at entry
proof { masks(a, 16); }
@end
@fn util/ue2common.rs round_up_n
requires pow2(n as int), exists|m: int| up_to(m, a as int, n as int) && m <= T::MAX
ensures up_to(r as int, a as int, n as int)
@mono
@edit *T::from( ==> vx_from(
@edit *.into() ==> .vx_into()
@at entry
proof {
    let m = choose|m: int| up_to(m, a as int, n as int) && m <= T::MAX;
    vx_room(a, n, m);
    masks((a + (n - 1)) as T, n as T);
}
@end
@fn util/ue2common.rs round_down_n
requires pow2(n as int)
ensures down_to(r as int, a as int, n as int)
@mono
@edit *T::from( ==> vx_from(
@edit *.into() ==> .vx_into()
@at entry
proof { masks(a, n as T); }
@end
@fn util/ue2common.rs round_up_cache_line
requires exists|m: int| up_to(m, a as int, 64) && m <= T::MAX
ensures up_to(r as int, a as int, 64)
@mono
@edit *T::from( ==> vx_from(
@edit *.into() ==> .vx_into()
@at entry
proof {
    let m = choose|m: int| up_to(m, a as int, 64) && m <= T::MAX;
    vx_room(a, 64, m);
    masks((a + 63) as T, 64);
}
@end
@helpers
@raw
/// What is representable leaves room for the sum.
proof fn vx_room(a: T, n: u8, m: int)
    requires pow2(n as int), up_to(m, a as int, n as int), m <= T::MAX
    ensures a + (n - 1) <= T::MAX
{
}
} // verus!
@end
