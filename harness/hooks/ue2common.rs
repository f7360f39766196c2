#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    use super::*;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));

    // C07.  `n` is 2^k, k <= 7.  "Least multiple not below" is stated without multiplication: aligned, not below, and less
    // than one alignment away.
    macro_rules! align_contracts {
        ($up:ident, $down:ident, $fixed:ident, $ty:ty, $read:ident) => {
            fn $up<S: Src>(s: &mut S) {
                let (a, k) = (s.$read() as $ty, s.u8());
                s.assume(k <= 7);
                let n: u8 = 1 << k;
                let m = n as $ty - 1;
                // Representable: the multiple does not exceed the largest value of the width.
                let over = a & m;
                s.assume(over == 0 || a - over <= <$ty>::max_value() - n as $ty);
                // The intermediate sum a + (n - 1) must not overflow either when the multiple is representable: it never does.
                let r = round_up_n::<$ty>(a, n);
                assert!(r & m == 0, "round_up_n: a multiple");
                assert!(r >= a && r - a <= m, "round_up_n: the least not below");
            }
            fn $down<S: Src>(s: &mut S) {
                let (a, k) = (s.$read() as $ty, s.u8());
                s.assume(k <= 7);
                let n: u8 = 1 << k;
                let m = n as $ty - 1;
                let r = round_down_n::<$ty>(a, n);
                assert!(r & m == 0, "round_down_n: a multiple");
                assert!(r <= a && a - r <= m, "round_down_n: the greatest not above");
            }
            fn $fixed<S: Src>(s: &mut S) {
                let a = s.$read() as $ty;
                assert!(round_down_16::<$ty>(a) == round_down_n::<$ty>(a, 16), "round_down_16: as round_down_n(16)");
                if a & 15 == 0 || a - (a & 15) <= <$ty>::max_value() - 16 {
                    assert!(round_up_16::<$ty>(a) == round_up_n::<$ty>(a, 16), "round_up_16: as round_up_n(16)");
                }
                if a & 63 == 0 || a - (a & 63) <= <$ty>::max_value() - 64 {
                    assert!(round_up_cache_line::<$ty>(a) == round_up_n::<$ty>(a, 64), "round_up_cache_line: as round_up_n(64)");
                }
            }
        };
    }
    align_contracts!(up_u8, down_u8, fixed_u8, u8, u8);
    align_contracts!(up_u16, down_u16, fixed_u16, u16, u16);
    align_contracts!(up_u32, down_u32, fixed_u32, u32, u32);
    align_contracts!(up_u64, down_u64, fixed_u64, u64, u64);
    align_contracts!(up_usize, down_usize, fixed_usize, usize, usize);
    fn wide<S: Src>(s: &mut S) -> u128 {
        let (h, l) = (s.u64(), s.u64());
        (h as u128) << 64 | l as u128
    }
    trait Wide: Src { fn u128(&mut self) -> u128; }
    impl<S: Src> Wide for S { fn u128(&mut self) -> u128 { wide(self) } }
    align_contracts!(up_u128, down_u128, fixed_u128, u128, u128);

    contracts! { rescan_verif_ue2common;
        up_u8 [4]; down_u8 [4]; fixed_u8 [4];
        up_u16 [4]; down_u16 [4]; fixed_u16 [4];
        up_u32 [4]; down_u32 [4]; fixed_u32 [4];
        up_u64 [4]; down_u64 [4]; fixed_u64 [4];
        up_usize [4]; down_usize [4]; fixed_usize [4];
        up_u128 [4]; down_u128 [4]; fixed_u128 [4];
    }
}
