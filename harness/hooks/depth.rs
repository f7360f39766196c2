#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    // Not through the imports of the module, which may change.
    use super::*;
    use std::cmp::Ordering;
    use std::convert::TryInto;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));

    // C08.  A depth is observed through comparison only.  2^31 - 1 is the value reserved for infinity.
    const RESERVED: u64 = 0x7fff_ffff;
    fn d32(v: u32) -> Option<Depth> { let r: Result<Depth, _> = v.try_into(); r.ok() }
    fn dus(v: usize) -> Option<Depth> { let r: Result<Depth, _> = v.try_into(); r.ok() }

    fn conversion_domain<S: Src>(s: &mut S) {
        let (a, b) = (s.u32(), s.usize());
        assert!(d32(a).is_some() == ((a as u64) < RESERVED), "u32 -> Depth: exactly below infinity");
        assert!(dus(b).is_some() == ((b as u64) < RESERVED), "usize -> Depth: exactly below infinity");
    }
    fn ordering<S: Src>(s: &mut S) {
        let (a, b) = (s.u32(), s.usize());
        if let (Some(x), Some(y)) = (d32(a), dus(b)) {
            let (a, b) = (a as u64, b as u64);
            assert!(x.cmp(&y) == a.cmp(&b), "cmp: as the counts");
            assert!(x.partial_cmp(&y) == Some(a.cmp(&b)), "partial_cmp: as the counts");
            assert!((x == y) == (a == b) && (x != y) == (a != b), "==: as the counts");
            assert!((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b), "<: as the counts");
            let m = std::cmp::min(x, y);
            assert!(m == if a <= b { x } else { y }, "min: the smaller");
        }
    }
    fn infinity_is_top<S: Src>(s: &mut S) {
        let (a, b) = (s.u32(), s.usize());
        let inf = Depth::infinity();
        assert!(inf == Depth::infinity() && inf.cmp(&inf) == Ordering::Equal, "infinity: equal to itself");
        assert!(!(inf != Depth::infinity()) && inf.partial_cmp(&inf) == Some(Ordering::Equal), "infinity: equal to itself");
        assert!(inf <= inf && inf >= inf && !(inf < inf) && !(inf > inf), "infinity: equal to itself");
        if let Some(x) = d32(a) {
            assert!(x < inf && inf > x && x != inf && x <= inf && inf >= x, "finite below infinity");
            assert!(!(inf <= x) && !(x >= inf) && !(x == inf) && !(inf == x) && inf != x, "finite below infinity");
            assert!(x.cmp(&inf) == Ordering::Less && inf.cmp(&x) == Ordering::Greater, "finite below infinity");
            assert!(x.partial_cmp(&inf) == Some(Ordering::Less) && inf.partial_cmp(&x) == Some(Ordering::Greater), "finite below infinity");
            assert!(std::cmp::min(x, inf) == x && std::cmp::max(x, inf) == inf, "finite below infinity");
        }
        if let Some(x) = dus(b) { assert!(x < inf && inf > x && x != inf && std::cmp::min(inf, x) == x, "finite below infinity"); }
    }
    contracts! { rescan_verif_depth; conversion_domain [4]; ordering [4]; infinity_is_top [4]; }
}
