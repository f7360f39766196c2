#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    use super::*;
    use crate::util::compare::{mytolower, mytoupper, ourisalpha};
    type T = CharReach;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/setcontracts.inc"));

    // ASCII, written out independently of the code.
    fn upper(c: u8) -> bool { 65 <= c && c <= 90 }
    fn lower(c: u8) -> bool { 97 <= c && c <= 122 }
    fn letter(c: u8) -> bool { upper(c) || lower(c) }
    fn other_case(c: u8) -> u8 { if upper(c) { c + 32 } else if lower(c) { c - 32 } else { c } }

    // C02
    fn from_char_is_singleton<S: Src>(s: &mut S) {
        let (c, x) = (s.u8(), s.u8());
        assert!(T::from_char(c).test(x) == (x == c), "from_char: exactly that byte");
    }
    fn from_range_exact<S: Src>(s: &mut S) {
        let (from, to, x) = (s.u8(), s.u8(), s.u8());
        s.assume(from <= to);
        assert!(T::from_range(from, to).test(x) == (from <= x && x <= to), "from_range: exactly the range");
    }
    fn dot_is_universal<S: Src>(s: &mut S) {
        let x = s.u8();
        assert!(T::dot().test(x), "dot: every byte");
    }
    fn bytes_exact<S: Src>(s: &mut S) {
        // Bounded in length; any length is proved by the loop invariant of set_bytes.
        let n = s.u8() as usize;
        let max = if cfg!(kani) { 4 } else { 40 };
        let n = if cfg!(kani) { s.assume(n <= max); n } else { n % (max + 1) };
        let mut buf = [0_u8; 40];
        for i in 0..max { buf[i] = s.u8(); }
        let (x, mut t) = (s.u8(), any_set(s));
        let old = t;
        let mut has = false;
        #[cfg(not(kani))]
        {
            // Long lists: a member of a list beyond a power of two.
            let m = s.size(1);
            if m > 0 {
                let mut v = vec![s.u8(); m];
                v[s.u16() as usize % m] = s.u8();
                v[m - 1] = s.u8();
                assert!(T::from_bytes(&v).test(x) == v.contains(&x), "from_bytes: exactly the bytes listed");
                let mut u = t;
                u.set_bytes(&v);
                assert!(u.test(x) == (v.contains(&x) || old.test(x)), "set_bytes: adds exactly the bytes listed");
                let y = v[m - 1];
                assert!(T::from_bytes(&v).test(y) && u.test(y), "set_bytes: adds exactly the bytes listed");
            }
        }
        for i in 0..max { has = has || (i < n && buf[i] == x); }
        assert!(T::from_bytes(&buf[..n]).test(x) == has, "from_bytes: exactly the bytes listed");
        t.set_bytes(&buf[..n]);
        assert!(t.test(x) == (has || old.test(x)), "set_bytes: adds exactly the bytes listed");
    }

    // C03
    #[cfg(not(kani))]
    fn display_lists_members<S: Src>(s: &mut S) {
        let t = any_set(s);
        let want: String = (0..=255_u8).filter(|c| t.test(*c)).map(|c| c as char).collect();
        assert!(t.to_string() == want, "Display: every member, ascending");
    }

    // C04
    fn case_maps<S: Src>(s: &mut S) {
        let c = s.u8();
        assert!(mytolower(c) == if upper(c) { other_case(c) } else { c }, "mytolower: changes exactly A-Z");
        assert!(mytoupper(c) == if lower(c) { other_case(c) } else { c }, "mytoupper: changes exactly a-z");
        assert!(ourisalpha(c) == letter(c), "ourisalpha: exactly the 52 letters");
    }
    fn caseless_closure<S: Src>(s: &mut S) {
        let (mut t, x) = (any_set(s), s.u8());
        let old = t;
        make_caseless(&mut t);
        assert!(
            t.test(x) == (old.test(x) || (letter(x) && old.test(other_case(x)))),
            "make_caseless: adds exactly the other case of letters"
        );
    }
    fn caseless_pair<S: Src>(s: &mut S) {
        // Both directions, with the pair made explicit by its upper-case letter.
        let (t, x) = (any_set(s), s.u8());
        let mut pair = false;
        let mut u = 65_u8;
        while u <= 90 {
            let mut p = T::default();
            p.set(u);
            p.set(u + 32);
            pair = pair || t == p;
            u += 1;
        }
        let _ = x;
        assert!(t.is_caseless_char() == pair, "is_caseless_char: iff exactly the two cases of a letter");
    }

    // C05
    fn alphabetic_native<S: Src>(s: &mut S) {
        let t = any_set(s);
        let (mut some, mut all) = (false, true);
        for c in 0..=255_u8 {
            if t.test(c) { some = true; all = all && letter(c); }
        }
        assert!(t.is_alphabetic() == (some && all), "is_alphabetic: non-empty and only letters");
    }
    fn bit5_native<S: Src>(s: &mut S) {
        let t = any_set(s);
        let mut closed = true;
        for c in 0..=255_u8 {
            if t.test(c) { closed = closed && t.test(if c & 32 == 0 { c + 32 } else { c - 32 }); }
        }
        assert!(t.is_bit5_insensitive() == closed, "is_bit5_insensitive: closed under toggling 0x20");
    }
    /// Sets of at most three members (the loops then run at most three times): bounded.
    fn few<S: Src>(s: &mut S) -> (T, [u8; 3], usize) {
        let (n, a) = (s.u8() as usize, [s.u8(), s.u8(), s.u8()]);
        let n = n & 3;
        let mut t = T::default();
        for i in 0..3 { if i < n { t.set(a[i]); } }
        (t, a, n)
    }
    fn alphabetic_few<S: Src>(s: &mut S) {
        let (t, a, n) = few(s);
        let mut all = true;
        for i in 0..3 { if i < n { all = all && letter(a[i]); } }
        assert!(t.is_alphabetic() == (n > 0 && all), "is_alphabetic: non-empty and only letters");
    }
    fn bit5_few<S: Src>(s: &mut S) {
        let (t, a, n) = few(s);
        let mut closed = true;
        for i in 0..3 { if i < n { closed = closed && t.test(a[i] ^ 32); } }
        assert!(t.is_bit5_insensitive() == closed, "is_bit5_insensitive: closed under toggling 0x20");
    }
    fn subset_and_overlap<S: Src>(s: &mut S) {
        let (a, b) = (any_set(s), any_set(s));
        let (mut sub, mut over) = (true, false);
        let mut i = 0_usize;
        while i < 256 {
            let (p, q) = (a.test(i as u8), b.test(i as u8));
            sub = sub && (!p || q);
            over = over || (p && q);
            i += 1;
        }
        assert!(a.is_subset_of(&b) == sub, "is_subset_of: iff every member is in the other");
        assert!(a.overlaps(&b) == over, "overlaps: iff some common member");
    }
    fn ascii_and_utf8_start<S: Src>(s: &mut S) {
        let t = any_set(s);
        let (mut ascii, mut start) = (true, true);
        let mut i = 0_usize;
        while i < 256 {
            if t.test(i as u8) {
                ascii = ascii && i <= 0x7f;
                start = start && i >= 0xc0;
            }
            i += 1;
        }
        assert!(t.is_ascii() == ascii, "is_ascii: no member above 0x7f");
        assert!(t.is_utf8_start() == start, "is_utf8_start: no member below 0xc0");
    }

    // C06
    fn masks_check(t: &T, and: u8, cmp: u8, x: u8) {
        assert!(!t.test(x) || x & and == cmp, "make_and_cmp_mask: every member passes");
    }
    fn masks_native<S: Src>(s: &mut S) {
        let (t, x) = (any_set(s), s.u8());
        let (and, cmp) = make_and_cmp_mask(&t);
        masks_check(&t, and, cmp, x);
        let (mut all1, mut all0, mut some) = (255_u8, 255_u8, false);
        for c in 0..=255_u8 { if t.test(c) { all1 &= c; all0 &= !c; some = true; } }
        if some {
            assert!(and == (all1 | all0), "make_and_cmp_mask: exactly the agreeing bits");
        } else {
            assert!(x & and != cmp, "make_and_cmp_mask: nothing passes for the empty set");
        }
    }
    fn masks_few<S: Src>(s: &mut S) {
        let ((t, a, n), x) = (few(s), s.u8());
        let (and, cmp) = make_and_cmp_mask(&t);
        masks_check(&t, and, cmp, x);
        let (mut all1, mut all0) = (255_u8, 255_u8);
        for i in 0..3 { if i < n { all1 &= a[i]; all0 &= !a[i]; } }
        if n > 0 {
            assert!(and == (all1 | all0), "make_and_cmp_mask: exactly the agreeing bits");
        } else {
            assert!(x & and != cmp, "make_and_cmp_mask: nothing passes for the empty set");
        }
    }
    fn bitvector_native<S: Src>(s: &mut S) {
        let (t, n, fill) = (any_set(s), 32 + (s.u8() % 9) as usize, s.u8());
        let mut buf = vec![fill; n];
        fill_bitvector(&t, &mut buf);
        for c in 0..=255_u8 {
            assert!((buf[(c / 8) as usize] >> (c % 8) & 1 == 1) == t.test(c), "fill_bitvector: bit c iff member c");
        }
        assert!(buf[32..].iter().all(|b| *b == fill), "fill_bitvector: nothing beyond byte 32 changes");
    }
    fn bitvector_few<S: Src>(s: &mut S) {
        let ((t, _, _), fill, c) = (few(s), s.u8(), s.u8());
        let mut buf = [fill; 33];
        fill_bitvector(&t, &mut buf);
        assert!((buf[(c / 8) as usize] >> (c % 8) & 1 == 1) == t.test(c), "fill_bitvector: bit c iff member c");
        assert!(buf[32] == fill, "fill_bitvector: nothing beyond byte 32 changes");
    }

    set_contracts! { rescan_verif_charreach;
        from_char_is_singleton [10];
        from_range_exact [10];
        dot_is_universal [10];
        bytes_exact [10];
        case_maps [10];
        caseless_closure [28];
        caseless_pair [40];
        alphabetic_few [10];
        bit5_few [10];
        subset_and_overlap [257];
        ascii_and_utf8_start [257];
        masks_few [10];
        bitvector_few [34];
    }
    #[cfg(not(kani))]
    #[no_mangle]
    pub fn rescan_verif_charreach_native(name: &str, next: &mut dyn FnMut() -> u8) -> bool {
        let mut s = Bytes(next);
        match name {
            "display_lists_members" => display_lists_members(&mut s),
            "alphabetic_native" => alphabetic_native(&mut s),
            "bit5_native" => bit5_native(&mut s),
            "masks_native" => masks_native(&mut s),
            "bitvector_native" => bitvector_native(&mut s),
            "set_range_reversed" => set_range_reversed(&mut s),
            _ => return false,
        }
        true
    }
}
