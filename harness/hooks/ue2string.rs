#[cfg(not(kani))]
#[allow(clippy::all, clippy::pedantic, dead_code)]
mod verif {
    use super::*;
    include!(concat!(env!("RESCAN_VERIF_DIR"), "/common.inc"));
    fn letter(c: u8) -> bool { (65..=90).contains(&c) || (97..=122).contains(&c) }
    type L = Vec<(u8, bool)>;

    fn any<S: Src>(s: &mut S) -> L {
        let n = s.size(7);
        let mut v = vec![];
        for _ in 0..n {
            let b = s.u8();
            let c = if b & 0xc0 == 0 { s.u8() } else { b"aAbBzZ0@[`{kK\xe1"[b as usize % 14] };
            v.push((c, s.flag()));
        }
        // Long ones that differ from a plain one in a few places only, mostly at an end.
        if n > 7 && s.u8() % 4 != 0 {
            let (nc, plain) = (s.flag(), s.flag());
            for e in v.iter_mut() { e.1 = nc; if plain { e.0 = b'1'; } }
            for _ in 0..s.u8() % 3 {
                let i = match s.u8() % 4 { 0 => 0, 1 => s.u16() as usize % n, k => n - (k as usize - 1) };
                v[i] = (b"aZ7k"[s.u8() as usize % 4], s.flag());
            }
        }
        v
    }
    /// A second literal: unrelated, or the first with small changes.
    fn near<S: Src>(s: &mut S, a: &L) -> L {
        if s.u8() % 4 == 0 { return any(s); }
        let mut b = a.clone();
        for _ in 0..=s.u8() % 2 {
            let k = s.u8() % 7;
            let i = s.u16() as usize;
            let n = b.len();
            match k {
                0 => (),
                1 => { b.pop(); }
                2 => { let e = (s.u8(), s.flag()); b.push(e); }
                _ if n == 0 => (),
                3 => b[i % n].1 ^= true,
                4 => b[i % n].0 ^= 32,
                5 => b[i % n].0 = s.u8(),
                _ => b[n - 1 - i % n % 4 % n].1 ^= true,
            }
        }
        b
    }
    fn build(v: &L) -> Ue2Literal {
        let mut l = Ue2Literal::default();
        for (c, nc) in v { l.push(*c, *nc); }
        l
    }
    fn stored(v: &L) -> L { v.iter().map(|(c, nc)| (if *nc && (97..=122).contains(c) { c - 32 } else { *c }, *nc)).collect() }

    // C09
    fn literal_contents<S: Src>(s: &mut S) {
        let v = any(s);
        let l = build(&v);
        assert!(l.len() == v.len(), "len: number of appends");
        assert!(l.is_empty() == v.is_empty(), "is_empty: iff nothing appended");
        let got: L = l.iter().map(|e| (e.c, e.nocase)).collect();
        assert!(got == stored(&v), "iter: the appended bytes and flags in order: {:?} gives {:?}", v, got);
        let got: L = (&l).into_iter().map(|e| (e.c, e.nocase)).collect();
        assert!(got == stored(&v), "into_iter: the appended bytes and flags in order");
        let mut it = l.iter();
        for _ in 0..v.len() { assert!(it.next().is_some(), "next: one per append"); }
        assert!(it.next().is_none() && it.next().is_none(), "next: none after the last");
        assert!(l.any_nocase() == v.iter().any(|e| e.1), "any_nocase: iff one was appended case-insensitively");
    }
    fn literal_comparison<S: Src>(s: &mut S) {
        let a = any(s);
        let b = near(s, &a);
        let (x, y) = (build(&a), build(&b));
        let (p, q) = (stored(&a), stored(&b));
        assert!((x == y) == (p == q) && (x != y) == (p != q), "==: iff bytes and flags agree: {:?} {:?}", a, b);
        let key = |v: &L| (v.iter().map(|e| e.0).collect::<Vec<_>>(), v.iter().map(|e| e.1).collect::<Vec<_>>());
        let want = key(&p).cmp(&key(&q));
        assert!(x.cmp(&y) == want, "cmp: bytes first, flags second: {:?} {:?}", a, b);
        assert!(x.partial_cmp(&y) == Some(want), "partial_cmp: as cmp");
    }
    fn mixed<S: Src>(s: &mut S) {
        let v = any(s);
        let l = build(&v);
        let (nc, cs) = (v.iter().any(|e| letter(e.0) && e.1), v.iter().any(|e| letter(e.0) && !e.1));
        assert!(mixed_sensitivity(&l) == (nc && cs), "mixed_sensitivity: both kinds of letters: {:?}", v);
    }
    contracts! { rescan_verif_ue2string; literal_contents [1]; literal_comparison [1]; mixed [1]; }
}
