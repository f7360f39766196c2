// Contracts of a set of bytes, for the type `T` (BitField256 or CharReach), over all values of the type.
// `test` is the observer: everything is stated as membership of a byte.

/// Any value of the type.  All 2^256 bit patterns of the representation are taken as they are; a representation of another
/// size is filled member by member.
fn any_set<S: Src>(s: &mut S) -> T {
    let w = s.words();
    if std::mem::size_of::<T>() == 32 {
        return unsafe { std::mem::transmute_copy::<[u64; 4], T>(&w) };
    }
    let mut t = T::default();
    let mut i = 0_usize;
    while i < 256 {
        if w[i / 64] >> (i % 64) & 1 == 1 {
            t.set(i as u8);
        }
        i += 1;
    }
    t
}

// C01
fn default_is_empty<S: Src>(s: &mut S) {
    let x = s.u8();
    assert!(!T::default().test(x), "the default set is empty");
}
fn set_adds_one<S: Src>(s: &mut S) {
    let (mut t, n, x) = (any_set(s), s.u8(), s.u8());
    let old = t;
    t.set(n);
    assert!(t.test(x) == (x == n || old.test(x)), "set: x in result iff x == n or x in old");
}
fn reset_removes_one<S: Src>(s: &mut S) {
    let (mut t, n, x) = (any_set(s), s.u8(), s.u8());
    let old = t;
    t.reset(n);
    assert!(t.test(x) == (x != n && old.test(x)), "reset: x in result iff x != n and x in old");
}
fn flip_toggles_one<S: Src>(s: &mut S) {
    let (mut t, n, x) = (any_set(s), s.u8(), s.u8());
    let old = t;
    t.flip(n);
    assert!(t.test(x) == ((x == n) != old.test(x)), "flip: membership of n alone is inverted");
}
fn reset_all_empties<S: Src>(s: &mut S) {
    let (mut t, x) = (any_set(s), s.u8());
    t.reset_all();
    assert!(!t.test(x), "reset_all: no member");
}
fn set_all_fills<S: Src>(s: &mut S) {
    let (mut t, x) = (any_set(s), s.u8());
    t.set_all();
    assert!(t.test(x), "set_all: every byte is a member");
}
fn flip_all_complements<S: Src>(s: &mut S) {
    let (mut t, x) = (any_set(s), s.u8());
    let old = t;
    t.flip_all();
    assert!(t.test(x) != old.test(x), "flip_all: membership inverted");
}
fn not_complements<S: Src>(s: &mut S) {
    let (t, x) = (any_set(s), s.u8());
    assert!((!t).test(x) != t.test(x), "!: membership inverted");
}
fn and_intersects<S: Src>(s: &mut S) {
    let (a, b, x) = (any_set(s), any_set(s), s.u8());
    assert!((a & b).test(x) == (a.test(x) && b.test(x)), "&: intersection");
    let mut c = a;
    c &= b;
    assert!(c.test(x) == (a.test(x) && b.test(x)), "&=: intersection");
}
fn or_unites<S: Src>(s: &mut S) {
    let (a, b, x) = (any_set(s), any_set(s), s.u8());
    assert!((a | b).test(x) == (a.test(x) || b.test(x)), "|: union");
    let mut c = a;
    c |= b;
    assert!(c.test(x) == (a.test(x) || b.test(x)), "|=: union");
}
fn xor_differs<S: Src>(s: &mut S) {
    let (a, b, x) = (any_set(s), any_set(s), s.u8());
    assert!((a ^ b).test(x) == (a.test(x) != b.test(x)), "^: symmetric difference");
    let mut c = a;
    c ^= b;
    assert!(c.test(x) == (a.test(x) != b.test(x)), "^=: symmetric difference");
}
fn equality_is_extensional<S: Src>(s: &mut S) {
    let (a, b) = (any_set(s), any_set(s));
    let mut same = true;
    let mut i = 0_usize;
    while i < 256 {
        same = same && a.test(i as u8) == b.test(i as u8);
        i += 1;
    }
    assert!((a == b) == same, "==: equal iff the same members");
    assert!((a != b) == !same, "!=: different iff not the same members");
    assert!(a == a, "==: reflexive");
}

// C02
fn set_range_exact<S: Src>(s: &mut S) {
    let (mut t, from, to, x) = (any_set(s), s.u8(), s.u8(), s.u8());
    s.assume(from <= to);
    let old = t;
    t.set_range(from, to);
    assert!(t.test(x) == (old.test(x) || (from <= x && x <= to)), "set_range: adds exactly from..=to");
}
#[cfg(not(kani))]
fn set_range_reversed<S: Src>(s: &mut S) {
    let (mut t, from, to) = (any_set(s), s.u8(), s.u8());
    s.assume(from > to);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| t.set_range(from, to)));
    assert!(r.is_err(), "set_range: a reversed range is refused");
}
#[cfg(kani)]
#[kani::proof]
#[kani::unwind(6)]
#[kani::should_panic]
fn set_range_reversed_panics() {
    let mut s = Sym;
    let (mut t, from, to) = (any_set(&mut s), s.u8(), s.u8());
    kani::assume(from > to);
    t.set_range(from, to);
    // Only panics are allowed here; coming back is reported as another kind of failure.
    unsafe { std::ptr::null_mut::<u8>().write_volatile(1) };
}
fn count_is_cardinality<S: Src>(s: &mut S) {
    // Determines the cardinality of every finite set by induction on the members.
    let (t, x) = (any_set(s), s.u8());
    assert!(T::default().count() == 0, "count: the empty set has 0 members");
    let mut u = t;
    u.set(x);
    assert!(u.count() == t.count() + if t.test(x) { 0 } else { 1 }, "count: one more for a new member");
}
fn emptiness_and_fullness<S: Src>(s: &mut S) {
    let t = any_set(s);
    let (mut some, mut every) = (false, true);
    let mut i = 0_usize;
    while i < 256 {
        some = some || t.test(i as u8);
        every = every && t.test(i as u8);
        i += 1;
    }
    assert!(t.none() == !some, "none: iff no member");
    assert!(t.any() == some, "any: iff some member");
    assert!(t.all() == every, "all: iff every byte is a member");
}

// C03
fn first_is_least<S: Src>(s: &mut S) {
    let (t, x) = (any_set(s), s.u8());
    match t.find_first() {
        Some(r) => {
            assert!(t.test(r), "find_first: a member");
            assert!(!(t.test(x) && x < r), "find_first: no smaller member");
        }
        None => assert!(!t.test(x), "find_first: none iff empty"),
    }
}
fn last_is_greatest<S: Src>(s: &mut S) {
    let (t, x) = (any_set(s), s.u8());
    match t.find_last() {
        Some(r) => {
            assert!(t.test(r), "find_last: a member");
            assert!(!(t.test(x) && x > r), "find_last: no greater member");
        }
        None => assert!(!t.test(x), "find_last: none iff empty"),
    }
}
fn next_is_least_above<S: Src>(s: &mut S) {
    let (t, n, x) = (any_set(s), s.u8(), s.u8());
    match t.find_next(n) {
        Some(r) => {
            assert!(t.test(r), "find_next: a member");
            assert!(r > n, "find_next: above the argument");
            assert!(!(t.test(x) && x > n && x < r), "find_next: no member in between");
        }
        None => assert!(!(t.test(x) && x > n), "find_next: none iff no member above"),
    }
}
/// The members of `t` below `r`.
fn below(t: &T, r: u8) -> T {
    let mut m = *t;
    let mut i = 255_usize;
    while i >= r as usize {
        m.reset(i as u8);
        if i == 0 {
            break;
        }
        i -= 1;
    }
    m
}
#[cfg(not(kani))]
fn nth_has_n_smaller<S: Src>(s: &mut S) {
    let (t, n) = (any_set(s), s.u8());
    match t.find_nth(n) {
        Some(r) => {
            assert!(t.test(r), "find_nth: a member");
            assert!(below(&t, r).count() == u32::from(n), "find_nth: exactly n smaller members");
        }
        None => assert!(t.count() <= u32::from(n), "find_nth: none iff at most n members"),
    }
}
#[cfg(kani)]
fn nth_has_n_smaller<S: Src>(s: &mut S) {
    let (t, n) = (any_set(s), s.u8());
    match t.find_nth(n) {
        Some(r) => {
            assert!(t.test(r), "find_nth: a member");
            // The set of bytes below r, by the contract of set_range.
            let mut m = T::default();
            if r > 0 {
                m.set_range(0, r - 1);
            }
            assert!((t & m).count() == u32::from(n), "find_nth: exactly n smaller members");
        }
        None => assert!(t.count() <= u32::from(n), "find_nth: none iff at most n members"),
    }
}

macro_rules! set_contracts {
    ($entry:ident; $($rest:tt)*) => {
        contracts! { $entry;
            default_is_empty [10];
            set_adds_one [10];
            reset_removes_one [10];
            flip_toggles_one [10];
            reset_all_empties [10];
            set_all_fills [10];
            flip_all_complements [10];
            not_complements [10];
            and_intersects [10];
            or_unites [10];
            xor_differs [10];
            equality_is_extensional [257];
            set_range_exact [10];
            count_is_cardinality [10];
            emptiness_and_fullness [257];
            first_is_least [10];
            last_is_greatest [10];
            next_is_least_above [10];
            nth_has_n_smaller [65];
            $($rest)*
        }
        #[cfg(not(kani))]
        pub(crate) fn reversed_entry(next: &mut dyn FnMut() -> u8) { set_range_reversed(&mut Bytes(next)) }
    };
}
