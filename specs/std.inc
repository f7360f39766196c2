@raw
// Functions of the standard library that vstd says nothing about, as they are documented (trusted where a unit calls them).
pub open spec fn std_upper(c: int) -> bool { 0x41 <= c <= 0x5a }
pub open spec fn std_lower(c: int) -> bool { 0x61 <= c <= 0x7a }
pub open spec fn std_digit(c: int) -> bool { 0x30 <= c <= 0x39 }
pub open spec fn std_to_upper(c: int) -> int { if std_lower(c) { c - 0x20 } else { c } }
pub open spec fn std_to_lower(c: int) -> int { if std_upper(c) { c + 0x20 } else { c } }
pub assume_specification [u8::is_ascii] (c: &u8) -> (r: bool) ensures r == (*c < 128);
pub assume_specification [u8::is_ascii_uppercase] (c: &u8) -> (r: bool) ensures r == std_upper(*c as int);
pub assume_specification [u8::is_ascii_lowercase] (c: &u8) -> (r: bool) ensures r == std_lower(*c as int);
pub assume_specification [u8::is_ascii_alphabetic] (c: &u8) -> (r: bool) ensures r == (std_upper(*c as int) || std_lower(*c as int));
pub assume_specification [u8::is_ascii_digit] (c: &u8) -> (r: bool) ensures r == std_digit(*c as int);
pub assume_specification [u8::is_ascii_alphanumeric] (c: &u8) -> (r: bool) ensures r == (std_upper(*c as int) || std_lower(*c as int) || std_digit(*c as int));
pub assume_specification [u8::to_ascii_uppercase] (c: &u8) -> (r: u8) ensures r == std_to_upper(*c as int);
pub assume_specification [u8::to_ascii_lowercase] (c: &u8) -> (r: u8) ensures r == std_to_lower(*c as int);
pub assume_specification [u8::eq_ignore_ascii_case] (c: &u8, o: &u8) -> (r: bool) ensures r == (std_to_lower(*c as int) == std_to_lower(*o as int));
pub assume_specification [u8::is_power_of_two] (c: u8) -> (r: bool) ensures r == (c == 1 || c == 2 || c == 4 || c == 8 || c == 16 || c == 32 || c == 64 || c == 128);
pub assume_specification [u8::abs_diff] (a: u8, b: u8) -> (r: u8) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [usize::abs_diff] (a: usize, b: usize) -> (r: usize) ensures r == (if a < b { b - a } else { a - b });
pub assume_specification [char::is_ascii] (c: &char) -> (r: bool) ensures r == ((*c as u32) < 128);
pub assume_specification [char::is_ascii_uppercase] (c: &char) -> (r: bool) ensures r == std_upper(*c as int);
pub assume_specification [char::is_ascii_lowercase] (c: &char) -> (r: bool) ensures r == std_lower(*c as int);
pub assume_specification [char::is_ascii_alphabetic] (c: &char) -> (r: bool) ensures r == (std_upper(*c as int) || std_lower(*c as int));
pub assume_specification [char::is_ascii_digit] (c: &char) -> (r: bool) ensures r == std_digit(*c as int);
pub assume_specification [char::is_ascii_alphanumeric] (c: &char) -> (r: bool) ensures r == (std_upper(*c as int) || std_lower(*c as int) || std_digit(*c as int));
pub assume_specification [char::to_ascii_uppercase] (c: &char) -> (r: char) ensures r as int == std_to_upper(*c as int);
pub assume_specification [char::to_ascii_lowercase] (c: &char) -> (r: char) ensures r as int == std_to_lower(*c as int);
pub assume_specification [char::eq_ignore_ascii_case] (c: &char, o: &char) -> (r: bool) ensures r == (std_to_lower(*c as int) == std_to_lower(*o as int));
pub assume_specification<T> [core::mem::replace] (d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s;
pub assume_specification<T: Default> [core::mem::take] (d: &mut T) -> (r: T) ensures r == *old(d), call_ensures(T::default, (), *final(d));
pub assume_specification<T: Copy> [Option::<&T>::copied] (o: Option<&T>) -> (r: Option<T>) ensures r == (match o { Some(x) => Some(*x), None => None });
pub assume_specification<T> [Option::<T>::or] (o: Option<T>, p: Option<T>) -> (r: Option<T>) ensures r == (if o is Some { o } else { p });
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_some_and] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,))
    ensures match o { Some(x) => f.ensures((x,), r), None => !r };
pub assume_specification<T, F: FnOnce(T) -> bool> [Option::<T>::is_none_or] (o: Option<T>, f: F) -> (r: bool)
    requires o matches Some(x) ==> f.requires((x,))
    ensures match o { Some(x) => f.ensures((x,), r), None => r };
pub assume_specification<T, P: FnOnce(&T) -> bool> [Option::<T>::filter] (o: Option<T>, f: P) -> (r: Option<T>)
    requires o matches Some(x) ==> f.requires((&x,))
    ensures match o { Some(x) => (r == o && f.ensures((&x,), true)) || (r is None && f.ensures((&x,), false)), None => r is None };
pub assume_specification<T, E> [Result::<T, E>::unwrap_or] (o: Result<T, E>, d: T) -> (r: T) ensures r == (match o { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U, F: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (o: Result<T, E>, f: F) -> (r: Result<U, E>)
    requires o matches Ok(x) ==> f.requires((x,))
    ensures match o { Ok(x) => f.ensures((x,), r), Err(e) => r == Err::<U, E>(e) };
pub assume_specification<T> [bool::then_some] (b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None });
pub assume_specification [core::cmp::Ordering::then] (a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (if a == core::cmp::Ordering::Equal { b } else { a });
pub assume_specification<F: FnOnce() -> core::cmp::Ordering> [core::cmp::Ordering::then_with] (a: core::cmp::Ordering, f: F) -> (r: core::cmp::Ordering)
    requires a == core::cmp::Ordering::Equal ==> f.requires(())
    ensures if a == core::cmp::Ordering::Equal { f.ensures((), r) } else { r == a };
pub assume_specification [core::cmp::Ordering::is_eq] (a: core::cmp::Ordering) -> (r: bool) ensures r == (a == core::cmp::Ordering::Equal);
pub assume_specification [core::cmp::Ordering::is_ne] (a: core::cmp::Ordering) -> (r: bool) ensures r == (a != core::cmp::Ordering::Equal);
pub assume_specification [core::cmp::Ordering::is_lt] (a: core::cmp::Ordering) -> (r: bool) ensures r == (a == core::cmp::Ordering::Less);
pub assume_specification [core::cmp::Ordering::is_gt] (a: core::cmp::Ordering) -> (r: bool) ensures r == (a == core::cmp::Ordering::Greater);
pub assume_specification [core::cmp::Ordering::is_le] (a: core::cmp::Ordering) -> (r: bool) ensures r == (a != core::cmp::Ordering::Greater);
pub assume_specification [core::cmp::Ordering::is_ge] (a: core::cmp::Ordering) -> (r: bool) ensures r == (a != core::cmp::Ordering::Less);
pub assume_specification [core::cmp::Ordering::reverse] (a: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == (match a { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, _ => a });
pub assume_specification<T: Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&b, &a) == core::cmp::Ordering::Less { a } else { b });
@end
