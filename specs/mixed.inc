@raw
/// A letter among the elements below `n` that is (or is not) case-insensitive.
pub open spec fn has_letter(s: Seq<(u8, bool)>, n: int, nc: bool) -> bool { exists|i: int| 0 <= i < n && letter(#[trigger] s[i].0) && s[i].1 == nc }
pub open spec fn is_mixed(s: Seq<(u8, bool)>) -> bool { has_letter(s, s.len() as int, false) && has_letter(s, s.len() as int, true) }
@end
@fn util/ue2string.rs mixed_sensitivity
requires it.wf()
ensures r == is_mixed(it.elems())
@edit sig: mixed_sensitivity<T>(it: T) -> bool where T: IntoIterator<Item = Ue2LiteralElem>, ==> mixed_sensitivity(it: &Ue2Literal) -> (r: bool)
@loop 0 into
invariant
    vx_it0.lit == it, it.wf(), vx_it0.idx <= it.elems().len(),
    cs == has_letter(it.elems(), vx_it0.idx as int, false),
    nc == has_letter(it.elems(), vx_it0.idx as int, true),
ensures vx_it0.idx == it.elems().len(),
decreases it.elems().len() - vx_it0.idx,
@at loop 0 start
let ghost j = vx_it0.idx - 1;
proof {
    let s = it.elems();
    assert(s[j].0 == e.c && s[j].1 == e.nocase);
    assert(has_letter(s, j + 1, true) == (has_letter(s, j, true) || (letter(e.c) && e.nocase))) by {
        if has_letter(s, j, true) { let i = choose|i: int| 0 <= i < j && letter(#[trigger] s[i].0) && s[i].1 == true; assert(letter(s[i].0)); }
        if letter(e.c) && e.nocase { assert(letter(s[j].0)); }
    }
    assert(has_letter(s, j + 1, false) == (has_letter(s, j, false) || (letter(e.c) && !e.nocase))) by {
        if has_letter(s, j, false) { let i = choose|i: int| 0 <= i < j && letter(#[trigger] s[i].0) && s[i].1 == false; assert(letter(s[i].0)); }
        if letter(e.c) && !e.nocase { assert(letter(s[j].0)); }
    }
}
@end
