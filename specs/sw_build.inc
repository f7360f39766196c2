@global std::ptr::NonNull ==> NonNull
@global ptr::NonNull ==> NonNull
@global core::ptr::NonNull ==> NonNull
@type util/compile_context.rs CompileContext
@end
@raw
// Not touched by the functions under contract here.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct NonNull<T> { p: *mut T }
impl<T> NonNull<T> {
    #[verifier::external_body]
    pub fn from(x: &T) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn dangling() -> Self { unimplemented!() }
}
@end
@type smallwrite/smallwrite_build.rs SmallWriteBuild
@end
@raw
impl<'a> SmallWriteBuild<'a> {
    pub open spec fn inv(&self) -> bool { tree(self.lit_trie) && tree(self.lit_trie_nocase) }
    /// There is room for a literal of this length.
    pub open spec fn room(&self, n: nat) -> bool {
        self.poisoned || (size(self.lit_trie) + n < u32::MAX && size(self.lit_trie_nocase) + n < u32::MAX && self.num_literals < usize::MAX)
    }
    pub open spec fn same_config(&self, o: &Self) -> bool { self.cc == o.cc && self.rm == o.rm }
}
/// What `add_literal` makes of the builder `o`.
pub open spec fn offered(o: SmallWriteBuild, t: SmallWriteBuild, l: Ue2Literal, rep: ReportId) -> bool {
    &&& t.same_config(&o) && t.inv()
    &&& if o.poisoned || l.elems().len() > o.cc.grey.small_write_largest_buffer {
        t == o
    } else {
        &&& t.num_literals == o.num_literals + 1
        &&& if t.num_literals > o.cc.grey.small_write_max_literals {
            t.poisoned && t.lit_trie == o.lit_trie && t.lit_trie_nocase == o.lit_trie_nocase
        } else if exists|k: int| 0 <= k < l.elems().len() && (#[trigger] l.elems()[k]).1 {
            &&& t.lit_trie == o.lit_trie
            &&& inserted(o.lit_trie_nocase, t.lit_trie_nocase, bytes(l), rep)
            &&& t.poisoned == (size(t.lit_trie_nocase) > 8000)
        } else {
            &&& t.lit_trie_nocase == o.lit_trie_nocase
            &&& inserted(o.lit_trie, t.lit_trie, bytes(l), rep)
            &&& t.poisoned == (size(t.lit_trie) > 8000)
        }
    }
}
@end
@raw
/// C17: once disabled, the builder does not change any more.
pub proof fn disabled_for_good(b: Seq<SmallWriteBuild>, l: Seq<Ue2Literal>, rep: Seq<ReportId>, i: int, j: int)
    requires
        b.len() == l.len() + 1, rep.len() == l.len(), 0 <= i <= j < b.len(), b[i].poisoned,
        forall|k: int| 0 <= k < l.len() ==> #[trigger] offered(b[k], b[k + 1], l[k], rep[k]),
    ensures b[j] == b[i]
    decreases j - i
{
    if i < j {
        disabled_for_good(b, l, rep, i, j - 1);
        assert(offered(b[j - 1], b[j - 1 + 1], l[j - 1], rep[j - 1]));
    }
}
@end
@fn smallwrite/smallwrite_build.rs SmallWriteBuild::new
ensures
    r.inv(), r.cc == cc, r.num_literals == 0, empty_trie(r.lit_trie), empty_trie(r.lit_trie_nocase),
    r.poisoned == (!cc.grey.allow_small_write || num_patterns > cc.grey.small_write_max_patterns),
@end
@fn smallwrite/smallwrite_build.rs SmallWriteBuild::add_literal
requires
    old(self).inv(), literal.wf(),
    old(self).room(literal.elems().len()),
ensures offered(*old(self), *final(self), *literal, r),
@end
