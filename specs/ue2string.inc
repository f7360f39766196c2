@type util/ue2string.rs Ue2Literal
@default
ensures r.wf(), r.elems() =~= Seq::<(u8, bool)>::empty()
@end
@raw
impl Ue2Literal {
    /// As many case flags as bytes: holds of every literal (default, push).
    pub open spec fn wf(&self) -> bool { self.s@.len() == self.nocase@.len() }
    pub open spec fn elems(&self) -> Seq<(u8, bool)> { Seq::new(self.s@.len(), |i: int| (self.s@[i], self.nocase@[i])) }
}
@end
@type util/ue2string.rs Ue2LiteralElem
@end
@type util/ue2string.rs Ue2LiteralIter
@end
@fn util/ue2string.rs Ue2Literal::len
ensures r == self.s@.len(), r == self.elems().len()
@end
@fn util/ue2string.rs Ue2Literal::is_empty
ensures r == (self.elems().len() == 0)
@end
@fn util/ue2string.rs Ue2Literal::any_nocase
requires self.wf()
ensures r == (exists|i: int| 0 <= i < self.elems().len() && #[trigger] self.elems()[i].1)
@at entry
proof { assert forall|i: int| 0 <= i < self.nocase@.len() implies self.nocase@[i] == self.elems()[i].1 by { } }
@end
@fn util/ue2string.rs Ue2Literal::push
requires old(self).wf()
ensures final(self).wf(), final(self).elems() =~= old(self).elems().push((if nc { up(c) } else { c }, nc))
@end
@fn util/ue2string.rs Ue2Literal::iter
ensures r.lit == self, r.idx == 0
@end
@fn util/ue2string.rs Ue2LiteralIter::next
requires old(self).lit.wf(), old(self).idx <= old(self).lit.elems().len()
ensures
    final(self).lit == old(self).lit,
    final(self).idx <= final(self).lit.elems().len(),
    match r {
        Some(e) => {
            &&& old(self).idx < old(self).lit.elems().len()
            &&& final(self).idx == old(self).idx + 1
            &&& (e.c, e.nocase) == old(self).lit.elems()[old(self).idx as int]
        }
        None => old(self).idx == old(self).lit.elems().len() && final(self).idx == old(self).idx,
    },
@at entry
proof { vstd::std_specs::vec::axiom_spec_len(&self.lit.s); }
@end
@fn util/ue2string.rs Ue2Literal::into_iter
ensures r.lit == self, r.idx == 0
@edit sig: into_iter(self) ==> into_iter(&'a self)
@end
