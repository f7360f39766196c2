@assume util/charreach.rs make_caseless from sets.vs
@end
@raw
pub open spec fn adds(old: CharReach, new: CharReach, c: u8, nocase: bool) -> bool {
    forall|x: u8| #[trigger] new.has(x) == (old.has(x) || x == c || (nocase && swapped(x) == Some(c)))
}
pub open spec fn only(cr: CharReach, c: char, nocase: bool) -> bool {
    forall|x: u8| #[trigger] cr.has(x) == (x == c as u8 || (nocase && swapped(x) == Some(c as u8)))
}
pub proof fn lit_is(cr: CharReach, c: char, nocase: bool)
    requires c as u32 <= 0xff, only(cr, c, nocase)
    ensures bytes_of(cr) == lit_bytes(c, nocase)
{ assert(bytes_of(cr) =~= lit_bytes(c, nocase)); }
@end
@fn parser/ascii_component_class.rs AsciiComponentClass::new
ensures r.mode == mode, cr_empty(r.cr)
@end
@fn parser/ascii_component_class.rs AsciiComponentClass::add
ensures final(self).mode == old(self).mode, adds(old(self).cr, final(self).cr, c, old(self).mode.caseless)
@assignop
@end
@fn parser/component_class.rs get_component_class
ensures r matches ComponentClass::Ascii(a) && a.mode == mode && cr_empty(a.cr)
@end
@fn parser/component_class.rs ComponentClass::add
ensures
    r is Err <==> c as u32 > 0xff, r is Err ==> (r->Err_0).index is None,
    match (*old(self), *final(self)) {
        (ComponentClass::Ascii(a), ComponentClass::Ascii(b)) => a.mode == b.mode && if r is Ok { adds(a.cr, b.cr, c as u8, a.mode.caseless) } else { b.cr == a.cr },
    }
@end
@fn parser/component_class.rs get_literal_component_class
ensures match r {
    Ok(ComponentClass::Ascii(a)) => c as u32 <= 0xff && only(a.cr, c, nocase),
    Err(e) => c as u32 > 0xff && e.index is None,
}
@end
@type parser.rs ExprState
@end
@type parser.rs Context
@end
@raw
pub open spec fn frame_text(s: ComponentSequence) -> Seq<Tok> { seq![open_of(s)] + part_text(s) }
pub open spec fn frames_text(fs: Seq<ExprState>, n: nat) -> Seq<Tok>
    decreases n
{ if n == 0 || n > fs.len() { seq![] } else { frames_text(fs, (n - 1) as nat) + frame_text(fs[n - 1].seq) } }
pub proof fn same_frames(a: Seq<ExprState>, b: Seq<ExprState>, n: nat)
    requires n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i]
    ensures frames_text(a, n) == frames_text(b, n)
    decreases n
{ if n > 0 { same_frames(a, b, (n - 1) as nat); assert(a[n - 1] == b[n - 1]); } }
/// What has been read so far.
pub open spec fn state_text(c: Context) -> Seq<Tok> { frames_text(c.sequences@, c.sequences@.len()) + frame_text(c.current_seq) }
pub open spec fn offsets(c: Context) -> Seq<int> { c.sequences@.map_values(|e: ExprState| e.offset as int) }
pub open spec fn at_char(c: Context) -> int { c.ptr@.len() - c.p@.len() }
pub open spec fn at_byte(c: Context) -> int { ulen(c.ptr@) - ulen(c.p@) }
pub open spec fn good_state(c: Context) -> bool {
    &&& good_part(c.current_seq) && forall|i: int| 0 <= i < c.sequences@.len() ==> good_part((#[trigger] c.sequences@[i]).seq) && c.sequences@[i].mode == c.mode
    &&& c.p@.len() <= c.ptr@.len() && c.p@ == c.ptr@.skip(at_char(c))
    &&& root(c).capture_index == Some(0u32)
}
pub open spec fn root(c: Context) -> ComponentSequence { if c.sequences@.len() > 0 { c.sequences@[0].seq } else { c.current_seq } }
pub open spec fn ascii(c: char) -> bool { (c as u32) < 128 }
/// One character read.
pub open spec fn stepped(a: Context, b: Context) -> bool {
    let c = a.p@[0];
    &&& b.p@ == a.p@.drop_first() && b.mode == a.mode && b.group_index == a.group_index + (if c == '(' { 1int } else { 0 })
    &&& offsets(b) =~= (if c == '(' { offsets(a).push(at_byte(a)) } else if c == ')' { offsets(a).drop_last() } else { offsets(a) })
    &&& c == ')' ==> offsets(a).len() > 0
    &&& state_text(b) =~= state_text(a).push(tok_of(c, a.group_index as int, a.mode.caseless))
    &&& (c == '(' || c == ')' || c == '|' || ascii(c))
}
pub open spec fn tok_of(c: char, group: int, nocase: bool) -> Tok {
    if c == '(' { Tok::Open(group) } else if c == ')' { Tok::Close } else if c == '|' { Tok::Bar } else { Tok::Lit(lit_bytes(c, nocase)) }
}
pub open spec fn refused(a: Context, e: CompileError) -> bool {
    let c = a.p@[0];
    e.index is None && ((c == ')' && offsets(a).len() == 0) || (c != '(' && c != ')' && c != '|' && !ascii(c) && names(e.reason@, at_byte(a))))
}
@end
@fn parser.rs ExprState::new
ensures r.seq == seq, r.offset == offset, r.mode == mode
@end
@fn parser.rs add_literal
ensures
    r is Err <==> c as u32 > 0xff, r is Err ==> (r->Err_0).index is None,
    r is Err ==> *final(current_seq) == *old(current_seq),
    r is Ok ==> part_text(*final(current_seq)) =~= part_text(*old(current_seq)).push(Tok::Lit(lit_bytes(c, mode.caseless)))
        && final(current_seq).capture_index == old(current_seq).capture_index && (good_part(*old(current_seq)) ==> good_part(*final(current_seq))),
@at leaves
proof { if let Component::Class(ComponentClass::Ascii(a)) = current_seq.children@.last() { lit_is(a.cr, c, mode.caseless); } }
@end
@fn parser.rs Context::new
requires p@.len() <= ptr@.len(), p@ == ptr@.skip(ptr@.len() - p@.len())
ensures r.ptr == ptr, r.p == p, r.mode == mode, fresh_state(r)
@end
@raw
pub open spec fn fresh_state(c: Context) -> bool {
    good_state(c) && c.sequences@.len() == 0 && c.group_index == 1 && part_text(c.current_seq) =~= seq![]
}
@end
@fn parser.rs Context::push_sequence
requires good_state(*old(self)), old(self).group_index < u32::MAX, ulen(ts@) <= ulen(old(self).ptr@)
ensures
    good_state(*final(self)), final(self).ptr == old(self).ptr, final(self).p == old(self).p, final(self).mode == old(self).mode,
    final(self).group_index == old(self).group_index + 1,
    offsets(*final(self)) =~= offsets(*old(self)).push(ulen(old(self).ptr@) - ulen(ts@)),
    state_text(*final(self)) =~= state_text(*old(self)).push(Tok::Open(old(self).group_index as int)),
@at leaves
proof {
    same_frames(old(self).sequences@, self.sequences@, old(self).sequences@.len());
    assert(part_text(self.current_seq) =~= seq![]);
}
@end
@fn parser.rs Context::pop_sequence
requires good_state(*old(self))
ensures
    r is Err <==> old(self).sequences@.len() == 0, r is Err ==> (r->Err_0).index is None, final(self).ptr == old(self).ptr,
    r is Ok ==> popped(*old(self), *final(self)),
@at leaves
proof { if old(self).sequences@.len() > 0 {
    let n = (old(self).sequences@.len() - 1) as nat;
    let (s, t) = (old(self).sequences@, self.sequences@);
    same_frames(s, t, n);
    let last = self.current_seq.children@.last();
    assert(text(last) =~= seq![open_of(old(self).current_seq)] + part_text(old(self).current_seq) + seq![Tok::Close]);
    assert(frames_text(s, n + 1) == frames_text(s, n) + frame_text(s[n as int].seq));
    assert(part_text(self.current_seq) =~= part_text(s[n as int].seq) + text(last));
    assert(state_text(*old(self)) =~= frames_text(t, n) + frame_text(s[n as int].seq) + frame_text(old(self).current_seq));
} }
@end
@raw
pub open spec fn popped(a: Context, b: Context) -> bool {
    &&& good_state(b) && b.ptr == a.ptr && b.p == a.p && b.mode == a.mode && b.group_index == a.group_index
    &&& offsets(b) =~= offsets(a).drop_last() && state_text(b) =~= state_text(a).push(Tok::Close)
}
@end
@fn parser.rs Context::enter_capturing_group
requires good_state(*old(self)), old(self).group_index < u32::MAX, ulen(ts@) <= ulen(old(self).ptr@)
ensures
    good_state(*final(self)), final(self).ptr == old(self).ptr, final(self).p == old(self).p, final(self).mode == old(self).mode,
    final(self).group_index == old(self).group_index + 1,
    offsets(*final(self)) =~= offsets(*old(self)).push(ulen(old(self).ptr@) - ulen(ts@)),
    state_text(*final(self)) =~= state_text(*old(self)).push(Tok::Open(old(self).group_index as int)),
@end
@fn parser.rs Context::exit_group
requires good_state(*old(self))
ensures
    r is Err <==> old(self).sequences@.len() == 0, r is Err ==> (r->Err_0).index is None, final(self).ptr == old(self).ptr,
    r is Ok ==> popped(*old(self), *final(self)),
@end
@fn parser.rs take_any
ensures match r {
    Ok(p) => input@.len() > 0 && p.1 == input@[0] && p.0@ == input@.drop_first(),
    Err(_) => input@.len() == 0,
}
@closure 0 result_map
@end
@fn parser.rs Context::main
requires good_state(*old(self)), ts == old(self).p, ts@.len() > 0, old(self).group_index < u32::MAX
ensures
    final(self).ptr == old(self).ptr,
    match r { Ok(()) => good_state(*final(self)) && stepped(*old(self), *final(self)), Err(e) => refused(*old(self), e) },
@at entry
proof {
    ulen_split(self.ptr@, at_char(*self));
    assert(self.ptr@.skip(at_char(*self)).drop_first() =~= self.ptr@.skip(at_char(*self) + 1));
}
@end
@raw
pub enum Outcome { Fine, BadClose, BadChar(int), Left(int) }
/// C10: what becomes of s from its i-th character on, given the byte offsets of the groups open there.
pub open spec fn outcome(s: Seq<char>, i: int, open: Seq<int>) -> Outcome
    decreases s.len() - i
{
    if i >= s.len() { if open.len() == 0 { Outcome::Fine } else { Outcome::Left(open.last()) } }
    else if s[i] == '(' { outcome(s, i + 1, open.push(ulen(s.take(i)) as int)) }
    else if s[i] == ')' { if open.len() == 0 { Outcome::BadClose } else { outcome(s, i + 1, open.drop_last()) } }
    else if s[i] == '|' || ascii(s[i]) { outcome(s, i + 1, open) }
    else { Outcome::BadChar(ulen(s.take(i)) as int) }
}
pub open spec fn groups_before(p: Seq<char>, j: int) -> int
    decreases j
{ if j <= 0 { 0 } else { groups_before(p, j - 1) + if p[j - 1] == '(' { 1int } else { 0 } } }
/// C11: the pattern as pieces, its groups numbered from 1 by their opening parentheses.
pub open spec fn pieces(p: Seq<char>, nocase: bool) -> Seq<Tok> { Seq::new(p.len(), |j: int| tok_of(p[j], 1 + groups_before(p, j), nocase)) }
pub open spec fn parsed(s: Seq<char>, i: int, nocase: bool, r: Result<ComponentSequence, CompileError>) -> bool {
    match (outcome(s, i, seq![]), r) {
        (Outcome::Fine, Ok(t)) => good_group(t) && text(Component::Sequence(t)) =~= seq![Tok::Open(0)] + pieces(s.skip(i), nocase) + seq![Tok::Close],
        (Outcome::BadClose, Err(e)) => e.index is None,
        (Outcome::BadChar(n), Err(e)) => e.index is None && names(e.reason@, n),
        (Outcome::Left(n), Err(e)) => e.index is None && names(e.reason@, n),
        _ => false,
    }
}
@end
@fn parser.rs Context::parse
requires fresh_state(self), ulen(self.ptr@) < u32::MAX
ensures parsed(self.ptr@, at_char(self), self.mode.caseless, r)
@loop 0
invariant
    good_state(vx_self), vx_self.ptr == self.ptr, vx_self.mode == self.mode, ulen(self.ptr@) < u32::MAX,
    fresh_state(self), vx_self.p@.len() <= self.p@.len(),
    vx_self.group_index == 1 + groups_before(self.p@, self.p@.len() - vx_self.p@.len()),
    groups_before(self.p@, self.p@.len() - vx_self.p@.len()) <= self.p@.len() - vx_self.p@.len(),
    state_text(vx_self) =~= seq![Tok::Open(0)] + pieces(self.p@, self.mode.caseless).take(self.p@.len() - vx_self.p@.len()),
    outcome(self.ptr@, at_char(self), seq![]) == outcome(self.ptr@, at_char(vx_self), offsets(vx_self)),
decreases vx_self.p@.len()
@at loop 0 before
proof { assert(offsets(vx_self) =~= seq![]); assert(state_text(vx_self) =~= seq![Tok::Open(0)]); }
@at loop 0 start
let ghost a = vx_self;
proof {
    let (s, k) = (self.ptr@, at_char(vx_self));
    ulen_split(s, k);
    ulen_at_least(s);
    assert(vx_self.p@[0] == s[k]);
    assert(vx_self.p@[0] == self.p@[k - at_char(self)]);
}
@at loop 0 end
proof {
    let (p, j) = (self.p@, at_char(a) - at_char(self));
    let all = pieces(p, self.mode.caseless);
    assert(all.take(j + 1) =~= all.take(j).push(all[j]));
}
@at after loop 0
proof {
    let all = pieces(self.p@, self.mode.caseless);
    assert(all.take(all.len() as int) =~= all);
}
@end
@fn parser.rs parse
requires ulen(ptr@) < u32::MAX
ensures
    match verb_mode(ptr@, *old(global_mode)) {
        None => r is Err && *final(global_mode) == *old(global_mode) && verb_error(ptr@, 0, r->Err_0),
        Some(m) => *final(global_mode) == m && parsed(ptr@, verb_end(ptr@), m.caseless, match r { Ok(Component::Sequence(t)) => Ok(t), Err(e) => Err(e), Ok(_) => arbitrary() })
            && (r is Ok ==> r->Ok_0 is Sequence),
    }
@end
