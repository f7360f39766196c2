@raw
/// The leading control verb: `(*`, its name, `)`.
pub open spec fn name_len(s: Seq<char>) -> nat { run_not(seq![')'], s.skip(2)) }
pub open spec fn has_verb(s: Seq<char>) -> bool {
    s.len() > 2 && s[0] == '(' && s[1] == '*' && 0 < name_len(s) && 2 + name_len(s) < s.len()
}
pub open spec fn verb_name(s: Seq<char>) -> Seq<char> { s.subrange(2, 2 + name_len(s) as int) }
/// Where parsing resumes.
pub open spec fn verb_end(s: Seq<char>) -> int { if has_verb(s) { 3 + name_len(s) as int } else { 0 } }
pub open spec fn known_verb(v: Seq<char>) -> bool {
    v == "NO_AUTO_POSSESS"@ || v == "NO_START_OPT"@ || v == "UTF16"@ || v == "UTF32"@ || v == "CR"@ || v == "LF"@ || v == "CRLF"@
    || v == "ANYCRLF"@ || v == "ANY"@ || v == "BSR_ANYCRLF"@ || v == "BSR_UNICODE"@
    || "LIMIT_MATCH="@.is_prefix_of(v) || "LIMIT_RECURSION="@.is_prefix_of(v)
}
pub open spec fn ucp_verb(v: Seq<char>) -> bool { v == "UCP"@ }
pub open spec fn utf8_verb(v: Seq<char>) -> bool { v == "UTF8"@ || v == "UTF"@ }
/// C12: what a pattern's verb does to the mode; None when it is refused.
pub open spec fn verb_mode(s: Seq<char>, m: ParseMode) -> Option<ParseMode> {
    if !has_verb(s) { Some(m) }
    else if ucp_verb(verb_name(s)) { Some(ParseMode { ucp: true, ..m }) }
    else if utf8_verb(verb_name(s)) { Some(ParseMode { utf8: true, ..m }) }
    else { None }
}
pub open spec fn verb_error(s: Seq<char>, start: int, e: CompileError) -> bool {
    &&& e.index is None && names(e.reason@, start + 2) && mentions(e.reason@, verb_name(s))
    &&& mentions(e.reason@, if known_verb(verb_name(s)) { "Unsupported"@ } else { "Unknown"@ })
}
pub proof fn verb_steps(x: Seq<char>)
    ensures
        seq!['(', '*'].is_prefix_of(x) <==> x.len() >= 2 && x[0] == '(' && x[1] == '*',
        x.len() >= 2 ==> {
            let (y, n) = (x.skip(2), name_len(x) as int);
            &&& n <= y.len() && n < y.len() ==> y[n] == ')' && y.skip(n).drop_first() == x.skip(3 + n) && y.skip(n)[0] == ')'
            &&& n <= y.len() && y.take(n) == x.subrange(2, 2 + n) && y.skip(n).len() == y.len() - n
        },
{
    if seq!['(', '*'].is_prefix_of(x) { assert(seq!['(', '*'][0] == x[0] && seq!['(', '*'][1] == x[1]); }
    if x.len() >= 2 && x[0] == '(' && x[1] == '*' { assert(seq!['(', '*'] =~= x.take(2)); }
    if x.len() >= 2 {
        let (y, n) = (x.skip(2), name_len(x) as int);
        run_not_at(seq![')'], y);
        assert(y.take(n) =~= x.subrange(2, 2 + n));
        if n < y.len() { assert(y.skip(n).drop_first() =~= x.skip(3 + n)); }
    }
}
/// The names differ from each other.
pub proof fn verb_names()
    ensures
        forall|v: Seq<char>| #[trigger] known_verb(v) ==> !ucp_verb(v) && !utf8_verb(v),
        "UCP"@ != "UTF8"@, "UCP"@ != "UTF"@,
{
    reveal_strlit("UCP"); reveal_strlit("UTF8"); reveal_strlit("UTF"); reveal_strlit("NO_AUTO_POSSESS"); reveal_strlit("NO_START_OPT");
    reveal_strlit("UTF16"); reveal_strlit("UTF32"); reveal_strlit("CR"); reveal_strlit("LF"); reveal_strlit("CRLF"); reveal_strlit("ANYCRLF");
    reveal_strlit("ANY"); reveal_strlit("BSR_ANYCRLF"); reveal_strlit("BSR_UNICODE"); reveal_strlit("LIMIT_MATCH="); reveal_strlit("LIMIT_RECURSION=");
    assert("UCP"@[1] == 'C' && "UTF"@[1] == 'T' && "ANY"@[0] == 'A' && "UTF8"@[0] == 'U' && "CRLF"@[0] == 'C');
    assert forall|v: Seq<char>| #[trigger] known_verb(v) implies !ucp_verb(v) && !utf8_verb(v) by {
        if "LIMIT_MATCH="@.is_prefix_of(v) { assert(v[0] == "LIMIT_MATCH="@[0]); }
        if "LIMIT_RECURSION="@.is_prefix_of(v) { assert(v[0] == "LIMIT_RECURSION="@[0]); }
        assert(v == "UCP"@ || v == "UTF"@ ==> v.len() == 3 && v[0] == 'U');
        assert(v == "UTF8"@ ==> v.len() == 4 && v[0] == 'U');
    }
}
@end
@fn parser/control_verbs.rs control_verb
ensures match r {
    Ok(p) => has_verb(input@) && p.0@ == input@.skip(verb_end(input@)) && p.1@ == verb_name(input@),
    Err(_) => !has_verb(input@),
}
@at entry
proof { reveal_strlit("(*"); assert("(*"@ =~= seq!['(', '*']); reveal_strlit(")"); assert(")"@ =~= seq![')']); verb_steps(input@); }
@end
@fn parser/control_verbs.rs read_control_verbs
requires start <= usize::MAX - 2
ensures
    match r {
        Ok(p) => verb_mode(input@, *old(mode)) == Some(*final(mode)) && p@ == input@.skip(verb_end(input@)),
        Err(e) => verb_mode(input@, *old(mode)) is None && *final(mode) == *old(mode) && verb_error(input@, start as int, e),
    }
@at entry
proof { verb_names(); }
@end
