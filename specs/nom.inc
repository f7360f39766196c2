@use parser.rs nom::bytes::complete::take
@use parser.rs nom::character::complete::char
@use parser.rs nom::IResult
@use parser/control_verbs.rs nom::bytes::complete::is_not
@use parser/control_verbs.rs nom::bytes::complete::tag
@use parser/control_verbs.rs nom::character::complete::char
@use parser/control_verbs.rs nom::sequence::delimited
@use parser/control_verbs.rs nom::IResult
@raw
// nom's combinators on text, as documented.
pub type IResult<I, O, E = ()> = Result<(I, O), E>;
/// What is left and what was read.
pub open spec fn pchar(c: char, x: Seq<char>) -> Option<(Seq<char>, char)> {
    if x.len() > 0 && x[0] == c { Some((x.drop_first(), c)) } else { None }
}
pub open spec fn ptag(t: Seq<char>, x: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if t.is_prefix_of(x) { Some((x.skip(t.len() as int), t)) } else { None }
}
pub open spec fn ptake(n: nat, x: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    if n <= x.len() { Some((x.skip(n as int), x.take(n as int))) } else { None }
}
/// The length of the longest start of x without any of the characters of t.
pub open spec fn run_not(t: Seq<char>, x: Seq<char>) -> nat
    decreases x.len()
{ if x.len() == 0 || t.contains(x[0]) { 0 } else { 1 + run_not(t, x.drop_first()) } }
pub proof fn run_not_at(t: Seq<char>, x: Seq<char>)
    ensures run_not(t, x) <= x.len(), run_not(t, x) < x.len() ==> t.contains(x[run_not(t, x) as int])
    decreases x.len()
{ if x.len() > 0 && !t.contains(x[0]) { run_not_at(t, x.drop_first()); } }
pub open spec fn pis_not(t: Seq<char>, x: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let n = run_not(t, x) as int;
    if n > 0 { Some((x.skip(n), x.take(n))) } else { None }
}
/// What parsers read, and what they are given to look for.
pub trait VxText: Sized { spec fn seq(&self) -> Seq<char>; }
impl<'a> VxText for VxStr<'a> { open spec fn seq(&self) -> Seq<char> { self@ } }
pub open spec fn got_c<I: VxText, E>(r: IResult<I, char, E>) -> Option<(Seq<char>, char)> {
    match r { Ok(p) => Some((p.0.seq(), p.1)), Err(_) => None }
}
pub open spec fn got_s<I: VxText, E>(r: IResult<I, I, E>) -> Option<(Seq<char>, Seq<char>)> {
    match r { Ok(p) => Some((p.0.seq(), p.1.seq())), Err(_) => None }
}
#[verifier::external_body]
pub fn char<I: VxText, E>(c: char) -> (r: impl Fn(I) -> IResult<I, char, E>)
    ensures
        forall|x: I| #[trigger] r.requires((x,)),
        forall|x: I, o: IResult<I, char, E>| #[trigger] r.ensures((x,), o) ==> got_c(o) == pchar(c, x.seq()),
{ |x| unimplemented!() }
#[verifier::external_body]
pub fn tag<T: VxPat, I: VxText, E>(t: T) -> (r: impl Fn(I) -> IResult<I, I, E>)
    ensures
        forall|x: I| #[trigger] r.requires((x,)),
        forall|x: I, o: IResult<I, I, E>| #[trigger] r.ensures((x,), o) ==> got_s(o) == ptag(t.pat(), x.seq()),
{ |x| unimplemented!() }
#[verifier::external_body]
pub fn is_not<T: VxPat, I: VxText, E>(t: T) -> (r: impl Fn(I) -> IResult<I, I, E>)
    ensures
        forall|x: I| #[trigger] r.requires((x,)),
        forall|x: I, o: IResult<I, I, E>| #[trigger] r.ensures((x,), o) ==> got_s(o) == pis_not(t.pat(), x.seq()),
{ |x| unimplemented!() }
#[verifier::external_body]
pub fn take<I: VxText, E>(t: usize) -> (r: impl Fn(I) -> IResult<I, I, E>)
    ensures
        forall|x: I| #[trigger] r.requires((x,)),
        forall|x: I, o: IResult<I, I, E>| #[trigger] r.ensures((x,), o) ==> got_s(o) == ptake(t as nat, x.seq()),
{ |x| unimplemented!() }
/// Three parsers in a row, of which the second gives the result.
#[verifier::external_body]
pub fn delimited<I: VxText, O1, O2, O3, E, F: Fn(I) -> IResult<I, O1, E>, G: Fn(I) -> IResult<I, O2, E>, H: Fn(I) -> IResult<I, O3, E>>
    (first: F, second: G, third: H) -> (r: impl Fn(I) -> IResult<I, O2, E>)
    requires forall|x: I| #[trigger] first.requires((x,)), forall|x: I| #[trigger] second.requires((x,)), forall|x: I| #[trigger] third.requires((x,)),
    ensures
        forall|x: I| #[trigger] r.requires((x,)),
        forall|x: I, o: IResult<I, O2, E>| #[trigger] r.ensures((x,), o) ==> in_a_row(first, second, third, x, o),
{ |x| unimplemented!() }
pub open spec fn in_a_row<I: VxText, O1, O2, O3, E, F: Fn(I) -> IResult<I, O1, E>, G: Fn(I) -> IResult<I, O2, E>, H: Fn(I) -> IResult<I, O3, E>>
    (first: F, second: G, third: H, x: I, o: IResult<I, O2, E>) -> bool
{
    exists|a: IResult<I, O1, E>| #[trigger] first.ensures((x,), a) && match a {
        Err(_) => o is Err,
        Ok(a) => exists|b: IResult<I, O2, E>| #[trigger] second.ensures((a.0,), b) && match b {
            Err(_) => o is Err,
            Ok(b) => exists|c: IResult<I, O3, E>| #[trigger] third.ensures((b.0,), c) && match c {
                Err(_) => o is Err,
                Ok(c) => o == Ok::<(I, O2), E>((c.0, b.1)),
            },
        },
    }
}
@end
