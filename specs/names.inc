@raw
pub mod vx_mentioning { use super::*;
/// The text gives the number n.
pub open spec fn names(s: Seq<char>, n: int) -> bool { mentions(s, dec(n)) }
pub closed spec fn mentions(s: Seq<char>, w: Seq<char>) -> bool { exists|a: Seq<char>, b: Seq<char>| s =~= #[trigger] (a + w + b) }
pub broadcast proof fn mentions_self(w: Seq<char>)
    ensures #[trigger] mentions(w, w)
{ assert(w =~= Seq::<char>::empty() + w + Seq::<char>::empty()); }
pub broadcast proof fn mentions_left(x: Seq<char>, y: Seq<char>, w: Seq<char>)
    ensures mentions(x, w) ==> #[trigger] mentions(x + y, w)
{
    if mentions(x, w) {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| x =~= #[trigger] (a + w + b);
        assert(x + y =~= a + w + (b + y));
    }
}
pub broadcast proof fn mentions_right(x: Seq<char>, y: Seq<char>, w: Seq<char>)
    ensures mentions(y, w) ==> #[trigger] mentions(x + y, w)
{
    if mentions(y, w) {
        let (a, b) = choose|a: Seq<char>, b: Seq<char>| y =~= #[trigger] (a + w + b);
        assert(x + y =~= (x + a) + w + b);
    }
}
pub broadcast group mentioning { mentions_self, mentions_left, mentions_right }
}
pub use vx_mentioning::*;
@end
@broadcast vx_mentioning::mentioning
