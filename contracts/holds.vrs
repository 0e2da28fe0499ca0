verus! {
// ---- what is where: facts about byte sequences that survive writes elsewhere -------------------------
pub mod kept {
use vstd::prelude::*;
use crate::*;
/// `d` holds `b` at `p`
#[verifier::opaque]
pub open spec fn holds(d: Seq<u8>, p: int, b: Seq<u8>) -> bool {
    0 <= p && (b.len() > 0 ==> p + b.len() <= d.len()) && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == d[p + i]
}
/// nothing outside lo..hi changed; the sequence reaches no further than before or hi
#[verifier::opaque]
pub open spec fn only(d: Seq<u8>, d2: Seq<u8>, lo: int, hi: int) -> bool {
    d.len() <= d2.len() && d2.len() <= max_int(d.len() as int, hi)
    && forall|i: int| 0 <= i < d2.len() && !(lo <= i < hi) ==> #[trigger] d2[i] == if i < d.len() { d[i] } else { 0u8 }
}
/// nothing but zero in lo..hi
#[verifier::opaque]
pub open spec fn blank(d: Seq<u8>, lo: int, hi: int) -> bool { forall|i: int| lo <= i < hi && i < d.len() ==> #[trigger] d[i] == 0u8 }

pub broadcast proof fn lemma_holds_write(d: Seq<u8>, q: int, x: Seq<u8>)
    requires 0 <= q,
    ensures #![trigger write_at(d, q, x)] holds(write_at(d, q, x), q, x),
        write_at(d, q, x).len() == (if x.len() == 0 { d.len() as int } else { max_int(d.len() as int, q + x.len()) }),
{
    reveal(only);
    reveal(holds);
}
pub broadcast proof fn lemma_holds_kept(d: Seq<u8>, q: int, x: Seq<u8>, p: int, b: Seq<u8>)
    requires 0 <= q, #[trigger] holds(d, p, b), q + x.len() <= p || p + b.len() <= q,
    ensures holds(#[trigger] write_at(d, q, x), p, b),
{
    reveal(holds);
}
pub broadcast proof fn lemma_blank_kept(d: Seq<u8>, q: int, x: Seq<u8>, lo: int, hi: int)
    requires 0 <= q, 0 <= lo, #[trigger] blank(d, lo, hi), q + x.len() <= lo || hi <= q,
    ensures blank(#[trigger] write_at(d, q, x), lo, hi),
{
    reveal(blank);
}
pub broadcast proof fn lemma_holds_only(d: Seq<u8>, d2: Seq<u8>, lo: int, hi: int, p: int, b: Seq<u8>)
    requires #[trigger] only(d, d2, lo, hi), #[trigger] holds(d, p, b), hi <= p || p + b.len() <= lo,
    ensures holds(d2, p, b),
{
    reveal(only);
    reveal(holds);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == d2[p + i] by { assert(d2[p + i] == d[p + i]); }
}
pub broadcast proof fn lemma_blank_only(d: Seq<u8>, d2: Seq<u8>, lo: int, hi: int, p: int, q: int)
    requires #[trigger] only(d, d2, lo, hi), #[trigger] blank(d, p, q), 0 <= p, hi <= p || q <= lo,
    ensures blank(d2, p, q),
{
    reveal(only);
    reveal(blank);
}
/// a later write inside the range stays inside it
pub broadcast proof fn lemma_only_more(d: Seq<u8>, e: Seq<u8>, lo: int, hi: int, q: int, x: Seq<u8>)
    requires #[trigger] only(d, e, lo, hi), lo <= q, q + x.len() <= hi, 0 <= q,
    ensures only(d, #[trigger] write_at(e, q, x), lo, hi),
{
    reveal(only);
}
pub broadcast proof fn lemma_only_self(d: Seq<u8>, lo: int, hi: int)
    ensures #[trigger] only(d, d, lo, hi),
{
    reveal(only);
}
pub proof fn lemma_only_len(d: Seq<u8>, e: Seq<u8>, lo: int, hi: int)
    requires only(d, e, lo, hi),
    ensures d.len() <= e.len(), e.len() <= max_int(d.len() as int, hi),
{
    reveal(only);
}
pub proof fn lemma_only_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>, lo: int, hi: int, lo2: int, hi2: int)
    requires only(a, b, lo, hi), only(b, c, lo2, hi2), 
    ensures only(a, c, if lo <= lo2 { lo } else { lo2 }, if hi >= hi2 { hi } else { hi2 }),
{
    reveal(only);
}
pub proof fn lemma_holds_copied(d: Seq<u8>, p: int, b: Seq<u8>)
    requires holds(d, p, b), b.len() > 0,
    ensures copied(b, 0, d, p, b.len() as int), d.subrange(p, p + b.len()) == b,
{
    reveal(holds);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] d[p + i] == b[0 + i] by { assert(b[i] == d[p + i]); }
    assert(d.subrange(p, p + b.len()) =~= b);
}
}
pub use kept::*;
/// the record `v` was written at `p`
pub open spec fn record<T: BeWrite>(d: Seq<u8>, p: int, v: T) -> bool { exists|b: Seq<u8>| #[trigger] v.writes(b) && holds(d, p, b) }
} // verus!
