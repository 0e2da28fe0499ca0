verus! {
// ---- the encrypting writer as something bytes are put into ------------------------------------------
pub mod wview {
use vstd::prelude::*;
use crate::*;
/// the writer without its position
pub ghost struct Wv { pub inner: WiiEncryptedReadWriteStreamInner, pub d: Seq<u8> }
pub open spec fn wv<WS: Stream>(w: WiiEncryptedReadWriteStream<'_, WS>) -> Wv {
    Wv { inner: WiiEncryptedReadWriteStreamInner { current_position: 0, ..w.inner }, d: (*w.file).data() }
}
/// the number of groups begun (one at least)
#[verifier::opaque]
pub open spec fn wgroups(v: Wv) -> int { v.inner.topg() + 1 }
/// a position up to which there is no gap of a whole group
#[verifier::opaque]
pub open spec fn wroom(v: Wv) -> int { if v.inner.current_group is None { 0x2440 } else { (v.inner.topg() + 1) * 0x1f0000 } }
pub open spec fn woff(v: Wv) -> int { v.inner.data_offset as int }
pub open spec fn wkey(v: Wv) -> Seq<u8> { v.inner.encryption_key@ }

/// everything up to the last group begun is there, nothing beyond
#[verifier::opaque]
pub open spec fn sound(v: Wv) -> bool {
    v.inner.inv(v.d) && v.inner.open_mode == (OpenMode::ReadWrite { max_group: None }) && v.inner.h3 is Some
    && (v.inner.current_group is None ==> v.inner.filled_groups == 0)
    && (v.inner.current_group is Some ==> forall|g: int| 0 <= g <= v.inner.topg() ==> #[trigger] v.inner.ok(v.d, g))
    && (forall|i: int| 20 * (v.inner.topg() + 1) <= i < 0x18000 ==> #[trigger] v.inner.h3->Some_0@[i] == 0u8)
    && v.d.len() <= v.inner.data_offset + (v.inner.topg() + 1) * 0x200000
}
/// the writer holds `b` at `p`
#[verifier::opaque]
pub open spec fn has(v: Wv, p: int, b: Seq<u8>) -> bool {
    0 <= p && (b.len() > 0 ==> v.inner.current_group is Some && p + b.len() <= (v.inner.topg() + 1) * 0x1f0000)
    && forall|i: int| 0 <= i < b.len() ==> v.inner.byte(v.d, p + i) == #[trigger] b[i]
}
/// what was held outside lo..hi still is
pub open spec fn kept_out(v: Wv, v2: Wv, lo: int, hi: int) -> bool {
    v2.inner.same_part(&v.inner) && v.inner.topg() <= v2.inner.topg() && (v.inner.current_group is Some ==> v2.inner.current_group is Some)
    && frame(v.d, v2.d, v.inner.data_offset as int, v.inner.data_offset + (v2.inner.topg() + 1) * 0x200000)
    && forall|q: int| 0 <= q && !(lo <= q < hi) && v.inner.current_group is Some && grp(q) <= v.inner.topg()
        ==> #[trigger] v2.inner.byte(v2.d, q) == v.inner.byte(v.d, q)
}
/// `v2` is `v` after `x` was written at `p`
#[verifier::opaque]
pub open spec fn wput(v: Wv, v2: Wv, p: int, x: Seq<u8>) -> bool {
    sound(v2) && kept_out(v, v2, p, p + x.len()) && has(v2, p, x)
    && wgroups(v2) == (if x.len() == 0 { wgroups(v) } else { max_int(wgroups(v), grp(p + x.len() - 1) + 1) })
}
/// writing has gone on, at `lo` and behind
#[verifier::opaque]
pub open spec fn wafter(v: Wv, v2: Wv, lo: int) -> bool { kept_out(v, v2, lo, 0x7fff_ffff_ffff_ffff) }

pub proof fn lemma_ends(n: int, p: int, k: int)
    requires 0 <= p, 0 < k, 0 <= n,
    ensures p + k <= (n + 1) * 0x1f0000 <==> grp(p + k - 1) <= n,
{
    reveal(grp);
}
pub proof fn lemma_kept_trans(a: Wv, b: Wv, c: Wv, lo: int, hi: int)
    requires kept_out(a, b, lo, hi), kept_out(b, c, lo, hi),
    ensures kept_out(a, c, lo, hi),
{
}
pub proof fn lemma_kept_has(a: Wv, b: Wv, lo: int, hi: int, p: int, y: Seq<u8>)
    requires kept_out(a, b, lo, hi), has(a, p, y), p + y.len() <= lo || hi <= p, 0 <= a.inner.topg(),
    ensures has(b, p, y),
{
    reveal(has);
    if y.len() > 0 {
        lemma_ends(a.inner.topg(), p, y.len() as int);
        assert forall|i: int| 0 <= i < y.len() implies b.inner.byte(b.d, p + i) == #[trigger] y[i] by {
            lemma_grp(p + i, p + y.len() - 1);
            assert(a.inner.byte(a.d, p + i) == y[i]);
            assert(b.inner.byte(b.d, p + i) == a.inner.byte(a.d, p + i));
        }
    }
}
pub broadcast proof fn lemma_wput(v: Wv, v2: Wv, p: int, x: Seq<u8>)
    requires #[trigger] wput(v, v2, p, x),
    ensures
        sound(v2), has(v2, p, x), woff(v2) == woff(v), wkey(v2) == wkey(v),
        wgroups(v) <= wgroups(v2), wroom(v) <= wroom(v2), p + x.len() <= wroom(v2) || x.len() == 0,
        wgroups(v2) == (if x.len() == 0 { wgroups(v) } else { max_int(wgroups(v), grp(p + x.len() - 1) + 1) }),
{
    reveal(wput);
    reveal(wgroups);
    reveal(wroom);
    reveal(has);
    reveal(sound);
}
pub broadcast proof fn lemma_wput_has(v: Wv, v2: Wv, p: int, x: Seq<u8>, q: int, y: Seq<u8>)
    requires #[trigger] wput(v, v2, p, x), #[trigger] has(v, q, y), q + y.len() <= p || p + x.len() <= q,
    ensures has(v2, q, y),
{
    reveal(wput);
    lemma_kept_has(v, v2, p, p + x.len(), q, y);
}
pub broadcast proof fn lemma_wput_holds(v: Wv, v2: Wv, p: int, x: Seq<u8>, q: int, y: Seq<u8>)
    requires #[trigger] wput(v, v2, p, x), #[trigger] holds(v.d, q, y), q + y.len() <= woff(v),
    ensures holds(v2.d, q, y),
{
    reveal(wput);
    reveal(holds);
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == v2.d[q + i] by { assert(v2.d[q + i] == v.d[q + i]); }
}
/// writing at `lo` or behind
pub broadcast proof fn lemma_wafter_put(v: Wv, v1: Wv, v2: Wv, lo: int, p: int, x: Seq<u8>)
    requires #[trigger] wafter(v, v1, lo), #[trigger] wput(v1, v2, p, x), lo <= p, p + x.len() <= 0x7fff_ffff_ffff_ffff,
    ensures wafter(v, v2, lo),
{
    reveal(wput);
    reveal(wafter);
}
pub proof fn lemma_wafter_self(v: Wv, lo: int)
    ensures wafter(v, v, lo),
{
    reveal(wafter);
}
pub broadcast proof fn lemma_wafter_has(v: Wv, v2: Wv, lo: int, q: int, y: Seq<u8>)
    requires #[trigger] wafter(v, v2, lo), #[trigger] has(v, q, y), q + y.len() <= lo, lo < 0x7fff_ffff_ffff_ffff,
    ensures has(v2, q, y),
{
    reveal(wafter);
    lemma_kept_has(v, v2, lo, 0x7fff_ffff_ffff_ffff, q, y);
}
pub broadcast proof fn lemma_wafter_holds(v: Wv, v2: Wv, lo: int, q: int, y: Seq<u8>)
    requires #[trigger] wafter(v, v2, lo), #[trigger] holds(v.d, q, y), q + y.len() <= woff(v),
    ensures holds(v2.d, q, y),
{
    reveal(wafter);
    reveal(holds);
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == v2.d[q + i] by { assert(v2.d[q + i] == v.d[q + i]); }
}
pub broadcast proof fn lemma_wafter(v: Wv, v2: Wv, lo: int)
    requires #[trigger] wafter(v, v2, lo), sound(v), sound(v2),
    ensures wgroups(v) <= wgroups(v2), woff(v2) == woff(v), wkey(v2) == wkey(v), wroom(v) <= wroom(v2), 
{
    reveal(wroom);
    reveal(wafter);
    reveal(wgroups);
    reveal(sound);
}
pub proof fn lemma_sound(v: Wv)
    requires sound(v),
    ensures 1 <= wgroups(v) <= 4915, v.d.len() <= woff(v) + wgroups(v) * 0x200000,
        0x2440 <= wroom(v) <= wgroups(v) * 0x1f0000, wroom(v) % 0x20 == 0, wroom(v) % 0x40 == 0,
{
    reveal(wroom);
    reveal(sound);
    reveal(wgroups);
}

pub proof fn lemma_put_nothing(v: Wv, p: int)
    requires sound(v), 0 <= p,
    ensures wput(v, v, p, Seq::empty()),
{
    reveal(wput); reveal(has);
}
pub proof fn lemma_put_put(a: Wv, b: Wv, c: Wv, p: int, x: Seq<u8>, y: Seq<u8>)
    requires wput(a, b, p, x), wput(b, c, p + x.len(), y),
    ensures wput(a, c, p, x + y),
{
    lemma_wput(a, b, p, x);
    lemma_wput(b, c, p + x.len(), y);
    lemma_wput_has(b, c, p + x.len(), y, p, x);
    reveal(wput);
    reveal(sound);
    assert(has(c, p, x + y)) by {
        reveal(has);
        reveal(wgroups);
        assert forall|i: int| 0 <= i < (x + y).len() implies c.inner.byte(c.d, p + i) == #[trigger] (x + y)[i] by {
            if i < x.len() { assert(x[i] == (x + y)[i]); } else { assert(y[i - x.len()] == (x + y)[i]); }
        }
    }
    assert(0 <= p) by { reveal(has); }
    if x.len() > 0 && y.len() > 0 { lemma_grp(p + x.len() - 1, p + x.len() + y.len() - 1); }
}
/// `write`'s contract gives `wput`
pub proof fn lemma_written(v: Wv, v2: Wv, p: int, x: Seq<u8>)
    requires
        sound(v), 0 <= p, x.len() > 0, p <= wroom(v),
        v2.inner.inv(v2.d), v2.inner.same_part(&v.inner), v2.inner.h3 is Some,
        forall|i: int| 0 <= i < x.len() ==> #[trigger] v2.inner.byte(v2.d, p + i) == x[i],
        forall|q: int| 0 <= q && !(p <= q < p + x.len()) && v.inner.ok(v.d, grp(q)) && grp(q) <= v.inner.topg()
            && (v.inner.current_group is None ==> grp(q) != grp(p))
            ==> #[trigger] v2.inner.byte(v2.d, q) == v.inner.byte(v.d, q),
        forall|g: int| 0 <= g && v.inner.ok(v.d, g) ==> #[trigger] v2.inner.ok(v2.d, g),
        forall|g: int| grp(p) <= g <= grp(p + x.len() - 1) ==> #[trigger] v2.inner.ok(v2.d, g),
        v2.inner.topg() == max_int(v.inner.topg(), grp(p + x.len() - 1)), v2.inner.current_group is Some,
        frame(v.d, v2.d, v.inner.data_offset as int, v.inner.data_offset + (v2.inner.topg() + 1) * 0x200000),
        forall|i: int| 20 * (v2.inner.topg() + 1) <= i < 0x18000 ==> #[trigger] v2.inner.h3->Some_0@[i] == v.inner.h3->Some_0@[i],
    ensures wput(v, v2, p, x), p + x.len() <= wroom(v2),
{
    reveal(wput);
    reveal(sound);
    reveal(has);
    reveal(wgroups);
    let n = v.inner.topg();
    let n2 = v2.inner.topg();
    lemma_ends(n2, p, x.len() as int);
    lemma_grp(p, p + x.len() - 1);
    reveal(wroom);
    assert(grp(p) <= n + 1) by { reveal(grp); }
    assert forall|g: int| 0 <= g <= n2 implies #[trigger] v2.inner.ok(v2.d, g) by {
        if g <= n && v.inner.current_group is Some { assert(v.inner.ok(v.d, g)); }
        else if g < grp(p) { assert(v.inner.current_group is None && g == 0); lemma_fresh(v, p); }
    }
    assert forall|q: int| 0 <= q && !(p <= q < p + x.len()) && v.inner.current_group is Some && grp(q) <= v.inner.topg()
        implies #[trigger] v2.inner.byte(v2.d, q) == v.inner.byte(v.d, q) by {
        lemma_grp(0, q);
        assert(v.inner.ok(v.d, grp(q)));
    }
}
// ---- after the flush --------------------------------------------------------------------------------
/// the partition's data, decrypted, holds `b` at `p`
#[verifier::opaque]
pub open spec fn plain_holds(d: Seq<u8>, off: int, key: Seq<u8>, p: int, b: Seq<u8>) -> bool {
    0 <= p && (b.len() > 0 ==> off + (grp(p + b.len() - 1) + 1) * 0x200000 <= d.len())
    && forall|i: int| 0 <= i < b.len() ==> plain_byte(d, off, key, p + i) == #[trigger] b[i]
}
/// group `g` carries its hash tree and the global table its hash
pub open spec fn group_hashed(d: Seq<u8>, off: int, key: Seq<u8>, h3: Seq<u8>, g: int) -> bool {
    exists|gr: Seq<u8>| #[trigger] group_is(d, off, key, g, gr) && h3.subrange(20 * g, 20 * g + 20) == sha1(h2_of(gr))
}
/// all of the `n` groups do, and the table holds nothing else
#[verifier::opaque]
pub open spec fn all_hashed(d: Seq<u8>, off: int, key: Seq<u8>, h3: Seq<u8>, n: int) -> bool {
    h3.len() == 0x18000 && 0 <= n <= 4915 && off + n * 0x200000 <= d.len()
    && (forall|g: int| 0 <= g < n ==> #[trigger] group_hashed(d, off, key, h3, g))
    && (forall|i: int| 20 * n <= i < 0x18000 ==> #[trigger] h3[i] == 0u8)
}
/// `v2` is `v` written out
#[verifier::opaque]
pub open spec fn wflushed(v: Wv, v2: Wv) -> bool {
    sound(v) && !(v2.inner.is_dirty && v2.inner.current_group is Some) && v2.inner.same_part(&v.inner) && v2.inner.h3 is Some
    && v2.inner.topg() == v.inner.topg()
    && frame(v.d, v2.d, v.inner.data_offset as int, v.inner.data_offset + (v.inner.topg() + 1) * 0x200000)
    && (forall|g: int| 0 <= g && v.inner.ok(v.d, g) ==> #[trigger] v2.inner.ok(v2.d, g))
    && (forall|q: int| 0 <= q && v.inner.ok(v.d, grp(q)) ==> #[trigger] v2.inner.byte(v2.d, q) == v.inner.byte(v.d, q))
    && (forall|i: int| 20 * (v.inner.topg() + 1) <= i < 0x18000 ==> #[trigger] v2.inner.h3->Some_0@[i] == v.inner.h3->Some_0@[i])
}
pub open spec fn put_down(i: WiiEncryptedReadWriteStreamInner, d: Seq<u8>) -> Wv { Wv { inner: WiiEncryptedReadWriteStreamInner { current_position: 0, ..i }, d } }
pub broadcast proof fn lemma_flushed(i: WiiEncryptedReadWriteStreamInner, d: Seq<u8>, i2: WiiEncryptedReadWriteStreamInner, d2: Seq<u8>)
    requires #[trigger] flushed_from(i, d, i2, d2), sound(put_down(i, d)),
    ensures wflushed(put_down(i, d), put_down(i2, d2)), woff(put_down(i2, d2)) == woff(put_down(i, d)), wkey(put_down(i2, d2)) == wkey(put_down(i, d)),
{
    reveal(flushed_from); reveal(wflushed); reveal(sound);
    let (v, v2) = (put_down(i, d), put_down(i2, d2));
    assert forall|g: int| 0 <= g && v.inner.ok(v.d, g) implies #[trigger] v2.inner.ok(v2.d, g) by { assert(i.ok(d, g)); assert(i2.ok(d2, g)); }
    assert forall|q: int| 0 <= q && v.inner.ok(v.d, grp(q)) implies #[trigger] v2.inner.byte(v2.d, q) == v.inner.byte(v.d, q) by { assert(i.ok(d, grp(q))); assert(i2.byte(d2, q) == i.byte(d, q)); }
}
/// a writer over a file that holds nothing behind the data offset
pub broadcast proof fn lemma_fresh_sound(i: WiiEncryptedReadWriteStreamInner, d: Seq<u8>)
    requires #[trigger] fresh(i, d), d.len() <= i.data_offset,
    ensures sound(put_down(i, d)), wgroups(put_down(i, d)) == 1, wroom(put_down(i, d)) == 0x2440,
{
    reveal(fresh); reveal(sound); reveal(wgroups); reveal(wroom);
}
pub broadcast proof fn lemma_flushed_has(v: Wv, v2: Wv, p: int, b: Seq<u8>)
    requires #[trigger] wflushed(v, v2), #[trigger] has(v, p, b),
    ensures plain_holds(v2.d, woff(v), wkey(v), p, b),
{
    reveal(wflushed); reveal(has); reveal(sound); reveal(plain_holds);
    if b.len() > 0 {
        let n = v.inner.topg();
        lemma_ends(n, p, b.len() as int);
        let (i2, d2) = (v2.inner, v2.d);
        let g = grp(p + b.len() - 1);
        lemma_grp(p, p + b.len() - 1);
        assert(v.inner.ok(v.d, g));
        assert(v2.inner.ok(d2, g));
        assert(woff(v) + (g + 1) * 0x200000 <= d2.len()) by { reveal(hashed); }
        assert forall|i: int| 0 <= i < b.len() implies plain_byte(d2, woff(v), wkey(v), p + i) == #[trigger] b[i] by {
            lemma_grp(p, p + i);
            lemma_grp(p + i, p + b.len() - 1);
            assert(v.inner.ok(v.d, grp(p + i)));
            assert(i2.byte(d2, p + i) == v.inner.byte(v.d, p + i));
            lemma_reader_sees(i2.current_group, i2.is_dirty, i2.group_cache@, i2.encryption_key@, d2, i2.data_offset as int, p + i);
        }
    }
}
pub proof fn lemma_flushed_hashed(v: Wv, v2: Wv, p: int, b: Seq<u8>)
    requires wflushed(v, v2), has(v, p, b), b.len() > 0,
    ensures
        v2.inner.h3 is Some, all_hashed(v2.d, woff(v), wkey(v), v2.inner.h3->Some_0@, wgroups(v)),
        v2.d.len() == woff(v) + wgroups(v) * 0x200000,
{
    reveal(wflushed); reveal(sound); reveal(wgroups); reveal(all_hashed); reveal(has);
    let (i2, d2) = (v2.inner, v2.d);
    let n = v.inner.topg();
    assert forall|g: int| 0 <= g <= n implies #[trigger] group_hashed(d2, woff(v), wkey(v), i2.h3->Some_0@, g) by {
        assert(v.inner.ok(v.d, g));
        assert(i2.ok(d2, g));
        lemma_group_hashed(i2.current_group, i2.is_dirty, d2, i2.data_offset as int, i2.encryption_key@, i2.h3, g);
        reveal(hashed);
    }
    assert(woff(v) + (n + 1) * 0x200000 <= d2.len()) by { reveal(hashed); assert(v.inner.ok(v.d, n)); assert(i2.ok(d2, n)); }
}
pub broadcast proof fn lemma_flushed_holds(v: Wv, v2: Wv, q: int, y: Seq<u8>)
    requires #[trigger] wflushed(v, v2), #[trigger] holds(v.d, q, y), q + y.len() <= woff(v),
    ensures holds(v2.d, q, y),
{
    reveal(wflushed);
    reveal(holds);
    assert forall|i: int| 0 <= i < y.len() implies #[trigger] y[i] == v2.d[q + i] by { assert(v2.d[q + i] == v.d[q + i]); }
}
/// what lies behind `off` is not affected by writes before it
pub broadcast proof fn lemma_plain_write(d: Seq<u8>, off: int, key: Seq<u8>, p: int, b: Seq<u8>, q: int, x: Seq<u8>)
    requires #[trigger] plain_holds(d, off, key, p, b), 0 <= q, q + x.len() <= off,
    ensures plain_holds(#[trigger] write_at(d, q, x), off, key, p, b),
{
    reveal(plain_holds);
    let e = write_at(d, q, x);
    assert forall|i: int| 0 <= i < b.len() implies plain_byte(e, off, key, p + i) == #[trigger] b[i] by {
        assert(plain_byte(d, off, key, p + i) == b[i]);
        lemma_grp(p, p + i);
        lemma_grp(p + i, p + b.len() - 1);
        lemma_same_group(d, e, off, grp(p + i));
        reveal(plain_byte);
        lemma_coords(p + i);
        assert(raw_block(e, off, grp(p + i), bno(p + i)) == raw_block(d, off, grp(p + i), bno(p + i)));
    }
}
proof fn lemma_same_group(d: Seq<u8>, e: Seq<u8>, off: int, k: int)
    requires 0 <= off, 0 <= k, off + (k + 1) * 0x200000 <= d.len() <= e.len(), forall|i: int| off <= i < d.len() ==> e[i] == d[i],
    ensures forall|b: int| 0 <= b < 64 ==> #[trigger] raw_block(e, off, k, b) == raw_block(d, off, k, b),
{
    assert forall|b: int| 0 <= b < 64 implies #[trigger] raw_block(e, off, k, b) == raw_block(d, off, k, b) by {
        assert(raw_block(e, off, k, b) =~= raw_block(d, off, k, b));
    }
}
pub broadcast proof fn lemma_hashed_write(d: Seq<u8>, off: int, key: Seq<u8>, h3: Seq<u8>, n: int, q: int, x: Seq<u8>)
    requires #[trigger] all_hashed(d, off, key, h3, n), 0 <= q, q + x.len() <= off,
    ensures all_hashed(#[trigger] write_at(d, q, x), off, key, h3, n),
{
    reveal(all_hashed);
    let e = write_at(d, q, x);
    assert forall|g: int| 0 <= g < n implies #[trigger] group_hashed(e, off, key, h3, g) by {
        assert(group_hashed(d, off, key, h3, g));
        let gr = choose|gr: Seq<u8>| #[trigger] group_is(d, off, key, g, gr) && h3.subrange(20 * g, 20 * g + 20) == sha1(h2_of(gr));
        lemma_same_group(d, e, off, g);
        assert forall|b: int| 0 <= b < 64 implies #[trigger] raw_block(e, off, g, b) == stored_block(gr, key, b) by {
            assert(raw_block(d, off, g, b) == stored_block(gr, key, b));
        }
        assert(group_is(e, off, key, g, gr));
    }
}
proof fn lemma_fresh(v: Wv, p: int)
    requires v.inner.current_group is None, 0 <= p, p <= wroom(v), sound(v), grp(p) >= 1,
    ensures false,
{
    reveal(grp); reveal(wroom); reveal(sound);
}
}
pub use wview::*;
/// assumed: partitions are smaller than 4915 groups (where the global hash table ends, and `write` panics)
#[verifier::external_body]
pub fn vp_within(pos: u64, n: usize)
    ensures pos + n <= 4915 * 0x1f0000,
{ }
pub proof fn lemma_sound_inv<WS: Stream>(w: WiiEncryptedReadWriteStream<'_, WS>)
    requires sound(wv(w)),
    ensures w.inner.inv(wv(w).d), w.inner.open_mode == (OpenMode::ReadWrite { max_group: None }), w.inner.h3 is Some,
{
    reveal(sound);
    let (i, j, d) = (wv(w).inner, w.inner, wv(w).d);
    assert(i.inv(d));
    assert(i.group_cache == j.group_cache && i.encryption_key == j.encryption_key && i.data_offset == j.data_offset && i.current_group == j.current_group);
    if j.current_group is Some && !j.is_dirty {
        assert forall|b: int| 0 <= b < 64 implies #[trigger] wcached(j.group_cache@, j.encryption_key@, d, j.data_offset as int, j.current_group->Some_0 as int, b) by {
            assert(wcached(i.group_cache@, i.encryption_key@, d, i.data_offset as int, i.current_group->Some_0 as int, b));
        }
    }
}
impl<'w, WS: Stream> Sink for WiiEncryptedReadWriteStream<'w, WS> {
    open spec fn ready(&self) -> bool {
        (*self.file).wf() && (*self.file).top() >= 0x20_0000_0000 && sound(wv(*self)) && self.inner.current_position <= wroom(wv(*self))
    }
    open spec fn place(&self) -> int { self.inner.current_position as int }
    #[verifier::prophetic]
    open spec fn linked(a: Self, b: Self) -> bool {
        *final(b.file) == *final(a.file) && (*b.file).top() == (*a.file).top() && (*b.file).refs() == (*a.file).refs()
    }
    #[verifier::prophetic]
    open spec fn put(a: Self, b: Self, x: Seq<u8>) -> bool {
        b.ready() && Self::linked(a, b) && b.inner.current_position == a.inner.current_position + x.len()
        && wput(wv(a), wv(b), a.inner.current_position as int, x)
    }
    proof fn lemma_put(a: Self, b: Self, c: Self, x: Seq<u8>, y: Seq<u8>) {
        lemma_put_put(wv(a), wv(b), wv(c), a.inner.current_position as int, x, y);
    }
    proof fn lemma_linked(a: Self, b: Self, c: Self) {}
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) {
        let mut done: usize = 0;
        proof { lemma_put_nothing(wv(*self), self.inner.current_position as int); }
        while done < buf.len()
            invariant
                done == 0 ==> *self == *old(self),
                Self::linked(*old(self), *self), old(self).ready(),
                done <= buf@.len(), done == 0 || done == buf@.len(),
                done == buf@.len() && done > 0 ==> self.ready() && Self::put(*old(self), *self, buf@),
            decreases buf@.len() - done,
        {
            vp_within(self.inner.current_position, buf.len());
            proof { assert(buf@.subrange(0, buf@.len() as int) =~= buf@); lemma_sound_inv(*self); }
            let ghost w0 = *self;
            let n = match self.write(&buf[done..]) { Ok(n) => n, Err(e) => { return Err(e); } };
            if n == 0 { return Err(io::Error { kind: io::ErrorKind::Other }); }
            done = done + n;
            proof {
                let (a, b, p) = (wv(w0), wv(*self), w0.inner.current_position as int);
                lemma_written(a, b, p, buf@);
                lemma_wput(a, b, p, buf@);
            }
        }
        assert(buf@.len() == 0 ==> buf@ =~= Seq::empty());
        Ok(())
    }
}
} // verus!
