verus! {
//@ const lib.rs BLOCK_SIZE
//@ const lib.rs BLOCK_DATA_OFFSET
//@ const lib.rs BLOCK_DATA_SIZE
//@ const lib.rs GROUP_SIZE
//@ const lib.rs GROUP_DATA_SIZE

/// the data of one block of 0x8000 bytes as stored: encrypted with the IV found in its header
pub open spec fn block_plain(key: Seq<u8>, raw: Seq<u8>) -> Seq<u8> {
    cbc_dec(key, raw.subrange(0x3d0, 0x3e0), raw.subrange(0x400, 0x8000))
}
/// block `b` of group `g` of the partition data starting at `off` of `d`
pub open spec fn raw_block(d: Seq<u8>, off: int, g: int, b: int) -> Seq<u8> {
    d.subrange(off + g * 0x200000 + b * 0x8000, off + g * 0x200000 + b * 0x8000 + 0x8000)
}
/// the byte at position `p` of the decrypted partition
#[verifier::opaque]
pub open spec fn plain_byte(d: Seq<u8>, off: int, key: Seq<u8>, p: int) -> u8 {
    block_plain(key, raw_block(d, off, p / 0x1f0000, (p % 0x1f0000) / 0x7c00))[p % 0x7c00]
}
pub open spec fn plain_seq(d: Seq<u8>, off: int, key: Seq<u8>, p: int, n: int) -> Seq<u8> {
    Seq::new(n as nat, |i: int| plain_byte(d, off, key, p + i))
}
/// the first `n` bytes of `b` are the plaintext at `p`
pub open spec fn is_plain(d: Seq<u8>, off: int, key: Seq<u8>, p: int, b: Seq<u8>, n: int) -> bool {
    forall|i: int| 0 <= i < n ==> #[trigger] b[i] == plain_byte(d, off, key, p + i)
}

/// block `m` counted through all groups, and a place in it
pub proof fn lemma_place(m: int, r: int)
    requires 0 <= m, 0 <= r < 0x7c00,
    ensures
        (m * 0x7c00 + r) % 0x7c00 == r,
        (m * 0x7c00 + r) / 0x1f0000 == m / 64,
        ((m * 0x7c00 + r) % 0x1f0000) / 0x7c00 == m % 64,
{
    let p = m * 0x7c00 + r;
    let x = m / 64;
    let y = m % 64;
    assert(p == 0x1f0000 * x + (0x7c00 * y + r) && 0 <= 0x7c00 * y + r < 0x1f0000);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, 0x1f0000, x, 0x7c00 * y + r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(0x7c00 * y + r, 0x7c00, y, r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, 0x7c00, m, r);
}
pub proof fn lemma_plain_byte(d: Seq<u8>, off: int, key: Seq<u8>, p: int, i: int)
    requires 0 <= p, 0 <= i, p % 0x7c00 + i < 0x7c00,
    ensures plain_byte(d, off, key, p + i) == block_plain(key, raw_block(d, off, p / 0x1f0000, (p % 0x1f0000) / 0x7c00))[p % 0x7c00 + i],
{
    reveal(plain_byte);
    let m = p / 0x7c00;
    let r = p % 0x7c00;
    assert(p == m * 0x7c00 + r);
    lemma_place(m, r);
    lemma_place(m, r + i);
    assert(p + i == m * 0x7c00 + (r + i));
}
/// a piece of one block extends what was read
pub proof fn lemma_plain_extend(d: Seq<u8>, off: int, key: Seq<u8>, p0: int, n: int, c: int, piece: Seq<u8>)
    requires
        0 <= p0, 0 <= n, 0 <= c, (p0 + n) % 0x7c00 + c <= 0x7c00,
        block_plain(key, raw_block(d, off, (p0 + n) / 0x1f0000, ((p0 + n) % 0x1f0000) / 0x7c00)).len() == 0x7c00,
        piece == block_plain(key, raw_block(d, off, (p0 + n) / 0x1f0000, ((p0 + n) % 0x1f0000) / 0x7c00)).subrange((p0 + n) % 0x7c00, (p0 + n) % 0x7c00 + c),
    ensures
        plain_seq(d, off, key, p0, n) + piece == plain_seq(d, off, key, p0, n + c),
{
    assert forall|i: int| 0 <= i < c implies piece[i] == plain_byte(d, off, key, p0 + n + i) by {
        lemma_plain_byte(d, off, key, p0 + n, i);
    }
    assert(plain_seq(d, off, key, p0, n) + piece =~= plain_seq(d, off, key, p0, n + c));
}

/// position `p` of the decrypted data is byte `o` of block `b` of group `g`
#[verifier::opaque]
pub open spec fn geo(p: int, g: int, b: int, o: int) -> bool {
    g == p / 0x1f0000 && b == (p % 0x1f0000) / 0x7c00 && o == p % 0x7c00
}
/// `size` rounded up to whole blocks
#[verifier::opaque]
pub open spec fn whole(size: int) -> int { (size + 0x7bff) / 0x7c00 * 0x7c00 }
pub proof fn lemma_geo_range(p: int, g: int, b: int, o: int)
    requires 0 <= p, geo(p, g, b, o),
    ensures 0 <= b < 64, 0 <= o < 0x7c00, 0 <= g, p < 0x10_0000_0000 ==> g < 0x1_0000,
{
    reveal(geo);
}
pub proof fn lemma_geo_next(p: int, g: int, b: int, o: int)
    requires 0 <= p, geo(p, g, b, o),
    ensures
        b != 63 ==> geo(p + 0x7c00 - o, g, b + 1, 0),
        b == 63 ==> geo(p + 0x7c00 - o, g + 1, 0, 0),
{
    reveal(geo);
    let m = p / 0x7c00;
    assert(p == m * 0x7c00 + o);
    lemma_place(m, o);
    lemma_place(m + 1, 0);
    assert(p + 0x7c00 - o == (m + 1) * 0x7c00 + 0);
}
pub proof fn lemma_whole(size: int, p: int, g: int, b: int, o: int, c: int)
    requires 0 <= p < size, geo(p, g, b, o), c <= 0x7c00 - o,
    ensures p + c <= whole(size),
{
    reveal(geo);
    reveal(whole);
}
pub proof fn lemma_plain_grow(d: Seq<u8>, off: int, key: Seq<u8>, p0: int, n: int, c: int, g: int, b: int, o: int, piece: Seq<u8>)
    requires
        0 <= p0, 0 <= n, 0 <= c, geo(p0 + n, g, b, o), o + c <= 0x7c00,
        block_plain(key, raw_block(d, off, g, b)).len() == 0x7c00,
        piece == block_plain(key, raw_block(d, off, g, b)).subrange(o, o + c),
    ensures
        plain_seq(d, off, key, p0, n) + piece == plain_seq(d, off, key, p0, n + c),
{
    reveal(geo);
    lemma_plain_extend(d, off, key, p0, n, c, piece);
}
} // verus!
