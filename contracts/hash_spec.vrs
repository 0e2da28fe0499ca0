verus! {
// ---- the Wii hash tree, from the format description --------------------------------------------
/// block `b` of a group buffer
pub open spec fn blk(g: Seq<u8>, b: int) -> Seq<u8> { g.subrange(b * 0x8000, b * 0x8000 + 0x8000) }
/// its 0x7c00 bytes of data
pub open spec fn dat(g: Seq<u8>, b: int) -> Seq<u8> { blk(g, b).subrange(0x400, 0x8000) }
/// H0 table of a block: the hashes of its 31 pieces of 0x400 bytes
pub open spec fn h0_of(data: Seq<u8>) -> Seq<u8> {
    Seq::new(620, |i: int| sha1(data.subrange((i / 20) * 0x400, (i / 20) * 0x400 + 0x400))[i % 20])
}
/// H1 table of a subgroup: the hashes of the H0 tables of its 8 blocks
pub open spec fn h1_of(g: Seq<u8>, s: int) -> Seq<u8> {
    Seq::new(160, |i: int| sha1(h0_of(dat(g, s * 8 + i / 20)))[i % 20])
}
/// H2 table of a group: the hashes of the H1 tables of its 8 subgroups
pub open spec fn h2_of(g: Seq<u8>) -> Seq<u8> {
    Seq::new(160, |i: int| sha1(h1_of(g, i / 20))[i % 20])
}
/// the part of the header of block `b` that is written first
pub open spec fn head1_of(g: Seq<u8>, b: int) -> Seq<u8> {
    h0_of(dat(g, b)) + zeros(0x14) + h1_of(g, b / 8) + zeros(0x20)
}
/// the header of block `b`
pub open spec fn head_of(g: Seq<u8>, b: int) -> Seq<u8> {
    head1_of(g, b) + h2_of(g) + zeros(0x20)
}
/// block `b` as stored
pub open spec fn stored_block(g: Seq<u8>, key: Seq<u8>, b: int) -> Seq<u8> {
    let h = cbc_enc(key, zeros(16), head_of(g, b));
    h + cbc_enc(key, h.subrange(0x3d0, 0x3e0), dat(g, b))
}
} // verus!
