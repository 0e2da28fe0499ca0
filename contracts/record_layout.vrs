verus! {
// ---- the layouts of the format, written down by hand ----------------------------------------------
// lay_X(d, p, v): the bytes of `d` from `p` on are the record `v`
pub open spec fn b1(d: Seq<u8>, p: int, x: u8) -> bool { d[p] == x }
pub open spec fn b2(d: Seq<u8>, p: int, x: u16) -> bool { be16(d, p) == x }
pub open spec fn b4(d: Seq<u8>, p: int, x: u32) -> bool { be32(d, p) == x }
pub open spec fn b8(d: Seq<u8>, p: int, x: u64) -> bool { be64(d, p) == x }
pub open spec fn bs(d: Seq<u8>, p: int, x: Seq<u8>) -> bool { d.subrange(p, p + x.len()) == x }
/// an offset, stored shifted right by two
pub open spec fn b4s(d: Seq<u8>, p: int, x: ShiftedU64) -> bool { 4 * be32(d, p) == x.0 }
pub open spec fn off_ok(x: ShiftedU64) -> bool { x.0 % 4 == 0 && x.0 < 0x4_0000_0000 }

pub open spec fn sig_code(s: SigType) -> u32 { match s { SigType::Rsa4096 => 0x10000u32, SigType::Rsa2048 => 0x10001u32, SigType::EllipticalCurve => 0x10002u32 } }
pub open spec fn key_code(s: KeyType) -> u32 { match s { KeyType::Rsa4096 => 0u32, KeyType::Rsa2048 => 1u32 } }
pub open spec fn part_code(s: WiiPartType) -> u32 { match s { WiiPartType::Data => 0u32, WiiPartType::Update => 1u32, WiiPartType::Channel => 2u32 } }
pub open spec fn sig_len(s: SigType) -> int { match s { SigType::Rsa4096 => 0x200, SigType::Rsa2048 => 0x100, SigType::EllipticalCurve => 0x40 } }
pub open spec fn key_len(s: KeyType) -> int { match s { KeyType::Rsa4096 => 0x200, KeyType::Rsa2048 => 0x100 } }

pub open spec fn lay_entry(d: Seq<u8>, p: int, v: WiiPartTableEntry) -> bool {
    0 <= p && p + 8 <= d.len() && b4s(d, p, v.part_data_off) && b4(d, p + 4, part_code(v.part_type))
}
pub open spec fn lay_disc(d: Seq<u8>, p: int, v: DiscHeader) -> bool {
    0 <= p && p + 0x43c <= d.len()
    && bs(d, p, v.game_id@) && b1(d, p + 6, v.disc_num) && b1(d, p + 7, v.disc_version)
    && b1(d, p + 8, v.audio_streaming) && b1(d, p + 9, v.audio_stream_buf_size)
    && b4(d, p + 0x18, v.wii_magic) && b4(d, p + 0x1c, v.gcn_magic)
    && title_ok(v.game_title@) && bs(d, p + 0x20, rec_utf8(v.game_title@)) && d[p + 0x20 + rec_utf8(v.game_title@).len()] == 0u8
    && b1(d, p + 0x60, v.disable_hash_verification) && b1(d, p + 0x61, v.disable_disc_enc)
    && b4(d, p + 0x400, v.debug_mon_off) && b4(d, p + 0x404, v.debug_load_addr)
    && b4s(d, p + 0x420, v.dol_off) && b4s(d, p + 0x424, v.fst_off) && b4s(d, p + 0x428, v.fst_sz) && b4s(d, p + 0x42c, v.fst_max_sz)
    && b4(d, p + 0x430, v.fst_memory_address) && b4(d, p + 0x434, v.user_position) && b4(d, p + 0x438, v.user_sz)
}
pub open spec fn disc_ok(v: DiscHeader) -> bool { title_ok(v.game_title@) && off_ok(v.dol_off) && off_ok(v.fst_off) && off_ok(v.fst_sz) && off_ok(v.fst_max_sz) }

pub open spec fn lay_limit(d: Seq<u8>, p: int, v: TicketTimeLimit) -> bool { b4(d, p, v.enable_time_limit) && b4(d, p + 4, v.time_limit) }
pub open spec fn lay_ticket(d: Seq<u8>, p: int, v: Ticket) -> bool {
    0 <= p && p + 0x2a4 <= d.len()
    && b4(d, p, sig_code(v.sig_type)) && bs(d, p + 4, v.sig@) && bs(d, p + 0x140, v.sig_issuer@) && bs(d, p + 0x180, v.ecdh@)
    && v.common_key_idx < 2 && v.title_key@ == cbc_dec(common_key(v.common_key_idx as int), key_iv(v.title_id@), d.subrange(p + 0x1bf, p + 0x1cf))
    && bs(d, p + 0x1d0, v.ticket_id@) && bs(d, p + 0x1d8, v.console_id@) && bs(d, p + 0x1dc, v.title_id@)
    && b2(d, p + 0x1e4, v.unk) && b2(d, p + 0x1e6, v.ticket_version) && b4(d, p + 0x1e8, v.permitted_titles_mask) && b4(d, p + 0x1ec, v.permit_mask)
    && b1(d, p + 0x1f0, v.title_export_allowed) && b1(d, p + 0x1f1, v.common_key_idx) && bs(d, p + 0x222, v.content_access_permissions@)
    && b2(d, p + 0x262, v.unk2)
    && (forall|i: int| 0 <= i < 8 ==> #[trigger] lay_limit(d, p + 0x264 + 8 * i, v.time_limits@[i]))
}
/// the title key as stored
pub open spec fn key_stored(d: Seq<u8>, p: int, v: Ticket) -> bool {
    d.subrange(p + 0x1bf, p + 0x1cf) == cbc_enc(common_key(v.common_key_idx as int), key_iv(v.title_id@), v.title_key@)
}
pub open spec fn lay_phdr(d: Seq<u8>, p: int, v: WiiPartitionHeader) -> bool {
    0 <= p && p + 0x2c0 <= d.len()
    && lay_ticket(d, p, v.ticket) && b4(d, p + 0x2a4, v.tmd_size) && b4s(d, p + 0x2a8, v.tmd_off) && b4(d, p + 0x2ac, v.cert_chain_size)
    && b4s(d, p + 0x2b0, v.cert_chain_off) && b4s(d, p + 0x2b4, v.global_hash_table_off) && b4s(d, p + 0x2b8, v.data_off) && b4s(d, p + 0x2bc, v.data_size)
}
pub open spec fn phdr_ok(v: WiiPartitionHeader) -> bool {
    v.ticket.common_key_idx < 2 && off_ok(v.tmd_off) && off_ok(v.cert_chain_off) && off_ok(v.global_hash_table_off) && off_ok(v.data_off) && off_ok(v.data_size)
}
pub open spec fn lay_content(d: Seq<u8>, p: int, v: TMDContent) -> bool {
    b4(d, p, v.id) && b2(d, p + 4, v.index) && b2(d, p + 6, v.content_type) && b8(d, p + 8, v.size) && bs(d, p + 0x10, v.hash@)
}
pub open spec fn tmd_size(v: TMD) -> int { 0x1e4 + 36 * v.contents@.len() as int }
pub open spec fn lay_tmd(d: Seq<u8>, p: int, v: TMD) -> bool {
    0 <= p && p + 0x1e2 <= d.len() && (v.contents@.len() > 0 ==> p + tmd_size(v) <= d.len()) && v.contents@.len() < 0x1_0000
    && b4(d, p, sig_code(v.sig_type)) && bs(d, p + 4, v.sig@) && bs(d, p + 0x140, v.sig_issuer@)
    && b1(d, p + 0x180, v.version) && b1(d, p + 0x181, v.ca_crl_version) && b1(d, p + 0x182, v.signer_crl_version)
    && b4(d, p + 0x184, v.ios_id_major) && b4(d, p + 0x188, v.ios_id_minor) && b4(d, p + 0x18c, v.title_id_major) && bs(d, p + 0x190, v.title_id_minor@)
    && b4(d, p + 0x194, v.title_type) && b2(d, p + 0x198, v.group_id)
    && (forall|i: int| 0 <= i < 7 ==> #[trigger] b8(d, p + 0x19a + 8 * i, v.fakesign_padding@[i]))
    && b4(d, p + 0x1d8, v.access_flags) && b2(d, p + 0x1dc, v.title_version) && b2(d, p + 0x1de, v.contents@.len() as u16) && b2(d, p + 0x1e0, v.boot_idx)
    && (forall|i: int| 0 <= i < v.contents@.len() ==> #[trigger] lay_content(d, p + 0x1e4 + 36 * i, v.contents@[i]))
}
pub open spec fn cert_size(v: Certificate) -> int { 0x100 + sig_len(v.sig_type) + key_len(v.key_type) }
pub open spec fn lay_cert(d: Seq<u8>, p: int, v: Certificate) -> bool {
    let s = v.sig@.len();
    let k = v.key@.len();
    0 <= p && p + 0xcc + s + k <= d.len() && s == sig_len(v.sig_type) && k == key_len(v.key_type)
    && b4(d, p, sig_code(v.sig_type)) && bs(d, p + 4, v.sig@) && bs(d, p + s + 0x40, v.issuer@) && b4(d, p + s + 0x80, key_code(v.key_type))
    && bs(d, p + s + 0x84, v.subject@) && bs(d, p + s + 0xc4, v.key@) && b4(d, p + s + k + 0xc4, v.modulus) && b4(d, p + s + k + 0xc8, v.pub_exp)
}
pub open spec fn cert_ok(v: Certificate) -> bool { v.sig@.len() == sig_len(v.sig_type) && v.key@.len() == key_len(v.key_type) }
pub open spec fn lay_dol(d: Seq<u8>, p: int, v: DOLHeader) -> bool {
    0 <= p && p + 0xe4 <= d.len()
    && (forall|i: int| 0 <= i < 7 ==> #[trigger] b4(d, p + 4 * i, v.text_off@[i]))
    && (forall|i: int| 0 <= i < 11 ==> #[trigger] b4(d, p + 0x1c + 4 * i, v.data_off@[i]))
    && (forall|i: int| 0 <= i < 7 ==> #[trigger] b4(d, p + 0x48 + 4 * i, v.text_starts@[i]))
    && (forall|i: int| 0 <= i < 11 ==> #[trigger] b4(d, p + 0x64 + 4 * i, v.data_starts@[i]))
    && (forall|i: int| 0 <= i < 7 ==> #[trigger] b4(d, p + 0x90 + 4 * i, v.text_sizes@[i]))
    && (forall|i: int| 0 <= i < 11 ==> #[trigger] b4(d, p + 0xac + 4 * i, v.data_sizes@[i]))
    && b4(d, p + 0xd8, v.bss_start) && b4(d, p + 0xdc, v.bss_size) && b4(d, p + 0xe0, v.entry_point)
}
pub open spec fn lay_appl(d: Seq<u8>, p: int, v: ApploaderHeader) -> bool {
    0 <= p && p + 0x1c <= d.len() && b4(d, p + 0x14, v.size1) && b4(d, p + 0x18, v.size2)
}

// ---- what the attributes declare is that layout ----------------------------------------------------
pub proof fn lemma_be32_range(d: Seq<u8>, p: int)
    ensures 0 <= be32(d, p) < 0x1_0000_0000,
{
}
pub proof fn theorem_shifted(x: u32, y: u64)
    ensures ShiftedU64_0_br(x) == 4 * x, y % 4 == 0 && y < 0x4_0000_0000 ==> 4 * ShiftedU64_0_bw(y) == y,
{
    assert(((x as u64) << 2) == 4 * (x as u64)) by (bit_vector);
    assert(y % 4 == 0 && y < 0x4_0000_0000 ==> 4 * (((y >> 2) as u32) as u64) == y) by (bit_vector);
}
pub proof fn lemma_off_read(d: Seq<u8>, p: int, v: ShiftedU64)
    requires 0 <= p,
    ensures ShiftedU64::parses(d, p, v, 4) <==> (p + 4 <= d.len() && b4s(d, p, v)),
{
    lemma_be32_range(d, p);
    theorem_shifted(be32(d, p) as u32, 0);
}
pub proof fn lemma_off_written(d: Seq<u8>, p: int, v: ShiftedU64)
    requires 0 <= p, p + 4 <= d.len(), off_ok(v), v.writes(d.subrange(p, p + 4)),
    ensures b4s(d, p, v),
{
    theorem_shifted(0, v.0);
}
pub proof fn theorem_entry(d: Seq<u8>, p: int, v: WiiPartTableEntry, n: int, b: Seq<u8>)
    ensures
        WiiPartTableEntry::parses(d, p, v, n) <==> lay_entry(d, p, v) && n == 8,
        v.writes(b) && off_ok(v.part_data_off) ==> lay_entry(b, 0, v) && b.len() == 8,
{
    if 0 <= p { lemma_off_read(d, p, v.part_data_off); }
    if v.writes(b) && off_ok(v.part_data_off) { lemma_off_written(b, 0, v.part_data_off); }
}
pub proof fn lemma_title(d: Seq<u8>, q: int, s: Seq<char>)
    requires title_ok(s), 0 <= q, q + rec_utf8(s).len() < d.len(), bs(d, q, rec_utf8(s)), d[q + rec_utf8(s).len()] == 0u8,
    ensures text_read(d, q, s), cstr_over(d, q, 0x40) == 0, cstr_len(d, q) == rec_utf8(s).len(),
{
    let e = rec_utf8(s);
    axiom_rec_utf8_nulfree(s);
    axiom_rec_utf8(s);
    assert forall|i: int| q <= i < q + e.len() implies #[trigger] d[i] != 0u8 by { assert(d[i] == d.subrange(q, q + e.len())[i - q]); }
    assert(is_cstr_len(d, q, e.len() as int));
    lemma_cstr_len(d, q, e.len() as int);
    assert(s == rec_lossy(d.subrange(q, q + e.len())));
}
/// a title that was read and fits, and is UTF-8
pub open spec fn title_read(d: Seq<u8>, q: int) -> bool {
    exists|n: int| #[trigger] is_cstr_len(d, q, n) && n <= 63 && is_utf8(d.subrange(q, q + n))
}
pub open spec fn is_utf8(b: Seq<u8>) -> bool { exists|s: Seq<char>| #[trigger] rec_utf8(s) == b && (forall|i: int| 0 <= i < s.len() ==> s[i] != '\0') }
pub proof fn theorem_disc_read(d: Seq<u8>, p: int, v: DiscHeader, n: int)
    requires 0 <= p, title_read(d, p + 0x20), DiscHeader::parses(d, p, v, n),
    ensures lay_disc(d, p, v), n == 0x440,
{
    let m = choose|m: int| #[trigger] is_cstr_len(d, p + 0x20, m) && m <= 63 && is_utf8(d.subrange(p + 0x20, p + 0x20 + m));
    lemma_cstr_len(d, p + 0x20, m);
    let s = choose|s: Seq<char>| #[trigger] rec_utf8(s) == d.subrange(p + 0x20, p + 0x20 + m) && (forall|i: int| 0 <= i < s.len() ==> s[i] != '\0');
    axiom_rec_utf8(s);
    let m2 = choose|m2: int| is_cstr_len(d, p + 0x20, m2) && v.game_title@ == rec_lossy(#[trigger] d.subrange(p + 0x20, p + 0x20 + m2));
    lemma_cstr_len(d, p + 0x20, m2);
    lemma_off_read(d, p + 0x420, v.dol_off);
    lemma_off_read(d, p + 0x424, v.fst_off);
    lemma_off_read(d, p + 0x428, v.fst_sz);
    lemma_off_read(d, p + 0x42c, v.fst_max_sz);
}
pub proof fn theorem_disc_lay(d: Seq<u8>, p: int, v: DiscHeader)
    requires lay_disc(d, p, v),
    ensures DiscHeader::parses(d, p, v, 0x440),
{
    lemma_title(d, p + 0x20, v.game_title@);
    lemma_off_read(d, p + 0x420, v.dol_off);
    lemma_off_read(d, p + 0x424, v.fst_off);
    lemma_off_read(d, p + 0x428, v.fst_sz);
    lemma_off_read(d, p + 0x42c, v.fst_max_sz);
}
pub proof fn theorem_disc_written(v: DiscHeader, b: Seq<u8>)
    requires v.writes(b), disc_ok(v),
    ensures lay_disc(b, 0, v), b.len() == 0x440,
{
    lemma_off_written(b, 0x420, v.dol_off);
    lemma_off_written(b, 0x424, v.fst_off);
    lemma_off_written(b, 0x428, v.fst_sz);
    lemma_off_written(b, 0x42c, v.fst_max_sz);
}
pub proof fn theorem_ticket(d: Seq<u8>, p: int, v: Ticket, n: int, b: Seq<u8>)
    ensures
        Ticket::parses(d, p, v, n) <==> lay_ticket(d, p, v) && n == 0x2a4,
        v.writes(b) ==> lay_ticket(b, 0, v) && key_stored(b, 0, v) && b.len() == 0x2a4,
{
    if Ticket::parses(d, p, v, n) || lay_ticket(d, p, v) {
        if lay_ticket(d, p, v) {
            assert forall|i: int| 0 <= i < 8 implies TicketTimeLimit::parses(d, p + 0x264 + 8 * i, #[trigger] v.time_limits@[i], 8) by { assert(lay_limit(d, p + 0x264 + 8 * i, v.time_limits@[i])); }
        }
        if Ticket::parses(d, p, v, n) {
            assert(TicketTimeLimit::parses(d, p + 0x264 + 8 * 7, v.time_limits@[7], 8));
            assert forall|i: int| 0 <= i < 8 implies #[trigger] lay_limit(d, p + 0x264 + 8 * i, v.time_limits@[i]) by { assert(TicketTimeLimit::parses(d, p + 0x264 + 8 * i, v.time_limits@[i], 8)); }
        }
    }
    if v.writes(b) {
        assert forall|i: int| 0 <= i < 8 implies #[trigger] lay_limit(b, 0x264 + 8 * i, v.time_limits@[i]) by {
            assert(v.time_limits@[i].writes(b.subrange(0x264 + 8 * i, 0x264 + 8 * i + 8)));
        }
    }
}
pub proof fn theorem_phdr(d: Seq<u8>, p: int, v: WiiPartitionHeader, n: int, b: Seq<u8>)
    ensures
        WiiPartitionHeader::parses(d, p, v, n) <==> lay_phdr(d, p, v) && n == 0x2c0,
        v.writes(b) && phdr_ok(v) ==> lay_phdr(b, 0, v) && key_stored(b, 0, v.ticket) && b.len() == 0x2c0,
{
    theorem_ticket(d, p, v.ticket, 0x2a4, b.subrange(0, 0x2a4));
    if 0 <= p {
        lemma_off_read(d, p + 0x2a8, v.tmd_off);
        lemma_off_read(d, p + 0x2b0, v.cert_chain_off);
        lemma_off_read(d, p + 0x2b4, v.global_hash_table_off);
        lemma_off_read(d, p + 0x2b8, v.data_off);
        lemma_off_read(d, p + 0x2bc, v.data_size);
    }
    if v.writes(b) && phdr_ok(v) {
        lemma_off_written(b, 0x2a8, v.tmd_off);
        lemma_off_written(b, 0x2b0, v.cert_chain_off);
        lemma_off_written(b, 0x2b4, v.global_hash_table_off);
        lemma_off_written(b, 0x2b8, v.data_off);
        lemma_off_written(b, 0x2bc, v.data_size);
        lemma_ticket_frame(b.subrange(0, 0x2a4), 0, b, 0, v.ticket);
    }
}
pub proof fn theorem_tmd(d: Seq<u8>, p: int, v: TMD, n: int, b: Seq<u8>)
    ensures
        TMD::parses(d, p, v, n) ==> lay_tmd(d, p, v) && n == tmd_size(v),
        lay_tmd(d, p, v) ==> TMD::parses(d, p, v, tmd_size(v)),
        v.writes(b) && v.contents@.len() < 0x1_0000 ==> lay_tmd(b, 0, v) && b.len() == tmd_size(v),
{
    let c = v.contents@;
    if TMD::parses(d, p, v, n) {
        assert forall|i: int| 0 <= i < 7 implies #[trigger] b8(d, p + 0x19a + 8 * i, v.fakesign_padding@[i]) by { assert(v.fakesign_padding@[i] == be64(d, p + 0x19a + 8 * i)); }
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] lay_content(d, p + 0x1e4 + 36 * i, c[i]) by { assert(TMDContent::parses(d, p + 0x1e4 + 36 * i, c[i], 36)); }
        if c.len() > 0 { assert(TMDContent::parses(d, p + 0x1e4 + 36 * (c.len() - 1), c[c.len() - 1], 36)); }
    }
    if lay_tmd(d, p, v) {
        assert forall|i: int| 0 <= i < 7 implies #[trigger] v.fakesign_padding@[i] == be64(d, p + 0x19a + 8 * i) by { assert(b8(d, p + 0x19a + 8 * i, v.fakesign_padding@[i])); }
        assert forall|i: int| 0 <= i < c.len() implies TMDContent::parses(d, p + 0x1e4 + 36 * i, #[trigger] c[i], 36) by { assert(lay_content(d, p + 0x1e4 + 36 * i, c[i])); }
    }
    if v.writes(b) && c.len() < 0x1_0000 {
        assert forall|i: int| 0 <= i < 7 implies #[trigger] b8(b, 0x19a + 8 * i, v.fakesign_padding@[i]) by { assert(v.fakesign_padding@[i] == be64(b, 0x19a + 8 * i)); }
        assert forall|i: int| 0 <= i < c.len() implies #[trigger] lay_content(b, 0x1e4 + 36 * i, c[i]) by {
            let x = b.subrange(0x1e4 + 36 * i, 0x1e4 + 36 * i + 36);
            assert(c[i].writes(x));
            assert(b.subrange(0x1e4 + 36 * i + 0x10, 0x1e4 + 36 * i + 0x24) =~= x.subrange(0x10, 0x24));
        }
    }
}
pub proof fn theorem_cert(d: Seq<u8>, p: int, v: Certificate, n: int, b: Seq<u8>)
    ensures
        Certificate::parses(d, p, v, n) <==> lay_cert(d, p, v) && n == cert_size(v),
        v.writes(b) && cert_ok(v) ==> lay_cert(b, 0, v) && b.len() == cert_size(v),
{
}
pub proof fn theorem_dol(d: Seq<u8>, p: int, v: DOLHeader, n: int, b: Seq<u8>)
    ensures
        DOLHeader::parses(d, p, v, n) <==> lay_dol(d, p, v) && n == 0xe4,
        v.writes(b) ==> lay_dol(b, 0, v) && b.len() == 0xe4,
{
    if lay_dol(d, p, v) {
        assert forall|i: int| 0 <= i < 7 implies #[trigger] v.text_off@[i] == be32(d, p + 4 * i) by { assert(b4(d, p + 4 * i, v.text_off@[i])); }
        assert forall|i: int| 0 <= i < 11 implies #[trigger] v.data_off@[i] == be32(d, p + 0x1c + 4 * i) by { assert(b4(d, p + 0x1c + 4 * i, v.data_off@[i])); }
        assert forall|i: int| 0 <= i < 7 implies #[trigger] v.text_starts@[i] == be32(d, p + 0x48 + 4 * i) by { assert(b4(d, p + 0x48 + 4 * i, v.text_starts@[i])); }
        assert forall|i: int| 0 <= i < 11 implies #[trigger] v.data_starts@[i] == be32(d, p + 0x64 + 4 * i) by { assert(b4(d, p + 0x64 + 4 * i, v.data_starts@[i])); }
        assert forall|i: int| 0 <= i < 7 implies #[trigger] v.text_sizes@[i] == be32(d, p + 0x90 + 4 * i) by { assert(b4(d, p + 0x90 + 4 * i, v.text_sizes@[i])); }
        assert forall|i: int| 0 <= i < 11 implies #[trigger] v.data_sizes@[i] == be32(d, p + 0xac + 4 * i) by { assert(b4(d, p + 0xac + 4 * i, v.data_sizes@[i])); }
    }
}
pub proof fn theorem_appl(d: Seq<u8>, p: int, v: ApploaderHeader, n: int, b: Seq<u8>)
    ensures
        ApploaderHeader::parses(d, p, v, n) <==> lay_appl(d, p, v) && n == 0x1c,
        v.writes(b) ==> lay_appl(b, 0, v) && b.len() == 0x1c,
{
}

// ---- a layout depends on its own bytes only --------------------------------------------------------
pub open spec fn copied(b: Seq<u8>, o: int, d: Seq<u8>, p: int, n: int) -> bool {
    0 <= o && 0 <= p && o + n <= b.len() && p + n <= d.len() && forall|i: int| 0 <= i < n ==> #[trigger] d[p + i] == b[o + i]
}
pub proof fn lemma_bs(b: Seq<u8>, o: int, d: Seq<u8>, p: int, n: int, q: int, k: int)
    requires copied(b, o, d, p, n), 0 <= q, 0 <= k, q + k <= n,
    ensures d.subrange(p + q, p + q + k) == b.subrange(o + q, o + q + k),
{
    let x = d.subrange(p + q, p + q + k);
    let y = b.subrange(o + q, o + q + k);
    assert forall|i: int| 0 <= i < k implies #[trigger] x[i] == y[i] by { assert(d[p + (q + i)] == b[o + (q + i)]); }
    assert(d.subrange(p + q, p + q + k) =~= b.subrange(o + q, o + q + k));
}
pub proof fn lemma_be(b: Seq<u8>, o: int, d: Seq<u8>, p: int, n: int, q: int)
    requires copied(b, o, d, p, n), 0 <= q,
    ensures q + 1 <= n ==> d[p + q] == b[o + q], q + 2 <= n ==> be16(d, p + q) == be16(b, o + q), q + 4 <= n ==> be32(d, p + q) == be32(b, o + q), q + 8 <= n ==> be64(d, p + q) == be64(b, o + q),
{
    if q + 1 <= n { assert(d[p + q] == b[o + q]); }
    if q + 2 <= n { assert(d[p + (q + 1)] == b[o + (q + 1)]); }
    if q + 4 <= n { assert(d[p + (q + 2)] == b[o + (q + 2)] && d[p + (q + 3)] == b[o + (q + 3)]); }
    if q + 8 <= n { assert(d[p + (q + 4)] == b[o + (q + 4)] && d[p + (q + 5)] == b[o + (q + 5)] && d[p + (q + 6)] == b[o + (q + 6)] && d[p + (q + 7)] == b[o + (q + 7)]); }
}
pub proof fn lemma_ticket_frame(b: Seq<u8>, o: int, d: Seq<u8>, p: int, v: Ticket)
    requires lay_ticket(b, o, v), copied(b, o, d, p, 0x2a4),
    ensures lay_ticket(d, p, v), key_stored(b, o, v) ==> key_stored(d, p, v),
{
    let n = 0x2a4;
    lemma_be(b, o, d, p, n, 0);
    lemma_bs(b, o, d, p, n, 4, 0x100);
    lemma_bs(b, o, d, p, n, 0x140, 0x40);
    lemma_bs(b, o, d, p, n, 0x180, 0x3c);
    lemma_bs(b, o, d, p, n, 0x1bf, 0x10);
    lemma_bs(b, o, d, p, n, 0x1d0, 8);
    lemma_bs(b, o, d, p, n, 0x1d8, 4);
    lemma_bs(b, o, d, p, n, 0x1dc, 8);
    lemma_be(b, o, d, p, n, 0x1e4);
    lemma_be(b, o, d, p, n, 0x1e6);
    lemma_be(b, o, d, p, n, 0x1e8);
    lemma_be(b, o, d, p, n, 0x1ec);
    lemma_be(b, o, d, p, n, 0x1f0);
    lemma_be(b, o, d, p, n, 0x1f1);
    lemma_bs(b, o, d, p, n, 0x222, 0x40);
    lemma_be(b, o, d, p, n, 0x262);
    assert forall|i: int| 0 <= i < 8 implies #[trigger] lay_limit(d, p + 0x264 + 8 * i, v.time_limits@[i]) by {
        assert(lay_limit(b, o + 0x264 + 8 * i, v.time_limits@[i]));
        lemma_be(b, o, d, p, n, 0x264 + 8 * i);
        lemma_be(b, o, d, p, n, 0x268 + 8 * i);
    }
}
pub proof fn lemma_phdr_frame(b: Seq<u8>, o: int, d: Seq<u8>, p: int, v: WiiPartitionHeader)
    requires lay_phdr(b, o, v), copied(b, o, d, p, 0x2c0),
    ensures lay_phdr(d, p, v), key_stored(b, o, v.ticket) ==> key_stored(d, p, v.ticket),
{
    lemma_ticket_frame(b, o, d, p, v.ticket);
    let n = 0x2c0;
    lemma_be(b, o, d, p, n, 0x2a4);
    lemma_be(b, o, d, p, n, 0x2a8);
    lemma_be(b, o, d, p, n, 0x2ac);
    lemma_be(b, o, d, p, n, 0x2b0);
    lemma_be(b, o, d, p, n, 0x2b4);
    lemma_be(b, o, d, p, n, 0x2b8);
    lemma_be(b, o, d, p, n, 0x2bc);
}
pub proof fn lemma_entry_frame(b: Seq<u8>, o: int, d: Seq<u8>, p: int, v: WiiPartTableEntry)
    requires lay_entry(b, o, v), copied(b, o, d, p, 8),
    ensures lay_entry(d, p, v),
{
    lemma_be(b, o, d, p, 8, 0);
    lemma_be(b, o, d, p, 8, 4);
}
pub proof fn lemma_disc_frame(b: Seq<u8>, o: int, d: Seq<u8>, p: int, v: DiscHeader)
    requires lay_disc(b, o, v), copied(b, o, d, p, 0x43c),
    ensures lay_disc(d, p, v),
{
    let n = 0x43c;
    let k = rec_utf8(v.game_title@).len() as int;
    lemma_bs(b, o, d, p, n, 0, 6);
    lemma_be(b, o, d, p, n, 6);
    lemma_be(b, o, d, p, n, 7);
    lemma_be(b, o, d, p, n, 8);
    lemma_be(b, o, d, p, n, 9);
    lemma_be(b, o, d, p, n, 0x18);
    lemma_be(b, o, d, p, n, 0x1c);
    lemma_bs(b, o, d, p, n, 0x20, k);
    lemma_be(b, o, d, p, n, 0x20 + k);
    lemma_be(b, o, d, p, n, 0x60);
    lemma_be(b, o, d, p, n, 0x61);
    lemma_be(b, o, d, p, n, 0x400);
    lemma_be(b, o, d, p, n, 0x404);
    lemma_be(b, o, d, p, n, 0x420);
    lemma_be(b, o, d, p, n, 0x424);
    lemma_be(b, o, d, p, n, 0x428);
    lemma_be(b, o, d, p, n, 0x42c);
    lemma_be(b, o, d, p, n, 0x430);
    lemma_be(b, o, d, p, n, 0x434);
    lemma_be(b, o, d, p, n, 0x438);
}
pub proof fn lemma_cert_frame(b: Seq<u8>, o: int, d: Seq<u8>, p: int, v: Certificate)
    requires lay_cert(b, o, v), copied(b, o, d, p, cert_size(v) - 52),
    ensures lay_cert(d, p, v),
{
    let n = cert_size(v) - 52;
    let s = v.sig@.len() as int;
    let k = v.key@.len() as int;
    lemma_be(b, o, d, p, n, 0);
    lemma_bs(b, o, d, p, n, 4, s);
    lemma_bs(b, o, d, p, n, s + 0x40, 0x40);
    lemma_be(b, o, d, p, n, s + 0x80);
    lemma_bs(b, o, d, p, n, s + 0x84, 0x40);
    lemma_bs(b, o, d, p, n, s + 0xc4, k);
    lemma_be(b, o, d, p, n, s + k + 0xc4);
    lemma_be(b, o, d, p, n, s + k + 0xc8);
}
pub proof fn lemma_tmd_frame(b: Seq<u8>, o: int, d: Seq<u8>, p: int, v: TMD)
    requires lay_tmd(b, o, v), copied(b, o, d, p, tmd_size(v)),
    ensures lay_tmd(d, p, v),
{
    let n = tmd_size(v);
    lemma_be(b, o, d, p, n, 0);
    lemma_bs(b, o, d, p, n, 4, 0x100);
    lemma_bs(b, o, d, p, n, 0x140, 0x40);
    lemma_be(b, o, d, p, n, 0x180);
    lemma_be(b, o, d, p, n, 0x181);
    lemma_be(b, o, d, p, n, 0x182);
    lemma_be(b, o, d, p, n, 0x184);
    lemma_be(b, o, d, p, n, 0x188);
    lemma_be(b, o, d, p, n, 0x18c);
    lemma_bs(b, o, d, p, n, 0x190, 4);
    lemma_be(b, o, d, p, n, 0x194);
    lemma_be(b, o, d, p, n, 0x198);
    assert forall|i: int| 0 <= i < 7 implies #[trigger] b8(d, p + 0x19a + 8 * i, v.fakesign_padding@[i]) by {
        assert(b8(b, o + 0x19a + 8 * i, v.fakesign_padding@[i]));
        lemma_be(b, o, d, p, n, 0x19a + 8 * i);
    }
    lemma_be(b, o, d, p, n, 0x1d8);
    lemma_be(b, o, d, p, n, 0x1dc);
    lemma_be(b, o, d, p, n, 0x1de);
    lemma_be(b, o, d, p, n, 0x1e0);
    assert forall|i: int| 0 <= i < v.contents@.len() implies #[trigger] lay_content(d, p + 0x1e4 + 36 * i, v.contents@[i]) by {
        assert(lay_content(b, o + 0x1e4 + 36 * i, v.contents@[i]));
        let q = 0x1e4 + 36 * i;
        lemma_be(b, o, d, p, n, q);
        lemma_be(b, o, d, p, n, q + 4);
        lemma_be(b, o, d, p, n, q + 6);
        lemma_be(b, o, d, p, n, q + 8);
        lemma_bs(b, o, d, p, n, q + 0x10, 0x14);
    }
}

// ---- the bytes determine the record ----------------------------------------------------------------
pub proof fn theorem_entry_unique(d: Seq<u8>, p: int, v: WiiPartTableEntry, w: WiiPartTableEntry)
    requires lay_entry(d, p, v), lay_entry(d, p, w),
    ensures v == w,
{
}
pub proof fn theorem_disc_unique(d: Seq<u8>, p: int, v: DiscHeader, w: DiscHeader)
    requires lay_disc(d, p, v), lay_disc(d, p, w),
    ensures
        v.game_id@ == w.game_id@, v.game_title@ == w.game_title@, v == (DiscHeader { game_id: v.game_id, game_title: v.game_title, ..w }),
{
    lemma_title(d, p + 0x20, v.game_title@);
    lemma_title(d, p + 0x20, w.game_title@);
    axiom_rec_utf8(v.game_title@);
    axiom_rec_utf8(w.game_title@);
    assert(rec_utf8(v.game_title@) =~= rec_utf8(w.game_title@));
    assert(v.game_id@ =~= w.game_id@);
}
pub open spec fn same_ticket(v: Ticket, w: Ticket) -> bool {
    v.sig_type == w.sig_type && v.sig@ == w.sig@ && v.sig_issuer@ == w.sig_issuer@ && v.ecdh@ == w.ecdh@ && v.ticket_id@ == w.ticket_id@
    && v.console_id@ == w.console_id@ && v.title_id@ == w.title_id@ && v.unk == w.unk && v.ticket_version == w.ticket_version
    && v.permitted_titles_mask == w.permitted_titles_mask && v.permit_mask == w.permit_mask && v.title_export_allowed == w.title_export_allowed
    && v.common_key_idx == w.common_key_idx && v.content_access_permissions@ == w.content_access_permissions@ && v.unk2 == w.unk2
    && v.time_limits@ == w.time_limits@ && v.title_key@ == w.title_key@
}
pub proof fn theorem_ticket_unique(d: Seq<u8>, p: int, v: Ticket, w: Ticket)
    requires lay_ticket(d, p, v), lay_ticket(d, p, w),
    ensures same_ticket(v, w),
{
    assert forall|i: int| 0 <= i < 8 implies #[trigger] v.time_limits@[i] == w.time_limits@[i] by {
        assert(lay_limit(d, p + 0x264 + 8 * i, v.time_limits@[i]));
        assert(lay_limit(d, p + 0x264 + 8 * i, w.time_limits@[i]));
    }
    assert(v.time_limits@ =~= w.time_limits@);
}
pub proof fn theorem_phdr_unique(d: Seq<u8>, p: int, v: WiiPartitionHeader, w: WiiPartitionHeader)
    requires lay_phdr(d, p, v), lay_phdr(d, p, w),
    ensures same_ticket(v.ticket, w.ticket), v == (WiiPartitionHeader { ticket: v.ticket, ..w }),
{
    theorem_ticket_unique(d, p, v.ticket, w.ticket);
}
pub open spec fn same_content(v: TMDContent, w: TMDContent) -> bool {
    v.id == w.id && v.index == w.index && v.content_type == w.content_type && v.size == w.size && v.hash@ == w.hash@
}
pub proof fn theorem_tmd_unique(d: Seq<u8>, p: int, v: TMD, w: TMD)
    requires lay_tmd(d, p, v), lay_tmd(d, p, w),
    ensures
        v.sig_type == w.sig_type, v.sig@ == w.sig@, v.sig_issuer@ == w.sig_issuer@, v.version == w.version, v.ca_crl_version == w.ca_crl_version,
        v.signer_crl_version == w.signer_crl_version, v.ios_id_major == w.ios_id_major, v.ios_id_minor == w.ios_id_minor, v.title_id_major == w.title_id_major,
        v.title_id_minor@ == w.title_id_minor@, v.title_type == w.title_type, v.group_id == w.group_id, v.fakesign_padding@ == w.fakesign_padding@,
        v.access_flags == w.access_flags, v.title_version == w.title_version, v.boot_idx == w.boot_idx, v.contents@.len() == w.contents@.len(),
        forall|i: int| 0 <= i < v.contents@.len() ==> same_content(#[trigger] v.contents@[i], w.contents@[i]),
{
    assert forall|i: int| 0 <= i < 7 implies #[trigger] v.fakesign_padding@[i] == w.fakesign_padding@[i] by {
        assert(b8(d, p + 0x19a + 8 * i, v.fakesign_padding@[i]));
        assert(b8(d, p + 0x19a + 8 * i, w.fakesign_padding@[i]));
    }
    assert(v.fakesign_padding@ =~= w.fakesign_padding@);
    assert forall|i: int| 0 <= i < v.contents@.len() implies same_content(#[trigger] v.contents@[i], w.contents@[i]) by {
        assert(lay_content(d, p + 0x1e4 + 36 * i, v.contents@[i]));
        assert(lay_content(d, p + 0x1e4 + 36 * i, w.contents@[i]));
    }
}
pub proof fn theorem_cert_unique(d: Seq<u8>, p: int, v: Certificate, w: Certificate)
    requires lay_cert(d, p, v), lay_cert(d, p, w),
    ensures
        v.sig_type == w.sig_type, v.sig@ == w.sig@, v.issuer@ == w.issuer@, v.key_type == w.key_type, v.subject@ == w.subject@, v.key@ == w.key@,
        v.modulus == w.modulus, v.pub_exp == w.pub_exp,
{
}
pub proof fn theorem_dol_unique(d: Seq<u8>, p: int, v: DOLHeader, w: DOLHeader)
    requires lay_dol(d, p, v), lay_dol(d, p, w),
    ensures
        v.text_off@ == w.text_off@, v.data_off@ == w.data_off@, v.text_starts@ == w.text_starts@, v.data_starts@ == w.data_starts@,
        v.text_sizes@ == w.text_sizes@, v.data_sizes@ == w.data_sizes@, v.bss_start == w.bss_start, v.bss_size == w.bss_size, v.entry_point == w.entry_point,
{
    theorem_dol(d, p, v, 0xe4, d);
    theorem_dol(d, p, w, 0xe4, d);
    assert(v.text_off@ =~= w.text_off@);
    assert(v.data_off@ =~= w.data_off@);
    assert(v.text_starts@ =~= w.text_starts@);
    assert(v.data_starts@ =~= w.data_starts@);
    assert(v.text_sizes@ =~= w.text_sizes@);
    assert(v.data_sizes@ =~= w.data_sizes@);
}
pub proof fn theorem_appl_unique(d: Seq<u8>, p: int, v: ApploaderHeader, w: ApploaderHeader)
    requires lay_appl(d, p, v), lay_appl(d, p, w),
    ensures v == w,
{
}
} // verus!
