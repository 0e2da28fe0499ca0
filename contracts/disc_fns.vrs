//@ include disc_lists.vrs
//@ include certs.vrs
verus! {
impl BeRead for u32 {
    open spec fn parses(d: Seq<u8>, p: int, v: Self, n: int) -> bool { 0 <= p && p + 4 <= d.len() && v == be32(d, p) && n == 4 }
    open spec fn total() -> bool { true }
}
/// any stream the readers are given can be positioned anywhere the format can name
pub open spec fn roomy<S: Stream>(s: S) -> bool { s.wf() && s.top() == u64::MAX }
/// the bytes of `d` at `p` are the header `h` (the layout is `theorem_disc`'s)
pub open spec fn disc_at(d: Seq<u8>, p: int, h: DiscHeader) -> bool { exists|n: int| #[trigger] DiscHeader::parses(d, p, h, n) }
/// reading leaves the image alone
#[verifier::prophetic]
pub open spec fn left_alone<S: Stream>(a: S, b: S) -> bool { b.wf() && b.data() == a.data() && b.refs() == a.refs() && b.top() == a.top() }

//@ struct new_reader.rs WiiIsoReader
//@ struct new_reader.rs WiiPartitionReadInfo

//@ fn structs.rs WiiPartTableEntry::get_offset shifted
//@ spec
    ensures r == self.part_data_off.0,
//@ end
//@ fn structs.rs WiiPartTableEntry::get_type
//@ spec
    ensures r == self.part_type,
//@ end
//@ fn structs.rs read_u64_shifted try
//@ spec
    requires roomy(*old(r)),
    ensures
        left_alone(*old(r), *final(r)),
        res is Ok ==> (*old(r)).at() + 4 <= (*old(r)).data().len() && res->Ok_0 == 4 * be32((*old(r)).data(), (*old(r)).at() as int) && (*final(r)).at() == (*old(r)).at() + 4,
//@ ret res
//@ at start
    assert(forall|x: u32| #[trigger] ((x as u64) << 2) == 4 * (x as u64)) by (bit_vector);
//@ end

// ---- the partition tables -------------------------------------------------------------------------
pub open spec fn entry_ok(e: WiiPartTableEntry) -> bool { e.part_data_off.0 < 0x4_0000_0000 }
pub proof fn lemma_entry_ok(d: Seq<u8>, p: int, e: WiiPartTableEntry)
    requires lay_entry(d, p, e),
    ensures entry_ok(e),
{
    lemma_be32_range(d, p);
}
pub proof fn lemma_sum_mono(d: Seq<u8>, i: int, n: int)
    requires 0 <= i < n,
    ensures 0 <= table_sum(d, i), table_sum(d, i) + table_count(d, i) <= table_sum(d, n),
    decreases n,
{
    lemma_be32_range(d, 0x40000 + 8 * i);
    lemma_be32_range(d, 0x40000 + 8 * (n - 1));
    if i > 0 { lemma_sum_mono(d, i - 1, i); }
    if i < n - 1 { lemma_sum_mono(d, i, n - 1); }
}
pub proof fn lemma_lists_step(d: Seq<u8>, n: int, v: Seq<WiiPartTableEntry>, w: Seq<WiiPartTableEntry>)
    requires
        0 <= n, lists(d, n, v), v.is_prefix_of(w), w.len() == v.len() + table_count(d, n),
        forall|j: int| 0 <= j < table_count(d, n) ==> lay_entry(d, table_off(d, n) + 8 * j, #[trigger] w[v.len() + j]),
    ensures lists(d, n + 1, w),
{
    assert forall|i: int, j: int| #![trigger lay_entry(d, table_off(d, i) + 8 * j, w[table_sum(d, i) + j])]
        0 <= i < n + 1 && 0 <= j < table_count(d, i) implies lay_entry(d, table_off(d, i) + 8 * j, w[table_sum(d, i) + j]) by {
        if i < n {
            lemma_sum_mono(d, i, n);
            assert(lay_entry(d, table_off(d, i) + 8 * j, v[table_sum(d, i) + j]));
        }
    }
}

//@ fn structs.rs read_parts try
//@ ret res
//@ spec
    requires roomy(*old(r)),
    ensures
        left_alone(*old(r), *final(r)),
        res is Ok ==> 0x40020 <= (*old(r)).data().len() && lists((*old(r)).data(), 4, res->Ok_0@)
            && forall|i: int| 0 <= i < res->Ok_0@.len() ==> entry_ok(#[trigger] res->Ok_0@[i]),
//@ at start
    let ghost d = (*r).data();
//@ loop 0
    invariant
        left_alone(*old(r), *r), roomy(*r), d == (*r).data(),
        (*r).at() == 0x40000 + 8 * (vp_i as int), vp_i as int > 0 ==> 0x40000 + 8 * (vp_i as int) <= d.len(),
        lists(d, vp_i as int, parts@),
        forall|i: int| 0 <= i < parts@.len() ==> entry_ok(#[trigger] parts@[i]),
//@ at loop 0 start
    let ghost v0 = parts@;
    let ghost k = vp_i as int;
//@ loop 1
    invariant
        left_alone(*old(r), *r), roomy(*r), d == (*r).data(), 0 <= k < 4,
        part_count == table_count(d, k), offset == table_off(d, k),
        0 <= vp_i, (*r).at() == offset + 8 * vp_i,
        v0.is_prefix_of(parts@), parts@.len() == v0.len() + vp_i,
        forall|i: int| 0 <= i < parts@.len() ==> entry_ok(#[trigger] parts@[i]),
        forall|j: int| 0 <= j < vp_i ==> lay_entry(d, table_off(d, k) + 8 * j, #[trigger] parts@[v0.len() + j]),
//@ at loop 1 start
    let ghost p1 = parts@;
    proof {
        assert forall|e: WiiPartTableEntry, n: int| #[trigger] WiiPartTableEntry::parses(d, (*r).at() as int, e, n) implies lay_entry(d, (*r).at() as int, e) && n == 8 && entry_ok(e) by {
            theorem_entry(d, (*r).at() as int, e, n, Seq::empty());
            lemma_entry_ok(d, (*r).at() as int, e);
        }
    }
//@ at loop 1 end
    assert(parts@ =~= p1.push(parts@.last()));
//@ at loop 0 end
    proof { lemma_lists_step(d, k, v0, parts@); }
//@ end

// ---- opening --------------------------------------------------------------------------------------
//@ fn new_reader.rs WiiIsoReader::open try owned:rs
//@ spec
    requires roomy(rs),
    ensures
        r is Ok ==> left_alone(rs, r->Ok_0.file),
        r is Ok ==> disc_at(rs.data(), 0, r->Ok_0.header),
        r is Ok ==> 0x4e020 <= rs.data().len() && r->Ok_0.region@ == rs.data().subrange(0x4e000, 0x4e020),
        r is Ok ==> lists(rs.data(), 4, r->Ok_0.partitions@),
        r is Ok ==> (forall|i: int| 0 <= i < r->Ok_0.partitions@.len() ==> entry_ok(#[trigger] r->Ok_0.partitions@[i])),
//@ at start
    let ghost d = rs.data();
    let ghost rs0 = rs;
//@ at end
    assert(rs.at() == 0x4e020);
    assert(0x4e020 <= d.len());
    assert(region@ =~= d.subrange(0x4e000, 0x4e020));
    assert(left_alone(rs0, rs));
    assert(lists(d, 4, partitions@));
    assert(disc_at(d, 0, header));
//@ end
//@ fn new_reader.rs WiiIsoReader::partitions
//@ spec
    ensures r@ == self.partitions@,
//@ end
//@ fn new_reader.rs WiiIsoReader::get_header
//@ spec
    ensures *r == self.header,
//@ end
//@ fn new_reader.rs WiiIsoReader::get_region
//@ spec
    ensures *r == self.region,
//@ end

pub open spec fn hdr_offs_ok(h: DiscHeader) -> bool { h.dol_off.0 < 0x4_0000_0000 && h.fst_off.0 < 0x4_0000_0000 && h.fst_sz.0 < 0x4_0000_0000 }
/// `s` reads the partition whose header at `off` of `d` is `ph`
pub open spec fn state_of(s: EncryptedPartState, off: int, ph: WiiPartitionHeader) -> bool {
    s.data_offset == off + ph.data_off.0 && s.encryption_key@ == ph.ticket.title_key@ && s.data_size == ph.data_size.0
}
impl WiiPartitionReadInfo {
    /// the partition as it is in the image `d`
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        entry_ok(self.partition_entry)
        && lay_phdr(d, self.partition_entry.part_data_off.0 as int, self.wii_partition_header)
        && self.encrypt_part_state.inv(d) && state_of(self.encrypt_part_state, self.partition_entry.part_data_off.0 as int, self.wii_partition_header)
        && hdr_offs_ok(self.encrypted_header)
    }
    pub open spec fn same(&self, o: &Self) -> bool {
        self.partition_entry == o.partition_entry && self.wii_partition_header == o.wii_partition_header && self.encrypted_header == o.encrypted_header && self.fst == o.fst
        && self.encrypt_part_state.same_part(&o.encrypt_part_state)
    }
    /// the decrypted partition
    pub open spec fn plain(&self, d: Seq<u8>) -> Seq<u8> {
        plain_seq(d, self.encrypt_part_state.data_offset as int, self.encrypt_part_state.encryption_key@, 0, whole(self.encrypt_part_state.data_size as int))
    }
    /// `b` is the piece of the decrypted partition at `p`, `n` bytes or up to the end of the data
    pub open spec fn piece(&self, d: Seq<u8>, p: int, n: int, b: Seq<u8>) -> bool {
        b.len() <= n && (b.len() == n || p + b.len() >= self.encrypt_part_state.data_size)
        && b == plain_seq(d, self.encrypt_part_state.data_offset as int, self.encrypt_part_state.encryption_key@, p, b.len() as int)
    }
}
pub proof fn lemma_shifted_range(d: Seq<u8>, p: int)
    ensures 0 <= 4 * be32(d, p) < 0x4_0000_0000,
{ lemma_be32_range(d, p); }
pub proof fn lemma_phdr_range(d: Seq<u8>, p: int, h: WiiPartitionHeader)
    requires lay_phdr(d, p, h),
    ensures h.data_off.0 < 0x4_0000_0000, h.data_size.0 < 0x4_0000_0000, h.tmd_off.0 < 0x4_0000_0000, h.cert_chain_off.0 < 0x4_0000_0000,
{
    lemma_shifted_range(d, p + 0x2a8);
    lemma_shifted_range(d, p + 0x2b0);
    lemma_shifted_range(d, p + 0x2b8);
    lemma_shifted_range(d, p + 0x2bc);
}
pub proof fn lemma_disc_range(d: Seq<u8>, p: int, h: DiscHeader, n: int)
    requires 0 <= p, DiscHeader::parses(d, p, h, n),
    ensures hdr_offs_ok(h),
{
    assert(forall|x: u32| #[trigger] ((x as u64) << 2) == 4 * (x as u64)) by (bit_vector);
}

//@ fn new_reader.rs WiiIsoReader::open_partition try shifted owned:crypt_reader
//@ spec
    requires roomy(old(self).file), entry_ok(partition),
    ensures
        left_alone(old(self).file, final(self).file),
        final(self).header == old(self).header, final(self).region == old(self).region, final(self).partitions == old(self).partitions,
        r is Ok ==> ({
            let d = old(self).file.data();
            let p = r->Ok_0;
            p.inv(d) && p.partition_entry == partition
            && disc_at(p.plain(d), 0, p.encrypted_header)
            && readable(p.plain(d), p.encrypted_header.fst_off.0 as int, nvs(p.fst.entries@))
        }),
//@ at after wii_partition_header:WiiPartitionHeader=
    let ghost d = self.file.data();
    let ghost off = partition.part_data_off.0 as int;
    proof {
        let n = choose|n: int| #[trigger] WiiPartitionHeader::parses(d, off, wii_partition_header, n);
        theorem_phdr(d, off, wii_partition_header, n, Seq::empty());
        lemma_phdr_range(d, off, wii_partition_header);
    }
//@ at after encrypted_header:DiscHeader=
    proof {
        let n = choose|n: int| #[trigger] DiscHeader::parses(crypt_reader.plain(), 0, encrypted_header, n);
        lemma_disc_range(crypt_reader.plain(), 0, encrypted_header, n);
    }
//@ end

// ---- a partition ----------------------------------------------------------------------------------
//@ fn new_reader.rs WiiPartitionReadInfo::get_partition_header
//@ spec
    ensures *r == self.wii_partition_header,
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::get_partition_offset
//@ spec
    ensures r == self.partition_entry.part_data_off.0,
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::get_partition_type
//@ spec
    ensures r == self.partition_entry.part_type,
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::get_encrypted_header
//@ spec
    ensures *r == self.encrypted_header,
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::get_fst
//@ spec
    ensures *r == self.fst,
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::read_tmd try shifted
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures
        *final(self) == *old(self), left_alone(old(reader).file, final(reader).file),
        final(reader).header == old(reader).header, final(reader).region == old(reader).region, final(reader).partitions == old(reader).partitions,
        r is Ok ==> lay_tmd(old(reader).file.data(), old(self).partition_entry.part_data_off.0 + old(self).wii_partition_header.tmd_off.0, r->Ok_0),
//@ at start
    let ghost d = reader.file.data();
    let ghost q = self.partition_entry.part_data_off.0 + self.wii_partition_header.tmd_off.0;
    proof {
        lemma_phdr_range(d, self.partition_entry.part_data_off.0 as int, self.wii_partition_header);
        assert forall|t: TMD, n: int| #[trigger] TMD::parses(d, q, t, n) implies lay_tmd(d, q, t) by { theorem_tmd(d, q, t, n, Seq::empty()); }
    }
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::read_certificates try shifted
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures
        *final(self) == *old(self), left_alone(old(reader).file, final(reader).file),
        final(reader).header == old(reader).header, final(reader).region == old(reader).region, final(reader).partitions == old(reader).partitions,
        r is Ok ==> exists|n: int| #[trigger] <[Certificate; 3]>::parses(old(reader).file.data(), old(self).partition_entry.part_data_off.0 + old(self).wii_partition_header.cert_chain_off.0, r->Ok_0, n),
//@ at start
    proof { lemma_phdr_range(reader.file.data(), self.partition_entry.part_data_off.0 as int, self.wii_partition_header); }
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::get_crypto_reader
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures
        r.inv(), *r.rs == old(reader).file, *r.crypt_part_state == old(self).encrypt_part_state,
        final(reader).file == *final(r.rs), final(self).encrypt_part_state == *final(r.crypt_part_state),
        *final(reader) == (WiiIsoReader { file: final(reader).file, ..*old(reader) }),
        *final(self) == (WiiPartitionReadInfo { encrypt_part_state: final(self).encrypt_part_state, ..*old(self) }),
//@ end
//@ fn new_reader.rs CryptPartReader::into_window
//@ retty IOWindow<Self>
//@ spec
    requires self.inv(),
    ensures r.inv(), r.source == self, r.start == offset, r.length == length, r.pos == 0,
//@ end
/// a window on the decrypted partition, and what it leaves behind
#[verifier::prophetic]
pub open spec fn window_on<'a, RS: Stream>(w: IOWindow<CryptPartReader<'a, RS>>, p: WiiPartitionReadInfo, fp: WiiPartitionReadInfo, rd: WiiIsoReader<RS>, frd: WiiIsoReader<RS>, offset: int, length: Option<u64>) -> bool {
    w.inv() && w.pos == 0 && w.start == offset && w.length == length
    && w.source.plain() == p.plain(rd.file.data())
    && *w.source.rs == rd.file && *w.source.crypt_part_state == p.encrypt_part_state
    && frd.file == *final(w.source.rs) && fp.encrypt_part_state == *final(w.source.crypt_part_state)
    && frd == (WiiIsoReader { file: frd.file, ..rd }) && fp == (WiiPartitionReadInfo { encrypt_part_state: fp.encrypt_part_state, ..p })
}
//@ fn new_reader.rs WiiPartitionReadInfo::open_window
//@ retty IOWindow<CryptPartReader<'a, RS>>
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures window_on(r, *old(self), *final(self), *old(reader), *final(reader), offset as int, length),
//@ end
//@ fn new_reader.rs WiiPartitionReadInfo::open_file tryo
//@ retty Option<IOWindow<CryptPartReader<'a, RS>>>
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures ({
        let f = find(nvs(old(self).fst.entries@), parts(path@));
        (r is Some <==> f is Some && f->Some_0 is File)
        && (r is Some ==> window_on(r->Some_0, *old(self), *final(self), *old(reader), *final(reader), f->Some_0->File_offset, Some(f->Some_0->File_length as u64)))
        && (r is None ==> *final(self) == *old(self) && *final(reader) == *old(reader))
    }),
//@ end

// ---- the system parts of a partition ------------------------------------------------------------
impl<RS: Stream> WiiIsoReader<RS> {
    #[verifier::prophetic]
    pub open spec fn kept(&self, o: &Self) -> bool {
        left_alone(o.file, self.file) && self.header == o.header && self.region == o.region && self.partitions == o.partitions
    }
}
impl WiiPartitionReadInfo {
    /// `b` is the apploader: its header and both sizes that header states
    pub open spec fn is_appl(&self, d: Seq<u8>, b: Seq<u8>) -> bool {
        exists|h: ApploaderHeader| #[trigger] lay_appl(self.plain(d), 0x2440, h) && self.piece(d, 0x2440, 32 + h.size1 + h.size2, b)
    }
    /// `b` is the executable: from the recorded offset to the end of the last section
    pub open spec fn is_dol(&self, d: Seq<u8>, b: Seq<u8>) -> bool {
        let p = self.encrypted_header.dol_off.0 as int;
        exists|h: DOLHeader, n: int| #[trigger] lay_dol(self.plain(d), p, h) && #[trigger] dol_end(h, 18, n) && n < u32::MAX && self.piece(d, p, n, b)
    }
}
//@ fn new_reader.rs WiiPartitionReadInfo::read_bi2 try
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures
        final(reader).kept(old(reader)), final(self).same(old(self)), final(self).inv(old(reader).file.data()),
        r is Ok ==> old(self).piece(old(reader).file.data(), 0x440, 0x2000, r->Ok_0@),
//@ end
pub proof fn lemma_appl_read(d: Seq<u8>, p: int)
    ensures forall|h: ApploaderHeader, n: int| #[trigger] ApploaderHeader::parses(d, p, h, n) && 0 <= p ==> lay_appl(d, p, h),
{
    assert forall|h: ApploaderHeader, n: int| #[trigger] ApploaderHeader::parses(d, p, h, n) && 0 <= p implies lay_appl(d, p, h) by { theorem_appl(d, p, h, n, Seq::empty()); }
}
//@ fn new_reader.rs WiiPartitionReadInfo::read_apploader try owned:crypt_part_reader
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures
        final(reader).kept(old(reader)), final(self).same(old(self)), final(self).inv(old(reader).file.data()),
        r is Ok ==> old(self).is_appl(old(reader).file.data(), r->Ok_0@),
//@ at start
    proof { lemma_appl_read(self.plain(reader.file.data()), 0x2440); }
//@ end
/// where section `i` of the executable ends: the text sections, then the data sections; nothing for an empty section
pub open spec fn section_end(h: DOLHeader, i: int) -> int {
    if i < 7 { if h.text_sizes[i] > 0 { h.text_off[i] + h.text_sizes[i] } else { 0 } }
    else { if h.data_sizes[i - 7] > 0 { h.data_off[i - 7] + h.data_sizes[i - 7] } else { 0 } }
}
/// `n` is the end of the last section (of the first `k`), at least the header
pub open spec fn dol_end(h: DOLHeader, k: int, n: int) -> bool {
    n >= 0x100 && (forall|i: int| 0 <= i < k ==> #[trigger] section_end(h, i) <= n)
    && (n == 0x100 || exists|i: int| 0 <= i < k && #[trigger] section_end(h, i) == n)
}
//@ fn new_reader.rs WiiPartitionReadInfo::read_dol try shifted owned:crypt_part_reader
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()),
    ensures
        final(reader).kept(old(reader)), final(self).same(old(self)), final(self).inv(old(reader).file.data()),
        r is Ok ==> old(self).is_dol(old(reader).file.data(), r->Ok_0@),
//@ at start
    let ghost pl = self.plain(reader.file.data());
    let ghost q = self.encrypted_header.dol_off.0 as int;
    proof {
        assert forall|h: DOLHeader, n: int| #[trigger] DOLHeader::parses(pl, q, h, n) implies lay_dol(pl, q, h) by { theorem_dol(pl, q, h, n, Seq::empty()); }
    }
//@ loop 0
    invariant
        vp_k <= 18, vp_pairs@.len() == 18,
        forall|i: int| 0 <= i < 7 ==> *(#[trigger] vp_pairs@[i]).0 == dol_header.text_off[i] && *vp_pairs@[i].1 == dol_header.text_sizes[i],
        forall|i: int| 7 <= i < 18 ==> *(#[trigger] vp_pairs@[i]).0 == dol_header.data_off[i - 7] && *vp_pairs@[i].1 == dol_header.data_sizes[i - 7],
        dol_size == u32::MAX || dol_end(dol_header, vp_k as int, dol_size as int),
    decreases 18 - vp_k,
//@ at loop 0 start
    let ghost s0 = dol_size as int;
    let ghost k0 = vp_k as int;
//@ at loop 0 end
    proof {
        assert(section_end(dol_header, k0) <= dol_size || dol_size == u32::MAX);
        if dol_size == s0 && s0 > 0x100 && s0 < u32::MAX {
            let i = choose|i: int| 0 <= i < k0 && #[trigger] section_end(dol_header, i) == s0;
            assert(section_end(dol_header, i) == dol_size);
        }
    }
//@ end

pub proof fn lemma_write_empty()
    ensures forall|b: Seq<u8>| #[trigger] write_at(Seq::<u8>::empty(), 0, b) == b,
{
    assert forall|b: Seq<u8>| #[trigger] write_at(Seq::<u8>::empty(), 0, b) == b by { assert(write_at(Seq::<u8>::empty(), 0, b) =~= b); }
}
//@ fn new_reader.rs WiiPartitionReadInfo::extract_system_files::write_file
//@ spec
    requires may_write(joined(sys_folder@, filename@)),
    ensures r is Ok ==> stored(joined(sys_folder@, filename@), data@),
//@ at start
    proof { lemma_write_empty(); }
//@ end
#[verifier::inline]
pub open spec fn sys_file(p: Seq<Seq<char>>, name: Seq<char>) -> Seq<Seq<char>> { joined(joined(p, "sys"@), name) }
pub open spec fn sys_writable(p: Seq<Seq<char>>) -> bool {
    may_write(sys_file(p, "boot.bin"@)) && may_write(sys_file(p, "bi2.bin"@)) && may_write(sys_file(p, "apploader.img"@)) && may_write(sys_file(p, "main.dol"@)) && may_write(sys_file(p, "fst.bin"@))
}
pub open spec fn wrote_boot(p: Seq<Seq<char>>, h: DiscHeader) -> bool {
    exists|b: Seq<u8>| #[trigger] stored(sys_file(p, "boot.bin"@), b) && h.writes(b)
}
pub open spec fn wrote_bi2(p: Seq<Seq<char>>, i: WiiPartitionReadInfo, d: Seq<u8>) -> bool {
    exists|b: Seq<u8>| #[trigger] stored(sys_file(p, "bi2.bin"@), b) && i.piece(d, 0x440, 0x2000, b)
}
pub open spec fn wrote_appl(p: Seq<Seq<char>>, i: WiiPartitionReadInfo, d: Seq<u8>) -> bool {
    exists|b: Seq<u8>| #[trigger] stored(sys_file(p, "apploader.img"@), b) && i.is_appl(d, b)
}
pub open spec fn wrote_dol(p: Seq<Seq<char>>, i: WiiPartitionReadInfo, d: Seq<u8>) -> bool {
    exists|b: Seq<u8>| #[trigger] stored(sys_file(p, "main.dol"@), b) && i.is_dol(d, b)
}
pub open spec fn wrote_fst(p: Seq<Seq<char>>, i: WiiPartitionReadInfo, d: Seq<u8>) -> bool {
    exists|b: Seq<u8>| #[trigger] stored(sys_file(p, "fst.bin"@), b) && i.piece(d, i.encrypted_header.fst_off.0 as int, i.encrypted_header.fst_sz.0 as int, b)
}
/// reading parts of a partition does not change what its parts are
pub proof fn lemma_same_parts(o: WiiPartitionReadInfo)
    ensures
        forall|p: WiiPartitionReadInfo, d: Seq<u8>, b: Seq<u8>| p.same(&o) && #[trigger] p.is_appl(d, b) ==> o.is_appl(d, b),
        forall|p: WiiPartitionReadInfo, d: Seq<u8>, b: Seq<u8>| p.same(&o) && #[trigger] p.is_dol(d, b) ==> o.is_dol(d, b),
{
    assert forall|p: WiiPartitionReadInfo, d: Seq<u8>, b: Seq<u8>| p.same(&o) && #[trigger] p.is_appl(d, b) implies o.is_appl(d, b) by {
        let h = choose|h: ApploaderHeader| #[trigger] lay_appl(p.plain(d), 0x2440, h) && p.piece(d, 0x2440, 32 + h.size1 + h.size2, b);
        assert(lay_appl(o.plain(d), 0x2440, h) && o.piece(d, 0x2440, 32 + h.size1 + h.size2, b));
    }
    assert forall|p: WiiPartitionReadInfo, d: Seq<u8>, b: Seq<u8>| p.same(&o) && #[trigger] p.is_dol(d, b) implies o.is_dol(d, b) by {
        let q = o.encrypted_header.dol_off.0 as int;
        let (h, n) = choose|h: DOLHeader, n: int| #[trigger] lay_dol(p.plain(d), q, h) && #[trigger] dol_end(h, 18, n) && n < u32::MAX && p.piece(d, q, n, b);
        assert(lay_dol(o.plain(d), q, h) && dol_end(h, 18, n) && o.piece(d, q, n, b));
    }
}
//@ fn new_reader.rs WiiPartitionReadInfo::extract_system_files try shifted lift owned:f
//@ spec
    requires roomy(old(reader).file), old(self).inv(old(reader).file.data()), sys_writable(path@),
    ensures
        final(reader).kept(old(reader)), final(self).same(old(self)), final(self).inv(old(reader).file.data()),
        r is Ok ==> ({
            let d = old(reader).file.data();
            let h = old(self).encrypted_header;
            &&& wrote_boot(path@, h)
            &&& wrote_bi2(path@, *old(self), d)
            &&& wrote_appl(path@, *old(self), d)
            &&& wrote_dol(path@, *old(self), d)
            &&& wrote_fst(path@, *old(self), d)
        }),
//@ at start
    proof { lemma_write_empty(); lemma_same_parts(*self); }
//@ at before drop(f)
    assert(self.encrypted_header.writes(f.bytes()));
//@ end
} // verus!
