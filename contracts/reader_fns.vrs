verus! {
//@ struct new_reader.rs EncryptedPartState
//@ struct new_reader.rs CryptPartReader

/// block `b` of the cache holds the plaintext of block `b` of group `g`
pub open spec fn cached(cache: Seq<u8>, key: Seq<u8>, d: Seq<u8>, off: int, g: int, b: int) -> bool {
    cache.subrange(b * 0x8000 + 0x400, b * 0x8000 + 0x8000) == block_plain(key, raw_block(d, off, g, b))
}
impl EncryptedPartState {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        self.data_offset < 0x10_0000_0000 && self.data_size < 0x10_0000_0000
        && (self.current_group is Some ==> forall|b: int| 0 <= b < 64 ==> #[trigger] cached(self.group_cache@, self.encryption_key@, d, self.data_offset as int, self.current_group->Some_0 as int, b))
    }
    pub open spec fn same_part(&self, o: &Self) -> bool {
        self.data_offset == o.data_offset && self.encryption_key == o.encryption_key && self.data_size == o.data_size
    }
}

//@ fn new_reader.rs EncryptedPartState::do_load_group asref
//@ spec
    requires old(self).inv((*old(rs)).data()), (*old(rs)).wf(), group < 0x1_0000,
    ensures
        (*final(rs)).wf(), (*final(rs)).refs() == (*old(rs)).refs(), (*final(rs)).top() == (*old(rs)).top(), (*final(rs)).data() == (*old(rs)).data(),
        final(self).inv((*old(rs)).data()), final(self).same_part(old(self)),
        final(self).current_position == old(self).current_position,
        r is Ok ==> final(self).current_group == Some(group),
//@ loop 0
    invariant
        (*rs).wf(), (*rs).refs() == (*old(rs)).refs(), (*rs).top() == (*old(rs)).top(), (*rs).data() == (*old(rs)).data(),
        self.same_part(old(self)), self.current_position == old(self).current_position,
        self.data_offset < 0x10_0000_0000, self.data_size < 0x10_0000_0000,
        self.current_group == Some(group),
        self.data_offset + group * 0x200000 + 0x200000 <= (*rs).data().len(),
        forall|b: int| 0 <= b < block ==> #[trigger] cached(self.group_cache@, self.encryption_key@, (*rs).data(), self.data_offset as int, group as int, b),
        forall|i: int| block * 0x8000 <= i < 0x200000 ==> #[trigger] self.group_cache@[i] == (*rs).data()[self.data_offset + group * 0x200000 + i],
//@ at loop 0 start
    let ghost s0 = *self;
    let ghost c0 = self.group_cache@;
    let ghost raw = raw_block((*rs).data(), self.data_offset as int, group as int, block as int);
    let ghost vb: u64 = block;
    assert(raw =~= c0.subrange(vb * 0x8000, vb * 0x8000 + 0x8000));
//@ at loop 0 end
    assert(forall|i: int| 0 <= i < 0x200000 && !(block * 0x8000 + 0x400 <= i < block * 0x8000 + 0x8000) ==> #[trigger] self.group_cache@[i] == c0[i]);
    let ghost o = vb * 0x8000;
    assert(c0.subrange(o, o + 0x8000).subrange(0x3d0, 0x3e0) =~= c0.subrange(o, 0x200000).subrange(0, 0x8000).subrange(0x3d0, 0x8000).subrange(0, 0x10));
    assert(c0.subrange(o, o + 0x8000).subrange(0x400, 0x8000) =~= c0.subrange(o, 0x200000).subrange(0, 0x8000).subrange(0x400, 0x8000));
    assert(c0.subrange(o, o + 0x8000).subrange(0x3d0, 0x3e0) =~= c0.subrange(o, o + 0x8000).subrange(0x3d0, 0x8000).subrange(0, 0x10));
    assert(c0.subrange(o, o + 0x8000).subrange(0x3d0, 0x3e0) =~= c0.subrange(o + 0x3d0, o + 0x3e0));
    assert(c0.subrange(o, o + 0x8000).subrange(0x400, 0x8000) =~= c0.subrange(o + 0x400, o + 0x8000));
    assert(self.group_cache@.subrange(o + 0x400, o + 0x8000) =~= block_plain(self.encryption_key@, raw));
    assert(cached(self.group_cache@, self.encryption_key@, (*rs).data(), self.data_offset as int, group as int, block as int));
    assert forall|b: int| 0 <= b < block implies #[trigger] cached(self.group_cache@, self.encryption_key@, (*rs).data(), self.data_offset as int, group as int, b) by {
        assert(cached(s0.group_cache@, s0.encryption_key@, (*rs).data(), s0.data_offset as int, group as int, b));
        assert(self.group_cache@.subrange(b * 0x8000 + 0x400, b * 0x8000 + 0x8000) =~= s0.group_cache@.subrange(b * 0x8000 + 0x400, b * 0x8000 + 0x8000));
    }
//@ end

//@ fn new_reader.rs EncryptedPartState::get_decrypted_block_data
//@ subst &mut self.group_cache ==> &self.group_cache
//@ spec
    requires old(self).inv((*old(rs)).data()), (*old(rs)).wf(), group < 0x1_0000, block < 64,
    ensures
        (*final(rs)).wf(), (*final(rs)).refs() == (*old(rs)).refs(), (*final(rs)).top() == (*old(rs)).top(), (*final(rs)).data() == (*old(rs)).data(),
        final(self).inv((*old(rs)).data()), final(self).same_part(old(self)),
        final(self).current_position == old(self).current_position,
        r is Ok ==> r->Ok_0@.len() == 0x7c00
            && r->Ok_0@ == block_plain(old(self).encryption_key@, raw_block((*old(rs)).data(), old(self).data_offset as int, group as int, block as int)),
//@ at end
    assert(cached(self.group_cache@, self.encryption_key@, (*rs).data(), self.data_offset as int, self.current_group->Some_0 as int, block as int));
    assert(block_data@.subrange(0x400, 0x8000) =~= self.group_cache@.subrange(block * 0x8000 + 0x400, block * 0x8000 + 0x8000));
//@ end

//@ fn new_reader.rs EncryptedPartState::read_into_vec
//@ spec
    requires old(self).inv((*old(rs)).data()), (*old(rs)).wf(),
    ensures
        (*final(rs)).wf(), (*final(rs)).refs() == (*old(rs)).refs(), (*final(rs)).top() == (*old(rs)).top(), (*final(rs)).data() == (*old(rs)).data(),
        final(self).inv((*old(rs)).data()), final(self).same_part(old(self)),
        final(self).current_position == old(self).current_position,
        r is Ok ==> final(buffer)@.len() <= length,
        r is Ok ==> final(buffer)@ == plain_seq((*old(rs)).data(), old(self).data_offset as int, old(self).encryption_key@, offset as int, final(buffer)@.len() as int),
        r is Ok ==> final(buffer)@.len() == length || offset + final(buffer)@.len() >= old(self).data_size,
//@ at start
    let ghost off0 = offset;
//@ loop 0
    invariant
        (*rs).wf(), (*rs).refs() == (*old(rs)).refs(), (*rs).top() == (*old(rs)).top(), (*rs).data() == (*old(rs)).data(),
        self.inv((*rs).data()), self.same_part(old(self)), self.current_position == old(self).current_position,
        buffer@.len() <= length, off0 + buffer@.len() == offset,
        buffer@.len() < length ==> geo(offset as int, group as int, block as int, offset_in_block_data as int),
        buffer@ == plain_seq((*rs).data(), self.data_offset as int, self.encryption_key@, off0 as int, buffer@.len() as int),
    ensures
        buffer@.len() == length || offset >= self.data_size,
    decreases length - buffer@.len(),
//@ at loop 0 before
    proof { reveal(geo); }
//@ at loop 0 start
    let ghost b0 = buffer@;
    let ghost at0 = offset as int;
    let ghost (g0, k0, o0) = (group as int, block as int, offset_in_block_data as int);
    proof { lemma_geo_range(at0, g0, k0, o0); lemma_geo_next(at0, g0, k0, o0); }
//@ at loop 0 end
    let ghost c = buffer@.len() - b0.len();
    let ghost blk = block_plain(self.encryption_key@, raw_block((*rs).data(), self.data_offset as int, g0, k0));
    assert(buffer@.subrange(b0.len() as int, buffer@.len() as int) =~= blk.subrange(o0, o0 + c));
    proof {
        lemma_plain_grow((*rs).data(), self.data_offset as int, self.encryption_key@, off0 as int, b0.len() as int, c, g0, k0, o0, buffer@.subrange(b0.len() as int, buffer@.len() as int));
    }
    assert(buffer@ =~= b0 + buffer@.subrange(b0.len() as int, buffer@.len() as int));
//@ end

//@ fn new_reader.rs EncryptedPartState::read_into
//@ spec
    requires old(self).inv((*old(rs)).data()), (*old(rs)).wf(),
    ensures
        (*final(rs)).wf(), (*final(rs)).refs() == (*old(rs)).refs(), (*final(rs)).top() == (*old(rs)).top(), (*final(rs)).data() == (*old(rs)).data(),
        final(self).inv((*old(rs)).data()), final(self).same_part(old(self)),
        r is Ok ==> final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> r->Ok_0 <= old(buf)@.len()
            && final(self).current_position == old(self).current_position + r->Ok_0
            && is_plain((*old(rs)).data(), old(self).data_offset as int, old(self).encryption_key@, old(self).current_position as int, final(buf)@, r->Ok_0 as int)
            && (r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).current_position >= old(self).data_size)
            && (forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> final(buf)@[i] == old(buf)@[i])
            && (old(self).current_position >= old(self).data_size ==> r->Ok_0 == 0)
            && (r->Ok_0 > 0 ==> old(self).current_position + r->Ok_0 <= whole(old(self).data_size as int)),
//@ at start
    let ghost p0 = self.current_position;
    let ghost fb = final(buf)@;
    let ghost n0 = buf@.len();
    let ghost ob = buf@;
//@ loop 0
    invariant_except_break
        buf@.len() > 0 ==> geo(self.current_position as int, group as int, block as int, offset_in_block_data as int),
    invariant
        (*rs).wf(), (*rs).refs() == (*old(rs)).refs(), (*rs).top() == (*old(rs)).top(), (*rs).data() == (*old(rs)).data(),
        self.inv((*rs).data()), self.same_part(old(self)),
        read_bytes + buf@.len() == n0,
        fb == plain_seq((*rs).data(), self.data_offset as int, self.encryption_key@, p0 as int, read_bytes as int) + final(buf)@,
        self.current_position == p0 + read_bytes,
        p0 >= self.data_size ==> read_bytes == 0,
        n0 == ob.len(), buf@ == ob.subrange(read_bytes as int, n0 as int),
        read_bytes > 0 ==> self.current_position <= whole(self.data_size as int),
        read_bytes == 0 ==> buf@.len() == n0,
    ensures
        read_bytes == 0 && n0 > 0 ==> p0 >= self.data_size,
    decreases buf@.len(),
//@ at loop 0 start
    let ghost fin0 = final(buf)@;
    let ghost done0 = read_bytes as int;
    let ghost at0 = self.current_position as int;
    let ghost (g0, k0, o0) = (group as int, block as int, offset_in_block_data as int);
    proof {
        lemma_geo_range(at0, g0, k0, o0);
        lemma_geo_next(at0, g0, k0, o0);
        if at0 < self.data_size { assert forall|c: int| c <= 0x7c00 - o0 implies #[trigger] (at0 + c) <= whole(self.data_size as int) by { lemma_whole(self.data_size as int, at0, g0, k0, o0, c); } }
    }
//@ at loop 0 before
    proof { reveal(geo); }
//@ at after read_bytes +=
    let ghost c = read_bytes - done0;
    let ghost blk = block_plain(self.encryption_key@, raw_block((*rs).data(), self.data_offset as int, g0, k0));
    assert(self.current_position == at0 + c);
    assert(buf@ =~= ob.subrange(read_bytes as int, n0 as int));
    assert(fin0.subrange(0, c) =~= blk.subrange(o0, o0 + c));
    assert(fin0 =~= fin0.subrange(0, c) + final(buf)@);
    proof { lemma_plain_grow((*rs).data(), self.data_offset as int, self.encryption_key@, p0 as int, done0, c, g0, k0, o0, fin0.subrange(0, c)); }
    assert(fb =~= plain_seq((*rs).data(), self.data_offset as int, self.encryption_key@, p0 as int, read_bytes as int) + final(buf)@);
//@ end

impl<'a, RS: Stream> CryptPartReader<'a, RS> {
    pub open spec fn inv(&self) -> bool { (*self.rs).wf() && self.crypt_part_state.inv((*self.rs).data()) }
    /// number of bytes that can be read: whole blocks
    pub open spec fn size(&self) -> int { whole(self.crypt_part_state.data_size as int) }
    /// the decrypted partition
    pub open spec fn plain(&self) -> Seq<u8> {
        plain_seq((*self.rs).data(), self.crypt_part_state.data_offset as int, self.crypt_part_state.encryption_key@, 0, self.size())
    }
    #[verifier::prophetic]
    pub open spec fn same_part(&self, o: &Self) -> bool {
        (*self.rs).data() == (*o.rs).data() && (*self.rs).top() == (*o.rs).top() && self.crypt_part_state.same_part(&*o.crypt_part_state)
        && (*self.rs).refs() == (*o.rs).refs() && *final(self.rs) == *final(o.rs) && *final(self.crypt_part_state) == *final(o.crypt_part_state)
    }
}

//@ fn new_reader.rs CryptPartReader::read_into_vec
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_part(old(self)),
        final(self).crypt_part_state.current_position == old(self).crypt_part_state.current_position,
        r is Ok ==> final(buffer)@.len() <= length
            && final(buffer)@ == plain_seq((*old(self).rs).data(), old(self).crypt_part_state.data_offset as int, old(self).crypt_part_state.encryption_key@, offset as int, final(buffer)@.len() as int)
            && (final(buffer)@.len() == length || offset + final(buffer)@.len() >= old(self).crypt_part_state.data_size),
//@ end

//@ fn new_reader.rs CryptPartReader::seek
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_part(old(self)),
        r is Ok ==> final(self).crypt_part_state.current_position == r->Ok_0,
        r is Err ==> final(self).crypt_part_state.current_position == old(self).crypt_part_state.current_position,
        match pos {
            SeekFrom::Start(o) => r is Ok && r->Ok_0 == o,
            SeekFrom::Current(o) => r is Ok && r->Ok_0 == sat_add_signed(old(self).crypt_part_state.current_position as int, o as int),
            SeekFrom::End(_) => r is Err && r->Err_0.kind is Unsupported,
        },
//@ end

//@ fn new_reader.rs CryptPartReader::stream_position
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_part(old(self)), r is Ok,
        r->Ok_0 == final(self).crypt_part_state.current_position == old(self).crypt_part_state.current_position,
//@ end

//@ fn new_reader.rs CryptPartReader::read reborrow
//@ spec
    requires old(self).inv(),
    ensures
        final(self).inv(), final(self).same_part(old(self)),
        r is Ok ==> final(buf)@.len() == old(buf)@.len(),
        r is Ok ==> r->Ok_0 <= old(buf)@.len()
            && final(self).crypt_part_state.current_position == old(self).crypt_part_state.current_position + r->Ok_0
            && is_read(old(self).plain(), old(self).crypt_part_state.current_position as int, final(buf)@, r->Ok_0 as int)
            && (forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> final(buf)@[i] == old(buf)@[i])
            && (r->Ok_0 == 0 && old(buf)@.len() > 0 ==> old(self).crypt_part_state.current_position >= old(self).crypt_part_state.data_size),
//@ end

// `Read::read_exact` of std: read until the buffer is full, an error at the end of the data
impl<'a, RS: Stream> CryptPartReader<'a, RS> {
    pub fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
        requires old(self).inv(),
        ensures
            final(self).inv(), final(self).same_part(old(self)),
            r is Ok ==> final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> final(self).crypt_part_state.current_position == old(self).crypt_part_state.current_position + old(buf)@.len()
                && is_read(old(self).plain(), old(self).crypt_part_state.current_position as int, final(buf)@, old(buf)@.len() as int),
    {
        let ghost p0 = self.crypt_part_state.current_position;
        let mut done: usize = 0;
        while done < buf.len()
            invariant
                self.inv(), self.same_part(old(self)), buf@.len() == old(buf)@.len(), done <= buf@.len(),
                self.crypt_part_state.current_position == p0 + done,
                is_read(old(self).plain(), p0 as int, buf@, done as int),
            decreases buf@.len() - done,
        {
            let ghost b0 = buf@;
            match CryptPartReader::read(self, &mut buf[done..]) {
                Ok(n) => {
                    if n == 0 { return Err(io::Error::from(io::ErrorKind::UnexpectedEof)); }
                    assert(self.plain() == old(self).plain());
                    let ghost t = buf@.subrange(done as int, buf@.len() as int);
                    assert forall|i: int| 0 <= i < done + n implies #[trigger] buf@[i] == old(self).plain()[p0 + i] by {
                        if i >= done { assert(t[i - done] == old(self).plain()[p0 + i]); } else { assert(buf@[i] == b0[i]); }
                    }
                    done += n;
                }
                Err(e) => { return Err(e); }
            }
        }
        Ok(())
    }
}
/// what using the reader leaves as it is
pub ghost struct CryptRefs<RS, R> {
    pub rs: RS, pub refs: R, pub state: EncryptedPartState, pub image: Seq<u8>, pub top: int,
    pub data_offset: u64, pub key: [u8; 16], pub data_size: u64,
}
impl<'a, RS: Stream> Stream for CryptPartReader<'a, RS> {
    type Refs = CryptRefs<RS, RS::Refs>;
    #[verifier::prophetic]
    open spec fn refs(&self) -> CryptRefs<RS, RS::Refs> {
        CryptRefs {
            rs: *final(self.rs), refs: (*self.rs).refs(), state: *final(self.crypt_part_state), image: (*self.rs).data(), top: (*self.rs).top(),
            data_offset: self.crypt_part_state.data_offset, key: self.crypt_part_state.encryption_key, data_size: self.crypt_part_state.data_size,
        }
    }
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn data(&self) -> Seq<u8> { self.plain() }
    open spec fn at(&self) -> u64 { self.crypt_part_state.current_position }
    open spec fn eof(&self) -> int { self.crypt_part_state.data_size as int }
    open spec fn top(&self) -> int { u64::MAX as int }
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) { CryptPartReader::seek(self, p) }
    fn stream_position(&mut self) -> (r: io::Result<u64>) { CryptPartReader::stream_position(self) }
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { CryptPartReader::read(self, buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>) { CryptPartReader::read_exact(self, buf) }
    // the reader has no write side; the bundled trait needs one
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { Err(io::Error::from(io::ErrorKind::Unsupported)) }
    fn flush(&mut self) -> (r: io::Result<()>) { Ok(()) }
}
} // verus!
