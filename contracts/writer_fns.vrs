verus! {
//@ enum reader_writer.rs OpenMode
//@ struct reader_writer.rs WiiEncryptedReadWriteStreamInner
//@ struct reader_writer.rs WiiEncryptedReadWriteStream

/// block `b` of the cache holds the plaintext of block `b` of group `g`
pub open spec fn wcached(cache: Seq<u8>, key: Seq<u8>, d: Seq<u8>, off: int, g: int, b: int) -> bool {
    dat(cache, b) == block_plain(key, raw_block(d, off, g, b))
}
/// the data of block `b` of group `g` as the writer holds it: in the cache, or encrypted in the file
pub open spec fn lblk(cur: Option<u64>, dirty: bool, cache: Seq<u8>, key: Seq<u8>, d: Seq<u8>, off: int, g: int, b: int) -> Seq<u8> {
    if dirty && cur is Some && cur->Some_0 == g { dat(cache, b) } else { block_plain(key, raw_block(d, off, g, b)) }
}
/// the byte at position `p` as the writer holds it
#[verifier::opaque]
pub open spec fn lb(cur: Option<u64>, dirty: bool, cache: Seq<u8>, key: Seq<u8>, d: Seq<u8>, off: int, p: int) -> u8 {
    lblk(cur, dirty, cache, key, d, off, p / 0x1f0000, (p % 0x1f0000) / 0x7c00)[p % 0x7c00]
}
/// the group of position `p`, its block in the group and its place in that block's data
#[verifier::opaque]
pub open spec fn grp(p: int) -> int { p / 0x1f0000 }
#[verifier::opaque]
pub open spec fn bno(p: int) -> int { (p % 0x1f0000) / 0x7c00 }
#[verifier::opaque]
pub open spec fn inb(p: int) -> int { p % 0x7c00 }
pub proof fn lemma_grp(a: int, b: int)
    requires 0 <= a <= b,
    ensures 0 <= grp(a) <= grp(b),
{ reveal(grp); }
pub proof fn lemma_coords(p: int)
    requires 0 <= p,
    ensures grp(p) == p / 0x1f0000, bno(p) == (p % 0x1f0000) / 0x7c00, inb(p) == p % 0x7c00, 0 <= grp(p), 0 <= bno(p) < 64, 0 <= inb(p) < 0x7c00,
{ reveal(grp); reveal(bno); reveal(inb); }

/// group `g` in the file is the hashed and encrypted form of `gr`
pub open spec fn group_is(d: Seq<u8>, off: int, key: Seq<u8>, g: int, gr: Seq<u8>) -> bool {
    gr.len() == 0x200000 && off + (g + 1) * 0x200000 <= d.len()
    && forall|b: int| 0 <= b < 64 ==> #[trigger] raw_block(d, off, g, b) == stored_block(gr, key, b)
}
pub open spec fn slot(h3: Option<Box<[u8; 0x18000]>>, g: int) -> Seq<u8> { h3->Some_0@.subrange(20 * g, 20 * g + 20) }
/// group `g` in the file carries its hash tree, and the global table its hash
#[verifier::opaque]
pub open spec fn hashed(d: Seq<u8>, off: int, key: Seq<u8>, h3: Option<Box<[u8; 0x18000]>>, g: int) -> bool {
    0 <= g < 4915 && exists|gr: Seq<u8>| #[trigger] group_is(d, off, key, g, gr) && (h3 is Some ==> slot(h3, g) == sha1(h2_of(gr)))
}
/// group `g` is in the file, or still in the cache
pub open spec fn okg(cur: Option<u64>, dirty: bool, d: Seq<u8>, off: int, key: Seq<u8>, h3: Option<Box<[u8; 0x18000]>>, g: int) -> bool {
    (dirty && cur is Some && cur->Some_0 == g) || hashed(d, off, key, h3, g)
}
/// the highest group that holds anything
pub open spec fn topg(cur: Option<u64>, filled: u64) -> int {
    if cur is Some { max_int(cur->Some_0 as int, filled as int) } else { filled as int }
}

/// nothing outside lo..hi changed, except that the file may now reach up to hi
pub open spec fn frame(d: Seq<u8>, d2: Seq<u8>, lo: int, hi: int) -> bool {
    d.len() <= d2.len() && d2.len() <= max_int(d.len() as int, hi)
    && forall|i: int| 0 <= i < d.len() && !(lo <= i < hi) ==> #[trigger] d2[i] == d[i]
}

impl WiiEncryptedReadWriteStreamInner {
    pub open spec fn inv(&self, d: Seq<u8>) -> bool {
        self.data_offset < 0x10_0000_0000 && self.filled_groups < 4915
        && (self.current_group is Some ==> self.current_group->Some_0 < 4915)
        && (self.current_group is Some && !self.is_dirty ==> self.current_group->Some_0 <= self.filled_groups)
        && (self.current_group is Some && !self.is_dirty ==> forall|b: int| 0 <= b < 64 ==> #[trigger] wcached(self.group_cache@, self.encryption_key@, d, self.data_offset as int, self.current_group->Some_0 as int, b))
    }
    pub open spec fn same_part(&self, o: &Self) -> bool {
        self.data_offset == o.data_offset && self.encryption_key == o.encryption_key && self.open_mode == o.open_mode
    }
    #[verifier::inline]
    pub open spec fn byte(&self, d: Seq<u8>, p: int) -> u8 {
        lb(self.current_group, self.is_dirty, self.group_cache@, self.encryption_key@, d, self.data_offset as int, p)
    }
    #[verifier::inline]
    pub open spec fn ok(&self, d: Seq<u8>, g: int) -> bool {
        okg(self.current_group, self.is_dirty, d, self.data_offset as int, self.encryption_key@, self.h3, g)
    }
    #[verifier::inline]
    pub open spec fn topg(&self) -> int { topg(self.current_group, self.filled_groups) }
}

pub proof fn lemma_stored_plain(gr: Seq<u8>, key: Seq<u8>, b: int)
    requires gr.len() == 0x200000, 0 <= b < 64, key.len() == 16,
    ensures block_plain(key, stored_block(gr, key, b)) == dat(gr, b), stored_block(gr, key, b).len() == 0x8000,
{
    let h = cbc_enc(key, zeros(16), head_of(gr, b));
    let e = cbc_enc(key, h.subrange(0x3d0, 0x3e0), dat(gr, b));
    assert(head_of(gr, b).len() == 0x400);
    assert(h.len() == 0x400 && e.len() == 0x7c00);
    assert((h + e).subrange(0x3d0, 0x3e0) =~= h.subrange(0x3d0, 0x3e0));
    assert((h + e).subrange(0x400, 0x8000) =~= e);
}
/// writing a hashed group back
pub proof fn lemma_write_back(d: Seq<u8>, d2: Seq<u8>, off: int, key: Seq<u8>, h3: Option<Box<[u8; 0x18000]>>, h3b: Option<Box<[u8; 0x18000]>>, g: int, gr: Seq<u8>, enc: Seq<u8>, cache2: Seq<u8>)
    requires
        0 <= off, 0 <= g < 4915, gr.len() == 0x200000, enc.len() == 0x200000, key.len() == 16,
        d2 == write_at(d, off + 0x200000 * g, enc),
        forall|b: int| 0 <= b < 64 ==> #[trigger] blk(enc, b) == stored_block(gr, key, b),
        h3 is Some == h3b is Some,
        h3b is Some ==> slot(h3b, g) == sha1(h2_of(gr)),
        h3 is Some ==> forall|i: int| 0 <= i < 0x18000 && !(20 * g <= i < 20 * g + 20) ==> #[trigger] h3b->Some_0@[i] == h3->Some_0@[i],
    ensures
        hashed(d2, off, key, h3b, g),
        forall|k: int| 0 <= k && okg(Some(g as u64), true, d, off, key, h3, k) ==> #[trigger] hashed(d2, off, key, h3b, k),
        forall|p: int| 0 <= p && okg(Some(g as u64), true, d, off, key, h3, grp(p)) ==> #[trigger] lb(None, false, cache2, key, d2, off, p) == lb(Some(g as u64), true, gr, key, d, off, p),
        forall|i: int| 0 <= i < d.len() && !(off + 0x200000 * g <= i < off + 0x200000 * (g + 1)) ==> d2[i] == d[i],
{
    reveal(hashed);
    assert forall|b: int| 0 <= b < 64 implies #[trigger] raw_block(d2, off, g, b) == stored_block(gr, key, b) by {
        assert(raw_block(d2, off, g, b) =~= blk(enc, b));
    }
    assert(group_is(d2, off, key, g, gr));
    assert forall|k: int| 0 <= k && hashed(d, off, key, h3, k) && k != g implies #[trigger] hashed(d2, off, key, h3b, k) by {
        let w = choose|w: Seq<u8>| #[trigger] group_is(d, off, key, k, w) && (h3 is Some ==> slot(h3, k) == sha1(h2_of(w)));
        lemma_other_group(d, d2, off, g, k);
        assert forall|b: int| 0 <= b < 64 implies #[trigger] raw_block(d2, off, k, b) == stored_block(w, key, b) by {
            assert(raw_block(d, off, k, b) == stored_block(w, key, b));
        }
        assert(group_is(d2, off, key, k, w));
        if h3 is Some {
            assert(slot(h3b, k) =~= slot(h3, k));
        }
    }
    assert forall|p: int| 0 <= p && okg(Some(g as u64), true, d, off, key, h3, grp(p)) implies #[trigger] lb(None, false, cache2, key, d2, off, p) == lb(Some(g as u64), true, gr, key, d, off, p) by {
        reveal(lb);
        reveal(grp);
        let k = p / 0x1f0000;
        let b = (p % 0x1f0000) / 0x7c00;
        if k == g {
            assert(raw_block(d2, off, g, b) == stored_block(gr, key, b));
            lemma_stored_plain(gr, key, b);
        } else {
            lemma_other_group(d, d2, off, g, k);
            assert(raw_block(d2, off, k, b) == raw_block(d, off, k, b));
        }
    }
}
pub proof fn lemma_other_group(d: Seq<u8>, d2: Seq<u8>, off: int, g: int, k: int)
    requires
        0 <= off, 0 <= g, 0 <= k, k != g, off + (k + 1) * 0x200000 <= d.len(), d.len() <= d2.len(),
        forall|i: int| 0 <= i < d.len() && !(off + 0x200000 * g <= i < off + 0x200000 * (g + 1)) ==> d2[i] == d[i],
    ensures forall|b: int| 0 <= b < 64 ==> #[trigger] raw_block(d2, off, k, b) == raw_block(d, off, k, b),
{
    assert forall|b: int| 0 <= b < 64 implies #[trigger] raw_block(d2, off, k, b) == raw_block(d, off, k, b) by {
        assert(raw_block(d2, off, k, b) =~= raw_block(d, off, k, b));
    }
}

//@ fn reader_writer.rs WiiEncryptedReadWriteStream::do_load_group asref hoist
//@ spec
    requires (*old(self).file).wf(), old(self).inner.data_offset < 0x10_0000_0000, group < 4915,
    ensures
        (*final(self).file).wf(), (*final(self).file).top() == (*old(self).file).top(), (*final(self).file).refs() == (*old(self).file).refs(), *final(final(self).file) == *final(old(self).file), (*final(self).file).data() == (*old(self).file).data(),
        final(self).inner.same_part(&old(self).inner),
        final(self).inner.current_position == old(self).inner.current_position,
        final(self).inner.filled_groups == old(self).inner.filled_groups,
        final(self).inner.h3 == old(self).inner.h3,
        r is Ok ==> final(self).inner.current_group == Some(group) && !final(self).inner.is_dirty
            && forall|b: int| 0 <= b < 64 ==> #[trigger] wcached(final(self).inner.group_cache@, old(self).inner.encryption_key@, (*old(self).file).data(), old(self).inner.data_offset as int, group as int, b),
//@ loop 0
    invariant
        (*self.file).wf(), (*self.file).top() == (*old(self).file).top(), (*self.file).refs() == (*old(self).file).refs(), *final(self.file) == *final(old(self).file), (*self.file).data() == (*old(self).file).data(),
        self.inner.same_part(&old(self).inner), self.inner.current_position == old(self).inner.current_position,
        self.inner.filled_groups == old(self).inner.filled_groups, self.inner.h3 == old(self).inner.h3,
        self.inner.data_offset < 0x10_0000_0000,
        self.inner.current_group == Some(group), !self.inner.is_dirty, group < 4915,
        self.inner.data_offset + group * 0x200000 + 0x200000 <= (*self.file).data().len(),
        forall|b: int| 0 <= b < block ==> #[trigger] wcached(self.inner.group_cache@, self.inner.encryption_key@, (*self.file).data(), self.inner.data_offset as int, group as int, b),
        forall|i: int| block * 0x8000 <= i < 0x200000 ==> #[trigger] self.inner.group_cache@[i] == (*self.file).data()[self.inner.data_offset + group * 0x200000 + i],
//@ at loop 0 start
    let ghost c0 = self.inner.group_cache@;
    let ghost d = (*self.file).data();
    let ghost off = self.inner.data_offset as int;
    let ghost key = self.inner.encryption_key@;
    let ghost raw = raw_block(d, off, group as int, block as int);
    let ghost vb: u64 = block;
    assert(raw =~= c0.subrange(vb * 0x8000, vb * 0x8000 + 0x8000));
//@ at loop 0 end
    let ghost c1 = self.inner.group_cache@;
    assert(forall|i: int| 0 <= i < 0x200000 && !(block * 0x8000 + 0x400 <= i < block * 0x8000 + 0x8000) ==> #[trigger] c1[i] == c0[i]);
    let ghost o = vb * 0x8000;
    assert(c0.subrange(o, o + 0x8000).subrange(0x3d0, 0x3e0) =~= c0.subrange(o, 0x200000).subrange(0, 0x8000).subrange(0x3d0, 0x8000).subrange(0, 0x10));
    assert(c0.subrange(o, o + 0x8000).subrange(0x400, 0x8000) =~= c0.subrange(o, 0x200000).subrange(0, 0x8000).subrange(0x400, 0x8000));
    assert(dat(c1, vb as int) =~= block_plain(key, raw));
    assert(wcached(c1, key, d, off, group as int, block as int));
    assert forall|b: int| 0 <= b < block implies #[trigger] wcached(c1, key, d, off, group as int, b) by {
        assert(wcached(c0, key, d, off, group as int, b));
        assert(dat(c1, b) =~= dat(c0, b));
    }
//@ end

pub proof fn lemma_loaded(key: Seq<u8>, d: Seq<u8>, off: int, g: u64, cache: Seq<u8>)
    requires forall|b: int| 0 <= b < 64 ==> #[trigger] wcached(cache, key, d, off, g as int, b),
    ensures forall|p: int| 0 <= p ==> #[trigger] lb(Some(g), true, cache, key, d, off, p) == lb(None, false, Seq::empty(), key, d, off, p),
{
    reveal(lb);
    assert forall|p: int| 0 <= p implies #[trigger] lb(Some(g), true, cache, key, d, off, p) == lb(None, false, Seq::empty(), key, d, off, p) by {
        assert(0 <= (p % 0x1f0000) / 0x7c00 < 64);
        assert(wcached(cache, key, d, off, g as int, (p % 0x1f0000) / 0x7c00));
    }
}
pub proof fn lemma_elsewhere(key: Seq<u8>, d: Seq<u8>, off: int, g: u64, cache: Seq<u8>)
    ensures forall|p: int| 0 <= p && grp(p) != g ==> #[trigger] lb(Some(g), true, cache, key, d, off, p) == lb(None, false, Seq::empty(), key, d, off, p),
{
    reveal(lb);
    reveal(grp);
}
pub proof fn lemma_clean(key: Seq<u8>, d: Seq<u8>, off: int, cur: Option<u64>, dirty: bool, cache: Seq<u8>)
    requires !dirty || cur is None,
    ensures forall|p: int| 0 <= p ==> #[trigger] lb(cur, dirty, cache, key, d, off, p) == lb(None, false, Seq::empty(), key, d, off, p),
{
    reveal(lb);
}
pub proof fn lemma_pos(p: int)
    requires 0 <= p,
    ensures p == grp(p) * 0x1f0000 + bno(p) * 0x7c00 + inb(p), 0 <= grp(p), 0 <= bno(p) < 64, 0 <= inb(p) < 0x7c00,
{
    reveal(grp); reveal(bno); reveal(inb);
    let m = p / 0x7c00;
    let r = p % 0x7c00;
    let x = m / 64;
    let y = m % 64;
    assert(p == 0x1f0000 * x + (0x7c00 * y + r) && 0 <= 0x7c00 * y + r < 0x1f0000);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p, 0x1f0000, x, 0x7c00 * y + r);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(0x7c00 * y + r, 0x7c00, y, r);
}
/// walking over the blocks
pub proof fn lemma_next(at: int, c: int)
    requires 0 <= at, 0 < c, inb(at) + c <= 0x7c00,
    ensures
        0 <= bno(at) < 64,
        inb(at) + c == 0x7c00 ==> inb(at + c) == 0
            && grp(at + c) == grp(at) + (if bno(at) == 63 { 1int } else { 0int })
            && bno(at + c) == (if bno(at) == 63 { 0int } else { bno(at) + 1 }),
        grp(at + c - 1) == grp(at), bno(at + c - 1) == bno(at), inb(at + c - 1) == inb(at) + c - 1,
        at > 0 ==> grp(at) - 1 <= grp(at - 1) <= grp(at),
{
    lemma_pos(at);
    lemma_pos(at + c);
    lemma_pos(at + c - 1);
    if at > 0 { lemma_pos(at - 1); }
}
/// changing a piece of one block of the cache changes those bytes and no others
pub proof fn lemma_copy(key: Seq<u8>, d: Seq<u8>, off: int, g: u64, c1: Seq<u8>, c2: Seq<u8>, at: int, src: Seq<u8>)
    requires
        0 <= at, g == grp(at), c1.len() == 0x200000, c2.len() == 0x200000, inb(at) + src.len() <= 0x7c00,
        ({ let o = bno(at) * 0x8000 + 0x400 + inb(at);
           (forall|i: int| 0 <= i < src.len() ==> #[trigger] src[i] == c2[o + i])
           && (forall|i: int| 0 <= i < 0x200000 && !(o <= i < o + src.len()) ==> #[trigger] c2[i] == c1[i]) }),
    ensures
        forall|p: int| 0 <= p && at <= p < at + src.len() ==> #[trigger] lb(Some(g), true, c2, key, d, off, p) == src[p - at],
        forall|p: int| 0 <= p && !(at <= p < at + src.len()) ==> #[trigger] lb(Some(g), true, c2, key, d, off, p) == lb(Some(g), true, c1, key, d, off, p),
{
    let o = bno(at) * 0x8000 + 0x400 + inb(at);
    lemma_pos(at);
    assert forall|p: int| 0 <= p && at <= p < at + src.len() implies #[trigger] lb(Some(g), true, c2, key, d, off, p) == src[p - at] by {
        lemma_pos(p);
        lemma_next(at, p - at + 1);
        assert(src[p - at] == c2[o + (p - at)]);
        reveal(lb); lemma_coords(p);
    }
    assert forall|p: int| 0 <= p && !(at <= p < at + src.len()) implies #[trigger] lb(Some(g), true, c2, key, d, off, p) == lb(Some(g), true, c1, key, d, off, p) by {
        lemma_pos(p);
        if grp(p) == g {
            let k = bno(p) * 0x8000 + 0x400 + inb(p);
            assert(!(o <= k < o + src.len()));
            assert(c2[k] == c1[k]);
        }
        reveal(lb); lemma_coords(p);
    }
}

/// what flushing does, as one relation
#[verifier::opaque]
pub open spec fn flushed_from(i: WiiEncryptedReadWriteStreamInner, d: Seq<u8>, i2: WiiEncryptedReadWriteStreamInner, d2: Seq<u8>) -> bool {
    i2.same_part(&i) && !(i2.is_dirty && i2.current_group is Some) && i2.topg() == i.topg() && (i2.h3 is Some == i.h3 is Some)
    && (forall|g: int| 0 <= g && i.ok(d, g) ==> #[trigger] i2.ok(d2, g))
    && (forall|p: int| 0 <= p && i.ok(d, grp(p)) ==> #[trigger] i2.byte(d2, p) == i.byte(d, p))
    && frame(d, d2, i.data_offset as int, i.data_offset + (i2.topg() + 1) * 0x200000)
    && (i.h3 is Some ==> forall|k: int| 20 * (i2.topg() + 1) <= k < 0x18000 ==> #[trigger] i2.h3->Some_0@[k] == i.h3->Some_0@[k])
}
/// nothing written yet
#[verifier::opaque]
pub open spec fn fresh(i: WiiEncryptedReadWriteStreamInner, d: Seq<u8>) -> bool {
    i.inv(d) && i.open_mode == (OpenMode::ReadWrite { max_group: None }) && i.current_group is None && i.filled_groups == 0
    && i.h3 is Some && forall|k: int| 0 <= k < 0x18000 ==> #[trigger] i.h3->Some_0@[k] == 0
}
//@ fn reader_writer.rs WiiEncryptedReadWriteStream::flush asref optmap hoist
//@ spec
    requires (*old(self).file).wf(), (*old(self).file).top() >= 0x20_0000_0000, old(self).inner.inv((*old(self).file).data()),
    ensures
        (*final(self).file).top() == (*old(self).file).top(), (*final(self).file).refs() == (*old(self).file).refs(), *final(final(self).file) == *final(old(self).file),
        r is Ok ==> (*final(self).file).wf() && final(self).inner.inv((*final(self).file).data())
            && final(self).inner.same_part(&old(self).inner) && final(self).inner.current_position == old(self).inner.current_position
            && !(final(self).inner.is_dirty && final(self).inner.current_group is Some)
            && final(self).inner.topg() == old(self).inner.topg()
            && (final(self).inner.h3 is Some == old(self).inner.h3 is Some),
        r is Ok ==> forall|g: int| 0 <= g && old(self).inner.ok((*old(self).file).data(), g) ==> #[trigger] final(self).inner.ok((*final(self).file).data(), g),
        r is Ok ==> forall|p: int| 0 <= p && old(self).inner.ok((*old(self).file).data(), grp(p)) ==> #[trigger] final(self).inner.byte((*final(self).file).data(), p) == old(self).inner.byte((*old(self).file).data(), p),
        r is Ok ==> frame((*old(self).file).data(), (*final(self).file).data(), old(self).inner.data_offset as int, old(self).inner.data_offset + (final(self).inner.topg() + 1) * 0x200000),
        r is Ok && old(self).inner.h3 is Some ==> forall|i: int| 20 * (final(self).inner.topg() + 1) <= i < 0x18000 ==> #[trigger] final(self).inner.h3->Some_0@[i] == old(self).inner.h3->Some_0@[i],
        r is Ok ==> flushed_from(old(self).inner, (*old(self).file).data(), final(self).inner, (*final(self).file).data()),
//@ at start
    reveal(flushed_from);
    let ghost s = self.inner;
    let ghost ds = (*self.file).data();
//@ at before self.inner.filled_groups =
    proof {
        assert(self.inner.group_cache@.subrange(0, 0x200000) =~= self.inner.group_cache@);
        if self.inner.h3 is Some { assert(slot(self.inner.h3, current_group as int) =~= sha1(h2_of(s.group_cache@))); }
        lemma_write_back(ds, (*self.file).data(), s.data_offset as int, s.encryption_key@, s.h3, self.inner.h3, current_group as int, s.group_cache@, self.inner.group_cache@, Seq::empty());
        lemma_clean(s.encryption_key@, (*self.file).data(), s.data_offset as int, None, true, self.inner.group_cache@);
    }
//@ end

//@ fn reader_writer.rs WiiEncryptedReadWriteStream::write asref optmap hoist
//@ attr
#[verifier::rlimit(200)]
//@ spec
    requires (*old(self).file).wf(), (*old(self).file).top() >= 0x20_0000_0000, old(self).inner.inv((*old(self).file).data()),
        old(self).inner.current_position + buf@.len() <= 4915 * 0x1f0000,
    ensures
        (*final(self).file).top() == (*old(self).file).top(), (*final(self).file).refs() == (*old(self).file).refs(), *final(final(self).file) == *final(old(self).file),
        old(self).inner.open_mode is Readonly ==> r is Err,
        r is Ok ==> (*final(self).file).wf() && final(self).inner.inv((*final(self).file).data())
            && final(self).inner.same_part(&old(self).inner)
            && r->Ok_0 <= buf@.len() && final(self).inner.current_position == old(self).inner.current_position + r->Ok_0
            && (old(self).inner.open_mode == (OpenMode::ReadWrite { max_group: None }) ==> r->Ok_0 == buf@.len())
            && (final(self).inner.h3 is Some == old(self).inner.h3 is Some),
        // what was written
        r is Ok ==> forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(self).inner.byte((*final(self).file).data(), old(self).inner.current_position + i) == buf@[i],
        // everything else is kept
        r is Ok ==> forall|p: int| 0 <= p && !(old(self).inner.current_position <= p < old(self).inner.current_position + buf@.len())
            && old(self).inner.ok((*old(self).file).data(), grp(p)) && grp(p) <= old(self).inner.topg()
            && (old(self).inner.current_group is None ==> grp(p) != grp(old(self).inner.current_position as int))
            ==> #[trigger] final(self).inner.byte((*final(self).file).data(), p) == old(self).inner.byte((*old(self).file).data(), p),
        // every group written to is there, and none is lost
        r is Ok ==> forall|g: int| 0 <= g && old(self).inner.ok((*old(self).file).data(), g) ==> #[trigger] final(self).inner.ok((*final(self).file).data(), g),
        r is Ok && r->Ok_0 > 0 ==> forall|g: int| grp(old(self).inner.current_position as int) <= g <= grp(old(self).inner.current_position + r->Ok_0 - 1) ==> #[trigger] final(self).inner.ok((*final(self).file).data(), g),
        r is Ok && r->Ok_0 > 0 ==> final(self).inner.topg() == max_int(old(self).inner.topg(), grp(old(self).inner.current_position + r->Ok_0 - 1)) && final(self).inner.current_group is Some,
        r is Ok && r->Ok_0 == 0 ==> final(self).inner.topg() == old(self).inner.topg(),
        // nothing outside the groups is touched
        r is Ok ==> frame((*old(self).file).data(), (*final(self).file).data(), old(self).inner.data_offset as int, old(self).inner.data_offset + (final(self).inner.topg() + 1) * 0x200000),
        r is Ok && old(self).inner.h3 is Some ==> forall|i: int| 20 * (final(self).inner.topg() + 1) <= i < 0x18000 ==> #[trigger] final(self).inner.h3->Some_0@[i] == old(self).inner.h3->Some_0@[i],
//@ at start
    let ghost o = self.inner;
    let ghost d0 = (*self.file).data();
    let ghost buf0 = buf@;
    let ghost pos0 = self.inner.current_position as int;
    let ghost key = o.encryption_key@;
    let ghost off = o.data_offset as int;
    proof { lemma_coords(pos0); }
//@ loop 0
    invariant_except_break
        buf@.len() > 0 ==> group == grp(pos0 + bytes_written) && block == bno(pos0 + bytes_written) && offset_in_block == 0x400 + inb(pos0 + bytes_written),
    invariant
        o == old(self).inner, d0 == (*old(self).file).data(), key == o.encryption_key@, off == o.data_offset, pos0 == o.current_position, key.len() == 16,
        (*self.file).wf(), (*self.file).top() == (*old(self).file).top(), (*self.file).refs() == (*old(self).file).refs(), *final(self.file) == *final(old(self).file), (*self.file).top() >= 0x20_0000_0000,
        o.inv(d0), o.open_mode == (OpenMode::ReadWrite { max_group }),
        pos0 + buf0.len() <= 4915 * 0x1f0000, bytes_written <= buf0.len(),
        buf@ == buf0.subrange(bytes_written as int, buf0.len() as int),
        self.inner.inv((*self.file).data()), self.inner.same_part(&o), self.inner.current_position == pos0,
        self.inner.h3 is Some == o.h3 is Some,
        bytes_written > 0 ==> self.inner.current_group is Some,
        bytes_written == 0 ==> self.inner.current_group == o.current_group,
        forall|i: int| 0 <= i < bytes_written ==> #[trigger] self.inner.byte((*self.file).data(), pos0 + i) == buf0[i],
        forall|p: int| 0 <= p && !(pos0 <= p < pos0 + buf0.len()) && o.ok(d0, grp(p)) && grp(p) <= o.topg()
            && (o.current_group is None ==> grp(p) != grp(pos0))
            ==> #[trigger] self.inner.byte((*self.file).data(), p) == o.byte(d0, p),
        forall|g: int| 0 <= g && o.ok(d0, g) ==> #[trigger] self.inner.ok((*self.file).data(), g),
        bytes_written > 0 ==> forall|g: int| grp(pos0) <= g <= grp(pos0 + bytes_written - 1) ==> #[trigger] self.inner.ok((*self.file).data(), g),
        bytes_written > 0 ==> self.inner.topg() == max_int(o.topg(), grp(pos0 + bytes_written - 1)),
        bytes_written == 0 ==> self.inner.topg() == o.topg(),
        frame(d0, (*self.file).data(), off, off + (self.inner.topg() + 1) * 0x200000),
        o.h3 is Some ==> forall|i: int| 20 * (self.inner.topg() + 1) <= i < 0x18000 ==> #[trigger] self.inner.h3->Some_0@[i] == o.h3->Some_0@[i],
    ensures
        max_group is None ==> bytes_written == buf0.len(),
    decreases buf@.len(),
//@ at loop 0 start
    let ghost s = self.inner;
    let ghost ds = (*self.file).data();
    let ghost at = pos0 + bytes_written;
    let ghost bw = bytes_written as int;
    let ghost rest = buf@;
    proof { lemma_pos(at); }
//@ at before self.inner.filled_groups = self.inner.filled_groups.max(current_group)
    proof {
        assert(self.inner.group_cache@.subrange(0, 0x200000) =~= self.inner.group_cache@);
        if self.inner.h3 is Some { assert(slot(self.inner.h3, current_group as int) =~= sha1(h2_of(s.group_cache@))); }
        lemma_write_back(ds, (*self.file).data(), off, key, s.h3, self.inner.h3, current_group as int, s.group_cache@, self.inner.group_cache@, Seq::empty());
    }
//@ at before self.inner.current_group = Some(group)
    let ghost s1 = self.inner;
    let ghost d1 = (*self.file).data();
    proof {
        lemma_elsewhere(key, d1, off, group, s1.group_cache@);
        if s.current_group is None || !s.is_dirty { lemma_clean(key, ds, off, s.current_group, s.is_dirty, s.group_cache@); }
        if s1.current_group == Some(group) && !s1.is_dirty { lemma_loaded(key, d1, off, group, s1.group_cache@); }
        assert forall|p: int| 0 <= p && !(at <= p < at + rest.len()) && s.ok(ds, grp(p)) && grp(p) <= s.topg()
            && (s.current_group is None ==> grp(p) != group)
            implies #[trigger] lb(Some(group), true, s1.group_cache@, key, d1, off, p) == s.byte(ds, p) by {
            if s.current_group is Some && s.current_group->Some_0 != group {
                assert(lb(None, false, Seq::empty(), key, d1, off, p) == s.byte(ds, p));
                if grp(p) == group && s1.current_group != Some(group) {
                    assert(group <= s1.filled_groups);
                    lemma_pos(p);
                    assert(false);
                }
            }
        }
        assert forall|g: int| 0 <= g && s.ok(ds, g) implies #[trigger] okg(Some(group), true, d1, off, key, s1.h3, g) by { }
    }
//@ at loop 0 end
    proof {
        let c = bytes_written - bw;
        lemma_next(at, c);
        lemma_grp(at, at + c);
        lemma_grp(pos0, at);
        lemma_grp(at, at + c - 1);
        let g1 = self.inner.current_group->Some_0;
        assert(g1 == grp(at) && g1 == grp(at + c - 1));
        let src = rest.subrange(0, c);
        assert(self.inner.h3 == s1.h3 && (*self.file).data() == d1);
        lemma_copy(key, d1, off, g1, s1.group_cache@, self.inner.group_cache@, at, src);
        assert forall|i: int| 0 <= i < bw implies #[trigger] self.inner.byte((*self.file).data(), pos0 + i) == buf0[i] by {
            lemma_grp(pos0, pos0 + i);
            lemma_grp(pos0 + i, at - 1);
            assert(s.byte(ds, pos0 + i) == buf0[i]);
        }
        assert forall|i: int| bw <= i < bytes_written implies #[trigger] self.inner.byte((*self.file).data(), pos0 + i) == buf0[i] by {
            assert(src[pos0 + i - at] == buf0[i]);
        }
        assert forall|p: int| 0 <= p && !(pos0 <= p < pos0 + buf0.len()) && o.ok(d0, grp(p)) && grp(p) <= o.topg()
            && (o.current_group is None ==> grp(p) != grp(pos0))
            implies #[trigger] self.inner.byte((*self.file).data(), p) == o.byte(d0, p) by {
            lemma_grp(p, p);
            assert(s.ok(ds, grp(p)));
            assert(s.byte(ds, p) == o.byte(d0, p));
            assert(lb(Some(g1), true, s1.group_cache@, key, d1, off, p) == s.byte(ds, p));
        }
        assert(self.inner.topg() == max_int(s.topg(), g1 as int));
        assert(frame(ds, d1, off, off + (s.topg() + 1) * 0x200000));
        assert forall|g: int| grp(pos0) <= g <= grp(pos0 + bytes_written - 1) implies #[trigger] self.inner.ok((*self.file).data(), g) by {
            if g != g1 {
                assert(bw > 0 && g <= grp(pos0 + bw - 1));
                assert(s.ok(ds, g));
                assert(okg(Some(g1), true, d1, off, key, s1.h3, g));
            }
        }
    }
//@ end

//@ fn reader_writer.rs WiiEncryptedReadWriteStream::seek 
//@ spec
    requires old(self).inner.current_position < 0x4000_0000_0000_0000, pos is Current ==> -0x4000_0000_0000_0000 < pos->Current_0 < 0x3fff_ffff_ffff_ffff, pos is Start ==> pos->Start_0 < 0x7fff_ffff_ffff_ffff,
    ensures
        (*final(self).file) == (*old(self).file), *final(final(self).file) == *final(old(self).file),
        pos is Start ==> r is Ok && r->Ok_0 == pos->Start_0,
        pos is Current ==> r is Ok && r->Ok_0 == max_int(0, old(self).inner.current_position + pos->Current_0),
        r is Ok ==> final(self).inner == (WiiEncryptedReadWriteStreamInner { current_position: r->Ok_0, ..old(self).inner }),
        r is Err ==> final(self).inner == old(self).inner,
//@ end

//@ fn reader_writer.rs WiiEncryptedReadWriteStream::stream_position
//@ spec
    ensures *final(self) == *old(self), r is Ok, r->Ok_0 == old(self).inner.current_position,
//@ end

//@ fn reader_writer.rs WiiEncryptedReadWriteStream::take_h3 
//@ spec
    ensures
        r == old(self).inner.h3, final(self).inner == (WiiEncryptedReadWriteStreamInner { h3: None, ..old(self).inner }),
        (*final(self).file) == (*old(self).file), *final(final(self).file) == *final(old(self).file),
//@ end
//@ fn reader_writer.rs WiiEncryptedReadWriteStream::create_write
//@ spec
    requires data_offset < 0x10_0000_0000, filled_groups < 4915, (*old(file)).wf(),
    ensures
        *r.file == *old(file), *final(file) == *final(r.file),
        r.inner.inv((*old(file)).data()), r.inner.data_offset == data_offset, r.inner.encryption_key == encryption_key,
        r.inner.open_mode == (OpenMode::ReadWrite { max_group }), r.inner.current_group is None, r.inner.current_position == 0,
        r.inner.filled_groups == filled_groups,
        r.inner.h3 is Some, forall|i: int| 0 <= i < 0x18000 ==> #[trigger] r.inner.h3->Some_0@[i] == 0,
        max_group is None && filled_groups == 0 ==> fresh(r.inner, (*old(file)).data()),
//@ at start
    reveal(fresh);
//@ end

/// C02: once flushed, a reader of the partition gets exactly what the writer holds
pub proof fn lemma_reader_sees(cur: Option<u64>, dirty: bool, cache: Seq<u8>, key: Seq<u8>, d: Seq<u8>, off: int, p: int)
    requires !(dirty && cur is Some),
    ensures lb(cur, dirty, cache, key, d, off, p) == plain_byte(d, off, key, p),
{
    reveal(lb);
    reveal(plain_byte);
}
/// C03: once flushed, a group that was written carries its hash tree and its slot of the global table
pub proof fn lemma_group_hashed(cur: Option<u64>, dirty: bool, d: Seq<u8>, off: int, key: Seq<u8>, h3: Option<Box<[u8; 0x18000]>>, g: int)
    requires !(dirty && cur is Some), okg(cur, dirty, d, off, key, h3, g), h3 is Some,
    ensures exists|gr: Seq<u8>| #[trigger] group_is(d, off, key, g, gr) && h3->Some_0@.subrange(20 * g, 20 * g + 20) == sha1(h2_of(gr)),
{
    reveal(hashed);
}
} // verus!
