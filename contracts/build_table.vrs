verus! {
pub open spec fn entries_ok(v: Seq<WiiPartTableEntry>) -> bool { forall|i: int| 0 <= i < v.len() ==> off_ok(#[trigger] v[i].part_data_off) }
/// the finished table
pub proof fn lemma_lists_one(d: Seq<u8>, v: Seq<WiiPartTableEntry>)
    requires
        0x40020 <= d.len(), blank(d, 0x40008, 0x40020), be32(d, 0x40000) == v.len(), be32(d, 0x40004) == 0x10008,
        forall|j: int| 0 <= j < v.len() ==> lay_entry(d, 0x40020 + 8 * j, #[trigger] v[j]),
    ensures lists(d, 4, v),
{
    reveal(blank);
    reveal_with_fuel(table_sum, 5);
    assert forall|i: int| 1 <= i < 4 implies #[trigger] table_count(d, i) == 0 by {
        let q = 0x40000 + 8 * i;
        assert(d[q] == 0 && d[q + 1] == 0 && d[q + 2] == 0 && d[q + 3] == 0);
    }
    assert(table_count(d, 0) == v.len());
    assert(table_count(d, 1) == 0 && table_count(d, 2) == 0 && table_count(d, 3) == 0);
    assert(table_off(d, 0) == 0x40020);
    assert forall|i: int, j: int| #![trigger lay_entry(d, table_off(d, i) + 8 * j, v[table_sum(d, i) + j])]
        0 <= i < 4 && 0 <= j < table_count(d, i) implies lay_entry(d, table_off(d, i) + 8 * j, v[table_sum(d, i) + j]) by {
        assert(i == 0);
        assert(lay_entry(d, 0x40020 + 8 * j, v[j]));
    }
}

pub proof fn lemma_record_u32(d: Seq<u8>, p: int, v: u32)
    requires record(d, p, v),
    ensures be32(d, p) == v, 0 <= p, p + 4 <= d.len(),
{
    let b = choose|b: Seq<u8>| #[trigger] v.writes(b) && holds(d, p, b);
    reveal(holds);
    assert(b[0] == d[p + 0] && b[1] == d[p + 1] && b[2] == d[p + 2] && b[3] == d[p + 3]);
}
pub proof fn lemma_record_disc(d: Seq<u8>, p: int, v: DiscHeader)
    requires record(d, p, v), disc_ok(v),
    ensures lay_disc(d, p, v),
{
    let b = choose|b: Seq<u8>| #[trigger] v.writes(b) && holds(d, p, b);
    theorem_disc_written(v, b);
    lemma_holds_copied(d, p, b);
    lemma_disc_frame(b, 0, d, p, v);
}
pub proof fn lemma_record_entry(d: Seq<u8>, p: int, v: WiiPartTableEntry)
    requires record(d, p, v), off_ok(v.part_data_off),
    ensures lay_entry(d, p, v),
{
    let b = choose|b: Seq<u8>| #[trigger] v.writes(b) && holds(d, p, b);
    theorem_entry(b, 0, v, 8, b);
    lemma_holds_copied(d, p, b);
    lemma_entry_frame(b, 0, d, p, v);
}
pub proof fn lemma_table_end(d: Seq<u8>, v: Seq<WiiPartTableEntry>, hdr: DiscHeader, reg: Seq<u8>)
    requires
        record(d, 0, hdr), disc_ok(hdr), holds(d, 0x4e000, reg), reg.len() == 32, entries_ok(v), v.len() <= 7164,
        record(d, 0x40000, v.len() as u32), record(d, 0x40004, 0x10008u32), blank(d, 0x40008, 0x40020),
        forall|j: int| 0 <= j < v.len() ==> record(d, 0x40020 + 8 * j, #[trigger] v[j]),
    ensures
        lay_disc(d, 0, hdr), 0x4e020 <= d.len(), d.subrange(0x4e000, 0x4e020) == reg, lists(d, 4, v),
{
    lemma_record_disc(d, 0, hdr);
    lemma_holds_copied(d, 0x4e000, reg);
    assert(0x4e020 <= d.len()) by { reveal(holds); }
    lemma_record_u32(d, 0x40000, v.len() as u32);
    lemma_record_u32(d, 0x40004, 0x10008u32);
    assert forall|j: int| 0 <= j < v.len() implies lay_entry(d, 0x40020 + 8 * j, #[trigger] v[j]) by {
        assert(off_ok(v[j].part_data_off));
        lemma_record_entry(d, 0x40020 + 8 * j, v[j]);
    }
    lemma_lists_one(d, v);
}
//@ fn builder.rs WiiDiscBuilder::finish try
//@ attr
#[verifier::loop_isolation(false)]
//@ spec
    requires old(self).inv(), old(self).partitions@.len() <= 7164, disc_ok(old(self).disc_header), entries_ok(old(self).partitions@),
    ensures
        final(self).disc_header == old(self).disc_header, final(self).region == old(self).region,
        final(self).partitions == old(self).partitions, final(self).current_data_offset == old(self).current_data_offset,
        final(self).file.refs() == old(self).file.refs(),
        r is Ok ==> final(self).inv() && only(old(self).file.data(), final(self).file.data(), 0, 0x50000),
        r is Ok ==> lay_disc(final(self).file.data(), 0, old(self).disc_header),
        r is Ok ==> 0x4e020 <= final(self).file.data().len() && final(self).file.data().subrange(0x4e000, 0x4e020) == old(self).region@,
        r is Ok ==> lists(final(self).file.data(), 4, old(self).partitions@),
//@ at start
    hide(write_at); hide(lists); hide(lay_disc); hide(lay_entry); hide(be32); hide(disc_ok);
    broadcast use {lemma_holds_write, lemma_holds_kept, lemma_blank_kept, lemma_holds_only, lemma_blank_only, lemma_only_more};
    let ghost v = self.partitions@;
    let ghost hdr = self.disc_header;
    let ghost reg = self.region@;
    let ghost d0 = self.file.data();
    proof {
        lemma_only_self(d0, 0, 0x50000);
        assert forall|b: Seq<u8>| #[trigger] hdr.writes(b) implies b.len() == 0x440 by { theorem_disc_written(hdr, b); }
        assert forall|j: int, b: Seq<u8>| 0 <= j < v.len() && #[trigger] v[j].writes(b) implies b.len() == 8 by { assert(off_ok(v[j].part_data_off)); theorem_entry(b, 0, v[j], 8, b); }
        assert(0x40020u32 >> 2 == 0x10008u32) by (bit_vector);
    }
//@ at loop 0 before
    let ghost d3 = self.file.data();
    proof { lemma_only_self(d3, 0x40020, 0x40020 + 8 * v.len() as int); }
//@ loop 0 iter it
    invariant
        0 <= it.index@ <= v.len(),
        self.file.wf(), self.file.refs() == old(self).file.refs(), self.file.top() == old(self).file.top(), self.file.at() == 0x40020 + 8 * it.index@,
        only(d3, self.file.data(), 0x40020, 0x40020 + 8 * v.len() as int),
        only(d0, self.file.data(), 0, 0x50000),
        forall|j: int| 0 <= j < it.index@ ==> record(self.file.data(), 0x40020 + 8 * j, #[trigger] v[j]),
//@ at end
    proof { lemma_only_len(d0, self.file.data(), 0, 0x50000); lemma_table_end(self.file.data(), v, hdr, reg); }
//@ end
} // verus!
