verus! {
impl BeWrite for u32 {
    open spec fn writes(&self, b: Seq<u8>) -> bool { b.len() == 4 && be32(b, 0) == *self }
}
//@ struct builder.rs WiiDiscBuilder

impl<WS: Stream> WiiDiscBuilder<WS> {
    /// partitions end where the next one goes
    pub open spec fn inv(&self) -> bool {
        self.file.wf() && self.file.top() == u64::MAX
        && 0x50000 <= self.current_data_offset && self.current_data_offset % 0x20000 == 0x10000
        && self.file.data().len() <= self.current_data_offset
        && blank(self.file.data(), 0x40008, 0x40020)
    }
}
/// the next multiple of `a`
#[verifier::opaque]
pub open spec fn lifted(num: int, a: int, r: int) -> bool { num <= r < num + a && r % a == 0 }
//@ fn builder.rs align_next
//@ spec
    requires alignment == 0x20 || alignment == 0x40, num < 0xffff_ffff_ffff_ff00,
    ensures num <= r < num + alignment, lifted(num as int, alignment as int, r as int),
//@ at start
    reveal(lifted);
    assert(alignment == 0x20 && num < 0xffff_ffff_ffff_ff00 ==> num <= (num + 0x1f) as u64 & !0x1fu64 < num + 0x20 && ((num + 0x1f) as u64 & !0x1fu64) % 0x20 == 0) by (bit_vector);
    assert(alignment == 0x40 && num < 0xffff_ffff_ffff_ff00 ==> num <= (num + 0x3f) as u64 & !0x3fu64 < num + 0x40 && ((num + 0x3f) as u64 & !0x3fu64) % 0x40 == 0) by (bit_vector);
//@ end
//@ fn builder.rs WiiDiscBuilder::create
//@ spec
    requires file.wf(), file.top() == u64::MAX, file.data().len() == 0,
    ensures r.inv(), r.file == file, r.disc_header == disc_header, r.region == region, r.partitions@.len() == 0, r.current_data_offset == 0x50000,
//@ at start
    proof { assert(blank(file.data(), 0x40008, 0x40020)) by { reveal(blank); } }
//@ end

} // verus!
