verus! {
// ---- binrw, as far as the extracted code names it ----------------------------------------------
pub mod binrw {
    use vstd::prelude::*;
    use crate::io;
    pub enum Error {
        Io(io::Error),
        Custom { pos: u64, err: Box<String> },
        /// any other kind
        Parse,
    }
    pub type BinResult<T> = core::result::Result<T, Error>;
}
pub use binrw::BinResult;

/// the conversions `?` applies to errors
pub trait VpFrom<T>: Sized {
    spec fn from_is(e: T, r: Self) -> bool;
    fn vp_from(e: T) -> (r: Self) ensures Self::from_is(e, r);
}
impl VpFrom<io::Error> for binrw::Error {
    open spec fn from_is(e: io::Error, r: Self) -> bool { r == binrw::Error::Io(e) }
    fn vp_from(e: io::Error) -> (r: Self) { binrw::Error::Io(e) }
}
impl VpFrom<binrw::Error> for binrw::Error {
    open spec fn from_is(e: binrw::Error, r: Self) -> bool { r == e }
    fn vp_from(e: binrw::Error) -> (r: Self) { e }
}

/// `d` holds a big-endian value from `p` on
pub open spec fn be16(d: Seq<u8>, p: int) -> int { d[p] * 0x100 + d[p + 1] }
pub open spec fn be24(d: Seq<u8>, p: int) -> int { d[p] * 0x1_0000 + d[p + 1] * 0x100 + d[p + 2] }
pub open spec fn be32(d: Seq<u8>, p: int) -> int { d[p] * 0x100_0000 + d[p + 1] * 0x1_0000 + d[p + 2] * 0x100 + d[p + 3] }
pub open spec fn be64(d: Seq<u8>, p: int) -> int { be32(d, p) * 0x1_0000_0000 + be32(d, p + 4) }
pub open spec fn zero_run(d: Seq<u8>, p: int, n: int) -> bool { forall|i: int| p <= i < p + n ==> #[trigger] d[i] == 0u8 }

/// a record read and written through binrw
pub trait BeRead: Sized {
    /// the bytes of `d` from `p` on parse as `v`, using `n` bytes
    spec fn parses(d: Seq<u8>, p: int, v: Self, n: int) -> bool;
    /// parsing fails only when reading fails
    spec fn total() -> bool;
}
pub trait BeWrite {
    /// `b` is what writing the value produces
    spec fn writes(&self, b: Seq<u8>) -> bool;
}
#[verifier::external_body]
pub fn read_be<T: BeRead, S: Stream>(s: &mut S) -> (r: BinResult<T>)
    requires (*old(s)).wf(),
    ensures
        (*final(s)).wf(), (*final(s)).refs() == (*old(s)).refs(), (*final(s)).top() == (*old(s)).top(), (*final(s)).data() == (*old(s)).data(), (*final(s)).eof() == (*old(s)).eof(),
        r is Ok ==> exists|n: int| #[trigger] T::parses((*old(s)).data(), (*old(s)).at() as int, r->Ok_0, n) && 0 <= n && (*final(s)).at() == (*old(s)).at() + n,
        r is Err && T::total() ==> r->Err_0 is Io,
{ unimplemented!() }
#[verifier::external_body]
pub fn write_be<T: BeWrite, S: Sink>(s: &mut S, v: &T) -> (r: BinResult<()>)
    requires (*old(s)).ready(),
    ensures
        S::linked(*old(s), *final(s)),
        r is Ok ==> (*final(s)).ready(),
        r is Ok ==> exists|b: Seq<u8>| #[trigger] (*v).writes(b) && S::put(*old(s), *final(s), b),
{ unimplemented!() }
} // verus!
