use vstd::prelude::*;
use vstd::std_specs::result::*;
use vstd::std_specs::option::*;

verus! {

global size_of usize == 8;

// ---- std::io, as far as the extracted code names it -------------------------------------------
pub mod io {
    use vstd::prelude::*;
    #[derive(Clone, Copy)]
    pub enum ErrorKind { UnexpectedEof, Unsupported, InvalidData, InvalidInput, NotFound, Other }
    pub struct Error { pub kind: ErrorKind }
    pub type Result<T> = core::result::Result<T, Error>;
    impl ErrorKind {
        pub fn into(self) -> (r: Error) ensures r.kind == self { Error { kind: self } }
    }
    impl Error {
        pub fn from(k: ErrorKind) -> (r: Error) ensures r.kind == k { Error { kind: k } }
        pub fn new<E>(k: ErrorKind, _e: E) -> (r: Error) ensures r.kind == k { Error { kind: k } }
        pub fn other<E>(_e: E) -> (r: Error) { Error { kind: ErrorKind::Other } }
    }
}
pub use core::result::Result::{self, Ok, Err};

#[derive(Clone, Copy)]
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

pub fn drop<T>(_x: T) ensures has_resolved(_x) {}
/// assert!, debug_assert! and the like: must hold
pub fn vp_assert(b: bool) requires b {}
/// the text of a message
#[verifier::external_body]
pub fn vp_any_string() -> (r: String) { String::new() }

pub open spec fn sat_add_signed(a: int, b: int) -> int {
    if a + b < 0 { 0 } else if a + b > u64::MAX { u64::MAX as int } else { a + b }
}
pub assume_specification[ u64::saturating_add_signed ](a: u64, b: i64) -> (r: u64)
    ensures r as int == sat_add_signed(a as int, b as int);

// ---- byte sequences ----------------------------------------------------------------------------
/// what a stream holds after `b` was written at `p` (zero filled if that is past the end)
pub open spec fn write_at(d: Seq<u8>, p: int, b: Seq<u8>) -> Seq<u8> {
    if b.len() == 0 { d } else {
        Seq::new(
            (if p + b.len() > d.len() { p + b.len() } else { d.len() as int }) as nat,
            |i: int| if p <= i < p + b.len() { b[i - p] } else if i < d.len() { d[i] } else { 0u8 })
    }
}
/// the first `n` bytes of `b` are those of `d` at `p`
pub open spec fn is_read(d: Seq<u8>, p: int, b: Seq<u8>, n: int) -> bool {
    (n > 0 ==> p + n <= d.len()) && forall|i: int| 0 <= i < n ==> #[trigger] b[i] == d[p + i]
}

pub open spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max_int(a: int, b: int) -> int { if a >= b { a } else { b } }

// ---- streams -----------------------------------------------------------------------------------
/// `Read + Write + Seek`: any stream with the documented behaviour of the std traits. Every operation
/// may fail, and a read or write may be short.
pub trait Stream: Sized {
    /// what becomes of the streams this one borrows
    type Refs;
    #[verifier::prophetic]
    spec fn refs(&self) -> Self::Refs;
    spec fn wf(&self) -> bool;
    spec fn data(&self) -> Seq<u8>;
    spec fn at(&self) -> u64;
    /// reading reports the end only from here on
    spec fn eof(&self) -> int;
    /// the largest position (u64::MAX unless this is a window)
    spec fn top(&self) -> int;

    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(), (*final(self)).refs() == (*old(self)).refs(), (*final(self)).top() == (*old(self)).top(), (*final(self)).data() == (*old(self)).data(), (*final(self)).eof() == (*old(self)).eof(),
            r is Ok ==> (*final(self)).at() == r->Ok_0,
            r is Ok && p is Start ==> r->Ok_0 == min_int(p->Start_0 as int, (*old(self)).top()),
            r is Ok && p is Current && 0 <= (*old(self)).at() + p->Current_0 ==> r->Ok_0 == min_int((*old(self)).at() + p->Current_0, (*old(self)).top());
    fn stream_position(&mut self) -> (r: io::Result<u64>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(), (*final(self)).refs() == (*old(self)).refs(), (*final(self)).top() == (*old(self)).top(), (*final(self)).data() == (*old(self)).data(), (*final(self)).eof() == (*old(self)).eof(), (*final(self)).at() == (*old(self)).at(),
            r is Ok ==> r->Ok_0 == (*old(self)).at();
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(), (*final(self)).refs() == (*old(self)).refs(), (*final(self)).top() == (*old(self)).top(), (*final(self)).data() == (*old(self)).data(), (*final(self)).eof() == (*old(self)).eof(),
            r is Ok ==> final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> r->Ok_0 <= old(buf)@.len()
                && (*final(self)).at() == (*old(self)).at() + r->Ok_0 <= (*old(self)).top()
                && is_read((*final(self)).data(), (*old(self)).at() as int, final(buf)@, r->Ok_0 as int)
                && (forall|i: int| r->Ok_0 <= i < old(buf)@.len() ==> final(buf)@[i] == old(buf)@[i])
                && (r->Ok_0 == 0 && old(buf)@.len() > 0 ==> (*old(self)).at() >= (*old(self)).eof());
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(), (*final(self)).refs() == (*old(self)).refs(), (*final(self)).top() == (*old(self)).top(), (*final(self)).data() == (*old(self)).data(), (*final(self)).eof() == (*old(self)).eof(),
            r is Ok ==> final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> (*final(self)).at() == (*old(self)).at() + old(buf)@.len() <= (*old(self)).top()
                && is_read((*final(self)).data(), (*old(self)).at() as int, final(buf)@, old(buf)@.len() as int);
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>)
        requires (*old(self)).wf(),
        ensures
            (*final(self)).wf(), (*final(self)).refs() == (*old(self)).refs(), (*final(self)).top() == (*old(self)).top(),
            r is Ok ==> r->Ok_0 <= buf@.len()
                && (*final(self)).at() == (*old(self)).at() + r->Ok_0 <= (*old(self)).top()
                && (*final(self)).data() == write_at((*old(self)).data(), (*old(self)).at() as int, buf@.subrange(0, r->Ok_0 as int)),
            r is Err ==> (*final(self)).data() == (*old(self)).data();
    fn flush(&mut self) -> (r: io::Result<()>)
        requires (*old(self)).wf(),
        ensures (*final(self)).wf(), (*final(self)).refs() == (*old(self)).refs(), (*final(self)).top() == (*old(self)).top(), (*final(self)).data() == (*old(self)).data(), (*final(self)).eof() == (*old(self)).eof(), (*final(self)).at() == (*old(self)).at();
}

impl<'s, S: Stream> Stream for &'s mut S {
    type Refs = (S, S::Refs);
    #[verifier::prophetic]
    open spec fn refs(&self) -> (S, S::Refs) { (*final(*self), (**self).refs()) }
    open spec fn wf(&self) -> bool { (**self).wf() }
    open spec fn data(&self) -> Seq<u8> { (**self).data() }
    open spec fn at(&self) -> u64 { (**self).at() }
    open spec fn eof(&self) -> int { (**self).eof() }
    open spec fn top(&self) -> int { (**self).top() }
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) { (**self).seek(p) }
    fn stream_position(&mut self) -> (r: io::Result<u64>) { (**self).stream_position() }
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { (**self).read(buf) }
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>) { (**self).read_exact(buf) }
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { (**self).write(buf) }
    fn flush(&mut self) -> (r: io::Result<()>) { (**self).flush() }
}

/// something bytes are written to one after another: any stream, and the encrypting writer
pub trait Sink: Sized {
    spec fn ready(&self) -> bool;
    spec fn place(&self) -> int;
    /// what every call keeps, failing or not
    #[verifier::prophetic]
    spec fn linked(a: Self, b: Self) -> bool;
    /// `b` is `a` after `x` was written at its place
    #[verifier::prophetic]
    spec fn put(a: Self, b: Self, x: Seq<u8>) -> bool;
    proof fn lemma_put(a: Self, b: Self, c: Self, x: Seq<u8>, y: Seq<u8>)
        requires Self::put(a, b, x), Self::put(b, c, y),
        ensures Self::put(a, c, x + y);
    proof fn lemma_linked(a: Self, b: Self, c: Self)
        requires Self::linked(a, b), Self::linked(b, c),
        ensures Self::linked(a, c);
    /// `Write::write_all`, as the default method of std does it
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>)
        requires (*old(self)).ready(),
        ensures
            Self::linked(*old(self), *final(self)),
            r is Ok ==> (*final(self)).ready() && Self::put(*old(self), *final(self), buf@);
}
impl<S: Stream> Sink for S {
    open spec fn ready(&self) -> bool { (*self).wf() }
    open spec fn place(&self) -> int { (*self).at() as int }
    #[verifier::prophetic]
    open spec fn linked(a: Self, b: Self) -> bool { b.wf() && b.refs() == a.refs() && b.top() == a.top() }
    #[verifier::prophetic]
    open spec fn put(a: Self, b: Self, x: Seq<u8>) -> bool {
        b.wf() && b.refs() == a.refs() && b.top() == a.top()
        && b.at() == a.at() + x.len() && b.data() == write_at(a.data(), a.at() as int, x)
    }
    proof fn lemma_put(a: Self, b: Self, c: Self, x: Seq<u8>, y: Seq<u8>) {
        assert(c.data() =~= write_at(a.data(), a.at() as int, x + y));
    }
    proof fn lemma_linked(a: Self, b: Self, c: Self) {}
    fn write_all(&mut self, buf: &[u8]) -> (r: io::Result<()>) {
        let mut done: usize = 0;
        let ghost d0 = (*self).data();
        let ghost p0 = (*self).at() as int;
        proof { assert(buf@.subrange(0, 0) =~= Seq::empty()); }
        while done < buf.len()
            invariant
                (*self).wf(), (*self).refs() == (*old(self)).refs(), (*self).top() == (*old(self)).top(), done <= buf@.len(), (*self).at() == p0 + done,
                (*self).data() == write_at(d0, p0, buf@.subrange(0, done as int)),
            decreases buf@.len() - done,
        {
            let ghost d1 = (*self).data();
            let ghost done0 = done as int;
            let n = match self.write(&buf[done..]) { Ok(n) => n, Err(e) => { return Err(e); } };
            if n == 0 { return Err(io::Error { kind: io::ErrorKind::Other }); }
            done = done + n;
            proof {
                assert(buf@.subrange(done0, buf@.len() as int).subrange(0, n as int) =~= buf@.subrange(done0, done as int));
                assert((*self).data() =~= write_at(d0, p0, buf@.subrange(0, done as int)));
            }
        }
        assert(buf@.subrange(0, done as int) =~= buf@);
        Ok(())
    }
}

/// `<&mut [u8; N]>::try_from(&mut [u8])`
#[verifier::external_body]
pub fn vp_arr_mut<const N: usize>(s: &mut [u8]) -> (r: &mut [u8; N])
    requires old(s)@.len() == N,
    ensures (*r)@ == old(s)@, final(s)@ == final(r)@,
{ s.try_into().unwrap() }
/// `<Box<[u8; N]>>::try_from(Box<[u8]>)`
#[verifier::external_body]
pub fn vp_box_array<const N: usize>(v: Vec<u8>) -> (r: Box<[u8; N]>)
    requires v@.len() == N,
    ensures (*r)@ == v@,
{ v.into_boxed_slice().try_into().unwrap() }

} // verus!
