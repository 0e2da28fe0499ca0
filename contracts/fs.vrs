verus! {
// ---- the file system, as far as the extracted code uses it ----------------------------------------
/// a path by its components
pub struct Path { pub c: Ghost<Seq<Seq<char>>> }
pub type PathBuf = Path;
impl View for Path {
    type V = Seq<Seq<char>>;
    open spec fn view(&self) -> Seq<Seq<char>> { self.c@ }
}
/// `Path::join` of a relative name
pub uninterp spec fn joined(p: Seq<Seq<char>>, s: Seq<char>) -> Seq<Seq<char>>;
/// a name or a path given by value or by reference
pub trait VpName { spec fn nm(&self) -> Seq<char>; }
impl<'a> VpName for &'a str { open spec fn nm(&self) -> Seq<char> { (*self)@ } }
impl<'a> VpName for &'a String { open spec fn nm(&self) -> Seq<char> { (*self)@ } }
impl VpName for String { open spec fn nm(&self) -> Seq<char> { self@ } }
pub trait VpPath { spec fn pv(&self) -> Seq<Seq<char>>; }
impl VpPath for Path { open spec fn pv(&self) -> Seq<Seq<char>> { self@ } }
impl<'a> VpPath for &'a Path { open spec fn pv(&self) -> Seq<Seq<char>> { (*self)@ } }
impl Path {
    #[verifier::external_body]
    pub fn join<S: VpName>(&self, s: S) -> (r: PathBuf)
        ensures r@ == joined(self@, s.nm()),
    { unimplemented!() }
}
/// leave to make or change the file at `p`: given by the caller, file by file
pub uninterp spec fn may_write(p: Seq<Seq<char>>) -> bool;
/// the file at `p` was made to hold `b`
pub uninterp spec fn stored(p: Seq<Seq<char>>, b: Seq<u8>) -> bool;
/// an open file: what was written to it is in the file (std does not buffer)
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    pub uninterp spec fn path(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn bytes(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> u64;
    #[verifier::external_body]
    pub fn create<P: VpPath>(p: P) -> (r: io::Result<File>)
        requires may_write(p.pv()),
        ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.path() == p.pv() && r->Ok_0.bytes() == Seq::<u8>::empty() && r->Ok_0.pos() == 0,
    { unimplemented!() }
}
impl Stream for File {
    type Refs = Seq<Seq<char>>;
    #[verifier::prophetic]
    open spec fn refs(&self) -> Seq<Seq<char>> { self.path() }
    open spec fn wf(&self) -> bool { stored(self.path(), self.bytes()) }
    open spec fn data(&self) -> Seq<u8> { self.bytes() }
    open spec fn at(&self) -> u64 { self.pos() }
    open spec fn eof(&self) -> int { self.bytes().len() as int }
    open spec fn top(&self) -> int { u64::MAX as int }
    #[verifier::external_body]
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn stream_position(&mut self) -> (r: io::Result<u64>) { unimplemented!() }
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: io::Result<()>) { unimplemented!() }
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<P: VpPath>(p: P) -> (r: io::Result<()>) { unimplemented!() }
} // verus!
