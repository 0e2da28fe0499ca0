verus! {
// ---- the directory tree that is read, as far as the extracted code uses it -------------------------
// It does not change while a disc is built, and names are told apart by their case.
/// there is a file, a directory, at the path
pub uninterp spec fn file_at(p: Seq<Seq<char>>) -> bool;
pub uninterp spec fn dir_at(p: Seq<Seq<char>>) -> bool;
/// what the file holds
pub uninterp spec fn content(p: Seq<Seq<char>>) -> Seq<u8>;
/// the names in a directory in the order they are listed; None: not valid Unicode
pub uninterp spec fn names(p: Seq<Seq<char>>) -> Seq<Option<Seq<char>>>;
/// a name a directory can list: not empty, no separator, neither "." nor ".."
pub uninterp spec fn proper(s: Seq<char>) -> bool;
/// how deep a directory goes
pub uninterp spec fn depth(p: Seq<Seq<char>>) -> nat;
pub mod fs_axioms {
    use vstd::prelude::*;
    use crate::*;
    #[verifier::external_body]
    pub broadcast proof fn axiom_listed(p: Seq<Seq<char>>, i: int)
        requires 0 <= i < names(p).len(), names(p)[i] is Some,
        ensures proper((#[trigger] names(p)[i])->Some_0), nulfree(names(p)[i]->Some_0),
    {}
    /// what is there is listed
    #[verifier::external_body]
    pub proof fn axiom_there(p: Seq<Seq<char>>, s: Seq<char>)
        requires proper(s), file_at(joined(p, s)) || dir_at(joined(p, s)),
        ensures dir_at(p), names(p).contains(Some(s)),
    {}
    #[verifier::external_body]
    pub proof fn axiom_kind(p: Seq<Seq<char>>)
        ensures !(file_at(p) && dir_at(p)),
    {}
    /// directories do not contain themselves
    #[verifier::external_body]
    pub broadcast proof fn axiom_depth(p: Seq<Seq<char>>, i: int)
        requires 0 <= i < names(p).len(), names(p)[i] is Some, dir_at(joined(p, names(p)[i]->Some_0)),
        ensures depth(joined(p, (#[trigger] names(p)[i])->Some_0)) < depth(p),
    {}
}
impl Path {
    #[verifier::external_body]
    pub fn push<S: VpStr + ?Sized>(&mut self, s: &S)
        ensures final(self)@ == joined(old(self)@, s.sv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Path)
        ensures r@ == self@,
    { unimplemented!() }
    /// false as well where that cannot be found out
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool)
        ensures r ==> file_at(self@),
    { unimplemented!() }
}
impl File {
    #[verifier::external_body]
    pub fn open<P: VpPath>(p: P) -> (r: io::Result<File>)
        ensures r is Ok ==> r->Ok_0.wf() && r->Ok_0.path() == p.pv() && r->Ok_0.bytes() == content(p.pv()) && r->Ok_0.pos() == 0,
    { unimplemented!() }
    /// `Read::read_to_end`
    #[verifier::external_body]
    pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: io::Result<usize>)
        requires old(self).wf(),
        ensures r is Ok ==> old(self).pos() <= old(self).bytes().len() ==> final(v)@ == old(v)@ + old(self).bytes().skip(old(self).pos() as int),
            r is Ok && old(self).pos() == 0 && old(v)@.len() == 0 ==> final(v)@ == old(self).bytes(),
    { unimplemented!() }
}
pub struct OsString { pub s: Ghost<Option<Seq<char>>> }
impl OsString {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>)
        ensures r is Some == (self.s@ is Some), r is Some ==> r->Some_0@ == self.s@->Some_0,
    { unimplemented!() }
}
pub struct DirEntry { pub dir: Ghost<Seq<Seq<char>>>, pub name: Ghost<Option<Seq<char>>> }
impl DirEntry {
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString)
        ensures r.s@ == self.name@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf)
        ensures self.name@ is Some ==> r@ == joined(self.dir@, self.name@->Some_0),
    { unimplemented!() }
}
pub struct Metadata { pub p: Ghost<Seq<Seq<char>>> }
impl Metadata {
    pub uninterp spec fn vlen(&self) -> u64;
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool)
        ensures r == dir_at(self.p@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool)
        ensures r == file_at(self.p@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: u64)
        ensures r == self.vlen(), file_at(self.p@) ==> r == content(self.p@).len(),
    { unimplemented!() }
}
pub struct ReadDir { pub dir: Ghost<Seq<Seq<char>>>, pub left: Ghost<Seq<Option<Seq<char>>>> }
impl ReadDir {
    /// may fail at any entry
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<io::Result<DirEntry>>)
        ensures
            final(self).dir == old(self).dir,
            r is None ==> old(self).left@.len() == 0,
            r is Some && r->Some_0 is Ok ==> old(self).left@.len() > 0 && final(self).left@ == old(self).left@.drop_first()
                && r->Some_0->Ok_0.dir == old(self).dir && r->Some_0->Ok_0.name@ == old(self).left@[0],
    { unimplemented!() }
}
pub trait VpBytes { spec fn bv(&self) -> Seq<u8>; }
impl<const N: usize> VpBytes for [u8; N] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl<'a, const N: usize> VpBytes for &'a [u8; N] { open spec fn bv(&self) -> Seq<u8> { (**self)@ } }
impl<'a> VpBytes for &'a Vec<u8> { open spec fn bv(&self) -> Seq<u8> { (**self)@ } }
pub mod fs {
    use vstd::prelude::*;
    use crate::*;
    pub use crate::File;
    /// `fs::write`
    #[verifier::external_body]
    pub fn write<P: VpPath, B: VpBytes>(p: P, b: B) -> (r: io::Result<()>)
        requires may_write(p.pv()),
        ensures r is Ok ==> stored(p.pv(), b.bv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_dir<P: VpPath>(p: P) -> (r: io::Result<ReadDir>)
        ensures r is Ok ==> r->Ok_0.dir@ == p.pv() && r->Ok_0.left@ == names(p.pv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata<P: VpPath>(p: P) -> (r: io::Result<Metadata>)
        ensures r is Ok ==> r->Ok_0.p@ == p.pv(),
    { unimplemented!() }
}
} // verus!
